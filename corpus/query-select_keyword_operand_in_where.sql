SELECT x FROM quotas WHERE limit > 0
