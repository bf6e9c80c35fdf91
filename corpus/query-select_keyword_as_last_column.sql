SELECT a, limit FROM t
