SELECT limit + 1, offset + 1 FROM quotas
