SELECT limit + offset, limit - offset, limit % 2, limit * 100 / total FROM quotas
