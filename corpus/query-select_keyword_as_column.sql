SELECT cloud, account, region, name, usage, limit, usage_percentage FROM service_quotas
