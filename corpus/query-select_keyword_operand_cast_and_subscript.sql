SELECT limit::UInt8, [limit][1], arr[limit], (limit, offset) FROM quotas
