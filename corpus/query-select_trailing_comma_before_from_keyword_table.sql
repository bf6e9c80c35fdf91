SELECT count(x), FROM `limit`
