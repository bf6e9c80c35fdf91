SELECT 1 AS interval, 2 AS from, 3 AS limit
