SELECT a, b
FROM t
WHERE name REGEXP '^foo'
