WITH "abc" AS (SELECT 1 AS a) SELECT * FROM "abc"
