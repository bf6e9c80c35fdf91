SELECT 1 LIMIT 1;
SELECT 1 LIMIT 1 OFFSET 0;
SELECT 1 OFFSET 0;
