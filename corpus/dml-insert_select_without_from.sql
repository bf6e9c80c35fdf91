INSERT INTO t (c) SELECT 1 WHERE 1 = 1;

