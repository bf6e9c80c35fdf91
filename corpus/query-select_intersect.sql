SELECT 1 INTERSECT SELECT 2;
SELECT number FROM numbers(10) INTERSECT SELECT number FROM numbers(5, 10);
SELECT a FROM t1 EXCEPT SELECT a FROM t2 INTERSECT SELECT a FROM t3;
