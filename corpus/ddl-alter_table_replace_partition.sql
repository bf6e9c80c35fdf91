ALTER TABLE t2 REPLACE PARTITION 'partition' FROM t1;