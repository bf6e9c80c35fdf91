ALTER TABLE t1 MODIFY COLUMN f1 String COMMENT 'test';