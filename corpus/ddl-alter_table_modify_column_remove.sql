ALTER TABLE t1 MODIFY COLUMN f1 REMOVE COMMENT;