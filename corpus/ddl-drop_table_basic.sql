DROP TABLE IF EXISTS test.table_name;
