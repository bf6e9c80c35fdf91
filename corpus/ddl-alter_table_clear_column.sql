ALTER TABLE my_table CLEAR COLUMN my_column_name IN PARTITION partition_name;