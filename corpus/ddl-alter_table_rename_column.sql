ALTER TABLE my_table RENAME COLUMN old_column_name TO new_column_name;

