ALTER TABLE my_table CLEAR INDEX my_index_name IN PARTITION partition_name;