ALTER TABLE my_table CLEAR PROJECTION hello IN PARTITION partition_name;