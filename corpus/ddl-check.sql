CHECK TABLE test_table;
CHECK TABLE test_table PARTITION 'col';
