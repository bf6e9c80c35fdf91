SELECT * FROM 'test_table'
