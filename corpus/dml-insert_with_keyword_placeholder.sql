INSERT INTO t (c) VALUES ({name :String});

