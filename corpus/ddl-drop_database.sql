DROP DATABASE IF EXISTS datbase_name;
DROP DATABASE IF EXISTS test_db SYNC;
DROP DATABASE IF EXISTS test_db ON CLUSTER akvorado SYNC;
DROP DATABASE test_db ON CLUSTER akvorado NO DELAY;
