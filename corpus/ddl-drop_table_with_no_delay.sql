DROP TABLE IF EXISTS test.table_name ON CLUSTER 'default_cluster' NO DELAY;
