ALTER TABLE test.events ON CLUSTER 'default_cluster' drop partition '2023-07-18';