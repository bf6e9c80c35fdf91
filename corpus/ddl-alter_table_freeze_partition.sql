ALTER TABLE test.events ON CLUSTER 'default_cluster' freeze partition '2023-07-18';;