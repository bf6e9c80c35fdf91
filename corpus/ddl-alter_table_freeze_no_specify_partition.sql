ALTER TABLE test.events ON CLUSTER 'default_cluster' freeze;