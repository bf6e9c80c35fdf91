ALTER TABLE db.test DETACH PARTITION '2021-10-01';