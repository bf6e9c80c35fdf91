SHOW DATABASES FORMAT JSON