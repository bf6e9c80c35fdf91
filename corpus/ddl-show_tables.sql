SHOW TABLES