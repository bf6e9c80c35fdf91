SHOW DATABASES LIKE 'test%'