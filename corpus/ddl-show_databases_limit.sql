SHOW DATABASES LIMIT 10