SHOW DATABASES