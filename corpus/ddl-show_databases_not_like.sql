SHOW DATABASES NOT LIKE 'temp%'