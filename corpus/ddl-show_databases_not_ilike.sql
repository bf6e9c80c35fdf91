SHOW DATABASES NOT ILIKE 'Temp%'