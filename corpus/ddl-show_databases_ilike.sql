SHOW DATABASES ILIKE 'Test%'