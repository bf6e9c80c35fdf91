SHOW DATABASES FORMAT 'TabSeparated'