DELETE FROM hits WHERE Title LIKE '%hello%';
