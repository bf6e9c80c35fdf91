SELECT 'Joe' name FROM users