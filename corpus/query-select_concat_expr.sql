SELECT 'a' || 'b';
SELECT 'a' || 'b' || 'c';
SELECT 'a' || 'b' || 'c' + 5;
