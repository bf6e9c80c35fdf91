SELECT 1+1