CREATE FUNCTION linear_equation AS (x, k, b) -> k*x + b;