SELECT 'abc' as "value2";

SELECT $abc, a$$bc, abc$$;
