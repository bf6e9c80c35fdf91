SELECT 1 WHERE 1 = 1;
SELECT {p :UInt8} WHERE {p :UInt8} = 1;

