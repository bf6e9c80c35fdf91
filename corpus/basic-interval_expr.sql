SELECT INTERVAL 4 DAY;
SELECT INTERVAL a + b DAY;
SELECT INTERVAL toUInt8(1) DAY;
SELECT INTERVAL asc DAY;
