SELECT * FROM "t1" JOIN "t2" ON true
