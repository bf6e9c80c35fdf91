SELECT * FROM t0 WHERE id = ?;