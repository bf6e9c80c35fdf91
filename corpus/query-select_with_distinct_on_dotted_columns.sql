SELECT DISTINCT ON (t.id, t.name) t.id, t.name, t.value FROM test_table t