CREATE MATERIALIZED VIEW IF NOT EXISTS test_mv
ENGINE = ReplacingMergeTree()
PRIMARY KEY (id)
ORDER BY (id)
AS
SELECT * FROM test_table;

CREATE MATERIALIZED VIEW IF NOT EXISTS test_mv
ENGINE = ReplacingMergeTree()
PRIMARY KEY (id)
AS
SELECT * FROM test_table;