INSERT INTO `_test_1345# $.ДБ`.`2. Таблица №2`;
INSERT INTO "db"."table_name" (col1, col2) VALUES (1, 2);
INSERT INTO `_test_1345# $.ДБ`.`2. Таблица №2` (col1, col2);
INSERT INTO table_name (col1, col2) VALUES (1, 2) FORMAT Native;