SHOW CREATE TABLE mytable