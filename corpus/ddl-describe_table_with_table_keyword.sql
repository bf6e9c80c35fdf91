DESCRIBE TABLE mytable