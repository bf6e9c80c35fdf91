DESCRIBE mytable