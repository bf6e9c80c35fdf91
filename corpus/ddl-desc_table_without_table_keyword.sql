DESC mytable