DESC TABLE mytable