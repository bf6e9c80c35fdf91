SELECT interval
