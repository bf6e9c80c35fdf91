SELECT TOP 10 my_column FROM tableName;
