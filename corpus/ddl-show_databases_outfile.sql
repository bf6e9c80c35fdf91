SHOW DATABASES INTO OUTFILE '/tmp/databases.txt'