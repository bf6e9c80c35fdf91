SELECT count(DISTINCT(RECORD_ID)) FROM RECORD_TABLE