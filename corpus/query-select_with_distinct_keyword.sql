SELECT DISTINCT record_id FROM records 