SELECT DISTINCT ON(album,artist) record_id FROM records