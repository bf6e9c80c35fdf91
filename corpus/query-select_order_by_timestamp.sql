SELECT Timestamp FROM events ORDER BY Timestamp;