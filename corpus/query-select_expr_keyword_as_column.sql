SELECT id, case, cast, extract, interval FROM events
