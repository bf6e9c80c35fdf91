SYSTEM FLUSH LOGS;
SYSTEM DROP UNCOMPRESSED CACHE;
SYSTEM DROP FILESYSTEM CACHE;
SYSTEM RELOAD DICTIONARIES;
SYSTEM RELOAD DICTIONARIES ON CLUSTER akvorado;
SYSTEM RELOAD DICTIONARY akvorado.asns;
SYSTEM RELOAD DICTIONARY ON CLUSTER akvorado akvorado.asns;
SYSTEM RELOAD DICTIONARY akvorado.asns ON CLUSTER akvorado;
SYSTEM RELOAD EMBEDDED DICTIONARIES ON CLUSTER akvorado;
