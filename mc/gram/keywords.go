package gram

// Keywords is the language's keyword list (the specification the checks use).
var Keywords = []string{
	"ADD",
	"ADMIN",
	"AFTER",
	"ALIAS",
	"ALL",
	"ALTER",
	"AND",
	"ANTI",
	"ANY",
	"APPEND",
	"APPLY",
	"ARRAY",
	"AS",
	"ASC",
	"ASCENDING",
	"ASOF",
	"AST",
	"ASYNC",
	"ATTACH",
	"BETWEEN",
	"BOTH",
	"BY",
	"CACHE",
	"CASE",
	"CAST",
	"CHECK",
	"CLEAR",
	"CLUSTER",
	"CODEC",
	"COLLATE",
	"COLLECTION",
	"COLUMN",
	"COLUMNS",
	"COMMENT",
	"COMPILED",
	"CONFIG",
	"CONSTRAINT",
	"CREATE",
	"CROSS",
	"CUBE",
	"CURRENT",
	"DATABASE",
	"DATABASES",
	"DATE",
	"DAY",
	"DEDUPLICATE",
	"DEFAULT",
	"DEFINER",
	"DELAY",
	"DELETE",
	"DEPENDS",
	"DESC",
	"DESCENDING",
	"DESCRIBE",
	"DETACH",
	"DETACHED",
	"DICTIONARIES",
	"DICTIONARY",
	"DISK",
	"DISTINCT",
	"DISTRIBUTED",
	"DNS",
	"DROP",
	"ELSE",
	"EMBEDDED",
	"EMPTY",
	"END",
	"ENGINE",
	"ESTIMATE",
	"EVENTS",
	"EVERY",
	"EXCEPT",
	"EXISTS",
	"EXPLAIN",
	"EXPRESSION",
	"EXTRACT",
	"FALSE",
	"FETCHES",
	"FILESYSTEM",
	"FILL",
	"FINAL",
	"FIRST",
	"FLUSH",
	"FOLLOWING",
	"FOR",
	"FORMAT",
	"FREEZE",
	"FROM",
	"FULL",
	"FUNCTION",
	"FUNCTIONS",
	"GLOBAL",
	"GRANT",
	"GRANTEES",
	"GRANULARITY",
	"GROUP",
	"GROUPING",
	"HAVING",
	"HIERARCHICAL",
	"HOST",
	"HOUR",
	"ID",
	"IDENTIFIED",
	"IF",
	"ILIKE",
	"IN",
	"INDEX",
	"INF",
	"INJECTIVE",
	"INNER",
	"INSERT",
	"INTERPOLATE",
	"INTERSECT",
	"INTERVAL",
	"INTO",
	"IP",
	"IS",
	"IS_OBJECT_ID",
	"JOIN",
	"JSON",
	"KERBEROS",
	"KEY",
	"KILL",
	"LAST",
	"LAYOUT",
	"LDAP",
	"LEADING",
	"LEFT",
	"LIFETIME",
	"LIKE",
	"LIMIT",
	"LIVE",
	"LOCAL",
	"LOGS",
	"MARK",
	"MATERIALIZE",
	"MATERIALIZED",
	"MAX",
	"MERGES",
	"MIN",
	"MINUTE",
	"MODIFY",
	"MONTH",
	"MOVE",
	"MOVES",
	"MUTATION",
	"NAME",
	"NAMED",
	"NAN_SQL",
	"NO",
	"NONE",
	"NOT",
	"NULL",
	"NULLS",
	"OFFSET",
	"ON",
	"OPTIMIZE",
	"OPTION",
	"OR",
	"ORDER",
	"OUTER",
	"OUTFILE",
	"OVER",
	"OVERLAY",
	"OVERLAYUTF8",
	"OVERRIDABLE",
	"PARTITION",
	"PIPELINE",
	"PLACING",
	"POLICY",
	"POPULATE",
	"PRECEDING",
	"PREWHERE",
	"PRIMARY",
	"PROJECTION",
	"QUARTER",
	"QUERY",
	"QUEUES",
	"QUOTA",
	"RANDOMIZE",
	"RANGE",
	"REALM",
	"RECOMPRESS",
	"REFRESH",
	"REGEXP",
	"RELOAD",
	"REMOVE",
	"RENAME",
	"REPLACE",
	"REPLICA",
	"REPLICATED",
	"REPLICATION",
	"RESET",
	"RESTART",
	"RIGHT",
	"ROLE",
	"ROLLUP",
	"ROW",
	"ROWS",
	"SAMPLE",
	"SECOND",
	"SECURITY",
	"SELECT",
	"SEMI",
	"SENDS",
	"SERVER",
	"SET",
	"SETS",
	"SETTING",
	"SETTINGS",
	"SHOW",
	"SHUTDOWN",
	"SKIP",
	"SOURCE",
	"SQL",
	"STALENESS",
	"START",
	"STEP",
	"STOP",
	"SUBSTRING",
	"SYNC",
	"SYNTAX",
	"SYSTEM",
	"TABLE",
	"TABLES",
	"TEMPORARY",
	"TEST",
	"THEN",
	"TIES",
	"TIMEOUT",
	"TIMESTAMP",
	"TO",
	"TOP",
	"TOTALS",
	"TRAILING",
	"TRIM",
	"TRUE",
	"TRUNCATE",
	"TTL",
	"TYPE",
	"UNBOUNDED",
	"UNCOMPRESSED",
	"UNION",
	"UNTIL",
	"UPDATE",
	"USE",
	"USER",
	"USING",
	"UUID",
	"VALID",
	"VALUES",
	"VIEW",
	"VOLUME",
	"WATCH",
	"WEEK",
	"WHEN",
	"WHERE",
	"WINDOW",
	"WITH",
	"YEAR",
}

// Reserved keywords cannot stand where a bare name is expected.
var Reserved = map[string]bool{
	"ALTER":    true,
	"AND":      true,
	"AS":       true,
	"BETWEEN":  true,
	"BY":       true,
	"CASE":     true,
	"CREATE":   true,
	"CROSS":    true,
	"DESCRIBE": true,
	"DISTINCT": true,
	"DROP":     true,
	"ELSE":     true,
	"EXCEPT":   true,
	"EXPLAIN":  true,
	"FORMAT":   true,
	"FROM":     true,
	"GRANT":    true,
	"GROUP":    true,
	"HAVING":   true,
	"ILIKE":    true,
	"IN":       true,
	"INNER":    true,
	"INSERT":   true,
	"INTERVAL": true,
	"INTO":     true,
	"IS":       true,
	"KILL":     true,
	"LIKE":     true,
	"LIMIT":    true,
	"NOT":      true,
	"OFFSET":   true,
	"ON":       true,
	"OPTIMIZE": true,
	"OR":       true,
	"ORDER":    true,
	"PREWHERE": true,
	"RENAME":   true,
	"SELECT":   true,
	"SETTINGS": true,
	"SHOW":     true,
	"THEN":     true,
	"TRUNCATE": true,
	"UNION":    true,
	"USE":      true,
	"USING":    true,
	"WHEN":     true,
	"WHERE":    true,
	"WINDOW":   true,
	"WITH":     true,
}

var kwSet = map[string]bool{}

func init() {
	for _, k := range Keywords {
		kwSet[k] = true
	}
}

// IsKeyword reports whether the upper-cased word is a keyword.
func IsKeyword(w string) bool { return kwSet[w] }
