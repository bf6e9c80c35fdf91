package gram

// ---- shared DDL parts ----

func (g *G) IfNotExists() { g.OptK("IF NOT EXISTS") }
func (g *G) IfExists()    { g.OptK("IF EXISTS") }

func (g *G) Cluster() {
	g.K("ON CLUSTER")
	g.One(g.IdNoKw, g.Str)
}

// TableId is a table identifier: names may also be quoted with single quotes.
func (g *G) TableId() {
	switch g.Alt(5) {
	case 0:
		g.IdN("t")
	case 1:
		g.IdN("db")
		g.P(".")
		g.IdN("t")
	case 2:
		g.IdN("db")
		g.P(".")
		g.Name("from")
	case 3:
		g.identStr()
	case 4:
		g.IdN("db")
		g.P(".")
		g.identStr()
	}
}

// identStr is an identifier spelled as a string literal.
func (g *G) identStr() {
	g.nid++
	v := "q t" + itoa(g.nid)
	g.put(Tok{Kind: StrK, Text: "'" + v + "'", Val: v, Quote: '\'', Leaf: true})
}

func (g *G) Nested() {
	g.IdNoKw()
	g.Opt(func() { g.P("."); g.Id() })
}

func (g *G) CommentC() { g.K("COMMENT"); g.Str() }

func (g *G) Codec() {
	g.K("CODEC")
	g.Parens(func() {
		lvl := func() { g.Opt(func() { g.Parens(g.Int) }) }
		g.One(
			func() { g.Name("ZSTD"); lvl() },
			func() { g.Name("LZ4") },
			func() { g.Name("LZ4HC"); lvl() },
			func() { g.Name("Delta"); lvl(); g.P(","); g.Name("ZSTD"); lvl() },
			func() { g.Name("DoubleDelta"); g.P(","); g.Name("LZ4") },
			func() { g.Name("T64"); lvl() },
			func() { g.Name("gorilla"); lvl(); g.P(","); g.Name("LZ4HC"); lvl() },
			func() { g.Name("NONE") },
		)
	})
}

// TTLItem is a TTL expression with an optional policy.
func (g *G) TTLItem() {
	g.ttlExpr()
	g.Opt(func() {
		g.One(
			func() { g.K("TO DISK"); g.Str() },
			func() { g.K("TO VOLUME"); g.Str() },
			func() { g.K("DELETE") },
			func() { g.K("RECOMPRESS"); g.Codec() },
		)
		g.Opt(func() { g.K("WHERE"); g.Operand() })
		if !g.more { // GROUP BY takes a comma
			g.Opt(func() { g.K("GROUP BY"); g.IdNoKw() })
		}
	})
}

func (g *G) ttlExpr() {
	g.One(
		g.IdNoKw,
		func() { g.IdNoKw(); g.P("+"); g.K("INTERVAL"); g.Int(); g.Name("DAY") },
		func() { g.IdN("toDate"); g.Parens(g.IdNoKw); g.P("+"); g.Name("toIntervalDay"); g.Parens(g.Int) },
	)
}

// ColumnDef is a column definition; TTL allows a single value.
func (g *G) ColumnDef() {
	g.Nested()
	g.ColumnRest()
}

func (g *G) ColumnRest() {
	// Without a type, a non-reserved word after the name would be read as one;
	// ALTER's AFTER likewise.
	if g.Alt(2) == 1 {
		g.untyped = true
		g.Opt(func() { g.K("NOT NULL"); g.Opt(func() { g.K("DEFAULT"); g.Expr() }) })
		return
	}
	g.untyped = false
	g.Type()
	switch g.Alt(3) {
	case 1:
		g.K("NULL")
	case 2:
		g.K("NOT NULL")
	}
	switch g.Alt(4) {
	case 1:
		g.K("DEFAULT")
		g.Expr()
	case 2:
		g.K("MATERIALIZED")
		g.Expr()
	case 3:
		g.K("ALIAS")
		g.Expr()
	}
	g.Opt(g.CommentC)
	g.Opt(g.Codec)
	g.Opt(func() { g.K("TTL"); g.TTLItem() })
}

func (g *G) TableIndex() {
	g.Nested()
	g.One(
		g.IdNoKw,
		func() { g.Parens(g.Expr) },
		func() { g.Parens(func() { g.IdNoKw(); g.P(","); g.IdNoKw() }) },
		func() { g.Name("lower"); g.Parens(g.Expr) },
		func() { g.IdNoKw(); g.K("AS"); g.Id() },
	)
	g.K("TYPE")
	g.One(
		func() { g.Name("minmax") },
		func() { g.Name("set"); g.Parens(g.Int) },
		func() { g.Name("bloom_filter"); g.Parens(func() { g.NumT("0.01") }) },
		func() { g.Name("tokenbf_v1"); g.Parens(func() { g.Int(); g.P(","); g.Int(); g.P(","); g.Int() }) },
	)
	g.K("GRANULARITY")
	g.Int()
}

func (g *G) ProjectionSelect() {
	g.Parens(func() {
		g.Opt(g.With)
		g.K("SELECT")
		g.Comma(1, func() { g.Expr(); g.Opt(func() { g.K("AS"); g.Id() }) })
		g.Opt(func() { g.K("GROUP BY"); g.Comma(1, g.Expr) })
		g.Opt(func() { g.K("ORDER BY"); g.Comma(1, g.Expr) })
	})
}

func (g *G) TableElement() {
	g.One(
		g.ColumnDef,
		func() { g.K("INDEX"); g.TableIndex() },
		func() { g.K("CONSTRAINT"); g.IdNoKw(); g.K("CHECK"); g.Expr() },
		func() { g.K("PROJECTION"); g.IdNoKw(); g.ProjectionSelect() },
	)
}

func (g *G) Columns() { g.Parens(func() { g.Comma(1, g.TableElement) }) }

// AsQuery is the query of CREATE ... AS.  After ENGINE clauses only a plain
// SELECT is recognised there.
func (g *G) AsQuery(afterEngine bool) {
	defer g.sparse()()
	g.K("AS")
	if afterEngine {
		g.noWith = true
		g.Select()
		return
	}
	g.One(g.Select, g.SubQueryW)
}

// engineAs is an engine with AS SELECT behind: GROUP BY at the end of a TTL
// would take it for an alias.
func (g *G) engineAs() { g.more = true; g.Engine(); g.more = false }

func (g *G) Engine() {
	g.K("ENGINE")
	if g.Alt(2) == 1 { // '=' is optional
		g.CP("=")
	} else {
		g.P("=")
	}
	g.noLex++
	g.nid++
	g.NameStr("Eng" + itoa(g.nid))
	g.noLex--
	g.Opt(func() { g.Parens(func() { g.Comma(0, g.Expr) }) })
	orderBy := func() {
		g.K("ORDER BY")
		g.One(g.IdNoKw, func() { g.Parens(func() { g.Comma(0, g.Expr) }) }, func() { g.Name("f"); g.Parens(g.Expr) }, func() { g.IdNoKw(); g.OneK("ASC", "DESC") })
	}
	partition := func() {
		g.K("PARTITION BY")
		g.One(g.IdNoKw, func() { g.Parens(func() { g.Comma(1, g.Expr) }) }, func() { g.Name("f"); g.Parens(g.Expr) })
	}
	primary := func() {
		g.K("PRIMARY KEY")
		g.One(g.IdNoKw, func() { g.Parens(func() { g.Comma(1, g.Expr) }) })
	}
	sample := func() { g.K("SAMPLE BY"); g.One(g.IdNoKw, func() { g.Name("f"); g.Parens(g.Expr) }) }
	ttl := func() { g.K("TTL"); g.Comma(1, g.TTLItem) }
	// canonical order
	if g.Alt(2) == 0 {
		g.Opt(orderBy)
		g.Opt(partition)
		g.Opt(primary)
		g.Opt(sample)
		g.Opt(ttl)
		g.Opt(g.Settings)
		return
	}
	// any order in the source; canonical order is fixed
	segs := []func(){orderBy, partition, primary, sample, ttl, g.Settings}
	a := g.Alt(len(segs))
	b := g.Alt(len(segs) - 1)
	if b >= a {
		b++
	}
	g.reorder(segs[a], segs[b], a < b)
}

// reorder emits a then b in the source; in the canonical text a comes first
// only when aFirst.
func (g *G) reorder(a, b func(), aFirst bool) {
	i := len(g.Canon)
	a()
	j := len(g.Canon)
	b()
	if !aFirst {
		ta := append([]Tok{}, g.Canon[i:j]...)
		tb := append([]Tok{}, g.Canon[j:]...)
		g.Canon = append(append(g.Canon[:i], tb...), ta...)
	}
}

// ---- CREATE ----

func (g *G) CreateDatabase() {
	g.K("CREATE DATABASE")
	g.IfNotExists()
	g.IdNoKw()
	g.Opt(g.Cluster)
	g.Opt(g.Engine)
	g.Opt(g.CommentC)
}

func (g *G) CreateTable() {
	g.K("CREATE")
	g.OptK("OR REPLACE")
	g.OptK("TEMPORARY")
	g.K("TABLE")
	g.IfNotExists()
	g.TableId()
	g.Opt(func() { g.K("UUID"); g.Str() })
	g.Opt(g.Cluster)
	switch g.Alt(7) {
	case 0:
		g.Columns()
		g.Engine()
	case 1:
		g.Columns()
		g.AsQuery(g.Opt(g.engineAs))
	case 2:
		g.K("AS")
		g.IdNoKw()
		g.Opt(func() { g.P("."); g.Id() })
		g.Opt(g.Engine)
	case 3:
		g.K("AS")
		g.TableFunc()
		g.Opt(g.Engine)
	case 4:
		g.Columns()
		g.K("AS")
		g.TableFunc()
	case 5:
		g.engineAs()
		g.AsQuery(true)
	case 6:
		g.Columns()
	}
	g.Opt(g.CommentC)
}

func (g *G) CreateView() {
	g.K("CREATE")
	g.OptK("OR REPLACE")
	g.K("VIEW")
	g.IfNotExists()
	g.TableId()
	g.Opt(func() { g.K("UUID"); g.Str() })
	g.Opt(g.Cluster)
	g.Opt(g.Columns)
	g.Opt(g.CommentC)
	g.AsQuery(false)
}

func (g *G) CreateLiveView() {
	g.K("CREATE LIVE VIEW")
	g.IfNotExists()
	g.TableId()
	g.Opt(func() { g.K("UUID"); g.Str() })
	g.Opt(g.Cluster)
	g.Opt(func() { g.K("WITH TIMEOUT"); g.Opt(g.Int) })
	g.Opt(func() { g.K("TO"); g.TableId() })
	g.Opt(g.Columns)
	g.AsQuery(false)
}

func (g *G) intervalBare() { g.Int(); g.Name([]string{"DAY", "hour", "MINUTE"}[g.Alt(3)]) }

func (g *G) CreateMaterializedView() {
	g.K("CREATE MATERIALIZED VIEW")
	g.IfNotExists()
	g.TableId()
	g.Opt(g.Cluster)
	g.Opt(func() {
		g.K("REFRESH")
		g.OneK("EVERY", "AFTER")
		g.intervalBare()
		g.Opt(func() { g.K("OFFSET"); g.intervalBare() })
	})
	g.Opt(func() { g.K("RANDOMIZE FOR"); g.intervalBare() })
	g.Opt(func() { g.K("DEPENDS ON"); g.Comma(1, g.TableId) })
	g.Opt(g.Settings)
	g.OptK("APPEND")
	engine := false
	switch g.Alt(4) {
	case 0:
		g.K("TO")
		g.TableId()
	case 1:
		g.K("TO")
		g.TableId()
		g.Columns()
	case 2:
		g.engineAs()
		engine = true
	case 3:
		g.Columns()
		g.engineAs()
		engine = true
	}
	g.OptK("EMPTY")
	g.Opt(func() { g.K("DEFINER"); g.P("="); g.IdNoKw() })
	g.Opt(func() { g.K("SQL SECURITY"); g.OneK("DEFINER", "NONE") })
	if engine {
		g.OptK("POPULATE")
	}
	switch g.Alt(3) {
	case 0:
		g.AsQuery(engine)
	case 1:
		g.AsQuery(engine)
		g.CommentC()
	case 2:
		// COMMENT before the query is printed after it
		i := len(g.Canon)
		g.CommentC()
		j := len(g.Canon)
		cm := append([]Tok{}, g.Canon[i:j]...)
		g.Canon = g.Canon[:i]
		g.AsQuery(engine)
		g.Canon = append(g.Canon, cm...)
	}
}

func (g *G) CreateFunction() {
	g.K("CREATE")
	g.OptK("OR REPLACE")
	g.K("FUNCTION")
	g.IfNotExists()
	g.IdNoKw()
	g.Opt(g.Cluster)
	g.K("AS")
	g.Parens(func() { g.Comma(0, g.IdNoKw) })
	g.P("->")
	g.Expr()
}

func (g *G) CreateNamedCollection() {
	g.K("CREATE NAMED COLLECTION")
	g.IfNotExists()
	g.IdNoKw()
	g.Opt(g.Cluster)
	g.K("AS")
	g.Comma(1, func() {
		g.IdNoKw()
		g.P("=")
		g.One(g.Str, g.Int, g.IdNoKw, func() { g.NumT("1.5") })
		switch g.Alt(3) {
		case 1:
			g.K("OVERRIDABLE")
		case 2:
			g.K("NOT OVERRIDABLE")
		}
	})
}

func (g *G) dictArg() {
	g.One(
		func() { g.Name("HOST"); g.Str() },
		func() { g.Name("PORT"); g.Int() },
		func() { g.Name("USER"); g.IdNoKw() },
		func() { g.Name("FORMAT"); g.Str() },
		func() { g.Name("now"); g.IdNoKw(); g.P("( )") },
		func() {
			g.Name("HEADERS")
			g.Parens(func() { g.Name("HEADER"); g.Parens(func() { g.Name("NAME"); g.Str() }) })
		},
		func() { g.Name("CREDENTIALS"); g.Parens(func() {}) },
	)
}

func (g *G) CreateDictionary() {
	g.K("CREATE")
	g.OptK("OR REPLACE")
	g.K("DICTIONARY")
	g.IfNotExists()
	g.TableId()
	g.Opt(func() { g.K("UUID"); g.Str() })
	g.Opt(g.Cluster)
	g.Parens(func() {
		g.Comma(1, func() {
			g.IdNoKw()
			g.Type()
			g.Opt(func() { g.K("DEFAULT"); g.One(g.Int, g.Str, g.IdNoKw) })
			g.Opt(func() { g.K("EXPRESSION"); g.Expr() })
			g.OptK("HIERARCHICAL")
			g.OptK("INJECTIVE")
			g.OptK("IS_OBJECT_ID")
		})
	})
	g.Opt(func() { g.K("PRIMARY KEY"); g.Comma(1, g.Operand) })
	source := func() {
		g.K("SOURCE")
		g.Parens(func() {
			g.IdNoKw()
			g.Parens(func() {
				n := g.Count(0, 4)
				for i := 0; i < n; i++ {
					g.dictArg()
				}
			})
		})
	}
	lifetime := func() {
		g.K("LIFETIME")
		g.Parens(func() {
			switch g.Alt(3) {
			case 0:
				g.Int()
			case 1:
				g.K("MIN")
				g.Int()
				g.K("MAX")
				g.Int()
			case 2:
				g.reorder(func() { g.K("MAX"); g.Int() }, func() { g.K("MIN"); g.Int() }, false)
			}
		})
	}
	layout := func() {
		g.K("LAYOUT")
		g.Parens(func() {
			g.IdNoKw()
			g.Parens(func() {
				n := g.Count(0, 3)
				for i := 0; i < n; i++ {
					g.dictArg()
				}
			})
		})
	}
	rng := func() {
		g.K("RANGE")
		g.Parens(func() {
			switch g.Alt(2) {
			case 0:
				g.K("MIN")
				g.IdNoKw()
				g.K("MAX")
				g.IdNoKw()
			case 1:
				g.reorder(func() { g.K("MAX"); g.IdNoKw() }, func() { g.K("MIN"); g.IdNoKw() }, false)
			}
		})
	}
	settings := func() { g.K("SETTINGS"); g.Parens(func() { g.Comma(1, g.Setting) }) }
	if g.Alt(2) == 0 {
		source()
		g.Opt(lifetime)
		g.Opt(layout)
		g.Opt(rng)
		g.Opt(settings)
	} else {
		other := []func(){lifetime, layout, rng, settings}
		g.reorder(other[g.Alt(4)], source, false)
	}
	g.Opt(g.CommentC)
}

func (g *G) RoleName() {
	g.One(
		g.IdNoKw,
		func() { g.IdNoKw(); g.P("@"); g.Str() },
		g.Str,
	)
	g.Opt(g.Cluster)
}

func (g *G) RoleSettings() {
	g.K("SETTINGS")
	g.Comma(1, func() {
		g.One(
			func() { g.IdNoKw(); g.P("="); g.One(g.Int, g.Str, g.IdNoKw) },
			g.IdNoKw,
			func() {
				g.IdNoKw()
				g.P("=")
				g.Int()
				g.Name("MIN")
				g.P("=")
				g.Int()
				g.Name("MAX")
				g.Int()
			},
			func() { g.IdNoKw(); g.P("="); g.Int(); g.Name("READABLE") },
			func() { g.Name("PROFILE"); g.Str() },
			func() { g.Name("NONE") },
			func() { g.IdNoKw(); g.Name("CONST") },
		)
	})
}

func (g *G) CreateRole() {
	g.K("CREATE ROLE")
	switch g.Alt(3) {
	case 1:
		g.K("IF NOT EXISTS")
	case 2:
		g.K("OR REPLACE")
	}
	g.Comma(1, g.RoleName)
	g.Opt(func() { g.K("IN"); g.IdNoKw() })
	g.Opt(g.RoleSettings)
}

func (g *G) CreateUser() {
	g.K("CREATE USER")
	switch g.Alt(3) {
	case 1:
		g.K("IF NOT EXISTS")
	case 2:
		g.K("OR REPLACE")
	}
	g.Comma(1, g.RoleName)
	g.Opt(func() {
		g.One(
			func() { g.K("NOT IDENTIFIED") },
			func() { g.K("IDENTIFIED") },
			func() { g.K("IDENTIFIED WITH ldap SERVER"); g.Str() },
			func() { g.K("IDENTIFIED WITH kerberos"); g.Opt(func() { g.K("REALM"); g.Str() }) },
			func() {
				g.K("IDENTIFIED WITH")
				g.NameStr("sha256_password")
				g.Opt(func() { g.K("BY"); g.Str() })
			},
		)
	})
	g.Opt(func() { g.K("VALID UNTIL"); g.Str() })
	g.Opt(func() {
		n := g.Count(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.P(",")
			}
			g.K("HOST")
			g.One(
				func() { g.K("LOCAL") },
				func() { g.K("ANY") },
				func() { g.K("NONE") },
				func() { g.K("NAME"); g.Str() },
				func() { g.K("REGEXP"); g.Str() },
				func() { g.K("IP"); g.Str() },
				func() { g.K("LIKE"); g.Str() },
			)
		}
	})
	g.Opt(func() { g.K("DEFAULT ROLE"); g.One(func() { g.Comma(1, g.RoleName) }, func() { g.K("NONE") }) })
	g.Opt(func() { g.K("DEFAULT DATABASE"); g.One(g.IdNoKw, func() { g.K("NONE") }) })
	g.Opt(func() {
		g.K("GRANTEES")
		g.One(func() { g.Comma(1, g.RoleName) }, func() { g.K("ANY") }, func() { g.K("NONE") })
		g.Opt(func() { g.K("EXCEPT"); g.Comma(1, g.RoleName) })
	})
	g.Opt(g.RoleSettings)
}

// ---- ALTER ----

func (g *G) Partition(idAll bool) {
	g.K("PARTITION")
	alts := []func(){g.IdNoKw, g.Str, g.Int, func() { g.Name("tuple"); g.Parens(func() { g.Comma(0, g.Expr) }) }, func() { g.Parens(func() { g.Expr(); g.P(","); g.Expr() }) }}
	if idAll {
		alts = append(alts, func() { g.K("ALL") })
	}
	g.One(alts...)
}

func (g *G) AlterTable() {
	g.K("ALTER TABLE")
	g.TableId()
	g.Opt(g.Cluster)
	n := g.Count(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.P(",")
		}
		g.more = i < n-1
		g.AlterClause(i == n-1)
	}
}

func (g *G) After() { g.K("AFTER"); g.Nested() }

// AlterClause: clauses ending in a list of their own only come last, since the
// list takes the comma.
func (g *G) AlterClause(last bool) {
	alts := []func(){
		func() {
			g.K("ADD COLUMN")
			g.IfNotExists()
			g.ColumnDef()
			if !g.untyped {
				g.Opt(g.After)
			}
		},
		func() { g.K("ADD INDEX"); g.IfNotExists(); g.TableIndex(); g.Opt(g.After) },
		func() { g.K("ADD PROJECTION"); g.IfNotExists(); g.Nested(); g.ProjectionSelect(); g.Opt(g.After) },
		func() { g.K("DROP"); g.OneK("COLUMN", "INDEX", "PROJECTION"); g.IfExists(); g.Nested() },
		func() { g.K("DROP"); g.OptK("DETACHED"); g.Partition(false) },
		func() { g.K("ATTACH"); g.Partition(true); g.Opt(func() { g.K("FROM"); g.TableId() }) },
		func() { g.K("DETACH"); g.Partition(false) },
		func() { g.K("FREEZE"); g.Opt(func() { g.Partition(true) }) },
		func() { g.K("REMOVE TTL") },
		func() { g.K("RENAME COLUMN"); g.IfExists(); g.Nested(); g.K("TO"); g.Nested() },
		func() {
			g.K("CLEAR")
			g.OneK("COLUMN", "INDEX", "PROJECTION")
			g.IfExists()
			g.Nested()
			g.Opt(func() { g.K("IN"); g.Partition(true) })
		},
		func() { g.K("MODIFY COLUMN"); g.IfExists(); g.ColumnDef() },
		func() {
			g.K("MODIFY COLUMN")
			g.IfExists()
			g.Nested()
			g.K("REMOVE")
			g.Name([]string{"DEFAULT", "MATERIALIZED", "ALIAS", "COMMENT", "CODEC", "TTL"}[g.Alt(6)])
		},
		func() { g.K("MODIFY ORDER BY"); g.One(g.IdNoKw, func() { g.Parens(func() { g.Comma(1, g.Expr) }) }) },
		func() { g.K("REPLACE"); g.Partition(true); g.K("FROM"); g.TableId() },
		func() {
			g.K("MATERIALIZE")
			g.OneK("INDEX", "PROJECTION")
			g.IfExists()
			g.Nested()
			g.Opt(func() { g.K("IN"); g.Partition(true) })
		},
		func() { g.K("DELETE WHERE"); g.Expr() },
		func() {
			g.K("UPDATE")
			if g.Alt(2) == 1 {
				g.Nested()
				g.P("=")
				g.One(g.IdNoKw, g.Int, g.Str)
				g.K("IN")
				g.Partition(true)
			} else {
				g.Comma(1, func() { g.Nested(); g.P("="); g.Operand() })
			}
			g.K("WHERE")
			g.Expr()
		},
	}
	if last {
		alts = append(alts,
			func() { g.K("MODIFY TTL"); g.Comma(1, g.TTLItem) },
			func() { g.K("MODIFY QUERY"); defer g.sparse()(); g.Select() },
			func() { g.K("MODIFY SETTING"); g.Comma(1, g.Setting) },
			func() { g.K("RESET SETTING"); g.Comma(1, g.IdNoKw) },
			func() { g.K("ADD COLUMN"); g.ColumnDef(); g.Settings() },
			func() { g.K("DROP"); g.Partition(false); g.Settings() },
			func() { g.K("DETACH"); g.Partition(false); g.Settings() },
		)
	}
	g.One(alts...)
}

func (g *G) AlterRole() {
	g.K("ALTER ROLE")
	g.IfExists()
	g.Comma(1, func() { g.RoleName(); g.Opt(func() { g.K("RENAME TO"); g.IdNoKw() }) })
	g.Opt(g.RoleSettings)
}

// ---- DROP / TRUNCATE / RENAME ----

func (g *G) modifier() {
	switch g.Alt(3) {
	case 1:
		g.K("SYNC")
	case 2:
		g.K("NO DELAY")
	}
}

func (g *G) DropDatabase() {
	g.K("DROP DATABASE")
	g.IfExists()
	g.IdNoKw()
	g.Opt(g.Cluster)
	g.modifier()
}

func (g *G) DropTable() {
	g.K("DROP")
	g.OneK("TABLE", "TEMPORARY TABLE", "VIEW", "DICTIONARY")
	g.IfExists()
	g.TableId()
	g.Opt(g.Cluster)
	g.modifier()
}

func (g *G) DropUserOrRole() {
	g.K("DROP")
	g.OneK("USER", "ROLE")
	g.IfExists()
	g.Comma(1, g.RoleName)
	g.Opt(func() { g.K("FROM"); g.IdNoKw() })
	g.modifier()
}

func (g *G) Truncate() {
	g.K("TRUNCATE")
	g.OptK("TEMPORARY")
	g.K("TABLE")
	g.IfExists()
	g.TableId()
	g.Opt(g.Cluster)
}

func (g *G) Rename() {
	g.K("RENAME")
	g.OneK("TABLE", "DICTIONARY", "DATABASE")
	g.Comma(1, func() { g.TableId(); g.K("TO"); g.TableId() })
	g.Opt(g.Cluster)
}

// ---- DML and the rest ----

// valueExpr: an expression not starting with ( or {, which VALUES reads as a
// tuple or a placeholder.
func (g *G) valueExpr() {
	g.One(
		func() { g.Name("f"); g.Parens(func() { g.ExprList(0) }) },
		func() { g.P("["); g.ExprList(0); g.P("]") },
		func() { g.Int(); g.P("+"); g.Expr() },
		func() { g.IdNoKw(); g.P("."); g.IdNoKw() },
		func() { g.K("CAST"); g.Parens(func() { g.Expr(); g.K("AS"); g.Type() }) },
		func() { g.K("CASE WHEN"); g.ExprTight(); g.K("THEN"); g.ExprTight(); g.K("END") },
	)
}

func (g *G) insertValue() {
	g.Parens(func() {
		g.Comma(1, func() {
			g.One(
				g.Int, g.Str, g.IdNoKw, g.valueExpr,
				func() { g.Parens(func() { g.Int(); g.P(","); g.Int() }) },
				func() { g.P("{"); g.IdNoKw(); g.P(":"); g.Type(); g.P("}") },
			)
		})
	})
}

func (g *G) Insert() {
	g.K("INSERT INTO")
	g.OptK("TABLE")
	g.One(
		g.TableId,
		func() { g.K("FUNCTION"); g.Name("remote"); g.Parens(func() { g.Comma(0, g.Expr) }) },
	)
	g.Opt(func() { g.Parens(func() { g.Comma(1, g.Nested) }) })
	g.One(
		func() { g.K("VALUES"); g.Comma(1, g.insertValue) },
		func() { g.noWith = true; defer g.sparse()(); g.Select() },
		func() { g.K("FORMAT"); g.IdNoKw() },
		func() {},
	)
}

func (g *G) Delete() {
	g.K("DELETE FROM")
	g.TableId()
	g.Opt(g.Cluster)
	g.K("WHERE")
	g.Expr()
}

func (g *G) Use() { g.K("USE"); g.IdNoKw() }

func (g *G) Set() { g.K("SET"); g.Comma(1, g.Setting) }

func (g *G) Optimize() {
	g.K("OPTIMIZE TABLE")
	g.TableId()
	g.Opt(g.Cluster)
	g.Opt(func() { g.Partition(true) })
	g.OptK("FINAL")
	g.Opt(func() {
		g.K("DEDUPLICATE")
		g.Opt(func() {
			g.K("BY")
			g.Comma(1, g.IdNoKw)
			g.Opt(func() { g.K("EXCEPT"); g.Comma(1, g.IdNoKw) })
		})
	})
}

func (g *G) Check() {
	g.K("CHECK TABLE")
	g.TableId()
	g.Opt(func() { g.Partition(true) })
}

func (g *G) Explain() {
	g.K("EXPLAIN")
	g.OneK("SYNTAX", "PIPELINE", "ESTIMATE", "AST")
	defer g.sparse()()
	g.Select()
}

func (g *G) Show() {
	g.K("SHOW")
	switch g.Alt(3) {
	case 0:
		g.K("DATABASES")
		g.Opt(func() { g.OptK("NOT"); g.OneK("LIKE", "ILIKE"); g.Str() })
		g.Opt(func() { g.K("LIMIT"); g.Int() })
		g.Opt(func() { g.K("INTO OUTFILE"); g.Str() })
		g.Opt(func() { g.K("FORMAT"); g.Str() })
	case 1:
		g.K("CREATE TABLE")
		g.TableId()
	case 2:
		g.K("TABLES")
	}
}

func (g *G) Describe() {
	if g.Alt(2) == 1 {
		g.SK("DESC")
		g.CK("DESCRIBE")
	} else {
		g.K("DESCRIBE")
	}
	g.OptK("TABLE")
	g.TableId()
}

func (g *G) System() {
	g.K("SYSTEM")
	g.One(
		func() { g.K("FLUSH LOGS") },
		func() { g.K("FLUSH DISTRIBUTED"); g.TableId() },
		func() { g.K("RELOAD DICTIONARIES"); g.Opt(g.Cluster) },
		func() { g.K("RELOAD EMBEDDED DICTIONARIES"); g.Opt(g.Cluster) },
		func() { g.K("RELOAD DICTIONARY"); g.TableId() },
		func() { g.K("RELOAD DICTIONARY"); g.Cluster(); g.TableId() },
		func() { g.K("SYNC REPLICA"); g.TableId() },
		func() { g.OneK("START", "STOP"); g.K("REPLICATED SENDS") },
		func() { g.K("DROP"); g.OneK("DNS", "MARK", "UNCOMPRESSED", "FILESYSTEM", "QUERY"); g.K("CACHE") },
		func() { g.K("DROP COMPILED EXPRESSION CACHE") },
	)
}

func (g *G) Privilege() {
	g.One(
		func() { g.OneK("SELECT", "INSERT"); g.Opt(func() { g.Parens(func() { g.Comma(1, g.IdNoKw) }) }) },
		func() {
			g.K("ALTER")
			g.One(
				func() { g.OneK("UPDATE", "DELETE", "USER", "ROLE", "QUOTA", "INDEX", "SETTINGS") },
				func() {
					g.OneK("ADD", "DROP", "MODIFY", "CLEAR", "COMMENT", "RENAME", "MATERIALIZED")
					g.OneK("COLUMN", "TTL")
				},
				func() {
					g.OneK("ORDER BY", "SAMPLE BY", "VIEW MODIFY", "VIEW REFRESH", "MOVE PARTITION", "FREEZE PARTITION")
				},
			)
		},
		func() {
			g.K("CREATE")
			g.OneK("DATABASE", "DICTIONARY", "TABLE", "FUNCTION", "VIEW", "USER", "ROLE", "QUOTA", "TEMPORARY TABLE", "ROWS POLICY")
		},
		func() {
			g.K("DROP")
			g.OneK("DATABASE", "DICTIONARY", "USER", "ROLE", "QUOTA", "TABLE", "FUNCTION", "VIEW")
		},
		func() { g.K("SHOW"); g.OneK("DATABASES", "DICTIONARIES", "TABLES", "COLUMNS") },
		func() { g.K("ALL") },
		func() { g.K("KILL QUERY") },
		func() {
			g.K("SYSTEM")
			g.OneK("SHUTDOWN", "MERGES", "FETCHES", "SENDS", "MOVES", "CLUSTER", "DROP CACHE", "DROP MARK CACHE", "DROP DNS CACHE", "DROP UNCOMPRESSED CACHE",
				"RELOAD DICTIONARY", "RELOAD FUNCTION", "RELOAD FUNCTIONS", "RELOAD CONFIG", "FLUSH LOGS", "FLUSH DISTRIBUTED", "TTL MERGES", "SYNC REPLICA", "RESTART REPLICA", "REPLICATION QUEUES")
		},
		func() { g.K("ADMIN OPTION") },
		func() { g.OneK("OPTIMIZE", "TRUNCATE") },
		func() { g.K("ROLE ADMIN") },
		func() { g.NameStr("dictGet") },
	)
}

func (g *G) Grant() {
	g.K("GRANT")
	g.Opt(g.Cluster)
	g.Comma(1, g.Privilege)
	g.K("ON")
	switch g.Alt(4) {
	case 0:
		g.Star()
		g.P(".")
		g.Star()
	case 1:
		g.IdNoKw()
		g.P(".")
		g.Star()
	case 2:
		g.IdNoKw()
		g.P(".")
		g.Id()
	case 3:
		g.IdNoKw()
	}
	g.K("TO")
	g.Comma(1, g.IdNoKw)
	n := g.Alt(3)
	for i := 0; i < n; i++ {
		g.K("WITH")
		g.K([]string{"GRANT", "ADMIN"}[g.Alt(2)])
		g.K("OPTION")
	}
}
