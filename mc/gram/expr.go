package gram

// Operators of the expression grammar (binary, no surprises in spelling).
var binOps = []string{"+", "-", "*", "/", "%", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "||", "AND", "OR", "LIKE", "NOT LIKE", "ILIKE", "NOT ILIKE", "REGEXP"}

func (g *G) op(o string) {
	if o[0] >= 'A' && o[0] <= 'Z' {
		g.K(o)
	} else {
		g.P(o)
	}
}

// PathTail: maybe qualified identifiers.
func (g *G) Column() {
	g.Id()
	switch g.Alt(3) {
	case 1:
		g.P(".")
		g.Id()
	case 2:
		g.P(".")
		g.Id()
		g.P(".")
		g.Id()
	}
}

// Expr emits an expression; an identifier by default.
func (g *G) Expr() { g.expr(true) }

// ExprTight is an expression for a slot right after a keyword that could itself
// be a column name: a leading sign, NOT or operator-named call would make the
// keyword an identifier.
func (g *G) ExprTight() {
	defer g.sparse()()
	g.One(g.IdNoKw, g.Num, g.Str,
		func() { g.Int(); g.P("*"); g.Int() },
		func() { g.Parens(g.Expr) },
		func() { g.Name("f"); g.Parens(func() { g.ExprList(0) }) },
		func() { g.IdNoKw(); g.P("."); g.IdNoKw() },
		func() { g.P("{"); g.Id(); g.P(":"); g.Type(); g.P("}") },
	)
}

// ExprNoLead is Expr for slots where a leading bare keyword would be read
// differently.
func (g *G) expr(kw bool) {
	g.depth++
	defer func() { g.depth-- }()
	defer g.sparse()()
	id := func() {
		if kw {
			g.Id()
		} else {
			g.IdNoKw()
		}
	}
	n := 0
	alts := []func(){}
	_ = n
	add := func(f func()) { alts = append(alts, f) }
	add(id)
	add(g.Num)
	add(g.Str)
	add(func() { g.NumT("-5") }) // only valid where no operand precedes; see Expr slots
	// qualified names
	add(func() { id(); g.P("."); g.Id() })
	add(func() { id(); g.P("."); g.Id(); g.P("."); g.Id() })
	add(func() { id(); g.P("."); g.Name("from") })
	add(func() { id(); g.P("."); g.Int() })
	// calls
	add(func() { id(); g.Parens(func() { g.ExprList(0) }) })
	add(func() { g.Name("count"); g.Parens(func() { g.K("DISTINCT"); g.ExprList(1) }) })
	add(func() { g.Name("count"); g.Parens(func() { g.Star() }) })
	add(func() {
		g.Name("quantile")
		g.Parens(func() { g.NumT("0.5") })
		g.Parens(func() { g.OptK("DISTINCT"); g.Comma(1, g.Expr) })
	})
	add(func() { g.Name("and"); g.Parens(func() { g.Expr(); g.P(","); g.Expr() }) })
	add(func() { g.Name("f"); g.Parens(func() { g.Expr(); g.K("AS"); g.Id() }) })
	// keyword-argument functions
	add(func() {
		g.Name("trim")
		g.Parens(func() { g.OneK("BOTH", "LEADING", "TRAILING"); g.Expr(); g.K("FROM"); g.Expr() })
	})
	add(func() {
		g.Name("substring")
		g.Parens(func() { g.Expr(); g.K("FROM"); g.Expr(); g.Opt(func() { g.K("FOR"); g.Expr() }) })
	})
	add(func() {
		g.Name("overlay")
		g.Parens(func() {
			g.Expr()
			g.K("PLACING")
			g.Expr()
			g.K("FROM")
			g.Expr()
			g.Opt(func() { g.K("FOR"); g.Expr() })
		})
	})
	add(func() {
		g.K("EXTRACT")
		g.Parens(func() {
			g.One(
				func() { g.Name([]string{"DAY", "year", "Month"}[g.Alt(3)]); g.K("FROM"); g.Expr() },
				func() { g.Expr(); g.P(","); g.Str() })
		})
	})
	// window functions
	add(func() { g.Name("sum"); g.Parens(func() { g.ExprList(0) }); g.K("OVER"); g.Over() })
	// grouping
	add(func() { g.Parens(g.Expr) })
	add(func() { g.Parens(func() { g.Expr(); g.P(","); g.Expr(); g.Opt(func() { g.P(","); g.Expr() }) }) })
	add(func() { g.P("["); g.ExprList(0); g.P("]") })
	add(func() {
		g.P("{")
		if n := g.Count(0, 3); n > 0 {
			for i := 0; i < n; i++ {
				if i > 0 {
					g.P(",")
				}
				g.Str()
				g.P(":")
				g.Expr()
			}
		}
		g.P("}")
	})
	add(func() { g.P("{"); g.Id(); g.P(":"); g.Type(); g.P("}") })
	add(func() { g.put(Tok{Kind: Punct, Text: "?"}) })
	// unary
	add(func() { g.P("-"); g.IdNoKw() })
	add(func() { g.P("+"); g.Parens(g.Expr) })
	add(func() { g.K("NOT"); g.Expr() })
	// postfix
	add(func() { id(); g.P("["); g.Expr(); g.P("]") })
	add(func() { g.Parens(g.Expr); g.P("."); g.Int() })
	add(func() { g.Name("f"); g.Parens(func() { g.Expr() }); g.P("."); g.Id() })
	add(func() {
		id()
		g.P("[")
		g.Expr()
		g.P("]")
		g.P("[")
		g.Expr()
		g.P("]")
	})
	add(func() { id(); g.P("::"); g.CastType() })
	// casts
	add(func() { g.K("CAST"); g.Parens(func() { g.Expr(); g.K("AS"); g.Type() }) })
	add(func() { g.K("CAST"); g.Parens(func() { g.Expr(); g.P(","); g.Str() }) })
	add(func() { g.K("CAST"); g.Parens(func() { g.Expr(); g.K("AS"); g.StrT("UInt8") }) })
	// case
	add(func() {
		g.K("CASE")
		g.Opt(g.ExprTight)
		n := g.Count(1, 3)
		for i := 0; i < n; i++ {
			g.K("WHEN")
			g.Expr()
			g.K("THEN")
			g.Expr()
		}
		g.Opt(func() { g.K("ELSE"); g.Expr() })
		g.K("END")
	})
	// binary operators
	add(func() { id(); g.op(binOps[g.Alt(len(binOps))]); g.Operand() })
	add(func() {
		id()
		g.op(binOps[g.Alt(len(binOps))])
		g.Operand()
		g.op(binOps[g.Alt(len(binOps))])
		g.Operand()
	})
	add(func() { // a long chain of one operator
		id()
		op := []string{"+", "AND", "OR", "||", "="}[g.Alt(5)]
		for i := g.Count(3, 1); i > 0; i-- {
			g.op(op)
			g.Operand()
		}
	})
	add(func() { id(); g.OptK("GLOBAL"); g.OptK("NOT"); g.K("IN"); g.Parens(func() { g.Comma(1, g.Expr) }) })
	add(func() { id(); g.OptK("GLOBAL"); g.OptK("NOT"); g.K("IN"); g.SubQuery() })
	add(func() { id(); g.K("IN"); g.Id() })
	add(func() {
		id()
		g.OptK("NOT")
		g.K("BETWEEN")
		g.Operand()
		g.K("AND")
		g.Operand()
	})
	add(func() { id(); g.K("IS"); g.OptK("NOT"); g.K("NULL") })
	add(func() { id(); g.P("?"); g.Expr(); g.P(":"); g.Expr() })
	add(func() { id(); g.P("->"); g.Expr() })
	add(func() {
		g.Parens(func() { g.IdNoKw(); g.P(","); g.IdNoKw() })
		g.P("->")
		g.Expr()
	})
	add(func() {
		g.K("INTERVAL")
		g.ExprTight()
		g.Name([]string{"DAY", "SECOND", "MINUTE", "hour", "WEEK", "MONTH", "QUARTER", "YEAR"}[g.Alt(8)])
	})
	add(g.SubQuery)
	g.One(alts...)
}

// Operand is an expression tight enough for either side of a binary operator.
func (g *G) Operand() {
	defer g.sparse()()
	g.One(
		g.IdNoKw,
		g.Num,
		g.Str,
		func() { g.NumT("-3") },
		func() { g.Parens(g.Expr) },
		func() { g.Name("f"); g.Parens(func() { g.ExprList(0) }) },
		func() { g.IdNoKw(); g.P("."); g.Id() },
		func() { g.IdNoKw(); g.P("["); g.Expr(); g.P("]") },
		func() { g.P("-"); g.IdNoKw() },
		func() { g.P("["); g.ExprList(0); g.P("]") },
		func() { g.P("{"); g.Id(); g.P(":"); g.Type(); g.P("}") },
		func() {
			g.K("CASE")
			g.K("WHEN")
			g.Expr()
			g.K("THEN")
			g.Expr()
			g.K("END")
		},
		func() { g.K("INTERVAL"); g.Int(); g.Name("DAY") },
		func() { g.Name("NULL") },
		func() { g.IdNoKw(); g.P("::"); g.CastType() },
		func() { g.K("CAST"); g.Parens(func() { g.Expr(); g.K("AS"); g.Type() }) },
		g.SubQuery,
		func() { g.K("NOT"); g.IdNoKw() },
	)
}

// ExprList is a comma list with optional trailing comma (dropped by the
// formatter) and optional aliases.
func (g *G) ExprList(min int) {
	n := g.Count(min, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.P(",")
		}
		g.Expr()
	}
}

// SubQuery in expression position must start with SELECT: `(WITH ...` is not
// part of the accepted language there.
func (g *G) SubQuery() { defer g.sparse()(); g.Parens(func() { g.noWith = true; g.Select() }) }

// SubQueryW may start with WITH.
func (g *G) SubQueryW() { defer g.sparse()(); g.Parens(g.Select) }

// CastType is a type after '::'.
func (g *G) CastType() {
	g.One(
		func() { g.Name("Int8") },
		func() { g.Name("Decimal"); g.Parens(func() { g.Int() }) },
		func() { g.Name("Array"); g.Parens(func() { g.Name("Int8") }) },
		func() {
			g.noWord++ // only Tuple is read as a list of named types here
			g.Name("Tuple")
			g.noWord--
			g.Parens(func() { g.IdNoKw(); g.Name("Int8"); g.P(","); g.IdNoKw(); g.Name("String") })
		},
		func() {
			g.noWord++
			g.Name("Tuple")
			g.noWord--
			g.Parens(func() { g.Name("Int8"); g.P(","); g.Name("String") })
		},
	)
}

// Type is a column type.
func (g *G) Type() {
	defer g.sparse()()
	named := func() {
		g.Parens(func() {
			n := g.Count(1, 3)
			for i := 0; i < n; i++ {
				if i > 0 {
					g.P(",")
				}
				g.IdNoKw()
				g.Type()
			}
		})
	}
	g.One(
		func() { g.Name("Int32") },
		func() { g.Name("FixedString"); g.Parens(g.Int) },
		func() { g.Name("Decimal"); g.Parens(func() { g.Int(); g.P(","); g.Int() }) },
		func() { g.Name("DateTime"); g.Parens(g.Str) },
		func() { g.Name("DateTime64"); g.Parens(func() { g.Int(); g.P(","); g.Str() }) },
		func() { g.Name("Nullable"); g.Parens(g.Type) },
		func() { g.Name("Map"); g.Parens(func() { g.Type(); g.P(","); g.Type() }) },
		func() { g.Name("Array"); g.Parens(g.Type) },
		func() { g.Name("Tuple"); named() },
		func() { g.Name("Tuple"); g.Parens(func() { g.Name("Int8"); g.P(","); g.Type() }) },
		func() { g.Name("Nested"); named() },
		func() {
			g.Name("Enum8")
			g.Parens(func() { g.Comma(1, func() { g.Str(); g.P("="); g.One(g.Int, func() { g.NumT("-2") }) }) })
		},
		func() { g.Name("AggregateFunction"); g.Parens(func() { g.Name("sum"); g.P(","); g.Type() }) },
		func() { g.Name("JSON") },
		func() { g.Name("JSON"); g.Parens(g.JSONOptions) },
		func() { g.Name("QBit"); g.Parens(func() { g.Name("Float32"); g.P(","); g.Int() }) },
		func() { g.Name("Object"); g.Parens(func() {}) },
	)
}

// JSONOptions in any order; they are printed with the limits first, then the
// hints, then the skips.
func (g *G) JSONOptions() {
	path := func() { g.IdNoKw(); g.Opt(func() { g.P("."); g.Id(); g.Opt(func() { g.P("."); g.Id() }) }) }
	opts := []func(){
		func() { g.NameStr("max_dynamic_paths"); g.P("="); g.Int() },
		func() { g.NameStr("max_dynamic_types"); g.P("="); g.Int() },
		func() { path(); g.Type() },
		func() { g.K("SKIP"); path() },
		func() { g.K("SKIP REGEXP"); g.Str() },
	}
	class := []int{0, 0, 1, 2, 2}
	start := len(g.Canon)
	var parts [3][]Tok
	for i, n := 0, g.Count(1, 3); i < n; i++ {
		if i > 0 {
			g.SP(",")
		}
		j := len(g.Canon)
		k := g.Alt(len(opts))
		opts[k]()
		if g.canOff == 0 {
			if p := &parts[class[k]]; len(*p) > 0 {
				*p = append(*p, Tok{Kind: Punct, Text: ","})
			}
			parts[class[k]] = append(parts[class[k]], g.Canon[j:]...)
		}
	}
	if g.canOff > 0 {
		return
	}
	g.Canon = g.Canon[:start]
	for _, p := range parts {
		if len(p) > 0 {
			if len(g.Canon) > start {
				g.CP(",")
			}
			g.Canon = append(g.Canon, p...)
		}
	}
}

func (g *G) Over() { g.One(g.Id, g.WindowSpec) }

func (g *G) WindowSpec() {
	g.Parens(func() {
		g.Opt(g.IdNoKw)
		g.Opt(func() { g.K("PARTITION BY"); g.Comma(1, g.Expr) })
		g.Opt(func() { g.OrderBy(false) })
		g.Opt(g.Frame)
	})
}

func (g *G) Frame() {
	g.OneK("ROWS", "RANGE")
	ext := func() {
		g.One(
			func() { g.K("CURRENT ROW") },
			func() { g.K("UNBOUNDED"); g.OneK("PRECEDING", "FOLLOWING") },
			func() { g.Int(); g.OneK("PRECEDING", "FOLLOWING") },
			func() {
				g.P("{")
				g.Id()
				g.P(":")
				g.Type()
				g.P("}")
				g.OneK("PRECEDING", "FOLLOWING")
			},
			func() { g.K("INTERVAL"); g.Int(); g.Name("DAY"); g.OneK("PRECEDING", "FOLLOWING") },
		)
	}
	g.One(ext, func() { g.K("BETWEEN"); ext(); g.K("AND"); ext() })
}
