package gram

import "slices"

// Select emits a SELECT statement; `SELECT c` by default.
func (g *G) Select() { g.selectStmt(); g.SetOps() }

func (g *G) SetOps() {
	// right after a select list EXCEPT is read as a column modifier
	n := 5
	if g.atItem {
		n = 4
	}
	switch g.Alt(n) {
	case 1:
		g.K("UNION ALL")
	case 2:
		g.K("UNION DISTINCT")
	case 3:
		g.K("INTERSECT")
	case 4:
		g.K("EXCEPT")
	default:
		return
	}
	// a parenthesised right-hand side is accepted; the tree is the same
	defer g.sparse()()
	if g.Alt(2) == 1 {
		g.SP("(")
		g.Select()
		g.SP(")")
		return
	}
	g.Select()
}

func (g *G) With() {
	g.K("WITH")
	g.Comma(1, func() {
		g.One(
			func() { g.IdN("cte"); g.K("AS"); g.SubQueryW() },
			func() { g.Expr(); g.K("AS"); g.IdN("w") },
			func() { g.IdNoKw(); g.K("AS"); g.Name("limit") },
		)
	})
}

func (g *G) selectStmt() {
	if g.noWith {
		g.noWith = false
	} else {
		g.Opt(g.With)
	}
	g.K("SELECT")
	switch g.Alt(3) {
	case 1:
		g.K("DISTINCT")
	case 2:
		g.K("DISTINCT ON")
		g.Parens(func() { g.Comma(1, func() { g.IdNoKw(); g.Opt(func() { g.P("."); g.Id() }) }) })
	}
	g.Opt(func() { g.K("TOP"); g.Int(); g.OptK("WITH TIES") })
	n := g.Count(1, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.P(",")
		}
		g.SelectItem()
	}
	nsrc := len(g.Src)
	defer func() { g.atItem = len(g.Src) == nsrc }()
	g.Opt(func() { g.K("FROM"); g.From() })
	g.Opt(func() { g.K("PREWHERE"); g.Expr() })
	g.Opt(func() { g.K("WHERE"); g.Expr() })
	g.Opt(g.GroupBy)
	g.Opt(func() { g.K("HAVING"); g.Expr() })
	g.Opt(func() {
		g.K("WINDOW")
		g.Comma(1, func() { g.Id(); g.K("AS"); g.WindowSpec() })
	})
	g.Opt(func() { g.OrderBy(true) })
	if g.Opt(func() {
		g.K("LIMIT")
		g.LimitBody()
		g.K("BY")
		g.Comma(1, g.Expr)
	}) {
		g.Opt(func() { g.K("LIMIT"); g.LimitBody() })
	} else {
		g.Opt(g.Limit)
	}
	g.Opt(g.Settings)
	g.Opt(func() { g.K("FORMAT"); g.IdNoKw() })
}

func (g *G) LimitBody() {
	g.LimitVal()
	switch g.Alt(3) {
	case 1:
		g.K("OFFSET")
		g.LimitVal()
	case 2: // LIMIT offset, limit is canonicalised to LIMIT limit OFFSET offset
		a := g.Src[len(g.Src)-1]
		_ = a
		g.limitComma()
	}
}

// limitComma rewrites `LIMIT x` already emitted into `LIMIT x, y` whose
// canonical form is `LIMIT y OFFSET x`.
func (g *G) limitComma() {
	// canonical tokens of x are the last ones emitted after LIMIT
	i := len(g.Canon) - 1
	for !(g.Canon[i].Kind == Kw && g.Canon[i].Text == "LIMIT") {
		i--
	}
	x := append([]Tok{}, g.Canon[i+1:]...)
	g.Canon = g.Canon[:i+1]
	g.SP(",")
	g.LimitVal()
	g.CK("OFFSET")
	if g.canOff == 0 {
		g.Canon = append(g.Canon, x...)
	}
}

func (g *G) LimitVal() {
	g.One(
		g.Int,
		g.IdNoKw,
		func() { g.P("{"); g.Id(); g.P(":"); g.Type(); g.P("}") },
		func() { g.Int(); g.P("+"); g.Int() },
		func() { g.put(Tok{Kind: Punct, Text: "?"}) },
	)
}

func (g *G) Limit() {
	g.One(
		func() { g.K("LIMIT"); g.LimitBody() },
		func() { g.K("OFFSET"); g.LimitVal() },
	)
}

func (g *G) SelectItem() {
	g.One(
		g.Expr,
		func() { g.Star() },
		func() { g.IdNoKw(); g.P("."); g.Star() },
		func() {
			g.Star()
			g.modifiers()
		},
		func() { g.Name("COLUMNS"); g.Parens(g.Str); g.modifiers() },
	)
	switch g.Alt(4) {
	case 1:
		g.K("AS")
		g.Id()
	case 2:
		g.CK("AS")
		g.IdNoKw()
	case 3:
		g.K("AS")
		g.Name("from")
	}
}

func (g *G) modifiers() {
	n := g.Count(1, 3)
	for i := 0; i < n; i++ {
		g.One(
			func() { g.Name("EXCEPT"); g.Parens(func() { g.Comma(1, g.IdNoKw) }) },
			func() { g.Name("APPLY"); g.Parens(g.IdNoKw) },
			func() { g.Name("REPLACE"); g.Parens(func() { g.Comma(1, func() { g.Expr(); g.K("AS"); g.Id() }) }) },
		)
	}
}

func (g *G) GroupBy() {
	g.K("GROUP BY")
	g.One(
		func() { g.Comma(1, g.Expr) },
		func() { g.K("CUBE"); g.Parens(func() { g.Comma(1, g.Expr) }) },
		func() { g.K("ROLLUP"); g.Parens(func() { g.Comma(1, g.Expr) }) },
		func() {
			g.K("GROUPING SETS")
			g.Parens(func() { g.Comma(1, func() { g.Parens(func() { g.Comma(0, g.IdNoKw) }) }) })
		},
		func() { g.K("ALL") },
	)
	// The modifiers come in any order; the formatter prints them in this one.
	words := []string{"WITH CUBE", "WITH ROLLUP", "WITH TOTALS"}
	order := groupModifiers[g.Alt(len(groupModifiers))]
	g.S(func() {
		for _, m := range order {
			g.K(words[m])
		}
	})
	g.C(func() {
		for m, w := range words {
			if slices.Contains(order, m) {
				g.K(w)
			}
		}
	})
}

var groupModifiers = [][]int{{}, {0}, {1}, {2}, {0, 2}, {1, 2}, {2, 1}, {2, 0}, {0, 1}, {1, 0}, {0, 1, 2}, {2, 1, 0}}

func (g *G) OrderBy(query bool) {
	g.K("ORDER BY")
	g.Comma(1, func() {
		g.Expr()
		g.Opt(func() { g.K("AS"); g.Id() })
		switch g.Alt(5) {
		case 1:
			g.K("ASC")
		case 2:
			g.K("DESC")
		case 3:
			g.SK("ASCENDING")
			g.CK("ASC")
		case 4:
			g.SK("DESCENDING")
			g.CK("DESC")
		}
		if query {
			g.Opt(func() {
				g.K("WITH FILL")
				g.Opt(func() { g.K("FROM"); g.Operand() })
				g.Opt(func() { g.K("TO"); g.Operand() })
				g.Opt(func() { g.K("STEP"); g.Operand() })
				g.Opt(func() { g.K("STALENESS"); g.Operand() })
			})
		}
	})
	if query {
		g.Opt(func() {
			g.K("INTERPOLATE")
			g.Opt(func() {
				g.Parens(func() { g.Comma(1, func() { g.IdNoKw(); g.Opt(func() { g.K("AS"); g.Expr() }) }) })
			})
		})
	}
}

func (g *G) Settings() {
	g.K("SETTINGS")
	g.Comma(1, g.Setting)
}

func (g *G) Setting() {
	g.IdNoKw()
	g.P("=")
	g.One(
		g.Int,
		g.Str,
		func() { g.P("{"); g.Str(); g.P(":"); g.Expr(); g.P("}") },
		func() { g.boolLit("true") },
		func() { g.boolLit("FALSE") },
		func() { g.NumT("-7") },
	)
}

func (g *G) boolLit(s string) { g.put(Tok{Kind: IdentK, Text: s, Val: s, Leaf: true}) }

// TableName is [db.]table.
func (g *G) TableName() {
	switch g.Alt(3) {
	case 0:
		g.IdN("t")
	case 1:
		g.IdN("db")
		g.P(".")
		g.Id()
	case 2:
		g.IdN("db")
		g.P(".")
		g.Name("from")
	}
}

func (g *G) TableFunc() {
	g.IdN("tf")
	g.Parens(func() { g.Comma(0, g.TableArg) })
}

func (g *G) TableArg() {
	g.One(
		g.IdNoKw,
		g.Int,
		g.Str,
		func() { g.IdNoKw(); g.P("."); g.Id() },
		func() { g.IdN("tf"); g.Parens(func() { g.Comma(0, g.TableArg) }) },
		g.SubQuery,
		func() { g.Parens(g.Expr) },
		func() { g.noLex++; g.IdNoKw(); g.noLex--; g.P("="); g.One(g.Str, g.Int, g.IdNoKw) },
		func() { g.Int(); g.P("+"); g.Operand() },
		func() { g.K("CAST"); g.Parens(func() { g.Expr(); g.K("AS"); g.Type() }) },
	)
}

func (g *G) TableRef() {
	g.One(
		g.TableName,
		g.TableFunc,
		g.SubQueryW,
	)
	switch g.Alt(3) {
	case 1:
		g.K("AS")
		g.Id()
	case 2:
		g.CK("AS")
		g.IdNoKw()
	}
}

func (g *G) tableFinal() {
	k := g.Alt(3)
	switch k {
	case 0:
		g.TableRef()
	case 1:
		g.TableName()
		g.Opt(func() { g.K("AS"); g.Id() })
		g.K("FINAL")
	case 2:
		g.TableRef()
		g.K("SAMPLE")
		g.ratio()
		g.Opt(func() { g.K("OFFSET"); g.ratio() })
	}
}

func (g *G) ratio() {
	g.One(
		func() { g.NumT("0.1") },
		func() { g.Int(); g.P("/"); g.Int() },
	)
}

var joinTypes = []string{
	"JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN", "FULL OUTER JOIN",
	"ANY JOIN", "ALL JOIN", "ANY LEFT JOIN", "ANY RIGHT JOIN", "ANY INNER JOIN", "ALL LEFT JOIN", "ALL FULL JOIN", "ALL FULL OUTER JOIN", "ANY FULL JOIN", "ALL OUTER JOIN",
	"SEMI JOIN", "SEMI LEFT JOIN", "SEMI RIGHT JOIN", "ASOF JOIN", "ASOF LEFT JOIN", "ASOF LEFT OUTER JOIN",
	"INNER ANY JOIN", "INNER ALL JOIN", "INNER ASOF JOIN", "LEFT SEMI JOIN", "LEFT ANTI JOIN", "LEFT ANY JOIN", "LEFT ALL JOIN", "LEFT ASOF JOIN", "LEFT OUTER ANY JOIN",
	"RIGHT SEMI JOIN", "RIGHT ANTI JOIN", "RIGHT ANY JOIN", "RIGHT ALL JOIN", "RIGHT ASOF JOIN", "FULL ALL JOIN", "FULL ANY JOIN",
}

func (g *G) From() {
	g.tableFinal()
	g.joins()
}

func (g *G) joins() {
	g.joinList(g.Count(0, 4))
}

// joinList: after ON, USING and ARRAY JOIN a comma continues their list.
func (g *G) joinList(n int) {
	comma := true
	for i := 0; i < n; i++ {
		comma = g.join(comma)
	}
}

func (g *G) join(comma bool) (commaNext bool) {
	alts := []func(){
		func() {
			switch g.Alt(3) {
			case 1:
				g.K("GLOBAL")
			case 2:
				g.K("LOCAL")
			}
			g.K(joinTypes[g.Alt(len(joinTypes))])
			g.tableFinal()
			g.One(
				func() { g.K("ON"); g.Comma(1, g.OnExpr) },
				func() { g.K("USING"); g.Comma(1, g.IdNoKw) },
				func() { // parentheses are dropped
					g.K("USING")
					g.SP("(")
					g.Comma(1, g.IdNoKw)
					g.SP(")")
				},
				func() { // not before another table
					g.K("USING")
					g.Parens(func() { g.Comma(1, g.IdNoKw) })
					g.P(",")
					g.tableFinal()
					commaNext = true
				},
			)
		},
		func() { g.K("CROSS JOIN"); g.tableFinal(); commaNext = true },
		func() {
			g.OneK("ARRAY JOIN", "LEFT ARRAY JOIN", "INNER ARRAY JOIN")
			g.Comma(1, func() { g.Expr(); g.Opt(func() { g.K("AS"); g.Id() }) })
		},
	}
	if comma {
		alts = append(alts, func() { g.P(","); g.tableFinal(); commaNext = true })
	}
	g.One(alts...)
	return
}

func (g *G) OnExpr() {
	g.One(
		func() {
			g.IdNoKw()
			g.P(".")
			g.Id()
			g.P("=")
			g.IdNoKw()
			g.P(".")
			g.Id()
		},
		g.Expr,
	)
}
