package gram

import "strconv"

func itoa(n int) string { return strconv.Itoa(n) }

// Grammar is one start symbol.
type Grammar struct {
	Name string
	Gen  func(*G)
	Cost int // shape deviations the start itself stands for
}

// Explore visits this shard's derivations within b.
func (gr Grammar) Explore(b Budget, shard, n int, st *Stats, visit func(*G) bool) bool {
	b.Shape -= gr.Cost
	if b.Shape < 0 {
		return true
	}
	return ExploreShard(gr.Gen, b, shard, n, st, visit)
}

// Besides the plain starts there is a dense start for each, where the optional
// parts outside expressions are present unless deviated from, so that every
// clause meets every other; focused starts deep inside a clause; and for all of
// them a start in which all names are equal, as are all numbers and all strings.
func init() {
	defer func() {
		for _, gr := range append([]Grammar{}, Grammars...) {
			gen := gr.Gen
			Grammars = append(Grammars, Grammar{gr.Name + "=", func(g *G) { g.same = true; gen(g) }, gr.Cost + 1})
		}
	}()
	for _, gr := range append([]Grammar{}, Grammars...) {
		gen := gr.Gen
		Grammars = append(Grammars, Grammar{gr.Name + "+", func(g *G) { g.dense = true; gen(g) }, 1})
	}
	Grammars = append(Grammars, focused...)
}

var focused = []Grammar{
	{"f_from", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("FROM")
		g.tableFinal()
		g.joinList(1 + g.Count(0, 3))
	}, 0},
	{"f_over", func(g *G) {
		g.K("SELECT")
		g.Name("sum")
		g.Parens(g.IdNoKw)
		g.K("OVER")
		g.Parens(func() {
			g.Opt(g.IdNoKw)
			g.K("PARTITION BY")
			g.Comma(1, g.Expr)
			g.OrderBy(false)
			g.Frame()
		})
	}, 1},
	{"f_fill", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("ORDER BY")
		g.IdNoKw()
		g.OneK("ASC", "DESC")
		g.K("WITH FILL")
		g.Opt(func() { g.K("FROM"); g.Operand() })
		g.Opt(func() { g.K("TO"); g.Operand() })
		g.Opt(func() { g.K("STEP"); g.Operand() })
		g.Opt(func() { g.K("STALENESS"); g.Operand() })
		g.Opt(func() { g.P(","); g.IdNoKw(); g.Opt(func() { g.K("WITH FILL") }) })
		g.K("INTERPOLATE")
		g.Parens(func() { g.Comma(1, func() { g.IdNoKw(); g.Opt(func() { g.K("AS"); g.Expr() }) }) })
		g.Opt(g.Limit)
	}, 0},
	{"f_with", func(g *G) {
		g.With()
		g.noWith = true
		g.Select()
	}, 1},
	{"f_union", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.Opt(func() { g.K("FROM"); g.IdNoKw() })
		g.OneK("UNION ALL", "UNION DISTINCT", "INTERSECT")
		g.Select()
	}, 0},
	{"f_logic", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("FROM")
		g.IdN("t")
		g.OneK("WHERE", "PREWHERE", "HAVING")
		g.Operand()
		g.OneK("AND", "OR")
		g.Operand()
		g.OneK("AND", "OR")
		g.Operand()
	}, 0},
	{"f_sub", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("FROM")
		g.SubQueryW()
		g.Opt(func() { g.K("AS"); g.Id() })
		g.K("WHERE")
		g.IdNoKw()
		g.OptK("NOT")
		g.K("IN")
		g.SubQuery()
	}, 1},
	{"f_case", func(g *G) {
		g.K("SELECT CASE")
		g.Opt(g.ExprTight)
		for i := g.Count(1, 2); i > 0; i-- {
			g.K("WHEN")
			g.Expr()
			g.K("THEN")
			g.Expr()
		}
		g.K("ELSE")
		g.Expr()
		g.K("END")
	}, 1},
	{"f_ttl", func(g *G) {
		g.K("ALTER TABLE")
		g.IdN("t")
		g.K("MODIFY TTL")
		g.TTLItem()
		g.Opt(func() { g.P(","); g.TTLItem() })
	}, 0},
	{"f_values", func(g *G) {
		g.K("INSERT INTO")
		g.TableId()
		g.Parens(func() { g.Comma(1, g.Nested) })
		g.K("VALUES")
		g.insertValue()
		g.P(",")
		g.insertValue()
	}, 0},
	{"f_window", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("FROM")
		g.IdN("t")
		g.Opt(func() { g.K("WHERE"); g.IdNoKw() })
		g.K("WINDOW")
		n := g.Count(1, 2)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.P(",")
			}
			g.Id()
			g.K("AS")
			g.WindowSpec()
		}
		g.Opt(func() { g.OrderBy(true) })
	}, 1},
	{"f_frame", func(g *G) {
		g.K("SELECT")
		g.Name("f")
		g.Parens(func() {})
		g.K("OVER")
		g.Parens(g.Frame)
	}, 0},
	{"f_json", func(g *G) {
		g.K("CREATE TABLE")
		g.IdN("t")
		g.Parens(func() {
			g.IdNoKw()
			g.Name("JSON")
			g.Parens(g.JSONOptions)
			g.Opt(func() { g.K("DEFAULT"); g.Str() })
		})
	}, 0},
	{"f_column", func(g *G) {
		g.K("CREATE TABLE")
		g.IdN("t")
		g.Parens(func() {
			g.Nested()
			g.Type()
			g.OneK("NOT NULL", "NULL")
			g.OneK("DEFAULT", "MATERIALIZED", "ALIAS")
			g.Expr()
			g.Opt(g.CommentC)
			g.Opt(g.Codec)
			g.Opt(func() { g.K("TTL"); g.TTLItem() })
		})
		g.K("ENGINE")
		g.P("=")
		g.NameStr("Memory")
	}, 1},
	{"f_engine", func(g *G) {
		g.K("CREATE TABLE")
		g.IdN("t")
		g.Parens(func() { g.IdNoKw(); g.Type() })
		g.Engine()
	}, 0},
	{"f_dict", func(g *G) {
		g.K("CREATE DICTIONARY")
		g.IdN("d")
		g.Parens(func() { g.IdNoKw(); g.Type() })
		g.K("PRIMARY KEY")
		g.IdNoKw()
		g.K("SOURCE")
		g.Parens(func() {
			g.IdNoKw()
			g.Parens(func() { g.dictArg(); g.Opt(g.dictArg) })
		})
		g.K("LAYOUT")
		g.Parens(func() { g.IdNoKw(); g.Parens(func() { g.Opt(g.dictArg) }) })
	}, 0},
	{"f_partition", func(g *G) {
		g.K("ALTER TABLE")
		g.TableId()
		g.One(
			func() { g.K("DROP"); g.Partition(false) },
			func() { g.K("ATTACH"); g.Partition(true); g.K("FROM"); g.TableId() },
			func() { g.K("CLEAR COLUMN"); g.Nested(); g.K("IN"); g.Partition(true) },
			func() { g.K("REPLACE"); g.Partition(true); g.K("FROM"); g.TableId() },
		)
		g.Opt(func() { g.P(","); g.AlterClause(true) })
	}, 0},
	{"f_group", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.GroupBy()
		g.Opt(func() { g.K("HAVING"); g.Expr() })
		g.Opt(func() { g.OrderBy(true) })
		g.Opt(g.Limit)
	}, 0},
	{"f_limit", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("LIMIT")
		g.LimitBody()
		g.K("BY")
		g.Comma(1, g.Expr)
		g.K("LIMIT")
		g.LimitBody()
		g.Opt(g.Settings)
		g.Opt(func() { g.K("FORMAT"); g.IdNoKw() })
	}, 0},
	{"f_call", func(g *G) {
		g.K("SELECT")
		g.Name([]string{"count", "if", "toDate", "dateAdd", "arrayMap", "in", "cast2", "COLUMNS", "isNull", "tuple", "map"}[g.Alt(11)])
		g.Parens(func() { g.Expr(); g.P(","); g.Expr() })
		g.Opt(func() { g.Parens(func() { g.Expr(); g.P(","); g.Expr() }) })
		g.Opt(func() { g.K("OVER"); g.Over() })
		g.Opt(func() { g.K("AS"); g.Id() })
	}, 0},
	{"f_proj", func(g *G) {
		g.K("ALTER TABLE")
		g.IdN("t")
		g.K("ADD PROJECTION")
		g.IfNotExists()
		g.Nested()
		g.ProjectionSelect()
		g.Opt(g.After)
	}, 0},
	{"f_setop", func(g *G) {
		g.K("SELECT")
		g.IdNoKw()
		g.K("FROM")
		g.IdN("t")
		g.SetOps()
	}, 0},
	{"f_type", func(g *G) {
		g.K("CREATE TABLE")
		g.IdN("t")
		g.Parens(func() {
			g.IdNoKw()
			g.OneK2("Nullable", "Array", "LowCardinality")
			g.Parens(func() { g.Name("Tuple"); g.Parens(func() { g.IdNoKw(); g.Type(); g.P(","); g.IdNoKw(); g.Type() }) })
			g.P(",")
			g.IdNoKw()
			g.Type()
		})
	}, 0},
}

var Grammars = []Grammar{
	{"select", (*G).Select, 0},
	{"create_table", (*G).CreateTable, 0},
	{"create_view", (*G).CreateView, 0},
	{"create_mv", (*G).CreateMaterializedView, 0},
	{"create_live_view", (*G).CreateLiveView, 0},
	{"create_database", (*G).CreateDatabase, 0},
	{"create_function", (*G).CreateFunction, 0},
	{"create_collection", (*G).CreateNamedCollection, 0},
	{"create_dictionary", (*G).CreateDictionary, 0},
	{"create_role", (*G).CreateRole, 0},
	{"create_user", (*G).CreateUser, 0},
	{"alter_table", (*G).AlterTable, 0},
	{"alter_role", (*G).AlterRole, 0},
	{"drop_database", (*G).DropDatabase, 0},
	{"drop_table", (*G).DropTable, 0},
	{"drop_user", (*G).DropUserOrRole, 0},
	{"truncate", (*G).Truncate, 0},
	{"rename", (*G).Rename, 0},
	{"insert", (*G).Insert, 0},
	{"delete", (*G).Delete, 0},
	{"use", (*G).Use, 0},
	{"set", (*G).Set, 0},
	{"optimize", (*G).Optimize, 0},
	{"check", (*G).Check, 0},
	{"explain", (*G).Explain, 0},
	{"show", (*G).Show, 0},
	{"describe", (*G).Describe, 0},
	{"system", (*G).System, 0},
	{"grant", (*G).Grant, 0},
}
