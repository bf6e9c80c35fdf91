package props

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// A slot is a statement with one name, written @.  The class says what the
// property promises there for a bare keyword:
//
//	any       every keyword is a name (after AS, after a dot, {name:Type})
//	name      every non-reserved keyword is a name, reserved ones are rejected
//	nonres    every non-reserved keyword is a name, reserved ones may start
//	          something else
//	quoted    nothing is promised for bare keywords
//
// except lists keywords with a meaning of their own right there.
type slot struct {
	class, sql string
	except     string
}

var slots = []slot{
	{"any", "SELECT 1 AS @", ""},
	{"any", "SELECT 1 AS @ FROM t", ""},
	{"any", "SELECT a , b AS @ , c FROM t", ""},
	{"any", "SELECT a FROM t AS @", ""},
	{"any", "SELECT a FROM t AS @ WHERE b = 1", ""},
	{"any", "SELECT a FROM ( SELECT 1 ) AS @", ""},
	{"any", "SELECT f ( a AS @ )", ""},
	{"any", "SELECT t . @ FROM t", ""},
	{"any", "SELECT a . b . @ FROM t", ""},
	{"any", "SELECT f ( t . @ , 1 )", ""},
	{"any", "SELECT a FROM t WHERE t . @ = 1", ""},
	{"any", "SELECT a FROM db . @", ""},
	{"any", "SELECT a FROM t JOIN db . @ ON 1 = 1", ""},
	{"any", "SELECT a WHERE b = { @ : Int8 }", ""},
	{"any", "SELECT f ( x ) OVER @ FROM t", ""},
	{"any", "SELECT f ( x ) FROM t WINDOW @ AS ( ORDER BY a )", ""},
	{"any", "INSERT INTO db . @ VALUES ( 1 )", ""},
	{"any", "DROP TABLE db . @", ""},
	{"any", "CREATE TABLE db . @ ( a Int8 ) ENGINE = Memory", ""},
	{"any", "ALTER TABLE db . @ DROP COLUMN a", ""},
	{"any", "TRUNCATE TABLE db . @", ""},
	{"any", "RENAME TABLE db . @ TO u", ""},
	{"any", "OPTIMIZE TABLE db . @", ""},
	{"any", "WITH 1 AS @ SELECT 1", ""},
	{"any", "SELECT a FROM t GROUP BY t . @", ""},
	{"any", "SELECT a FROM t ORDER BY t . @ DESC", ""},

	{"nonres", "SELECT @ FROM t", "TOP"},
	{"nonres", "SELECT a , @ , b FROM t", ""},
	{"nonres", "SELECT @", "TOP"},
	{"nonres", "SELECT @ AS x FROM t", "TOP"},
	{"nonres", "SELECT ( @ )", ""},
	{"nonres", "SELECT ( @ , 1 )", ""},
	{"nonres", "SELECT [ @ ]", ""},
	{"nonres", "SELECT [ 1 , @ ]", ""},
	{"nonres", "SELECT f ( @ )", ""},
	{"nonres", "SELECT f ( @ , 1 )", ""},
	{"nonres", "SELECT f ( 1 , @ )", ""},
	{"nonres", "SELECT @ + 1", "TOP"},
	{"nonres", "SELECT 1 + @", ""},
	{"nonres", "SELECT @ = 1", "TOP"},
	{"nonres", "SELECT @ . a FROM t", "TOP"},
	{"nonres", "SELECT @ [ 1 ] FROM t", "TOP"},
	{"nonres", "SELECT a [ @ ] FROM t", ""},
	{"nonres", "SELECT a FROM t WHERE @", ""},
	{"nonres", "SELECT a FROM t WHERE @ = 1", ""},
	{"nonres", "SELECT a FROM t WHERE 1 = @", ""},
	{"nonres", "SELECT a FROM t WHERE @ > 1 AND b < 2", ""},
	{"nonres", "SELECT a FROM t WHERE b > 1 AND @ < 2", ""},
	{"nonres", "SELECT a FROM t WHERE @ IN ( 1 , 2 )", ""},
	{"nonres", "SELECT a FROM t WHERE @ IS NULL", ""},
	{"nonres", "SELECT a FROM t WHERE @ LIKE 'x'", ""},
	{"nonres", "SELECT a FROM t WHERE @ BETWEEN 1 AND 2", ""},
	{"nonres", "SELECT a FROM t GROUP BY @", "ALL CUBE ROLLUP"},
	{"nonres", "SELECT a FROM t GROUP BY b , @", ""},
	{"nonres", "SELECT a FROM t ORDER BY @", ""},
	{"nonres", "SELECT a FROM t ORDER BY @ DESC , b", ""},
	{"nonres", "SELECT a FROM t ORDER BY b , @", ""},
	{"nonres", "SELECT a FROM t HAVING @ = 1", ""},
	{"nonres", "SELECT a FROM t JOIN u USING ( @ )", ""},
	{"nonres", "SELECT a FROM t JOIN u ON t . a = @ . b", ""},
	{"nonres", "SELECT CASE WHEN @ > 1 THEN 2 END", ""},
	{"nonres", "SELECT CASE WHEN 1 THEN @ ELSE 2 END", ""},
	{"nonres", "SELECT CASE @ WHEN 1 THEN 2 END", "END INTERSECT"},
	{"nonres", "SELECT CAST ( @ AS Int8 )", ""},
	{"nonres", "SELECT x -> @ + 1", ""},
	{"nonres", "SELECT @ :: Int8", "TOP"},
	{"nonres", "SELECT - @", ""},
	{"nonres", "SELECT NOT @", ""},

	{"name", "SELECT a FROM @", ""},
	{"name", "SELECT a FROM @ WHERE b = 1", ""},
	{"name", "SELECT a FROM @ . t", ""},
	{"name", "SELECT a FROM t JOIN @ ON 1 = 1", ""},
	{"name", "SELECT a FROM t , @", ""},
	{"name", "INSERT INTO @ VALUES ( 1 )", "TABLE FUNCTION"},
	{"name", "INSERT INTO t ( @ ) VALUES ( 1 )", ""},
	{"name", "INSERT INTO t ( a , @ ) VALUES ( 1 , 2 )", ""},
	{"name", "INSERT INTO t ( @ , a ) VALUES ( 1 , 2 )", ""},
	{"name", "CREATE TABLE @ ( a Int8 ) ENGINE = Memory", "IF"},
	{"name", "CREATE TABLE t ( @ Int8 ) ENGINE = Memory", "CONSTRAINT INDEX PROJECTION"},
	{"name", "CREATE TABLE t ( a Int8 , @ Int8 , b Int8 ) ENGINE = Memory", "CONSTRAINT INDEX PROJECTION"},
	{"name", "CREATE VIEW @ AS SELECT 1", "IF"},
	{"name", "CREATE DATABASE @", "IF"},
	{"name", "DROP TABLE @", "IF"},
	{"name", "DROP DATABASE @", "IF"},
	{"name", "TRUNCATE TABLE @", "IF"},
	{"name", "OPTIMIZE TABLE @", ""},
	{"name", "CHECK TABLE @", ""},
	{"name", "USE @", ""},
	{"name", "RENAME TABLE @ TO u", ""},
	{"name", "RENAME TABLE t TO @", ""},
	{"name", "DELETE FROM @ WHERE a = 1", ""},
	{"name", "ALTER TABLE @ DROP COLUMN a", ""},
	{"name", "ALTER TABLE t DROP COLUMN @", "IF"},
	{"name", "ALTER TABLE t ADD COLUMN @ Int8", "IF"},
	{"name", "ALTER TABLE t RENAME COLUMN @ TO b", "IF"},
	{"name", "ALTER TABLE t RENAME COLUMN a TO @", ""},
	{"name", "ALTER TABLE t MODIFY COLUMN @ Int8", "IF"},
	{"name", "ALTER TABLE t CLEAR COLUMN @", "IF"},
	{"name", "CREATE ROLE @", "IF"},
	{"name", "DROP USER @", "IF"},
	{"name", "SELECT a @ FROM t", "APPLY GLOBAL REGEXP REPLACE"},
	{"name", "SELECT a @ , b FROM t", "APPLY GLOBAL REGEXP REPLACE"},
	{"quoted", "SELECT a FROM t @ WHERE b = 1", ""},
	{"quoted", "SELECT a FROM t @", ""},
	{"nonres", "SELECT @ ( 1 )", "TOP CAST EXTRACT"},
	{"name", "SELECT a FROM @ ( 1 )", ""},
	{"nonres", "WITH @ AS ( SELECT 1 ) SELECT 1", ""},
	{"name", "SELECT a FROM t SETTINGS @ = 1", ""},
	{"name", "SET @ = 1", ""},
	{"name", "GRANT SELECT ON @ . * TO john", ""},
	{"nonres", "GRANT SELECT ( @ ) ON t TO john", ""},
	{"name", "CREATE FUNCTION @ AS ( x ) -> x", "IF"},
	{"nonres", "CREATE FUNCTION g AS ( @ ) -> 1", ""},
	{"nonres", "SELECT x , ( @ , y ) -> 1", ""},
	{"name", "SELECT a FROM t ORDER BY a INTERPOLATE ( @ )", ""},
	{"name", "DESCRIBE TABLE @", ""},
	{"name", "CREATE TABLE t ( a Int8 ) ENGINE = @", ""},
	{"name", "CREATE TABLE t ( a @ ) ENGINE = Memory", "REMOVE"},
	{"name", "CREATE TABLE t ( a Tuple ( @ Int8 ) ) ENGINE = Memory", ""},
	{"name", "CREATE TABLE t ( a Int8 , INDEX @ a TYPE minmax GRANULARITY 1 ) ENGINE = Memory", ""},
	{"name", "CREATE TABLE t ON CLUSTER @ ( a Int8 ) ENGINE = Memory", ""},
}

func exceptIn(s slot, kw string) bool {
	for _, w := range strings.Fields(s.except) {
		if w == kw {
			return true
		}
	}
	return false
}

const plainName = "zzq"

func quoteAs(form int, w string) string {
	switch form {
	case 1:
		return "`" + w + "`"
	case 2:
		return "\"" + w + "\""
	}
	return w
}

// kwCheck: In = statement with the keyword, the same with an ordinary name,
// the keyword; N = what is expected: 0 accepted alike, 1 rejected, 2 alike if
// accepted at all.
func kwCheck(c *eng.Ctx, k *eng.Case) error {
	st, err := parseNote(c, k.In[0])
	switch k.N[0] {
	case 1:
		if err == nil {
			return fmt.Errorf("the reserved word %s is accepted as a bare name", k.In[2])
		}
		return nil
	case 2:
		if err != nil {
			return nil
		}
	}
	base, berr := Parse(c, k.In[1])
	if berr != nil {
		if k.N[0] == 0 && err != nil {
			return fmt.Errorf("rejected, and so is an ordinary name: %s", firstLine(berr))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s is rejected where an ordinary name is accepted: %s", k.In[2], firstLine(err))
	}
	want := strings.ReplaceAll(dumpAll(base), `"`+plainName+`"`, `"`+k.In[2]+`"`)
	got := dumpAll(st)
	c.Outcome(got)
	if got != want {
		return fmt.Errorf("%s does not mean the same as an ordinary name: %s", k.In[2], firstDiff(want, got))
	}
	for i := range st {
		w, _ := texts(strings.ReplaceAll(compact(base[i]), plainName, k.In[2]))
		g, _ := texts(compact(st[i]))
		if !eqStrs(w, g) {
			return fmt.Errorf("%s is printed differently from an ordinary name: %s", k.In[2], firstDiff(strings.Join(w, " "), strings.Join(g, " ")))
		}
	}
	return nil
}

func dumpAll(st []p.Expr) string {
	var b strings.Builder
	for _, s := range st {
		b.WriteString(astx.Dump(s))
		b.WriteByte(';')
	}
	return b.String()
}

func kwSlots(c *eng.Ctx) {
	if !c.Begin("keyword/slots", fmt.Sprintf("every keyword, bare in four letter cases and quoted, in %d places", len(slots))) {
		return
	}
	i := 0
	for _, s := range slots {
		for _, kw := range gram.Keywords {
			i++
			if !c.Mine(i) {
				continue
			}
			for ci, w := range []string{strings.ToUpper(kw), strings.ToLower(kw), mixed(kw), kw[:1] + strings.ToLower(kw[1:])} {
				for form := 0; form < 3; form++ {
					if form == 2 && ci > 1 {
						continue
					}
					expect := 0
					if form == 0 {
						switch {
						case exceptIn(s, kw):
							continue
						case s.class == "quoted":
							continue
						case s.class == "any":
						case gram.Reserved[kw] && s.class == "name":
							expect = 1
						case gram.Reserved[kw]:
							expect = 3
						}
						if expect == 3 {
							continue
						}
					}
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: "keyword", N: []int{expect}, In: []string{
						strings.ReplaceAll(s.sql, "@", quoteAs(form, w)),
						strings.ReplaceAll(s.sql, "@", quoteAs(form, plainName)), w}}) {
						return
					}
				}
			}
		}
	}
}

// kwDerivs puts every keyword into every name slot of the derivations.
func kwDerivs(c *eng.Ctx, b gram.Budget) {
	if !c.Begin(fmt.Sprintf("keyword/derivations(%d,%d,%d)", b.Shape, b.Lex, b.Size), "every keyword in quotes, and bare where allowed, in every name slot") {
		return
	}
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			for i, tok := range g.Src {
				if !tok.Free || tok.Kind != gram.IdentK {
					continue
				}
				old := t[i]
				var base [3]string
				for form := range base {
					t[i] = quoteAs(form, plainName)
					base[form] = gram.JoinTexts(g.Src, t)
				}
				for _, kw := range gram.Keywords {
					for form := 0; form < 2; form++ {
						if form == 0 && (!tok.KwOK || gram.Reserved[kw] || kwTaken(g, i, kw)) {
							continue
						}
						w := strings.ToLower(kw)
						t[i] = quoteAs(form, w)
						c.Edges(1)
						if !c.Do(&eng.Case{Kind: "keyword", N: []int{0}, In: []string{gram.JoinTexts(g.Src, t), base[form], w}}) {
							return false
						}
					}
				}
				t[i] = old
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}

// kwTaken: the keyword has a meaning of its own at this place.
func kwTaken(g *gram.G, i int, kw string) bool {
	prev, next := "", ""
	if i > 0 {
		prev = g.Src[i-1].Text
	}
	if i+1 < len(g.Src) {
		next = g.Src[i+1].Text
	}
	switch kw {
	case "TOP":
		return prev == "SELECT" || prev == "DISTINCT" || prev == ")"
	case "INTERSECT": // a comma may end the select list before a set operation
		return prev == ","
	case "CAST", "EXTRACT":
		return next == "("
	case "ALL", "CUBE", "ROLLUP":
		return prev == "BY"
	case "NONE": // a constraint word among the settings of a role or user
		return len(g.Src) > 1 && (strings.EqualFold(g.Src[1].Text, "ROLE") || strings.EqualFold(g.Src[1].Text, "USER")) && (prev == "SETTINGS" || prev == ",")
	}
	return false
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P14",
		Space: func(c *eng.Ctx) {
			kwSlots(c)
			kwDerivs(c, gram.Budget{Shape: 1})
			if c.Thorough {
				kwDerivs(c, gram.Budget{Shape: 2})
			}
		},
		Check: kwCheck,
	})
}
