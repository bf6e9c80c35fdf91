package props

import (
	"fmt"
	"runtime"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
	"verif/mc/gram"
)

// A family is PRE U^n CORE V^n POST (In in that order); N, when given, limits
// the sizes.  The cost of a text is what it takes to parse it, accepted or
// not, and to print, walk and visit what was parsed.

type cost struct {
	n, length   int
	steps, heap int64
	out         int
	ok          bool
}

func family(in []string, n int) string {
	var b strings.Builder
	b.WriteString(in[0])
	for i := 0; i < n; i++ {
		b.WriteString(in[1])
	}
	b.WriteString(in[2])
	for i := 0; i < n; i++ {
		b.WriteString(in[3])
	}
	b.WriteString(in[4])
	return b.String()
}

// The absolute bound: steps <= stepA + stepB*L + stepC*L*L for L bytes.
const stepA, stepB, stepC = 200_000, 2_000, 40

func measure(c *eng.Ctx, src string, heap bool) (r cost) {
	l := int64(len(src))
	r.length = len(src)
	eng.StepLimit(stepA + stepB*l + stepC*l*l)
	var m0, m1 runtime.MemStats
	if heap {
		runtime.ReadMemStats(&m0)
	}
	st, err := Parse(c, src)
	r.ok = err == nil
	for _, s := range st {
		r.out += len(compact(s)) + len(beautify(s, "  "))
		p.Walk(s, func(p.Expr) bool { return true })
		_ = s.Accept(&p.DefaultASTVisitor{})
	}
	if err != nil {
		r.out += len(err.Error())
	}
	r.steps = eng.Steps()
	if heap {
		runtime.ReadMemStats(&m1)
		r.heap = int64(m1.TotalAlloc - m0.TotalAlloc)
	}
	return
}

func costCheck(c *eng.Ctx, k *eng.Case) error {
	sizes := []int{16, 32, 64, 128, 256}
	if c.Thorough {
		sizes = append(sizes, 512, 1024)
	}
	var prev cost
	for i, n := range sizes {
		src := family(k.In, n)
		if len(src) > 40_000 {
			break
		}
		cur := measure(c, src, i >= 3)
		cur.n = n
		if cur.ok {
			c.Accept()
		} else {
			c.Reject()
		}
		c.MaxOf("max_steps", cur.steps)
		c.MaxOf("max_steps_per_byte", cur.steps/int64(cur.length+1))
		if i > 0 {
			g := float64(n) / float64(prev.n)
			bound := 1.6 * g * g
			if cur.steps > 20_000 && float64(cur.steps) > bound*float64(prev.steps) {
				return fmt.Errorf("%d repetitions take %d steps, %d take %d: more than quadratic growth", prev.n, prev.steps, n, cur.steps)
			}
			if prev.heap > 0 && cur.heap > 4_000_000 && float64(cur.heap) > bound*float64(prev.heap) {
				return fmt.Errorf("%d repetitions allocate %d bytes, %d allocate %d: more than quadratic growth", prev.n, prev.heap, n, cur.heap)
			}
			if cur.out > 20_000 && float64(cur.out) > bound*float64(prev.out) {
				return fmt.Errorf("%d repetitions print %d bytes, %d print %d: more than quadratic growth", prev.n, prev.out, n, cur.out)
			}
			// linear so far: no need to go on
			if i >= 2 && float64(cur.steps) < 1.25*g*float64(prev.steps)+500 {
				c.Count("linear_families")
				return nil
			}
		}
		prev = cur
	}
	c.Count("superlinear_families")
	return nil
}

// repUnits are the tokens repeated, alone and in pairs.
var repUnits = []string{
	"(", ")", "[", "]", "{", "}", ",", ".", ":", "::", "?", "=", "*", "-", "+", "->", "||", "<",
	"a", "`q`", "7", "'s'", "f (", "x ->", "( x , y ) ->", "a ,", "( a ,", "[ a ,", "a AS b ,", "'k' :", "{ 'k' :",
	"SELECT", "( SELECT", "FROM", "FROM (", "AS", "NOT", "IN", "IN (", "ON", "WITH", "WITH a AS (", "SETTINGS", "NULL", "AND", "OR", "INTERVAL", "INTERVAL (", "DISTINCT", "UNION ALL SELECT", "EXCEPT",
	"ORDER BY", "GROUP BY", "CASE", "CASE WHEN", "WHEN", "THEN", "ELSE", "END", "GLOBAL", "JOIN", "JOIN (", "JOIN t ON", "CAST (", "COLUMNS (", "DATE", "BETWEEN", "IS", "LIKE", "DAY", "OVER (", "ARRAY JOIN", "LIMIT", "EXTRACT (", "Tuple (", "Array (", "Nested ( a", ";", "/* */", "-- \n", "\n",
}

var repCtx = []struct{ pre, core, post string }{
	{"SELECT ", " a", ""},
	{"SELECT a FROM ", " t", ""},
	{"SELECT a FROM t WHERE ", " a", ""},
	{"SELECT a FROM t ", " a", ""},
	{"SELECT a FROM t ORDER BY a ", "", ""},
	{"INSERT INTO t VALUES ( ", " 1", " )"},
	{"INSERT INTO t ( ", " a", " ) VALUES"},
	{"CREATE TABLE t ( a ", " Int8", " ) ENGINE = Memory"},
	{"CREATE TABLE t ( a Int8 DEFAULT ", " 1", " ) ENGINE = Memory"},
	{"CREATE TABLE t ( a Int8 ) ENGINE = Memory ", "", ""},
	{"ALTER TABLE t ", " DROP COLUMN a", ""},
	{"GRANT ", " SELECT", " ON a TO b"},
	{"CREATE USER u ", "", ""},
	{"WITH ", " a AS ( SELECT 1 )", " SELECT 1"},
	{"CREATE DICTIONARY d ( a Int8 ) PRIMARY KEY a ", " SOURCE ( NULL ( ) )", ""},
	{"", " SELECT 1", ""},
}

func repeats(c *eng.Ctx) {
	if !c.Begin("cost/units", fmt.Sprintf("every one and every ordered pair of %d units, repeated, in %d places", len(repUnits), len(repCtx))) {
		return
	}
	i := 0
	do := func(x struct{ pre, core, post string }, u string) bool {
		for _, v := range []string{"", closers(u)} {
			c.Edges(1)
			if !c.Do(&eng.Case{Kind: "cost", In: []string{x.pre, u + " ", x.core, v, x.post}}) {
				return false
			}
			if closers(u) == "" {
				break
			}
		}
		return true
	}
	for _, x := range repCtx {
		for _, u := range repUnits {
			i++
			if c.Mine(i) && !do(x, u) {
				return
			}
			for _, v := range repUnits {
				i++
				if c.Mine(i) && u != v && !do(x, u+" "+v) {
					return
				}
			}
		}
	}
}

// closers are the brackets that close those a unit opens.
func closers(u string) string {
	o := ""
	for _, r := range u {
		switch r {
		case '(':
			o = " )" + o
		case '[':
			o = " ]" + o
		case '{':
			o = " }" + o
		case ')', ']', '}':
			if len(o) < 2 {
				return ""
			}
			o = o[2:]
		}
	}
	return o
}

// nestFamilies repeats every pair of wrappers: closed, left open, and around a
// core that is an error.
func nestFamilies(c *eng.Ctx) {
	if !c.Begin("cost/nests", "every ordered pair of wrappers in every context: valid, cut off, and around a broken core") {
		return
	}
	i := 0
	for _, x := range nctxs {
		for ai, a := range wraps {
			for bi, b := range wraps {
				if a.cat != x.cat || b.cat != x.cat {
					continue
				}
				i++
				if !c.Mine(i) {
					continue
				}
				open, shut := a.open, a.shut
				if ai != bi {
					open, shut = a.open+b.open, b.shut+a.shut
				}
				for _, in := range [][]string{
					{x.pre, open, x.core, shut, x.post},
					{x.pre, open, x.core, "", ""},
					{x.pre, open, "", "", ""},
					{x.pre, open, ") ", shut, x.post},
					{x.pre, open, "WHERE ", shut, x.post},
					{x.pre, open, x.core + " 5 5 ", shut, x.post},
					{x.pre, open, x.core, shut, " 5 5 5"},
				} {
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: "cost", In: in}) {
						return
					}
				}
			}
		}
	}
}

// runFamilies repeats every run of tokens of each derivation, as it is and
// with commas between.
func runFamilies(c *eng.Ctx, b gram.Budget, max int) {
	if !c.Begin(fmt.Sprintf("cost/runs(%d,%d,%d)", b.Shape, b.Lex, b.Size), fmt.Sprintf("every run of 1..%d tokens of every derivation repeated, with blanks or commas between", max)) {
		return
	}
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			for i := 0; i < len(t); i++ {
				for j := i + 1; j <= len(t) && j <= i+max; j++ {
					u := joinToks(t[i:j])
					pre, post := joinToks(t[:i])+" ", u+" "+joinToks(t[j:])
					for _, sep := range []string{" ", " , "} {
						c.Edges(1)
						if !c.Do(&eng.Case{Kind: "cost", In: []string{pre, u + sep, "", "", post}}) {
							return false
						}
					}
				}
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}

// tokenFamilies grows single tokens, blanks and comments.
func tokenFamilies(c *eng.Ctx) {
	if !c.Begin("cost/tokens", "long tokens, blanks and comments of every kind, closed and cut off") {
		return
	}
	i := 0
	pieces := []string{"a", "_", "$", "0", "9", "1", "x", "''", "\\'", "\\\\", " ", "\n", "\t", "\r", "-- \n", "--\n", "/**/", "/* */", "*", "/", "-", "/*", ";", " ;", "`a`", "\"", "é", ".", "e"}
	for _, pre := range []string{"", "SELECT ", "SELECT a", "SELECT '", "SELECT `", "SELECT \"", "SELECT 1", "SELECT 1.", "SELECT 0x", "SELECT /*", "SELECT --", "SELECT a AS b, ", "SELECT (", "SELECT INTERVAL ", "SELECT INTERVAL (", "SELECT a FROM t"} {
		for _, u := range pieces {
			for _, v := range append([]string{""}, pieces...) {
				for _, post := range []string{"", "'", "`", "\"", "*/", " a", ")", "\n1"} {
					i++
					if !c.Mine(i) {
						continue
					}
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: "cost", In: []string{pre, u + v, "", "", post}}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P02",
		Notes: []string{
			"a step is one entry of a function or one iteration of a loop of the parser package, counted by calls inserted in a build overlay",
			"allocated bytes and output sizes are bounded as well, since copying inside library calls takes no step",
		},
		Space: func(c *eng.Ctx) {
			if !eng.Instrumented {
				eng.HarnessBug("P02 needs the instrumented build")
			}
			nestFamilies(c)
			runFamilies(c, gram.Budget{Shape: 0}, 12)
			runFamilies(c, gram.Budget{Shape: 1}, 6)
			tokenFamilies(c)
			repeats(c)
			if c.Thorough {
				runFamilies(c, gram.Budget{Shape: 1}, 12)
				runFamilies(c, gram.Budget{Shape: 2}, 6)
			}
		},
		Check: costCheck,
	})
}
