package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
)

// A wrapper encloses a string of its category in a larger one of the same
// category; the canonical text is the same as the source.
type wrap struct{ cat, name, open, shut string }

var wraps = []wrap{
	{"e", "paren", "( ", " )"},
	{"e", "call", "f ( ", " )"},
	{"e", "call2", "f ( a , ", " , b )"},
	{"e", "array", "[ ", " ]"},
	{"e", "tuple", "( a , ", " )"},
	{"e", "index", "a [ ", " ]"},
	{"e", "not", "NOT ", ""},
	{"e", "neg", "- ( ", " )"},
	{"e", "case", "CASE WHEN ", " THEN 1 END"},
	{"e", "caseelse", "CASE a WHEN 1 THEN 2 ELSE ", " END"},
	{"e", "cast", "CAST ( ", " AS Int8 )"},
	{"e", "add", "a + ", ""},
	{"e", "paradd", "a * ( b + ", " )"},
	{"e", "and", "a AND ", ""},
	{"e", "or", "a OR ( ", " )"},
	{"e", "in", "a IN ( 1 , ", " )"},
	{"e", "sub", "( SELECT ", " )"},
	{"e", "subwhere", "( SELECT a FROM t WHERE ", " )"},
	{"e", "map", "{ 'k' : ", " }"},
	{"e", "tern", "a ? b : ", ""},
	{"e", "lambda", "x -> ", ""},
	{"e", "interval", "INTERVAL ( ", " ) DAY"},
	{"e", "between", "a BETWEEN ( ", " ) AND 1"},
	{"e", "window", "sum ( a ) OVER ( ORDER BY ", " )"},
	{"e", "distinct", "count ( DISTINCT ", " )"},
	{"e", "extract", "EXTRACT ( DAY FROM ", " )"},
	{"e", "isnull", "( ", " ) IS NULL"},
	{"e", "dotnum", "( ", " ).1"},
	{"e", "idx2", "( ", " ) [ 1 ]"},
	{"q", "fromsub", "SELECT a FROM ( ", " )"},
	{"q", "with", "WITH c AS ( ", " ) SELECT a FROM c"},
	{"q", "union", "SELECT a UNION ALL ", ""},
	{"q", "join", "SELECT a FROM t JOIN ( ", " ) AS s ON 1 = 1"},
	{"q", "except", "SELECT a FROM t EXCEPT ", ""},
	{"q", "insub", "SELECT a WHERE a IN ( ", " )"},
	{"t", "array", "Array ( ", " )"},
	{"t", "nullable", "Nullable ( ", " )"},
	{"t", "map", "Map ( String , ", " )"},
	{"t", "tuple", "Tuple ( a ", " )"},
	{"t", "tuple2", "Tuple ( Int8 , ", " )"},
	{"t", "nested", "Nested ( a Int8 , b ", " )"},
	{"t", "json", "JSON ( a ", " )"},
}

// contexts in which a nest of each category is placed, with its core.
type nctx struct{ cat, pre, core, post string }

var nctxs = []nctx{
	{"e", "SELECT ", "c", ""},
	{"e", "SELECT a FROM t WHERE ", "1", " GROUP BY b"},
	{"e", "INSERT INTO t VALUES ( ", "'x'", " )"},
	{"e", "ALTER TABLE t UPDATE a = ( ", "c", " ) WHERE 1 = 1"},
	{"e", "CREATE TABLE t ( a Int8 DEFAULT ", "c", " ) ENGINE = Memory"},
	{"q", "", "SELECT c", ""},
	{"q", "CREATE VIEW v AS ", "SELECT c FROM t", ""},
	{"q", "INSERT INTO t ", "SELECT c FROM t LIMIT 1", ""},
	{"t", "CREATE TABLE t ( a ", "Int8", " ) ENGINE = Memory"},
	{"t", "SELECT CAST ( a AS ", "Int8", " )"},
}

// nestable reports whether the pair is in the accepted language: a WITH is not
// accepted right after a parenthesis in an expression, nor after INSERT INTO t.
func nestable(x nctx, a, b wrap) bool {
	if a.name == "insub" && b.name == "with" || a.name == "with" && b.name == "insub" {
		return false
	}
	return !(strings.HasPrefix(x.pre, "INSERT") && a.name == "with")
}

func nestDepths(c *eng.Ctx) []int {
	if c.Thorough {
		return []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32, 33, 48, 64, 70, 130, 260}
	}
	return []int{1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 33, 70, 130, 260}
}

// NestSource builds the nest: depth levels alternating the two wrappers.
func nestSource(x nctx, a, b wrap, depth int) string {
	var o strings.Builder
	o.WriteString(x.pre)
	for i := 0; i < depth; i++ {
		w := a
		if i%2 == 1 {
			w = b
		}
		o.WriteString(w.open)
	}
	o.WriteString(x.core)
	for i := depth - 1; i >= 0; i-- {
		w := a
		if i%2 == 1 {
			w = b
		}
		o.WriteString(w.shut)
	}
	o.WriteString(x.post)
	return strings.TrimSpace(o.String())
}

// Nests enumerates every pair of wrappers of a category, alternating, at every
// depth, in every context.
func Nests(c *eng.Ctx, kind string, depths []int) {
	if !c.Begin(kind+"/nests", fmt.Sprintf("every wrapper pair, depths up to %d", depths[len(depths)-1])) {
		return
	}
	i := 0
	for xi, x := range nctxs {
		for ai, a := range wraps {
			for bi, b := range wraps {
				if a.cat != x.cat || b.cat != x.cat || !nestable(x, a, b) {
					continue
				}
				for _, d := range depths {
					if d == 1 && ai != bi {
						continue
					}
					// the quick tier takes all pairs only where they are shallow
					if d > 8 && ai != bi && (ai+bi)%5 != 0 && !c.Thorough {
						continue
					}
					if d > 64 && ai != bi {
						continue
					}
					i++
					if !c.Mine(i) {
						continue
					}
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: kind, In: []string{nestSource(x, a, b, d)}, N: []int{xi, ai, bi, d}}) {
						return
					}
				}
			}
		}
	}
}

func nestFaithful(c *eng.Ctx, k *eng.Case) error {
	src := k.In[0]
	st, err := parseNote(c, src)
	if err != nil {
		return fmt.Errorf("valid nest rejected: %s", firstLine(err))
	}
	if len(st) != 1 {
		return fmt.Errorf("%d statements", len(st))
	}
	want, ok := texts(src)
	if !ok {
		eng.HarnessBug("nest does not lex: %s", src)
	}
	f := compact(st[0])
	got, _ := texts(f)
	c.Outcome(f)
	if !eqStrs(want, got) {
		return fmt.Errorf("nest printed differently: %s", firstDiff(strings.Join(want, " "), strings.Join(got, " ")))
	}
	return nil
}
