package props

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// seps join two statements: every one contains exactly one semicolon token.
var seps = []string{";", " ; ", ";\n", "\n;\r\n\t", " -- c ; c\n;/* ; */ ", ";-- x;\n", "/**/;", ";;", "; ;\n;"}

// tails may follow the last statement.
var tails = []string{"", ";", " ;\n", "\n-- the ; end", " ; /* ; */ ", ";;", " ; \n; ;"}

// scriptParts lists statement texts: one per derivation within b.
func scriptParts(b gram.Budget) (out []string) {
	for _, gr := range gram.Grammars {
		var st gram.Stats
		gr.Explore(b, 0, 1, &st, func(g *gram.G) bool {
			out = append(out, g.Source())
			return true
		})
	}
	return
}

// badParts are statements that are no statements; the error is at the marked
// place inside, at the end, or lexical.
var badParts = []string{
	"SELECT", "SELECT a FROM", "SELECT a FROM (SELECT b", "x", "SELECT a b c", "INSERT INTO t VALUES (1", "CREATE TABLE t (", "DROP", "SELECT 1a", "ALTER TABLE t ADD", ")", "SELECT INTERVAL", "SELECT a, FROM WHERE", "SET a =", "GRANT SELECT ON t TO", "SELECT \x00",
}

// cutParts swallow all that follows, so they only come last.
var cutParts = []string{"SELECT 'a", "SELECT a /* b", "SELECT `a", "SELECT \"a", "'", "/*"}

func blank(s string) string { return strings.Repeat(" ", len(s)) }

// scriptCheck decides one script.  In = parts; N = separator per gap, tail last.
// All parts but at most one are statements.
func scriptCheck(c *eng.Ctx, k *eng.Case) error {
	if k.Kind == "groups" {
		return groupsCheck(c, k)
	}
	if k.Kind == "joined" {
		return joinedCheck(c, k)
	}
	var full strings.Builder
	type span struct{ lo, hi, end int }
	var sp []span
	for i, s := range k.In {
		lo := full.Len()
		full.WriteString(s)
		hi := full.Len()
		if i+1 < len(k.In) {
			full.WriteString(seps[k.N[i]])
		} else {
			full.WriteString(tails[k.N[i]])
		}
		sp = append(sp, span{lo, hi, full.Len()})
	}
	src := full.String()
	got, err := parseNote(c, src)
	// alone: the statement at its place, everything else blanked out
	alone := func(i int) ([]p.Expr, error) {
		return Parse(c, blank(src[:sp[i].lo])+src[sp[i].lo:sp[i].end]+blank(src[sp[i].end:]))
	}
	for i := range k.In {
		want, werr := alone(i)
		if werr != nil {
			if k.Kind == "good" {
				return fmt.Errorf("statement %d alone is rejected: %s", i, firstLine(werr))
			}
			if err == nil {
				return fmt.Errorf("script accepted although statement %d is rejected: %s", i, firstLine(werr))
			}
			if len(got) != 0 {
				return fmt.Errorf("%d statements returned with the error", len(got))
			}
			var a, b *p.ParseError
			if !errors.As(err, &a) || !errors.As(werr, &b) {
				return fmt.Errorf("not a ParseError: %v / %v", err, werr)
			}
			if a.Pos != b.Pos {
				return fmt.Errorf("error at %d, that of statement %d alone is at %d", a.Pos, i, b.Pos)
			}
			if x, y := errText(a), errText(b); x != y {
				return fmt.Errorf("error %q, that of statement %d alone is %q", x, i, y)
			}
			c.Outcome(errText(a))
			return nil
		}
		if err != nil {
			continue
		}
		if len(want) != 1 {
			return fmt.Errorf("statement %d alone gives %d statements", i, len(want))
		}
		if i >= len(got) {
			return fmt.Errorf("%d statements parsed of %d", len(got), len(k.In))
		}
		if a, b := astx.DumpPos(want[0]), astx.DumpPos(got[i]); a != b {
			return fmt.Errorf("statement %d differs from the one parsed alone: %s", i, firstDiff(a, b))
		}
	}
	if err != nil {
		return fmt.Errorf("script of valid statements rejected: %s", firstLine(err))
	}
	if len(got) != len(k.In) {
		return fmt.Errorf("%d statements parsed of %d", len(got), len(k.In))
	}
	if a, b := fmt.Sprint(len(got)), fmt.Sprint(len(k.In)); a != b {
		return fmt.Errorf("%s statements of %s", a, b)
	}
	c.Outcome(astx.Dump(got[len(got)-1]))
	return nil
}

// errText is the first line of the message without line and column.
func errText(e error) string {
	l := firstLine(e)
	if strings.HasPrefix(l, "line ") {
		if i := strings.IndexByte(l[5:], ' '); i >= 0 {
			return l[5+i+1:]
		}
	}
	return l
}

// groupsCheck: a script of any symbols is its groups of tokens between the
// semicolons, each of which is parsed alone with all the rest blanked out.
func groupsCheck(c *eng.Ctx, k *eng.Case) error {
	src := strings.Join(k.In, " ")
	toks, lerr := gram.RefLex(src)
	if lerr != nil {
		eng.HarnessBug("script does not lex: %q", src)
	}
	got, err := parseNote(c, src)
	var want []p.Expr
	for i := 0; i < len(toks); {
		j := i
		for j < len(toks) && toks[j].Text != ";" {
			j++
		}
		if j == i {
			i++
			continue
		}
		end := len(src)
		if j < len(toks) {
			end = toks[j].RawEnd
		}
		st, werr := Parse(c, blank(src[:toks[i].RawStart])+src[toks[i].RawStart:end]+blank(src[end:]))
		if werr != nil {
			if err == nil {
				return fmt.Errorf("script accepted although %q is rejected: %s", src[toks[i].RawStart:end], firstLine(werr))
			}
			var a, b *p.ParseError
			if !errors.As(err, &a) || !errors.As(werr, &b) {
				return fmt.Errorf("not a ParseError: %v / %v", err, werr)
			}
			if x, y := fmt.Sprint(a.Pos, errText(a)), fmt.Sprint(b.Pos, errText(b)); x != y {
				return fmt.Errorf("error %q, that of the first invalid statement alone is %q", x, y)
			}
			if len(got) != 0 {
				return fmt.Errorf("%d statements returned with the error", len(got))
			}
			c.Outcome(errText(a))
			return nil
		}
		if len(st) != 1 {
			return fmt.Errorf("%q gives %d statements", src[toks[i].RawStart:end], len(st))
		}
		want = append(want, st[0])
		i = j
	}
	if err != nil {
		return fmt.Errorf("script of valid statements rejected: %s", firstLine(err))
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d statements parsed of %d", len(got), len(want))
	}
	for i := range want {
		if a, b := astx.DumpPos(want[i]), astx.DumpPos(got[i]); a != b {
			return fmt.Errorf("statement %d differs from the one parsed alone: %s", i, firstDiff(a, b))
		}
	}
	c.Outcome(fmt.Sprint(len(got)))
	return nil
}

// joinedCheck: two statements without a semicolon are one statement holding
// every word of both, or an error.
func joinedCheck(c *eng.Ctx, k *eng.Case) error {
	src := k.In[0] + "\n" + k.In[1]
	got, err := parseNote(c, src)
	if err != nil {
		c.Outcome(errText(err))
		return nil
	}
	c.Count("joined_accepted")
	if len(got) != 1 {
		return fmt.Errorf("%d statements without a semicolon between them", len(got))
	}
	want, _ := gram.RefLex(src)
	have, herr := gram.RefLex(compact(got[0]))
	if herr != nil {
		return fmt.Errorf("formatted text does not lex")
	}
	if d := leafDiff(want, have); d != "" {
		return fmt.Errorf("joined statements accepted, but %s", d)
	}
	return nil
}

// leafDiff compares the literals and quoted names of two token lists.
func leafDiff(a, b []gram.RTok) string {
	n := map[string]int{}
	for _, t := range a {
		if t.Kind == gram.StrK || t.Kind == gram.NumK || t.Kind == gram.IdentK && !gram.IsKeyword(strings.ToUpper(t.Text)) {
			n[t.Text]++
		}
	}
	for _, t := range b {
		if t.Kind == gram.StrK || t.Kind == gram.NumK || t.Kind == gram.IdentK && !gram.IsKeyword(strings.ToUpper(t.Text)) {
			n[t.Text]--
		}
	}
	for t, x := range n {
		if x != 0 {
			return fmt.Sprintf("%s occurs %+d times more in the source than in the formatted text", t, x)
		}
	}
	return ""
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P12",
		Notes: []string{
			"a statement alone is the same text with everything around it blanked out, so positions must agree exactly",
		},
		Space: func(c *eng.Ctx) {
			base := scriptParts(gram.Budget{})
			one := scriptParts(gram.Budget{Shape: 1})
			lex := scriptParts(gram.Budget{Lex: 1})
			run := func(name, bound, kind string, f func(do func(parts []string, n []int) bool)) {
				if !c.Begin("script/"+name, bound) {
					return
				}
				i := 0
				f(func(parts []string, n []int) bool {
					i++
					if !c.Mine(i) {
						return true
					}
					c.Edges(int64(len(parts)))
					return c.Do(&eng.Case{Kind: kind, In: parts, N: n})
				})
			}
			run("pairs", "every statement kind before and after every derivation(1,0,0) and (0,1,0), every separator in turn", "good", func(do func([]string, []int) bool) {
				j := 0
				for _, a := range base {
					for _, l := range [][]string{one, lex} {
						for _, b := range l {
							j++
							if !do([]string{a, b}, []int{j % len(seps), j % len(tails)}) ||
								!do([]string{b, a}, []int{j % len(seps), j % len(tails)}) {
								return
							}
						}
					}
				}
			})
			run("separators", "every pair of statement kinds, every separator and tail", "good", func(do func([]string, []int) bool) {
				for _, a := range base {
					for _, b := range base {
						for s := range seps {
							for t := range tails {
								if !do([]string{a, b}, []int{s, t}) {
									return
								}
							}
						}
					}
				}
			})
			symbols := []string{"USE a", ";", "SELECT 1", "x", "/* ; */", "-- ;\n", "SELECT ';', `;`"}
			depth := 6
			if c.Thorough {
				depth = 8
			}
			run("symbols", fmt.Sprintf("every sequence of up to %d of %d symbols", depth, len(symbols)), "groups", func(do func([]string, []int) bool) {
				var rec func(s []string) bool
				rec = func(s []string) bool {
					if !do(append([]string{}, s...), nil) {
						return false
					}
					if len(s) == depth {
						return true
					}
					for _, x := range symbols {
						if !rec(append(s, x)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			})
			run("triples", "every triple of statement kinds", "good", func(do func([]string, []int) bool) {
				for i, a := range base {
					for j, b := range base {
						for l, d := range base {
							if !do([]string{a, b, d}, []int{(i + l) % len(seps), j % len(seps), l % len(tails)}) {
								return
							}
						}
					}
				}
			})
			run("long", "scripts of up to 257 copies of each statement kind", "good", func(do func([]string, []int) bool) {
				for _, a := range base {
					for _, n := range []int{4, 5, 8, 16, 17, 33, 64, 65, 70, 128, 129, 200, 257} {
						var parts []string
						var seq []int
						for i := 0; i < n; i++ {
							parts = append(parts, a)
							seq = append(seq, i%len(seps))
						}
						seq[n-1] = 1
						if !do(parts, seq) {
							return
						}
					}
				}
			})
			run("wide", "every statement kind after and before another, with one gap of up to 131073 bytes at any place of it", "good", func(do func([]string, []int) bool) {
				for i, a := range base {
					b := base[(i+1)%len(base)]
					if !padded(a, func(v string) bool {
						return do([]string{v, b}, []int{i % len(seps), 0}) && do([]string{b, v}, []int{i % len(seps), 1})
					}) {
						return
					}
				}
			})
			run("invalid", "each invalid statement before, between and after all pairs of statement kinds, every separator", "bad", func(do func([]string, []int) bool) {
				for _, x := range badParts {
					for _, a := range base {
						for s := range seps {
							if !do([]string{a, x}, []int{s, 0}) || !do([]string{x, a}, []int{s, 1}) || !do([]string{x, a, x}, []int{s, s, 0}) {
								return
							}
						}
						for _, b := range base {
							if !do([]string{a, x, b}, []int{0, 2, 0}) || !do([]string{a, b, x}, []int{1, 0, 1}) {
								return
							}
						}
					}
				}
			})
			run("unterminated", "each unterminated literal or comment after all pairs of statement kinds, every separator", "bad", func(do func([]string, []int) bool) {
				for _, x := range cutParts {
					for _, a := range base {
						for _, b := range base {
							for s := range seps {
								if !do([]string{a, b, x}, []int{1, s, 0}) {
									return
								}
							}
						}
					}
				}
			})
			run("cuts", "every derivation(1,0,0) cut at every token, before and after a statement", "bad", func(do func([]string, []int) bool) {
				for i, s := range one {
					t, _ := texts(s)
					a := base[i%len(base)]
					for j := 1; j < len(t); j++ {
						if !do([]string{a, joinToks(t[:j]), a}, []int{j % len(seps), i % len(seps), 0}) || !do([]string{joinToks(t[j:]), a}, []int{1, 0}) {
							return
						}
					}
				}
			})
			run("missing", "every statement kind next to every derivation(1,0,0) without a semicolon", "joined", func(do func([]string, []int) bool) {
				for _, a := range base {
					for _, b := range one {
						if !do([]string{a, b}, nil) || !do([]string{b, a}, nil) {
							return
						}
					}
				}
			})
			run("pairs-1-1", "every pair of derivations(1,0,0)", "good", func(do func([]string, []int) bool) {
				for i, a := range one {
					for j, b := range one {
						if !do([]string{a, b}, []int{(i + j) % len(seps), i % len(tails)}) {
							return
						}
					}
				}
			})
			if c.Thorough {
				two := scriptParts(gram.Budget{Shape: 2})
				run("pairs-0-2", "every statement kind before and after every derivation(2,0,0)", "good", func(do func([]string, []int) bool) {
					for i, a := range base {
						for j, b := range two {
							if !do([]string{a, b}, []int{(i + j) % len(seps), i % len(tails)}) || !do([]string{b, a}, []int{(i + j) % len(seps), j % len(tails)}) {
								return
							}
						}
					}
				})
				run("missing-2", "every statement kind next to every derivation(2,0,0) without a semicolon", "joined", func(do func([]string, []int) bool) {
					for _, a := range base {
						for _, b := range two {
							if !do([]string{a, b}, nil) || !do([]string{b, a}, nil) {
								return
							}
						}
					}
				})
			}
		},
		Check: scriptCheck,
	})
}
