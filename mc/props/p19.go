package props

import (
	"fmt"

	"verif/mc/eng"
	"verif/mc/gram"
)

// malformed says why no statement can contain the text: brackets that do not
// pair up, a token cut short, a byte that is no token.
func malformed(src string) string {
	toks, err := gram.RefLex(src)
	if err != nil {
		return "it does not lex"
	}
	var stack []byte
	for i, t := range toks {
		if t.Kind != gram.Punct {
			continue
		}
		switch t.Text {
		case "(", "[", "{":
			stack = append(stack, t.Text[0])
		case ")", "]", "}":
			want := map[string]byte{")": '(', "]": '[', "}": '{'}[t.Text]
			if len(stack) == 0 || stack[len(stack)-1] != want {
				return fmt.Sprintf("token %d %q closes nothing", i, t.Text)
			}
			stack = stack[:len(stack)-1]
		case ";":
			if len(stack) > 0 {
				return "a semicolon inside brackets"
			}
		default:
			if len(t.Text) == 1 && !gram.IsTokenByte(t.Text[0]) {
				return fmt.Sprintf("byte %q is no token", t.Text)
			}
		}
	}
	if len(stack) > 0 {
		return fmt.Sprintf("%d brackets left open", len(stack))
	}
	return ""
}

func malformedCheck(c *eng.Ctx, k *eng.Case) error {
	src := srcOf(k)
	why := malformed(src)
	_, err := parseNote(c, src)
	if why == "" {
		c.Count("well_formed_variants")
		return nil
	}
	c.Count("malformed_inputs")
	c.Outcome(why)
	if err == nil {
		return fmt.Errorf("accepted although %s", why)
	}
	return nil
}

// strayBytes are the bytes that begin no token.
func strayBytes() []string {
	var out []string
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		t, err := gram.RefLex(s)
		switch {
		case b == '\'' || b == '"' || b == '`':
		case err != nil:
			out = append(out, s)
		case len(t) == 1 && t[0].Kind == gram.Punct && !gram.IsTokenByte(byte(b)):
			out = append(out, s)
		}
	}
	return append(out, "é", "\u200b", "\ufeff", "“", "’", "，", "&&", "~", "0x", "1e+", "1.2.3", "0b1", "12ab", "/*/", "/* x")
}

// breakings applies every change that leaves a derivation malformed: each
// bracket removed, doubled or replaced, a bracket put into each gap, each quoted
// token cut, a stray byte put into each gap.
func breakings(c *eng.Ctx, kind, name string, b gram.Budget, stray []string) {
	if !c.Begin(kind+"/"+name, fmt.Sprintf("every bracket removed, doubled, replaced or inserted, every quoted token cut, every one of %d stray tokens in every gap of derivations(%d,%d,%d)", len(stray), b.Shape, b.Lex, b.Size)) {
		return
	}
	brackets := []string{"(", ")", "[", "]", "{", "}"}
	do := func(t []string) bool {
		c.Edges(1)
		return c.Do(&eng.Case{Kind: kind, In: []string{joinToks(t)}})
	}
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			buf := make([]string, 0, len(t)+1)
			with := func(i, del int, w ...string) bool {
				buf = append(append(append(buf[:0], t[:i]...), w...), t[i+del:]...)
				return do(buf)
			}
			for i := 0; i <= len(t); i++ {
				for _, w := range brackets {
					if !with(i, 0, w) {
						return false
					}
				}
				for _, w := range stray {
					if !with(i, 0, w) {
						return false
					}
				}
				if i == len(t) {
					break
				}
				x := t[i]
				if contains(brackets, x) {
					if !with(i, 1) {
						return false
					}
					for _, w := range brackets {
						if w != x && !with(i, 1, w) {
							return false
						}
					}
				}
				if q := x[0]; q == '\'' || q == '"' || q == '`' {
					if !with(i, 1, x[:len(x)-1]) || !with(i, 1, x[1:]) || !with(i, 1, x[:1]) {
						return false
					}
					// cut: everything after is lost
					if !do(append(append(buf[:0], t[:i]...), x[:len(x)-1])) {
						return false
					}
				}
				for _, w := range stray {
					if !with(i, 1, w) {
						return false
					}
				}
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}

// nestBreakings: deep nests with one bracket missing or too many.
func nestBreakings(c *eng.Ctx, kind string, depths []int) {
	if !c.Begin(kind+"/nests", "each bracket of every nest removed or doubled") {
		return
	}
	i := 0
	for _, x := range nctxs {
		for ai, a := range wraps {
			for bi, b := range wraps {
				if a.cat != x.cat || b.cat != x.cat || !nestable(x, a, b) {
					continue
				}
				for _, d := range depths {
					if d > 4 && ai != bi {
						continue
					}
					i++
					if !c.Mine(i) {
						continue
					}
					t, _ := texts(nestSource(x, a, b, d))
					for j := range t {
						switch t[j] {
						case "(", ")", "[", "]", "{", "}":
						default:
							continue
						}
						for _, w := range [][]string{{}, {t[j], t[j]}} {
							v := append(append(append([]string{}, t[:j]...), w...), t[j+1:]...)
							c.Edges(1)
							if !c.Do(&eng.Case{Kind: kind, In: []string{joinToks(v)}}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:    "P19",
		Notes: []string{"whether an input is malformed is decided by an independent lexer and a bracket stack"},
		Space: func(c *eng.Ctx) {
			few := []string{"\\", "#", "\x00", "é", "'", "/*", "!", "1e", "^"}
			breakings(c, "bad", "breakings-stray-0", gram.Budget{Shape: 0, Lex: 0}, strayBytes())
			breakings(c, "bad", "breakings-1", gram.Budget{Shape: 1, Lex: 0}, few)
			breakings(c, "bad", "breakings-2", gram.Budget{Shape: 2, Lex: 0}, few)
			breakings(c, "bad", "breakings-lex", gram.Budget{Shape: 1, Lex: 1}, nil)
			nestBreakings(c, "bad", []int{1, 2, 3, 8, 17})
			ByteEdits(c, "bad", 400)
			al := []string{"(", ")", "[", "]", "{", "}", "'", "\"", "`", "\\", "a", "1", ",", " ", ";", ":", "-", "/", "*", "\n", "#", "!"}
			ByteStrings(c, "bad", "bytes-4", al, 4, []string{"SELECT ", "", "SELECT f(a, ", "INSERT INTO t VALUES (", "CREATE TABLE t ( a Array(", "SELECT {"})
			if c.Thorough {
				breakings(c, "bad", "breakings-stray-1", gram.Budget{Shape: 1, Lex: 0}, strayBytes())
				ByteStrings(c, "bad", "bytes-5", al, 5, []string{"SELECT ", "SELECT f(a, ", "SELECT {"})
				ByteEdits(c, "bad", 4000)
				breakings(c, "bad", "breakings-3", gram.Budget{Shape: 3, Lex: 0}, nil)
			}
		},
		Check: malformedCheck,
	})
}
