package props

import (
	"fmt"
	"strings"

	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

var gapSeps = []string{"", " ", "\n", "\r\n", "\t", "  \v\f ", "/**/", " /* ' */ ", "--\n", " -- it's ` \" (\r\n", "\u00a0", "/* a\n** b -- */"}

// joinGaps renders the tokens with one separator everywhere but at gap at.
func joinGaps(t []string, gaps []string) string {
	var b strings.Builder
	for i, x := range t {
		b.WriteString(gaps[i])
		b.WriteString(x)
	}
	b.WriteString(gaps[len(t)])
	return b.String()
}

// sameTokens: the reference lexer reads exactly these tokens.
func sameTokens(s string, t []string) bool {
	toks, err := gram.RefLex(s)
	if err != nil || len(toks) != len(t) {
		return false
	}
	for i := range t {
		if toks[i].Text != t[i] {
			return false
		}
	}
	return true
}

func defaultGaps(ts []gram.Tok) []string {
	g := make([]string, len(ts)+1)
	for i := 1; i < len(ts); i++ {
		if ts[i].Text != "." && ts[i-1].Text != "." {
			g[i] = " "
		}
	}
	return g
}

func dumps(c *eng.Ctx, src string) (string, error) {
	st, err := parseNote(c, src)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, s := range st {
		b.WriteString(astx.Dump(s))
		b.WriteByte('\n')
	}
	return b.String(), nil
}

var lastBase, lastDump string
var lastErr error

// layoutCheck: In[1] is In[0] in another layout or another keyword case.
func layoutCheck(c *eng.Ctx, k *eng.Case) error {
	if k.Kind == "edit" {
		return editLayouts(c, k)
	}
	if lastBase != k.In[0] || k.In[0] == "" {
		lastDump, lastErr = dumps(c, k.In[0])
		lastBase = k.In[0]
	}
	if lastErr != nil {
		return fmt.Errorf("base rejected: %s", firstLine(lastErr))
	}
	d, err := dumps(c, k.In[1])
	if err != nil {
		return fmt.Errorf("rejected: %s", firstLine(err))
	}
	a, b := lastDump, d
	if k.Kind == "case" {
		a, b = strings.ToLower(a), strings.ToLower(b)
	}
	c.Outcome(a)
	if a != b {
		return fmt.Errorf("another AST: %s", firstDiff(a, b))
	}
	return nil
}

// editLayouts: an edited sentence, accepted or not, means the same in any layout.
func editLayouts(c *eng.Ctx, k *eng.Case) error {
	src := k.In[0]
	toks, err := gram.RefLex(src)
	if err != nil {
		return nil // layout is undefined without tokens; P19 decides these
	}
	t := make([]string, len(toks))
	for i := range toks {
		t[i] = toks[i].Text
	}
	want, werr := dumps(c, src)
	for _, sep := range []string{"\n\t", " /* x */ "} {
		v := strings.Join(t, sep)
		if !sameTokens(v, t) {
			continue
		}
		got, gerr := dumps(c, v)
		if (werr == nil) != (gerr == nil) {
			return fmt.Errorf("accepted in one layout only: %v / %v", werr, gerr)
		}
		if want != got {
			return fmt.Errorf("another AST: %s", firstDiff(want, got))
		}
	}
	c.Outcome(want)
	return nil
}

func mixed(s string) string {
	b := []byte(strings.ToLower(s))
	for i := 0; i < len(b); i += 2 {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// title is the word with one capital.
func title(s string) string { return strings.ToUpper(s[:1]) + strings.ToLower(s[1:]) }

var recases = []func(string) string{strings.ToLower, mixed, title, strings.ToUpper}

// folds: the token is a word of the language, not a name of the user's.
func folds(t gram.Tok) bool { return t.Kind == gram.Kw || t.Word }

// layoutVariants enumerates the layouts of one derivation: each gap, all gaps,
// blanks only where needed.
func layoutVariants(c *eng.Ctx, g *gram.G, each bool) bool {
	t := textsOf(g)
	base := g.Source()
	do := func(v string) bool {
		c.Edges(1)
		return c.Do(&eng.Case{Kind: "layout", In: []string{base, v}})
	}
	gaps := defaultGaps(g.Src)
	if each {
		for i := 0; i <= len(t); i++ {
			old := gaps[i]
			for _, s := range gapSeps {
				if s == old {
					continue
				}
				gaps[i] = s
				v := joinGaps(t, gaps)
				// no separator may merge tokens, nor be eaten by the one before it
				if (s == "" || s[0] == '-' || s[0] == '/') && !sameTokens(v, t) {
					continue
				}
				if !do(v) {
					return false
				}
			}
			gaps[i] = old
		}
	}
	all := gapSeps[1:]
	if !each && !c.Thorough {
		all = []string{"\r\n", "/**/", " -- it's ` \" (\r\n"}
	}
	for _, s := range all {
		for i := range gaps {
			gaps[i] = s
		}
		if v := joinGaps(t, gaps); sameTokens(v, t) && !do(v) {
			return false
		}
	}
	// blanks only where two tokens would merge
	for i := range gaps {
		gaps[i] = ""
		if i > 0 && i < len(t) && !sameTokens(t[i-1]+t[i], []string{t[i-1], t[i]}) {
			gaps[i] = " "
		}
	}
	v := joinGaps(t, gaps)
	if !sameTokens(v, t) {
		c.Count("minimal_layout_skipped")
		return true
	}
	return do(v)
}

// caseVariants enumerates the keyword case variants of one derivation.
func caseVariants(c *eng.Ctx, g *gram.G, each bool) bool {
	t := textsOf(g)
	base := g.Source()
	gaps := defaultGaps(g.Src)
	do := func() bool {
		c.Edges(1)
		return c.Do(&eng.Case{Kind: "case", In: []string{base, joinGaps(t, gaps)}})
	}
	if each {
		for i, x := range g.Src {
			if !folds(x) {
				continue
			}
			for _, f := range recases {
				if f(x.Text) == x.Text {
					continue
				}
				t[i] = f(x.Text)
				if !do() {
					return false
				}
			}
			t[i] = x.Text
		}
	}
	for _, f := range recases {
		for i, x := range g.Src {
			if folds(x) {
				t[i] = f(x.Text)
			}
		}
		if !do() {
			return false
		}
	}
	return true
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P11",
		Notes: []string{
			"two layouts are the same tokens by an independent reference lexer",
			"case variants compare ASTs with letter case folded, since some fields keep a keyword as written",
		},
		Space: func(c *eng.Ctx) {
			vary := func(b gram.Budget, each bool) {
				DerivsFn(c, "layout", b, func(g *gram.G, _ string) bool { return layoutVariants(c, g, each) })
				DerivsFn(c, "case", b, func(g *gram.G, _ string) bool { return caseVariants(c, g, each) })
			}
			vary(gram.Budget{Shape: 2}, true)
			vary(gram.Budget{Shape: 1, Lex: 1}, true)
			vary(gram.Budget{Shape: 2, Lex: 1}, false)
			Edits(c, "edit", "edits-1", gram.Budget{Shape: 1}, junk, true)
			Exprs(c, "edit")
			wideGaps(c, scriptParts(gram.Budget{}))
			if c.Thorough {
				Edits(c, "edit", "edits-2", gram.Budget{Shape: 2}, nil, true)
				vary(gram.Budget{Shape: 1, Size: 1}, true)
				vary(gram.Budget{Shape: 3}, false)
				vary(gram.Budget{Shape: 2, Lex: 1}, true)
				vary(gram.Budget{Shape: 3}, true)
			}
		},
		Check: layoutCheck,
	})
}
