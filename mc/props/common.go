// Package props holds one file per property: the spaces it enumerates and the
// oracle that decides each case.
package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
	"verif/mc/gram"
)

// Parse runs the real parser.
func Parse(c *eng.Ctx, src string) ([]p.Expr, error) {
	c.Exec()
	return p.NewParser(src).ParseStmts()
}

// parseNote is Parse plus the accepted/rejected counters.
func parseNote(c *eng.Ctx, src string) ([]p.Expr, error) {
	st, err := Parse(c, src)
	if err != nil {
		c.Reject()
	} else {
		c.Accept()
	}
	return st, err
}

func compact(e p.Expr) string { return p.Format(e) }

func beautify(e p.Expr, indent string) string {
	f := p.NewFormatter()
	f.WithBeautify()
	f.WithIndent(indent)
	f.WriteExpr(e)
	return f.String()
}

// srcOf is the SQL of a case.
func srcOf(k *eng.Case) string {
	if k.D != nil {
		return k.D.Source()
	}
	return k.In[0]
}

// Derivs enumerates this shard's derivations of every grammar.
func Derivs(c *eng.Ctx, kind string, b gram.Budget, only ...string) {
	DerivsFn(c, kind, b, func(g *gram.G, name string) bool {
		return c.Do(&eng.Case{Kind: kind, Gram: name, Choices: g.Choices(), D: g})
	}, only...)
}

// DerivsFn is Derivs with the visitor supplied.
func DerivsFn(c *eng.Ctx, kind string, b gram.Budget, visit func(*gram.G, string) bool, only ...string) {
	if !c.Begin(fmt.Sprintf("%s/derivations(%d,%d,%d)", kind, b.Shape, b.Lex, b.Size),
		fmt.Sprintf("<=%d shape, <=%d spelling, <=%d length deviations", b.Shape, b.Lex, b.Size)) {
		return
	}
	for _, gr := range gram.Grammars {
		if len(only) > 0 && !contains(only, gr.Name) {
			continue
		}
		var st gram.Stats
		name := gr.Name
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool { return visit(g, name) })
		c.Edges(st.Points)
		if !ok {
			c.Incomplete()
			return
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var corpusCache []corpusFile

type corpusFile struct{ name, sql string }

// Corpus is the committed seed corpus.
func Corpus() []corpusFile {
	if corpusCache != nil {
		return corpusCache
	}
	dir := os.Getenv("MC_CORPUS")
	if dir == "" {
		self, _ := os.Executable()
		dir = filepath.Join(filepath.Dir(self), "..", "corpus")
	}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.sql"))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		corpusCache = append(corpusCache, corpusFile{filepath.Base(f), string(b)})
	}
	if len(corpusCache) == 0 {
		eng.HarnessBug("no corpus in %s", dir)
	}
	return corpusCache
}

// CorpusCases runs every corpus file (at most max bytes long) as one case.
func CorpusCases(c *eng.Ctx, kind string, max int) {
	if !c.Begin(kind+"/corpus", "every committed seed file") {
		return
	}
	for i, f := range Corpus() {
		if !c.Mine(i) || len(f.sql) > max {
			continue
		}
		if !c.Do(&eng.Case{Kind: kind, In: []string{f.sql}}) {
			return
		}
	}
}

// Strs runs each string as a case.
func Strs(c *eng.Ctx, kind, name, bound string, list []string) {
	if !c.Begin(kind+"/"+name, bound) {
		return
	}
	for i, s := range list {
		if !c.Mine(i) {
			continue
		}
		if !c.Do(&eng.Case{Kind: kind, In: []string{s}}) {
			return
		}
	}
}

// texts are the token texts of a string, or nil if it does not lex.
func texts(s string) ([]string, bool) {
	t, err := gram.RefLex(s)
	out := make([]string, len(t))
	for i := range t {
		out[i] = t[i].Text
	}
	return out, err == nil
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// firstDiff describes where two strings part.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("\n    want ...%s\n    got  ...%s", cut(a), cut(b))
}

func firstLine(err error) string { return strings.SplitN(err.Error(), "\n", 2)[0] }
