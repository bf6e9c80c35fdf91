package props

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
)

// refWriter is the reference for the exported Formatter.
type refWriter struct {
	out       []byte
	beautify  bool
	lineStart bool
	level     int
	indent    string
}

func newRefWriter() *refWriter { return &refWriter{lineStart: true, indent: "  "} }

func (w *refWriter) write(s string) {
	if !w.beautify {
		w.out = append(w.out, s...)
		return
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			w.lineStart = true
		} else if w.lineStart {
			for j := 0; j < w.level; j++ {
				w.out = append(w.out, w.indent...)
			}
			w.lineStart = false
		}
		w.out = append(w.out, s[i])
	}
}

// clientExpr is an expression written by a client of the package.
type clientExpr struct{ p.Ident }

func (*clientExpr) FormatSQL(f *p.Formatter) {
	f.WriteString("f(")
	f.Indent()
	f.NewLine()
	f.WriteByte('x')
	f.Dedent()
	f.Break()
	f.WriteString(")")
}

type fmtOp struct {
	name string
	real func(f *p.Formatter)
	ref  func(w *refWriter)
}

func fmtOps() []fmtOp {
	str := func(name, s string) fmtOp {
		return fmtOp{name, func(f *p.Formatter) { f.WriteString(s) }, func(w *refWriter) { w.write(s) }}
	}
	nl := func(w *refWriter) {
		if w.beautify {
			w.write("\n")
		}
	}
	br := func(w *refWriter) {
		if w.beautify {
			w.write("\n")
		} else {
			w.write(" ")
		}
	}
	in := func(w *refWriter) { w.level++ }
	de := func(w *refWriter) {
		if w.level > 0 {
			w.level--
		}
	}
	return []fmtOp{
		str("WriteString(ab)", "ab"),
		str("WriteString(c\\nd)", "c\nd"),
		str("WriteString(\\n)", "\n"),
		str("WriteString()", ""),
		str("WriteString(é\\n\\n é)", "é\n\n é"),
		{"WriteByte(x)", func(f *p.Formatter) { f.WriteByte('x') }, func(w *refWriter) { w.write("x") }},
		{"WriteByte(\\n)", func(f *p.Formatter) { f.WriteByte('\n') }, func(w *refWriter) { w.write("\n") }},
		{"WriteByte(0xff)", func(f *p.Formatter) { f.WriteByte(0xff) }, func(w *refWriter) { w.write("\xff") }},
		{"NewLine", func(f *p.Formatter) { f.NewLine() }, nl},
		{"Break", func(f *p.Formatter) { f.Break() }, br},
		{"Indent", func(f *p.Formatter) { f.Indent() }, in},
		{"Dedent", func(f *p.Formatter) { f.Dedent() }, de},
		{"WriteExpr(nil)", func(f *p.Formatter) { f.WriteExpr(nil) }, func(*refWriter) {}},
		{"WriteExpr(ident)", func(f *p.Formatter) { f.WriteExpr(&p.Ident{Name: "id"}) }, func(w *refWriter) { w.write("id") }},
		{"WriteExpr(client)", func(f *p.Formatter) { f.WriteExpr(&clientExpr{}) }, func(w *refWriter) {
			w.write("f(")
			in(w)
			nl(w)
			w.write("x")
			de(w)
			br(w)
			w.write(")")
		}},
		{"String", func(f *p.Formatter) { _ = f.String() }, func(*refWriter) {}},
		{"WithIndent(tab)", func(f *p.Formatter) { f.WithIndent("\t") }, func(w *refWriter) { w.indent = "\t" }},
		{"WithIndent()", func(f *p.Formatter) { f.WithIndent("") }, func(w *refWriter) { w.indent = "" }},
		{"WithBeautify", func(f *p.Formatter) { f.WithBeautify() }, func(w *refWriter) { w.beautify = true }},
	}
}

var p20ops = fmtOps()

// runOps runs one sequence on both; quiet is set when the sequence switches to
// beautify in the middle of a line, whose layout is unspecified.
func runOps(seq []int) (got, want string, skip bool) {
	f := p.NewFormatter()
	w := newRefWriter()
	for _, o := range seq {
		if p20ops[o].name == "WithBeautify" && !w.beautify && len(w.out) > 0 && w.out[len(w.out)-1] != '\n' {
			return "", "", true
		}
		p20ops[o].real(f)
		p20ops[o].ref(w)
	}
	return f.String(), string(w.out), false
}

func opNames(seq []int) string {
	var l []string
	for _, o := range seq {
		l = append(l, p20ops[o].name)
	}
	return strings.Join(l, "; ")
}

// P20 cases: N = [tail length, prefix ops...]; the check runs every extension
// of the prefix by up to tail operations.
func fmtCheck(c *eng.Ctx, k *eng.Case) error {
	tail, seq := k.N[0], append([]int{}, k.N[1:]...)
	var rec func(left int) error
	rec = func(left int) error {
		got, want, skip := runOps(seq)
		c.Exec()
		c.Edges(1)
		if skip {
			return nil
		}
		if got != want {
			return fmt.Errorf("after %s: %q, reference %q", opNames(seq), got, want)
		}
		if left == 0 {
			return nil
		}
		for o := range p20ops {
			seq = append(seq, o)
			if err := rec(left - 1); err != nil {
				return err
			}
			seq = seq[:len(seq)-1]
		}
		return nil
	}
	err := rec(tail)
	g, _, _ := runOps(seq)
	c.Outcome(g)
	return err
}

// fmtDeep: long repetitions of short cycles of operations (deep indents).
func fmtDeep(c *eng.Ctx) {
	if !c.Begin("ops/cycles", "every cycle of up to 3 operations, repeated 64 times, after WithBeautify and before a write") {
		return
	}
	n := len(p20ops)
	i := 0
	bt := n - 1
	for a := 0; a < n; a++ {
		for b := -1; b < n; b++ {
			for d := -1; d < n; d++ {
				if b < 0 && d >= 0 {
					continue
				}
				for pre := 0; pre < 2; pre++ {
					i++
					if !c.Mine(i) {
						continue
					}
					seq := []int{0}
					if pre == 1 {
						seq = append(seq, bt)
					}
					for r := 0; r < 64; r++ {
						for _, o := range []int{a, b, d} {
							if o >= 0 {
								seq = append(seq, o)
							}
						}
					}
					seq = append(seq, 9, 0)
					c.Edges(int64(len(seq)))
					if !c.Do(&eng.Case{Kind: "ops", N: seq}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P20",
		Notes: []string{
			"switching to beautify in the middle of a line is unspecified and not explored",
		},
		Space: func(c *eng.Ctx) {
			depth := 6
			if c.Thorough {
				depth = 7
			}
			if c.Begin("ops/sequences", fmt.Sprintf("every sequence of up to %d of %d operations", depth, len(p20ops))) {
				i := 0
				for a := range p20ops {
					for b := range p20ops {
						for d := range p20ops {
							i++
							if !c.Mine(i) {
								continue
							}
							if !c.Do(&eng.Case{Kind: "ops", N: []int{depth - 3, a, b, d}}) {
								return
							}
						}
					}
				}
			}
			fmtDeep(c)
		},
		Check: fmtCheck,
	})
}
