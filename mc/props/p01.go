package props

import (
	"encoding/json"
	"errors"
	"fmt"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
	"verif/mc/gram"
)

func totality(c *eng.Ctx, src string) error {
	st, err := parseNote(c, src)
	if err != nil {
		if st != nil && len(st) > 0 {
			return fmt.Errorf("both statements and an error returned")
		}
		var pe *p.ParseError
		if !errors.As(err, &pe) {
			return fmt.Errorf("error is no ParseError: %T", err)
		}
		c.Outcome(err.Error())
		if err.Error() == "" {
			return fmt.Errorf("empty error message")
		}
		return nil
	}
	for _, s := range st {
		if s == nil {
			return fmt.Errorf("nil statement")
		}
		c.Outcome(compact(s))
		beautify(s, "  ")
		p.Walk(s, func(n p.Expr) bool {
			n.Pos()
			n.End()
			if s, ok := n.(fmt.Stringer); ok {
				_ = s.String()
			}
			return true
		})
		p.WalkWithBreak(s, func(p.Expr) bool { return true })
		p.FindAll(s, func(p.Expr) bool { return false })
		if err := s.Accept(&p.DefaultASTVisitor{}); err != nil {
			return fmt.Errorf("Accept fails: %v", err)
		}
		if len(src) < 400 {
			if _, err := json.Marshal(s); err != nil {
				return fmt.Errorf("JSON marshalling fails: %v", err)
			}
		}
		// the nodes must stand alone as well
		if len(src) < 4000 {
			p.Walk(s, func(n p.Expr) bool { compact(n); return true })
		}
	}
	return nil
}

// bytes21 has one symbol of every lexical class.
var bytes21 = []string{"a", "1", "0", "x", "e", ".", "'", "`", "\"", "-", "+", "*", "/", "\\", " ", "\n", "(", ")", "[", "{", ":", ";", ",", "=", "<", ">", "|", "!", "?", "$", "@", "\x00", "\xc3", "é"}

func init() {
	eng.Register(&eng.Prop{
		ID: "P01",
		Notes: []string{
			"an endless loop is a case that exceeds 10,000,000 plus 2,000 per byte plus 40 per squared byte (at most 200,000,000 of these) counted steps (function entries and loop iterations of the instrumented package)",
			"nesting deeper than the bound may exhaust the goroutine stack; see the findings",
		},
		Space: func(c *eng.Ctx) {
			Derivs(c, "total", gram.Budget{Shape: 2})
			Derivs(c, "total", gram.Budget{Shape: 1, Lex: 1})
			Derivs(c, "total", gram.Budget{Shape: 1, Size: 1})
			CorpusCases(c, "total", 1<<20)
			Scale(c, "total", append(scriptParts(gram.Budget{}), cutOff(scriptParts(gram.Budget{}))...))
			Strs(c, "total", "long", "every kind of token and comment of up to 131073 bytes", longTokens())
			Exprs(c, "total")
			Nests(c, "total", nestDepths(c))
			ByteStrings(c, "total", "bytes", bytes21, 3, []string{"", "SELECT ", "SELECT a ", "SELECT a FROM t "})
			Edits(c, "total", "edits-1", gram.Budget{Shape: 1}, junk, true)
			Edits(c, "total", "edits-2", gram.Budget{Shape: 2}, nil, true)
			Edits(c, "total", "keyword-edits-1", gram.Budget{Shape: 1}, gram.Keywords, false)
			ByteEdits(c, "total", 600)
			Derivs(c, "total", gram.Budget{Shape: 2, Lex: 1})
			Derivs(c, "total", gram.Budget{Shape: 3})
			if c.Thorough {
				ByteEdits(c, "total", 3000)
				ByteStrings(c, "total", "bytes4", bytes21, 4, []string{"", "SELECT "})
				Edits(c, "total", "junk-2", gram.Budget{Shape: 2}, junk, false)
			}
		},
		Check: func(c *eng.Ctx, k *eng.Case) error { return totality(c, srcOf(k)) },
	})
}
