package props

import (
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// stdSpaces runs the spaces shared by the properties that quantify over
// accepted statements.
func stdSpaces(c *eng.Ctx, kind string) {
	Derivs(c, kind, gram.Budget{Shape: 2})
	Derivs(c, kind, gram.Budget{Shape: 1, Lex: 1})
	Derivs(c, kind, gram.Budget{Shape: 1, Size: 1})
	CorpusCases(c, kind, 1<<20)
	Scale(c, kind, scriptParts(gram.Budget{}))
	Exprs(c, kind)
	Nests(c, kind, nestDepths(c))
	Derivs(c, kind, gram.Budget{Shape: 2, Lex: 1})
	if c.Thorough || kind == "roundtrip" {
		Derivs(c, kind, gram.Budget{Shape: 3})
	}
}

// deepSpaces follow in the thorough tier, until its time is up.
func deepSpaces(c *eng.Ctx, kind string) {
	if !c.Thorough {
		return
	}
	Derivs(c, kind, gram.Budget{Shape: 2, Size: 1})
	Derivs(c, kind, gram.Budget{Shape: 2, Lex: 2})
	Derivs(c, kind, gram.Budget{Shape: 3, Lex: 1})
	Derivs(c, kind, gram.Budget{Shape: 4})
}

// PARTITION ID 'x' is printed without ID (the golden files pin that text), so
// it parses back as PARTITION 'x'.
const partitionID, partitionExpr = "PartitionClause{ID:", "PartitionClause{Expr:"

// roundTrip: formatting and parsing again gives the same AST and text.
func roundTrip(c *eng.Ctx, src string) error {
	st, err := parseNote(c, src)
	if err != nil {
		return nil
	}
	var known error
	for _, s := range st {
		f := compact(s)
		c.Outcome(f)
		c.Renew()
		st2, err := Parse(c, f)
		if err != nil && mvComment(c, s) {
			known = eng.KnownErr{ID: "mv-comment-after-keyword"}
			continue
		}
		if err != nil {
			return fmt.Errorf("formatted text does not parse back: %s\n    formatted: %s", firstLine(err), f)
		}
		if len(st2) != 1 {
			return fmt.Errorf("formatted text parses to %d statements\n    formatted: %s", len(st2), f)
		}
		if a, b := astx.Dump(s), astx.Dump(st2[0]); a != b {
			if strings.ReplaceAll(a, partitionID, partitionExpr) == b {
				known = eng.KnownErr{ID: "partition-id"}
				continue
			}
			return fmt.Errorf("AST changed by a round trip: %s\n    formatted: %s", firstDiff(a, b), f)
		}
		if f2 := compact(st2[0]); f2 != f {
			return fmt.Errorf("formatting is not a fixed point: %s", firstDiff(f, f2))
		}
	}
	return known
}

// mvComment: CREATE MATERIALIZED VIEW ... COMMENT 'c' AS SELECT <keyword> has
// its comment moved behind the query (the golden files pin that), where the
// keyword is no longer at the end of the statement and so no column name.  It
// is that finding if the statement without its comment survives.
func mvComment(c *eng.Ctx, s p.Expr) bool {
	mv, ok := s.(*p.CreateMaterializedView)
	if !ok || mv.Comment == nil {
		return false
	}
	cm := mv.Comment
	mv.Comment = nil
	f, d := compact(mv), astx.Dump(mv)
	mv.Comment = cm
	toks, _ := texts(f)
	if len(toks) == 0 || !gram.IsKeyword(strings.ToUpper(toks[len(toks)-1])) {
		return false
	}
	st, err := Parse(c, f)
	return err == nil && len(st) == 1 && astx.Dump(st[0]) == d
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P04",
		Notes: []string{
			"AST equality is structural over all fields except those of the position type; nil and empty lists are equal",
		},
		Space: func(c *eng.Ctx) { stdSpaces(c, "roundtrip"); editSpaces(c, "roundtrip"); deepSpaces(c, "roundtrip") },
		Check: func(c *eng.Ctx, k *eng.Case) error { return roundTrip(c, srcOf(k)) },
	})
}
