package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/gram"
)

// P15: every derivation is accepted as one statement and formats to exactly its
// canonical tokens.
func init() {
	eng.Register(&eng.Prop{
		ID: "P15",
		Notes: []string{
			"the reference grammar in mc/gram states the accepted language and the fixed normalisations; statements outside it are covered by the corpus and the other properties",
			"inputs with more simultaneous deviations than the bound are not explored",
		},
		Space: func(c *eng.Ctx) {
			Derivs(c, "faithful", gram.Budget{Shape: 2})
			Derivs(c, "faithful", gram.Budget{Shape: 1, Lex: 1})
			Derivs(c, "faithful", gram.Budget{Shape: 1, Size: 1})
			Nests(c, "faithful", nestDepths(c))
			Derivs(c, "faithful", gram.Budget{Shape: 2, Lex: 1})
			Derivs(c, "faithful", gram.Budget{Shape: 3})
			deepSpaces(c, "faithful")
		},
		Check: func(c *eng.Ctx, k *eng.Case) error {
			if k.D == nil {
				return nestFaithful(c, k)
			}
			src := k.D.Source()
			st, err := parseNote(c, src)
			if err != nil {
				return fmt.Errorf("valid statement rejected: %s", firstLine(err))
			}
			if len(st) != 1 {
				return fmt.Errorf("%d statements instead of 1", len(st))
			}
			f := compact(st[0])
			got, ok := texts(f)
			if !ok {
				return fmt.Errorf("formatted text does not lex: %s", f)
			}
			want, ok := texts(k.D.CanonText())
			if !ok {
				eng.HarnessBug("canonical text does not lex: %s", k.D.CanonText())
			}
			c.Outcome(f)
			if !eqStrs(want, got) {
				return fmt.Errorf("formatted tokens differ from the source: %s", firstDiff(strings.Join(want, " "), strings.Join(got, " ")))
			}
			return nil
		},
	})
}
