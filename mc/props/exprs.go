package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
)

// exprForms are the expressions with operands; @ is an operand.
var exprForms = func() []string {
	f := []string{
		"@", "( @ )", "[ @ ]", "[ @ , @ ]", "( @ , @ )", "tuple ( @ , @ )", "f ( @ )", "f ( @ , @ )", "f ( @ ) ( x0 )", "f ( @ ) ( @ )", "count ( DISTINCT @ )", "f ( @ AS x0 )",
		"CASE WHEN @ THEN @ END", "CASE WHEN @ THEN x0 ELSE @ END", "CASE @ WHEN @ THEN x0 END", "CASE WHEN x0 THEN y0 WHEN @ THEN @ ELSE z0 END",
		"{ 'k' : @ }", "{ 'k' : @ , 'l' : @ }", "CAST ( @ AS Int8 )", "CAST ( @ , 'Int8' )", "CAST ( @ , @ )", "@ :: Int8", "@ :: Array ( Int8 )",
		"@ ? x0 : y0", "@ ? @ : x0", "x0 ? @ : @", "@ ? x0 : @", "@ BETWEEN x0 AND y0", "@ BETWEEN @ AND x0", "x0 BETWEEN @ AND @", "x0 NOT BETWEEN @ AND @",
		"@ [ @ ]", "@ . 1", "@ . m0", "INTERVAL @ DAY", "INTERVAL ( @ ) DAY", "EXTRACT ( DAY FROM @ )", "DATE_ADD ( @ , INTERVAL @ DAY )",
		"x0 -> @", "( x0 , y0 ) -> @", "f ( x0 -> @ , @ )", "- @", "+ @", "NOT @", "@ IS NULL", "@ IS NOT NULL", "@ IN ( @ )", "@ IN ( x0 , @ )", "@ NOT IN ( @ , @ )", "@ IN ( SELECT @ )", "@ GLOBAL IN @",
		"sum ( @ ) OVER ( PARTITION BY @ )", "sum ( x0 ) OVER ( ORDER BY @ DESC , @ )", "sum ( @ ) OVER w0", "( SELECT @ )", "( SELECT @ , @ )", "( SELECT x0 FROM t0 WHERE @ )",
		"trim ( BOTH @ FROM @ )", "substring ( @ FROM @ )", "substring ( @ FROM 1 FOR @ )", "position ( @ IN @ )", "@ AND x0 AND @", "@ OR x0 AND @", "x0 AND @ OR @",
	}
	for _, o := range infixOps {
		if o.kind == 'b' {
			f = append(f, "@ "+strings.Join(o.toks, " ")+" @")
		}
	}
	return f
}()

// exprAtoms are the smallest expressions in many spellings.
var exprAtoms = append([]string{
	"x", "a.b", "a.b.c", "t.*", "*", "`a b`", "\"\"", "``", "_1", "x1", "`from`", "true", "inf", "nan", "date", "key", "id", "array", "format", "first",
	"0", "00", "1.0", ".5", "7.", "1e0", "1E+3", "0x0", "0XfF", "0b1", "255", "256", "65536", "9223372036854775808", "-1", "-0", "+1", "- 1", "1_000",
	"''", "'0'", "'it''s'", "'\\''", "'\\\\'", "'\\n'", "'\n'", "'\u00e9'", "'%'", "'--'", "'/*'", "'`'", "'\"'", "'a b'", "' '",
	"[ ]", "( )", "tuple ( )", "{ }", "?", "{ p : String }", "{ p : Array ( Int8 ) }", "now ( )", "f ( * )", "count ( )", "COLUMNS ( 'x' )",
}, exprOperands...)

// fill puts the atoms into the holes of a form, in order; with fewer atoms than
// holes the rest are names.
func fill(form string, atoms ...string) string {
	t := strings.Fields(form)
	n := 0
	for i, x := range t {
		if x != "@" {
			continue
		}
		if n < len(atoms) {
			t[i] = atoms[n]
		} else {
			t[i] = "h" + fmt.Sprint(n)
		}
		n++
	}
	return strings.Join(t, " ")
}

func holes(form string) int { return strings.Count(" "+form+" ", " @ ") }

// fillAt puts x into hole at, and names into the others.
func fillAt(form string, at int, x string) string {
	a := make([]string, at+1)
	for i := range a {
		a[i] = "h" + fmt.Sprint(i)
	}
	a[at] = x
	return fill(form, a...)
}

// Exprs enumerates the expressions: every atom in every operand place of every
// form, in every place an expression can stand in; every pair of atoms in every
// form of two operands; and every form in every form.
func Exprs(c *eng.Ctx, kind string) {
	i := 0
	do := func(src string) bool {
		i++
		if !c.Mine(i) {
			return true
		}
		c.Edges(1)
		return c.Do(&eng.Case{Kind: kind, In: []string{src}})
	}
	if c.Begin(kind+"/atoms", fmt.Sprintf("%d atoms in every operand place of %d forms of expression, in each of %d places of a statement", len(exprAtoms), len(exprForms), len(exprSlots))) {
		for si, s := range exprSlots {
			for fi, f := range exprForms {
				for h := 0; h < holes(f); h++ {
					for ai, a := range exprAtoms {
						// quick: a form of its own in every place, the rest in some
						if !c.Thorough && fi > 0 && (si*7+fi*3+h+ai)%8 != 0 {
							continue
						}
						if !do(s.pre + fillAt(f, h, a) + s.post) {
							return
						}
					}
				}
			}
		}
	}
	if c.Begin(kind+"/atom-pairs", "every pair of atoms in every form of two operands") {
		for _, f := range exprForms {
			if holes(f) < 2 {
				continue
			}
			for _, a := range exprAtoms {
				for _, b := range exprAtoms {
					if !do("SELECT " + fill(f, a, b)) {
						return
					}
				}
			}
		}
	}
	if c.Begin(kind+"/forms", "every form in every operand place of every form, with every atom first") {
		for _, f := range exprForms {
			for h := 0; h < holes(f); h++ {
				for _, g := range exprForms {
					for gh := 0; gh < holes(g); gh++ {
						for ai, a := range exprAtoms {
							if !c.Thorough && ai > 0 && (ai+h+gh)%6 != 0 {
								continue
							}
							if !do("SELECT " + fillAt(f, h, fillAt(g, gh, a)) + " , z0") {
								return
							}
						}
					}
				}
			}
		}
	}
}
