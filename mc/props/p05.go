package props

import (
	"fmt"
	"strings"

	"verif/mc/astx"
	"verif/mc/eng"
)

var indents = []string{"  ", "", "\t", " ", "    ", " \t "}

func beautyCheck(c *eng.Ctx, src string) error {
	st, err := parseNote(c, src)
	if err != nil {
		return nil
	}
	for _, s := range st {
		f := compact(s)
		want, ok := texts(f)
		if !ok {
			return fmt.Errorf("compact text does not lex: %s", f)
		}
		// a line break in compact text can only be inside a token
		outside := f
		for _, t := range want {
			if strings.ContainsAny(t, "\n\r") {
				outside = strings.Replace(outside, t, "", 1)
			}
		}
		if strings.ContainsAny(outside, "\n\r") {
			return fmt.Errorf("compact text has a line break: %q", f)
		}
		// what the compact text parses to is the round-trip property's concern;
		// the beautified text must parse to the same
		dump := ""
		if st1, err := Parse(c, f); err == nil && len(st1) == 1 {
			dump = astx.Dump(st1[0])
		}
		base := beautify(s, "")
		for _, in := range indents {
			c.Renew()
			b := beautify(s, in)
			c.Exec()
			got, ok := texts(b)
			if !ok || !eqStrs(want, got) {
				return fmt.Errorf("beautified tokens (indent %q) differ from the compact ones: %s\n    beautified: %q", in, firstDiff(strings.Join(want, " "), strings.Join(got, " ")), b)
			}
			if in == "  " || in == "\t" {
				st2, err := Parse(c, b)
				if dump == "" {
					if err == nil && len(st2) == 1 {
						return fmt.Errorf("beautified text is accepted but not the compact one: %q", b)
					}
					continue
				}
				if err != nil || len(st2) != 1 {
					return fmt.Errorf("beautified text does not parse back (indent %q): %v\n    beautified: %q", in, err, b)
				}
				if d2 := astx.Dump(st2[0]); d2 != dump {
					return fmt.Errorf("beautified text parses to another AST: %s\n    beautified: %q", firstDiff(dump, d2), b)
				}
			}
			// the indent only changes the blanks at line starts
			if msg := sameBut(base, b, in); msg != "" {
				return fmt.Errorf("%s (indent %q)\n    %q\n    %q", msg, in, base, b)
			}
		}
		c.Outcome(base)
		if b2 := beautify(s, "  "); b2 != beautify(s, "  ") {
			return fmt.Errorf("beautified output varies: %q", b2)
		}
		if f2 := compact(s); f2 != f {
			return fmt.Errorf("compact output changed after beautifying: %s", firstDiff(f, f2))
		}
	}
	return nil
}

// sameBut checks that b is base with some number of indents at line starts.
func sameBut(base, b, indent string) string {
	x, y := strings.Split(base, "\n"), strings.Split(b, "\n")
	if len(x) != len(y) {
		return "the indent changes the number of lines"
	}
	for i := range x {
		if !strings.HasSuffix(y[i], x[i]) {
			return fmt.Sprintf("line %d changes with the indent", i+1)
		}
		lead := strings.TrimSuffix(y[i], x[i])
		if indent == "" && lead != "" || indent != "" && strings.Repeat(indent, len(lead)/len(indent)) != lead {
			return fmt.Sprintf("line %d is not indented by whole indents", i+1)
		}
	}
	return ""
}

func init() {
	eng.Register(&eng.Prop{
		ID:    "P05",
		Notes: []string{"indent strings tried: two blanks, empty, tab, one blank, four blanks, mixed"},
		Space: func(c *eng.Ctx) { stdSpaces(c, "beautify"); editSpaces(c, "beautify"); deepSpaces(c, "beautify") },
		Check: func(c *eng.Ctx, k *eng.Case) error { return beautyCheck(c, srcOf(k)) },
	})
}
