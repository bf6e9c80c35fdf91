package props

import (
	"fmt"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// leavesOf is the multiset of identifiers, numbers and strings in the AST, as
// written: quotes included, numbers marked with their base.
func leavesOf(roots []p.Expr) map[string]int {
	m := map[string]int{}
	seen := map[p.Expr]bool{}
	for _, r := range roots {
		for _, n := range astx.Nodes(r) {
			if seen[n.Expr] {
				continue
			}
			seen[n.Expr] = true
			if t, ok := leafText(n.Expr); ok {
				if x, num := n.Expr.(*p.NumberLiteral); num {
					if strings.HasPrefix(t, ".") {
						t = t[1:]
					}
					t = fmt.Sprintf("%s#%d", t, x.Base)
				}
				m[t]++
			}
		}
	}
	return m
}

// leafKey is how leavesOf lists a token.
func leafKey(k gram.Kind, text string) string {
	if k != gram.NumK {
		return text
	}
	base := 10
	if strings.HasPrefix(strings.TrimLeft(text, "+-"), "0x") {
		base = 16
	}
	return fmt.Sprintf("%s#%d", text, base)
}

var keywordSet = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range gram.Keywords {
		m[k] = true
	}
	return m
}()

func bareKeyword(t gram.RTok) bool {
	return t.Kind == gram.IdentK && t.Text[0] != '`' && t.Text[0] != '"' && keywordSet[strings.ToUpper(t.Text)]
}

// simpleExpr: operands joined by binary operators, each operand a name, number
// or string with at most one sign.  Everything of this form is an expression.
func simpleExpr(t []gram.RTok) bool {
	i := 0
	for {
		if i < len(t) && (t[i].Text == "-" || t[i].Text == "+") && t[i].Kind == gram.Punct {
			i++
			// a second sign would be part of the number
			if i < len(t) && t[i].Kind == gram.NumK && (t[i].Text[0] == '-' || t[i].Text[0] == '+') {
				return false
			}
		}
		if i >= len(t) || t[i].Kind == gram.Kw || t[i].Kind == gram.Punct || bareKeyword(t[i]) {
			return false
		}
		i++
		if i == len(t) {
			return true
		}
		if t[i].Kind != gram.Punct {
			return false
		}
		switch t[i].Text {
		case "+", "-", "*", "/", "%", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "||":
		default:
			return false
		}
		i++
	}
}

// lexCheck: In[0] is the text; In[1], when given, is the part that must be
// accepted if it is a simple expression.
func lexCheck(c *eng.Ctx, k *eng.Case) error {
	src := k.In[0]
	ref, lerr := gram.RefLex(src)
	st, err := parseNote(c, src)
	if lerr != nil {
		c.Count("lexically_invalid")
		if err == nil {
			return fmt.Errorf("a malformed token is accepted; the AST has %v", leafList(leavesOf(st)))
		}
		return nil
	}
	if err != nil {
		if k.Kind == "lex-must" {
			return fmt.Errorf("a well-formed token is rejected: %s", firstLine(err))
		}
		if k.Kind == "lex-expr" {
			n := 1 // SELECT
			if len(ref) > n && simpleExpr(ref[n:]) {
				return fmt.Errorf("a well-formed expression is rejected: %s", firstLine(err))
			}
		}
		return nil
	}
	return leafCheck(c, src, ref, st)
}

// leafCheck: the identifiers, numbers and strings in the AST are those written.
func leafCheck(c *eng.Ctx, src string, ref []gram.RTok, st []p.Expr) error {
	got := leavesOf(st)
	known := showFormat(src, st, got)
	// every leaf is a token; every token that is no keyword or punctuation is a
	// leaf
	want := map[string]int{}
	opt := map[string]int{}
	for i, t := range ref {
		key := leafKey(t.Kind, t.Text)
		// FORMAT and a name after a complete statement are dropped as a whole:
		// a finding of P06
		format := i > 0 && strings.EqualFold(ref[i-1].Text, "FORMAT") && trailingFormat(st)
		if t.Kind == gram.Punct || bareKeyword(t) || contextual[t.Text] || format {
			opt[key]++
		} else {
			want[key]++
		}
	}
	c.Outcome(strings.Join(leafList(got), " "))
	for key, n := range got {
		if n > want[key]+opt[key] {
			return fmt.Errorf("the AST has the leaf %q %d times, the text %d times", key, n, want[key]+opt[key])
		}
	}
	var plain map[string]int
	for key, n := range want {
		if got[key] < n {
			// some words are kept as plain text
			if plain == nil {
				plain = plainStrings(st)
			}
			if got[key]+plain[unquote(key)] >= n {
				continue
			}
			return fmt.Errorf("the token %q is written %d times but occurs %d times among the leaves %q", key, n, got[key], leafList(got))
		}
	}
	if known {
		return eng.KnownErr{ID: "show-format-name"}
	}
	return nil
}

// contextual words are keywords of one place only.
var contextual = map[string]bool{"max_dynamic_paths": true, "max_dynamic_types": true}

// trailingFormat: some statement has no FORMAT clause of its own.
func trailingFormat(st []p.Expr) bool {
	for _, s := range st {
		switch s.(type) {
		case *p.SelectQuery, *p.ShowStmt:
		default:
			return true
		}
	}
	return false
}

// showFormat: the name after SHOW ... FORMAT is kept as if it were a string
// (golden files pin it); got is corrected to the name.
func showFormat(src string, st []p.Expr, got map[string]int) bool {
	hit := false
	for _, s := range st {
		if x, ok := s.(*p.ShowStmt); ok && x.Format != nil {
			i := int(x.Format.LiteralPos)
			if i >= 1 && i <= len(src) && src[i-1] != '\'' {
				got["'"+x.Format.Literal+"'"]--
				k := x.Format.Literal
				if src[i-1] == '"' || src[i-1] == '`' {
					k = src[i-1:i] + k + src[i-1:i]
				}
				got[k]++
				hit = true
			}
		}
	}
	return hit
}

// plainStrings counts the words in the AST's string fields, leaves excepted.
func plainStrings(roots []p.Expr) map[string]int {
	m := map[string]int{}
	for _, r := range roots {
		astx.Strings(r, func(owner, field, s string) {
			switch owner {
			case "Ident", "NumberLiteral", "StringLiteral":
				return
			}
			for _, w := range strings.Fields(s) {
				m[w]++
			}
			if strings.ContainsAny(s, " \t\n") {
				m[s]++
			}
		})
	}
	return m
}

func unquote(key string) string {
	if i := strings.LastIndexByte(key, '#'); i > 0 && key[0] != '`' && key[0] != '"' && key[0] != '\'' {
		return key[:i]
	}
	if n := len(key); n >= 2 && (key[0] == '`' || key[0] == '"' || key[0] == '\'') {
		return key[1 : n-1]
	}
	return key
}

func leafList(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var lexAll = []string{"a", "e", "E", "x", "X", "_", "$", "0", "1", "9", ".", "'", "`", "\"", "\\", "-", "+", "*", "/", "%", " ", "\t", "\n", "\r", "(", ")", "[", "]", "{", "}", ":", ";", ",", "=", "<", ">", "|", "!", "?", "@", "#", "&", "^", "~", "\x00", "\x0b", "\x7f", "\x80", "\xa0", "\xff", "é", "\u00a0", "\u2003", "\ufeff", "1e", "0x", "''", "--", "/*", "*/"}

type lexSpace struct {
	name string
	abc  []string
	n    int // quick depth
	nt   int // thorough depth
	ctx  []string
}

var lexSpaces = []lexSpace{
	{"all", lexAll, 3, 4, []string{"SELECT ", "SELECT a", "SELECT 1", "SELECT (a)", "SELECT 'a'", "SELECT a FROM t WHERE b = "}},
	{"numbers", []string{"0", "1", "7", ".", "e", "E", "x", "+", "-", "a", "_", " "}, 6, 7, []string{"SELECT ", "SELECT a +"}},
	{"hex", []string{"0x", "0", "9", "a", "F", "g", ".", "e", "-", "x", " "}, 5, 6, []string{"SELECT "}},
	{"strings", []string{"'", "\\", "a", " ", "\n", ";", "\"", "é"}, 6, 8, []string{"SELECT '", "SELECT a = '"}},
	{"quoted", []string{"`", "\"", "\\", "a", " ", "'", "."}, 6, 8, []string{"SELECT `", "SELECT \"", "SELECT t.\""}},
	{"comments", []string{"-", "/", "*", "\n", "\r", "a", "1", " ", ";"}, 6, 7, []string{"SELECT 1", "SELECT a "}},
	{"operators", []string{"<", ">", "=", "!", "|", "-", "+", "1", "a", " "}, 6, 7, []string{"SELECT a", "SELECT 1 "}},
	{"words", []string{"a", "Z", "_", "$", "0", ".", "`b`", "\"c\"", " "}, 6, 7, []string{"SELECT ", "SELECT 1 AS "}},
}

// units are whole operands and operators; every sequence of them with every
// separator is lexed the same whatever stands before.
var lexOperands = []string{"a", "`b`", "\"c\"", "$d", "1", "0x1F", "1.5", "1.", "1e5", "'s'", "''", "'it''s'", "'\\''", "(a)", "(1)", "[1]", "a[1]", "{p:Int8}", "f()", "f(1)", "NULL", "a.b", "CASE WHEN 1 THEN 1 END", "{'k':1}", "a.1"}
var lexSigns = []string{"-", "+", "- ", "+ ", "*", "/", "%", "||", "=", "==", "!=", "<>", "<", "<=", ">", ">=", "* -", "= -", "|| -", "< +", "/ -", "=-", "<-", ">-", "*-"}
var lexSeps = []string{"", " ", "\n", "\t", "/**/", "/* - */", "--\n", "-- '\n", " /*'*/ "}

func lexUnits(c *eng.Ctx) {
	if !c.Begin("lex/units", "every operand, separator, operator, separator, operand") {
		return
	}
	i := 0
	for _, a := range lexOperands {
		for _, s1 := range lexSeps {
			for _, o := range lexSigns {
				i++
				if !c.Mine(i) {
					continue
				}
				for _, s2 := range lexSeps {
					for _, b := range lexOperands {
						// `a.1-1`, `1.-1` and the like are judged by the reference lexer
						src := "SELECT " + a + s1 + o + s2 + b
						ref, err := gram.RefLex(src)
						kind := "lex-expr"
						if err == nil && unitsKept(ref, a, o, b) {
							kind = "lex-must"
						}
						c.Edges(1)
						if !c.Do(&eng.Case{Kind: kind, In: []string{src}}) {
							return
						}
					}
				}
			}
		}
	}
}

// unitsKept: the reference lexer reads the two operands and the operator as
// written, so the whole must be accepted.
func unitsKept(ref []gram.RTok, a, o, b string) bool {
	var want []string
	for _, x := range []string{"SELECT", a, o, b} {
		t, err := gram.RefLex(x)
		if err != nil {
			return false
		}
		for _, y := range t {
			want = append(want, y.Text)
		}
	}
	var got []string
	for _, t := range ref {
		got = append(got, t.Text)
	}
	return eqStrs(want, got)
}

// Spellings of each kind of token.
var identSpellings = []string{"x", "X", "_", "_9", "a$b", "$x", "$1", "$", "A_b9", strings.Repeat("long_", 60),
	"`a b`", "`a\"b`", "`a''b`", "`--`", "`/*`", "`a\nb`", "`a\\`", "`select`", "`é☃`", "`;`", "`(`", "` `", "`1`", "`\x01\x02`", "`a.b`", "`\t`",
	"\"a b\"", "\"a`b\"", "\"it's\"", "\"--\"", "\"*/\"", "\"a\n\"", "\"\\\"", "\"SELECT\"", "\"é\"", "\")\"", "\"1.5\"", "\"a.b\"", "\"%s %d\"", "`%v`"}
var stringSpellings = []string{"''", "'a'", "' '", "'it''s'", "''''", "''''''", `'\''`, `'\\'`, `'a\\\'b'`, `'\n\t\x41'`, "'a\nb'", "'\r\n'", "'\t'", "'--'", "'/*'", "'*/'", "';'", "'`'", "'\"'", "'(['", "'é☃😀'", "'%s %d %'", "'\x01\x7f'", "'\xff\xfe'", "'" + strings.Repeat("long ", 80) + "'", "'SELECT'", "'{a:Int}'", "'$x'", "' lead and trail '", "'1'", "'\x00'"}
var numberSpellings = []string{"0", "00", "007", "1", "9", "1.", "0.0", "1.50", "1.e5", "1e5", "1E5", "1e+5", "1E-05", "1.5e10", "0x0", "0xa", "0xFFfe", "0x1e5", "123456789012345678901234567890", "0.000000000000000000001", "1e400", "0x" + strings.Repeat("0123456789abcdefABCDEF", 6), strings.Repeat("9876543210", 30), "1." + strings.Repeat("0123456789", 30) + "E+0123456789"}
var brokenTokens = []string{"1a", "1e", "1e+", "1E-x", "0x", "0xg", "0x1g", "0x1.8", "1.2.3", "1e2.3", "1e2e3", "1_0", "1$", "1.5a", "1.x", "'abc", "'abc\\'", "'''", "`abc", "\"abc", "é", "\u200b", "/*", "/* *", "a/*/b", "\xff"}

// spellings puts every spelling into every free slot.
func spellings(c *eng.Ctx, b gram.Budget) {
	if !c.Begin(fmt.Sprintf("lex/slots(%d,%d,%d)", b.Shape, b.Lex, b.Size), "every spelling in every identifier, number and string slot of the derivations") {
		return
	}
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			for i, tok := range g.Src {
				old := t[i]
				var list []string
				must := "lex-must"
				switch {
				case !tok.Free:
				case tok.Kind == gram.IdentK:
					list = identSpellings
				case tok.Kind == gram.StrK:
					list = stringSpellings
				case tok.Kind == gram.NumK:
					list = numberSpellings
				}
				for _, w := range list {
					t[i] = w
					kind := must
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: kind, In: []string{gram.JoinTexts(g.Src, t)}}) {
						return false
					}
				}
				if tok.Kind != gram.Kw && tok.Kind != gram.Punct {
					for _, w := range brokenTokens {
						t[i] = w
						c.Edges(1)
						if !c.Do(&eng.Case{Kind: "lex", In: []string{gram.JoinTexts(g.Src, t)}}) {
							return false
						}
					}
				}
				t[i] = old
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P03",
		Notes: []string{
			"the reference lexer (gram/reflex.go) is the specification of the lexical rules; it shares no code with the parser",
			"a number written as '.5' is a dot and a number for the reference lexer; the parser joins them",
		},
		Space: func(c *eng.Ctx) {
			for _, s := range lexSpaces {
				n := s.n
				if c.Thorough {
					n = s.nt
				}
				ByteStrings(c, "lex-expr", s.name, s.abc, n, s.ctx)
			}
			lexUnits(c)
			spellings(c, gram.Budget{Shape: 1})
			CorpusCases(c, "lex", 1<<20)
			Scale(c, "lex", scriptParts(gram.Budget{}))
			Strs(c, "lex-must", "long", "every kind of token and comment of up to 131073 bytes", longTokens())
			Exprs(c, "lex")
			ByteEdits(c, "lex", 400)
			Edits(c, "lex", "edits-1", gram.Budget{Shape: 1}, junk, true)
			if c.Thorough {
				spellings(c, gram.Budget{Shape: 2})
				Edits(c, "lex", "junk-2", gram.Budget{Shape: 2}, junk, true)
			}
		},
		Check: lexCheck,
	})
}
