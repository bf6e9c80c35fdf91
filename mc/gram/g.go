package gram

import (
	"strconv"
	"strings"
)

type Kind int

const (
	Kw Kind = iota
	Punct
	IdentK // any identifier-like token
	NumK
	StrK
)

// Tok is one source token.  Text is exactly as written, quotes included.
type Tok struct {
	Kind Kind
	Text string
	// Leaf: the AST must hold a node (Ident / NumberLiteral / StringLiteral)
	// for this token.  Val is its unquoted content, Quote the quote byte.
	Leaf  bool
	Val   string
	Quote byte
	// Free: the slot takes any spelling of its kind.
	Free bool
	// KwOK: a bare keyword that is not reserved may stand here.
	KwOK bool
	// Word: a word of the language (a unit, a codec, a type, a function), which
	// is read in any letter case although it is no keyword.
	Word bool
}

// G is one derivation in progress.
type G struct {
	ch    *Ch
	Src   []Tok
	Canon []Tok
	nid   int
	// silence>0 suppresses canonical output (source only); ghost>0 suppresses
	// source output (canonical only).
	srcOff, canOff int
	// noLex pins leaf spelling.
	noLex   int
	noWord  int // names are in one letter case
	depth   int
	noWith  bool // the next SELECT has no WITH
	untyped bool // the column just emitted has no type
	atItem  bool // the SELECT just emitted ends with its select list
	dense   bool // optional parts are present by default
	optNest int
	same    bool // all names, numbers and strings are alike
	more    bool // an item of an enclosing list follows
}

func NewG(prefix []int) *G { return &G{ch: &Ch{pre: prefix}} }

func (g *G) Choices() []int { return g.ch.Choices() }

func (g *G) put(t Tok) {
	if g.srcOff == 0 {
		g.Src = append(g.Src, t)
	}
	if g.canOff == 0 {
		g.Canon = append(g.Canon, t)
	}
}

// K emits keywords (space separated).
func (g *G) K(words string) {
	for _, w := range strings.Fields(words) {
		g.put(Tok{Kind: Kw, Text: w})
	}
}

// P emits punctuation tokens (space separated).
func (g *G) P(puncts string) {
	for _, w := range strings.Fields(puncts) {
		g.put(Tok{Kind: Punct, Text: w})
	}
}

// S emits f into the source only; C into the canonical text only.
func (g *G) S(f func()) { g.canOff++; f(); g.canOff-- }
func (g *G) C(f func()) { g.srcOff++; f(); g.srcOff-- }

// SK/CK: keywords in source only / canonical only.
func (g *G) SK(w string) { g.S(func() { g.K(w) }) }
func (g *G) CK(w string) { g.C(func() { g.K(w) }) }
func (g *G) SP(w string) { g.S(func() { g.P(w) }) }
func (g *G) CP(w string) { g.C(func() { g.P(w) }) }

// Alt is an n-way shape choice.
func (g *G) Alt(n int) int { return g.ch.Choose(n, Shape) }

// Opt is an optional part, absent by default.
func (g *G) Opt(f func()) bool {
	if (g.ch.Choose(2, Shape) == 1) == g.dense {
		return false
	}
	if g.optNest++; g.optNest > 3 {
		defer g.sparse()()
	}
	f()
	g.optNest--
	return true
}

// sparse turns off dense until the returned function is called.
func (g *G) sparse() func() {
	d := g.dense
	g.dense = false
	return func() { g.dense = d }
}

// OptK is an optional keyword sequence.
func (g *G) OptK(w string) bool { return g.Opt(func() { g.K(w) }) }

// One picks one of the alternatives, the first by default.
func (g *G) One(fs ...func()) { fs[g.Alt(len(fs))]() }

// OneK picks one keyword sequence.
func (g *G) OneK(ws ...string) string {
	w := ws[g.Alt(len(ws))]
	g.K(w)
	return w
}

// OneK2 picks one fixed name.
func (g *G) OneK2(ws ...string) { g.Name(ws[g.Alt(len(ws))]) }

// Count is a list length: min..min+alts-1 by shape, longer by size.
func (g *G) Count(min, alts int) int {
	if g.dense && min == 0 {
		min, alts = 1, alts-1
	}
	k := g.Alt(alts)
	if k == 0 {
		k = Sizes[g.ch.Choose(len(Sizes), Size)]
	}
	return min + k
}

// Many emits f n times, n in {min..min+2}, separated by sep.
func (g *G) Many(min int, sep string, f func()) int {
	n := g.Count(min, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.P(sep)
		}
		more := g.more
		g.more = more || i < n-1
		f()
		g.more = more
	}
	return n
}

func (g *G) Comma(min int, f func()) int { return g.Many(min, ",", f) }

func (g *G) Parens(f func()) {
	more := g.more
	g.more = false
	g.P("(")
	f()
	g.P(")")
	g.more = more
}

// Non-reserved keywords used as identifiers in the Lex dimension: a few with
// grammatical roles of their own; the keyword property enumerates all of them.
var kwIdents = []string{"date", "key", "end"}

// plainIdents are ordinary words with a meaning of their own elsewhere.
var plainIdents = []string{"Count", "_1"}

// next numbers the names.
func (g *G) next() string {
	if !g.same {
		g.nid++
	}
	return strconv.Itoa(max(g.nid, 1))
}

// identWith emits an identifier leaf.  kwOK allows a bare keyword spelling.
func (g *G) identWith(base string, kwOK, leaf bool) string {
	name := base + g.next()
	if g.same {
		name = "c1"
	}
	k := 0
	if g.noLex == 0 {
		n := 7 + len(plainIdents)
		if kwOK {
			n += len(kwIdents)
		}
		k = g.ch.Choose(n, Lex)
	}
	t := Tok{Kind: IdentK, Leaf: leaf}
	switch k {
	case 0:
		t.Text, t.Val = name, name
	case 1:
		t.Val = name + " sel"
		t.Text, t.Quote = "`"+t.Val+"`", '`'
	case 2:
		t.Val = name + "-é;"
		t.Text, t.Quote = `"`+t.Val+`"`, '"'
	case 3:
		t.Val = "select"
		t.Text, t.Quote = "`select`", '`'
	case 4:
		t.Text, t.Val = "_"+name+"$X", "_"+name+"$X"
	case 5:
		t.Val = "1" + name
		t.Text, t.Quote = `"`+t.Val+`"`, '"'
	case 6:
		t.Val = name + strings.Repeat("_long", 60)
		t.Text = t.Val
	default:
		if k -= 7; k < len(plainIdents) {
			t.Text, t.Val = plainIdents[k], plainIdents[k]
			break
		}
		k -= len(plainIdents)
		t.Text, t.Val = kwIdents[k], kwIdents[k]
	}
	t.Free = true
	t.KwOK = kwOK
	g.put(t)
	return t.Text
}

// Id emits an identifier the AST must carry as an Ident.
func (g *G) Id() { g.identWith("c", true, true) }

// IdNoKw: identifier slot where a bare keyword means something else.
func (g *G) IdNoKw() { g.identWith("c", false, true) }

// IdN is Id with a recognisable base name.
func (g *G) IdN(base string) { g.identWith(base, false, true) }

// Name emits a fixed identifier leaf.
func (g *G) Name(s string) {
	g.put(Tok{Kind: IdentK, Text: s, Val: s, Leaf: true, Word: s != "f" && g.noWord == 0})
}

// NameStr emits a fixed identifier that the AST keeps as a plain string.
func (g *G) NameStr(s string) { g.put(Tok{Kind: IdentK, Text: s, Val: s, Word: s[0] < 'a'}) }

// Star emits '*' which the AST keeps as an Ident.
func (g *G) Star() { g.put(Tok{Kind: Punct, Text: "*", Val: "*", Leaf: true}) }

var numForms = []string{"", "0", "1.5", "1e3", "2.5E-10", "0xFf", "123456789012345678901234567890", "7.", "0x0123456789abcdefABCDEF0123456789abcdef", "00", "123456789.123456789123456789123456789e+123"}

// Num emits an unsigned number literal (int by default, any form in Lex).
func (g *G) Num() {
	k := 0
	if g.noLex == 0 {
		k = g.ch.Choose(len(numForms), Lex)
	}
	s := numForms[k]
	if n := g.next(); k == 0 {
		s = "10" + n
	}
	g.put(Tok{Kind: NumK, Text: s, Val: s, Leaf: true, Free: g.noLex == 0})
}

// Int emits an unsigned decimal integer literal.
func (g *G) Int() {
	s := "10" + g.next()
	g.put(Tok{Kind: NumK, Text: s, Val: s, Leaf: true})
}

// NumT emits a fixed number literal.
func (g *G) NumT(s string) { g.put(Tok{Kind: NumK, Text: s, Val: s, Leaf: true}) }

var strForms = []string{"", `it''s`, `a\'b`, ``, `line1
line2`, "tab\tx", `back\\`, `-- not a comment`, `/* nor */ this`, `q"uo` + "`te;", `héllo wörld ☃`, `(,)`, strings.Repeat(`long ''text\n `, 24), "DESC", "\a\x1b\x7f\u00a0\u2028%s<&>\r"}

// Str emits a string literal.
func (g *G) Str() { g.str(true) }

// StrK emits a string token not kept as a StringLiteral node.
func (g *G) str(leaf bool) {
	k := 0
	if g.noLex == 0 {
		k = g.ch.Choose(len(strForms), Lex)
	}
	s := strForms[k]
	if n := g.next(); k == 0 {
		s = "s" + n
	}
	g.put(Tok{Kind: StrK, Text: "'" + s + "'", Val: s, Quote: '\'', Leaf: leaf, Free: g.noLex == 0})
}

// StrT emits a fixed string literal.
func (g *G) StrT(s string) {
	g.put(Tok{Kind: StrK, Text: "'" + s + "'", Val: s, Quote: '\'', Leaf: true})
}

// Join renders tokens with single spaces, but none around a dot.
func Join(ts []Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && !(t.Text == "." && t.Kind == Punct) && !(ts[i-1].Text == "." && ts[i-1].Kind == Punct) {
			b.WriteByte(' ')
		}
		b.WriteString(t.Text)
	}
	return b.String()
}

// Source is the default rendering of the derivation's source.
func (g *G) Source() string { return Join(g.Src) }

// CanonText is the canonical text the formatter must print (up to spacing).
func (g *G) CanonText() string { return Join(g.Canon) }

// JoinTexts is Join with other texts for the tokens.
func JoinTexts(ts []Tok, texts []string) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && !(t.Text == "." && t.Kind == Punct) && !(ts[i-1].Text == "." && ts[i-1].Kind == Punct) {
			b.WriteByte(' ')
		}
		b.WriteString(texts[i])
	}
	return b.String()
}
