package props

import (
	"fmt"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// word is the upper-cased text of a bare word, "" for other tokens.
func word(t gram.RTok) string {
	if t.Kind == gram.IdentK && t.Text[0] != '`' && t.Text[0] != '"' {
		return strings.ToUpper(t.Text)
	}
	return ""
}

// significant are the tokens of a text that carry meaning of their own, in
// order: everything but parentheses, commas and words that only help to read.
// Spellings the language treats alike are unified.
func significant(ref []gram.RTok) []string {
	var out []string
	for i := range ref {
		out = append(out, significantAt(ref, i)...)
	}
	return out
}

// significantAt is what token i contributes.
func significantAt(ref []gram.RTok, i int) []string {
	t := ref[i]
	s := t.Text
	if t.Kind == gram.Punct {
		switch s {
		case "(", ")", ",", ";":
			return nil
		}
	}
	switch u := word(t); u {
	case "":
	case "AS":
		return nil
	case "ASCENDING":
		s = "ASC"
	case "DESCENDING", "DESCRIBE":
		s = "DESC"
	case "SETTINGS":
		s = u
		if stmtStart(ref, i) { // SETTINGS a = 1 is SET a = 1
			s = "SET"
		}
	case "ENGINE":
		s = u
		if i+1 >= len(ref) || ref[i+1].Text != "=" {
			return []string{s, "="}
		}
	default:
		if keywordSet[u] {
			s = u
		}
	}
	return []string{s}
}

func stmtStart(ref []gram.RTok, i int) bool { return i == 0 || ref[i-1].Text == ";" }

// reorders reports whether the text has one of the constructs whose parts the
// formatter prints in a fixed order of its own, whatever the order written:
// the comment of a materialized view, the clauses of a dictionary, of a table
// engine and of a JSON type, LIMIT with an offset.
func reorders(ref []gram.RTok) bool {
	mv := false
	for i, t := range ref {
		switch word(t) {
		case "MATERIALIZED":
			mv = true
		case "COMMENT":
			if mv {
				return true
			}
		case "DICTIONARY", "ENGINE":
			return true
		case "JSON":
			if i+1 < len(ref) && ref[i+1].Text == "(" {
				return true
			}
		case "LIMIT":
			return true
		}
	}
	return false
}

// dropTrailingFormat removes FORMAT and the name after it at the end of each
// statement that has no place for it in the AST.
func dropTrailingFormat(ref []gram.RTok, st []p.Expr) ([]gram.RTok, bool) {
	var out []gram.RTok
	hit := false
	n := 0
	begin := 0
	flush := func(end int) {
		part := ref[begin:end]
		if len(part) == 0 {
			return
		}
		if n < len(st) && len(part) > 2 && word(part[len(part)-2]) == "FORMAT" && !holds(st[n], part[len(part)-1]) && dropsFormat(st[n], part[len(part)-3].Text == ")" || len(part) > 4 && word(part[len(part)-4]) == "FORMAT") {
			part = part[:len(part)-2]
			hit = true
		}
		n++
		out = append(out, part...)
	}
	for i, t := range ref {
		if t.Kind == gram.Punct && t.Text == ";" {
			flush(i)
			out = append(out, t)
			begin = i + 1
		}
	}
	flush(len(ref))
	return out, hit
}

// holds: some name or string of the AST was written as token t.
func holds(e p.Expr, t gram.RTok) bool {
	for _, n := range astx.Nodes(e) {
		switch n.Expr.(type) {
		case *p.Ident, *p.StringLiteral:
			if at := int(n.Expr.Pos()); t.RawStart <= at && at <= t.RawEnd {
				return true
			}
		}
	}
	return false
}

// dropsFormat: the statement kind does not hold the output format that any
// statement may end with.  (A query at the end does, unless it has
// one already or is in parentheses.)
func dropsFormat(e p.Expr, ended bool) bool {
	switch x := e.(type) {
	case *p.SelectQuery:
		last := x
		for y := x; y != nil; {
			last = y
			switch {
			case y.UnionAll != nil:
				y = y.UnionAll
			case y.UnionDistinct != nil:
				y = y.UnionDistinct
			case y.Except != nil:
				y = y.Except
			default:
				y = y.Intersect
			}
		}
		return ended && (last.Format != nil || last != x)
	case *p.ShowStmt:
		return ended && x.Format != nil
	case *p.InsertStmt:
		return x.SelectExpr == nil || ended
	case *p.ExplainStmt:
		return ended
	case *p.CreateView:
		return ended || x.SubQuery == nil
	case *p.CreateMaterializedView:
		return ended || x.SubQuery == nil
	case *p.CreateLiveView:
		return ended || x.SubQuery == nil
	}
	return true
}

// swapStart undoes a known replacement of the first word of a statement.
func swapStart(ref []gram.RTok) bool {
	hit := false
	for i := range ref {
		if !stmtStart(ref, i) {
			continue
		}
		switch word(ref[i]) {
		case "ATTACH":
			ref[i].Text = "CREATE"
			hit = true
		case "DETACH":
			ref[i].Text = "DROP"
			hit = true
		}
	}
	return hit
}

// unquoteEngine removes the quotes of engine names.
func unquoteEngine(ref []gram.RTok) bool {
	hit := false
	for i := range ref {
		j := i + 1
		if j < len(ref) && ref[j].Text == "=" {
			j++
		}
		if word(ref[i]) == "ENGINE" && j < len(ref) && ref[j].Kind == gram.IdentK && word(ref[j]) == "" {
			ref[j].Text = ref[j].Text[1 : len(ref[j].Text)-1]
			hit = true
		}
	}
	return hit
}

func keptCheck(c *eng.Ctx, k *eng.Case) error {
	src := srcOf(k)
	st, err := parseNote(c, src)
	if err != nil {
		return nil
	}
	ref, lerr := gram.RefLex(src)
	if lerr != nil {
		return fmt.Errorf("accepted although it does not lex")
	}
	var fm []gram.RTok
	for i, s := range st {
		f, e := gram.RefLex(compact(s))
		if e != nil {
			return fmt.Errorf("formatted text does not lex: %s", compact(s))
		}
		if i > 0 {
			fm = append(fm, gram.RTok{Kind: gram.Punct, Text: ";"})
		}
		fm = append(fm, f...)
	}
	if keptTokens(ref, fm) == "" {
		return leafCheck(c, src, ref, st)
	}
	// the listed findings, undone one after the other
	known := ""
	r2, hit := dropTrailingFormat(ref, st)
	if hit {
		known = "trailing-format"
		if keptTokens(r2, fm) == "" {
			return eng.KnownErr{ID: known}
		}
	}
	r2 = append([]gram.RTok(nil), r2...)
	if swapStart(r2) {
		known = "attach-detach"
		if keptTokens(r2, fm) == "" {
			return eng.KnownErr{ID: known}
		}
	}
	if unquoteEngine(r2) {
		known = "engine-name-quotes"
		if keptTokens(r2, fm) == "" {
			return eng.KnownErr{ID: known}
		}
	}
	if dropPartitionID(r2) {
		known = "partition-id"
		if keptTokens(r2, fm) == "" {
			return eng.KnownErr{ID: known}
		}
	}
	if unquoteShowFormat(r2) {
		known = "show-format-name"
	}
	if known != "" && keptTokens(r2, fm) == "" {
		return eng.KnownErr{ID: known}
	}
	return fmt.Errorf("differs: %s", keptTokens(r2, fm))
}

// dropPartitionID: PARTITION ID 'x' is printed as PARTITION 'x'.
func dropPartitionID(ref []gram.RTok) bool {
	hit := false
	for i := range ref {
		if word(ref[i]) == "ID" && i > 0 && word(ref[i-1]) == "PARTITION" && i+1 < len(ref) && ref[i+1].Kind == gram.StrK {
			ref[i] = gram.RTok{Kind: gram.Punct, Text: ","}
			hit = true
		}
	}
	return hit
}

// unquoteShowFormat: SHOW ... FORMAT name is printed as FORMAT 'name'.
func unquoteShowFormat(ref []gram.RTok) bool {
	show, hit := false, false
	for i := range ref {
		if stmtStart(ref, i) {
			show = word(ref[i]) == "SHOW"
		}
		if show && word(ref[i]) == "FORMAT" && i+1 < len(ref) && ref[i+1].Kind == gram.IdentK {
			t := &ref[i+1]
			if word(*t) == "" {
				t.Text = t.Text[1 : len(t.Text)-1]
			}
			t.Text = "'" + t.Text + "'"
			t.Kind = gram.StrK
			hit = true
		}
	}
	return hit
}

// keptTokens compares the significant tokens of the source with those of the
// formatted text: as sequences, or as multisets where the text has a part that
// is printed in a fixed order.
func keptTokens(src, fm []gram.RTok) string {
	a, b := groupModifiers(significant(src)), groupModifiers(significant(fm))
	if eqStrs(a, b) {
		return ""
	}
	if reorders(src) {
		x, y := append([]string(nil), a...), append([]string(nil), b...)
		// LIMIT a, b is printed as LIMIT b OFFSET a
		d := count(y, "OFFSET") - count(x, "OFFSET")
		if d > 0 && d <= count(x, "LIMIT") {
			for i := 0; i < d; i++ {
				x = append(x, "OFFSET")
			}
		}
		sort.Strings(x)
		sort.Strings(y)
		if eqStrs(x, y) {
			return ""
		}
	}
	return diffWords(a, b)
}

// groupModifiers puts WITH CUBE, WITH ROLLUP and WITH TOTALS next to each other
// into the order the formatter prints them in.
func groupModifiers(l []string) []string {
	is := func(i int) bool {
		return i+1 < len(l) && l[i] == "WITH" && (l[i+1] == "CUBE" || l[i+1] == "ROLLUP" || l[i+1] == "TOTALS")
	}
	for i := 0; i < len(l); i++ {
		j := i
		for is(j) {
			j += 2
		}
		for ; j > i+2; j -= 2 { // the greatest to the end, then the next
			for k := i; k+2 < j; k += 2 {
				if l[k+1] > l[k+3] {
					l[k+1], l[k+3] = l[k+3], l[k+1]
				}
			}
		}
	}
	return l
}

func count(l []string, s string) int {
	n := 0
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return n
}

func diffWords(a, b []string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	x, y := len(a), len(b)
	for x > i && y > i && a[x-1] == b[y-1] {
		x--
		y--
	}
	pre := "the beginning"
	if i > 0 {
		pre = a[i-1]
	}
	return fmt.Sprintf("after %s the source has %q, the formatted text %q", pre, strings.Join(a[i:x], " "), strings.Join(b[i:y], " "))
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P06",
		Space: func(c *eng.Ctx) {
			stdSpaces(c, "kept")
			editSpaces(c, "kept")
			deepSpaces(c, "kept")
		},
		Check: keptCheck,
	})
}
