package props

import (
	"fmt"
	"os"
	"sort"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

type sigTok struct {
	s string
	i int
}

// sigIdx is significant with the index of the source token of each entry.
func sigIdx(ref []gram.RTok) []sigTok {
	var out []sigTok
	for i := range ref {
		for _, s := range significantAt(ref, i) {
			switch {
			case s == "SETTINGS":
				s = "SET"
			case s == "ATTACH" && stmtStart(ref, i):
				s = "CREATE" // printed so, see P06
			case s == "DETACH" && stmtStart(ref, i):
				s = "DROP"
			}
			out = append(out, sigTok{s, i})
		}
	}
	return out
}

// layout is the token structure of one source text.
type layout struct {
	src    string
	ref    []gram.RTok
	starts map[int]int
	ends   map[int]int
	sig    []sigTok
	at     []int // token -> first sig index at or after it, len(sig) if none
}

func newLayout(src string) (*layout, bool) {
	ref, err := gram.RefLex(src)
	if err != nil {
		return nil, false
	}
	l := &layout{src: src, ref: ref, starts: map[int]int{}, ends: map[int]int{}, sig: sigIdx(ref)}
	for i, t := range ref {
		l.starts[t.Start], l.starts[t.RawStart] = i, i
		l.ends[t.End], l.ends[t.RawEnd] = i, i
	}
	l.at = make([]int, len(ref)+1)
	l.at[len(ref)] = len(l.sig)
	for i, x := len(ref)-1, len(l.sig); i >= 0; i-- {
		for x > 0 && l.sig[x-1].i >= i {
			x--
		}
		l.at[i] = x
	}
	return l, true
}

// posBlame is one wrong position: what is wrong with which node.
type posBlame struct {
	id   string // e.g. end:CreateUser:next
	what string
}

// judge finds the nodes of one statement whose range is not theirs.  A node's
// formatted text says how many significant tokens it has; they are looked up in
// the source from the token the node starts at.
func (l *layout) judge(s p.Expr) []posBlame {
	nodes := astx.Nodes(s)
	type res struct {
		last            int // last token of the node, -1 if not found
		bad             bool
		empty, badStart bool
	}
	rs := make([]res, len(nodes))
	var out []posBlame
	for x := len(nodes) - 1; x >= 0; x-- {
		n := nodes[x]
		rs[x].last = -1
		name := astx.TypeName(n.Expr)
		P, E := int(n.Expr.Pos()), int(n.Expr.End())
		text := compact(n.Expr)
		add := func(f string, a ...any) {
			out = append(out, posBlame{fmt.Sprintf(f, a...), fmt.Sprintf("%s has range %d-%d, its text is %s", name, P, E, text)})
		}
		if P < 0 || P > len(l.src) {
			add("start:%s:outside", name)
			continue
		}
		switch n.Expr.(type) {
		case *p.StringLiteral, *p.NumberLiteral:
			// decided by posLeaf
			rs[x].badStart = posLeaf(l, n.Expr) != ""
			continue
		case *p.DictionaryEngineClause:
			continue // printed in an order of its own
		case *p.Ident:
			if text != "*" {
				continue
			}
		}
		f, ferr := gram.RefLex(text)
		if ferr != nil {
			continue
		}
		b := significant(f)
		for y := range b {
			if b[y] == "SETTINGS" {
				b[y] = "SET"
			}
		}
		if e, ok := n.Expr.(*p.ColumnExprList); len(b) == 0 || ok && len(e.Items) == 0 {
			rs[x].empty = true // the range of nothing
			continue
		}
		lead := 0
		for f[lead].Text == "(" || f[lead].Text == "," {
			lead++
		}
		if len(b) == 1 && keywordSet[b[0]] && namedSo(n.Expr, b[0]) {
			continue // a name that reads like the keyword before it
		}
		i, ok := l.starts[P]
		if !ok {
			add("start:%s:off", name)
			continue
		}
		q := l.at[i]
		if name == "SettingsClause" && q > 0 && q < len(l.sig) && l.sig[q-1].s == "SET" && l.sig[q].s != b[0] {
			b = b[1:] // SET a = 1 has no SETTINGS of its own
			if len(b) == 0 {
				continue
			}
		}
		if _, ok := n.Expr.(*p.JoinExpr); ok {
			// from the words of the join, which are printed outside it
			z := q
			for z < len(l.sig) && joinWords[l.sig[z].s] && l.sig[z].s != "JOIN" {
				z++
			}
			if z < len(l.sig) && l.sig[z].s == "JOIN" {
				q = z + 1
			}
		}
		if q >= len(l.sig) || l.sig[q].s != b[0] {
			rs[x].badStart = true
			inherited := false
			for y := x + 1; y < len(nodes); y++ {
				if nodes[y].Parent == x && rs[y].badStart && int(nodes[y].Expr.Pos()) == P {
					inherited = true
				}
			}
			// its end is judged from where its text is found
			if z := q + 1; x > 0 && len(b) > 0 {
				for z < len(l.sig) && !l.matches(z, b) {
					z++
				}
				if z < len(l.sig) {
					rs[x].last = l.sig[z+len(b)-1].i
					rs[x].bad = E != l.ref[rs[x].last].End
				}
			}
			if inherited {
				continue
			}
			cl := l.startClass(name, i)
			if a, ok := n.Expr.(*p.AliasExpr); ok && a.Alias != nil && P == int(a.Alias.Pos()) {
				cl = "alias"
			}
			add("start:%s:%s", blameName(name, cl), cl)
			continue
		}
		if !l.matches(q, b) {
			continue
		}
		if j, ok := n.Expr.(*p.JoinExpr); ok && len(j.Modifiers) > 0 {
			// printed without the rest: it ends with the last of its parts
			end := 0
			for y := x + 1; y < len(nodes); y++ {
				if nodes[y].Parent == x && int(nodes[y].Expr.End()) > end {
					end = int(nodes[y].Expr.End())
				}
			}
			if rs[x].bad = true; E != end {
				add("end:JoinExpr:part")
			}
			continue
		}
		last := l.sig[q+len(b)-1].i
		rs[x].last = last
		// closing brackets of the node that carry no meaning of their own
		m := 0
		for y := len(f) - 1; y >= 0 && (f[y].Text == ")" || f[y].Text == "(" || f[y].Text == ","); y-- {
			m++
		}
		lt := last
		for y := 0; y < m && lt < len(l.ref); y++ {
			for lt++; lt < len(l.ref) && (l.ref[lt].Text == "," && f[len(f)-m+y].Text != "," || word(l.ref[lt]) == "AS"); lt++ {
				// the comma after the last item is not printed, AS is not counted
			}
		}
		good := l.endsAt(lt, E)
		if !good && lead > 0 && l.sig[q].i == i && m >= lead && l.endsAt(lt-lead, E) {
			// the outer brackets are not part of it, nor of what ends with it
			good = true
			rs[x].bad = true
		}
		if !good && last+2 < len(l.ref) && l.ref[last+1].Text == "(" && l.ref[last+2].Text == ")" {
			good = l.endsAt(lt+2, E) // the brackets of ZSTD() are not printed
		}
		if d, ok := n.Expr.(*p.DestinationClause); ok && d.TableSchema != nil {
			good = E == int(d.TableSchema.End()) // its columns are printed elsewhere
		}
		if !good && (text == "*" || text == "?") && E == P {
			good, rs[x].bad = true, true // these may have an empty range
		}
		if good {
			continue
		}
		rs[x].bad = true
		inherited, child := false, false
		from := -1 // the last token of the part it ends with
		for y := x + 1; y < len(nodes); y++ {
			if nodes[y].Parent != x || int(nodes[y].Expr.End()) != E {
				continue
			}
			child = true
			if rs[y].bad && rs[y].last > from {
				from = rs[y].last
			}
			_, dict := nodes[y].Expr.(*p.DictionaryEngineClause)
			join := name == "JoinExpr" && (rs[y].bad || rs[y].badStart) // printed without its right side
			if dict || join || rs[y].empty || rs[y].bad && rs[y].last == last {
				inherited = true
			}
		}
		for y := x + 1; y < len(nodes) && !child; y++ {
			if int(nodes[y].Expr.End()) == E {
				for z := nodes[y].Parent; z >= x; z = nodes[z].Parent {
					child = child || z == x
				}
			}
		}
		if inherited {
			continue
		}
		cl := l.class(E, i, last, lt)
		if child && cl != "zero" {
			cl = "child" // it ends where a part of it ends
		}
		if cl == "child" || cl == "short" {
			if from >= 0 && from < lt {
				E = l.ref[from].End
			}
			cl += ":" + l.missing(E, lt)
		}
		add("end:%s:%s", name, cl)
	}
	return out
}

// matches: the significant tokens from q on are b.
func (l *layout) matches(q int, b []string) bool {
	if q+len(b) > len(l.sig) {
		return false
	}
	for y := range b {
		if l.sig[q+y].s != b[y] {
			return false
		}
	}
	return true
}

// namedSo: an identifier under e has this name.
func namedSo(e p.Expr, name string) bool {
	for _, n := range astx.Nodes(e) {
		if i, ok := n.Expr.(*p.Ident); ok && strings.EqualFold(i.Name, name) {
			return true
		}
	}
	return false
}

// endsAt: E is the end of token t, or t itself if it closes a bracket.
func (l *layout) endsAt(i, E int) bool {
	if i >= len(l.ref) {
		return false
	}
	t := l.ref[i]
	if t.Text == ")" || t.Text == "]" || t.Text == "}" {
		return E == t.Start || E == t.End
	}
	return E == t.End || E == t.RawEnd
}

var joinWords = map[string]bool{"GLOBAL": true, "LOCAL": true, "ANY": true, "ALL": true, "ASOF": true, "SEMI": true, "ANTI": true,
	"INNER": true, "LEFT": true, "RIGHT": true, "FULL": true, "OUTER": true, "CROSS": true, "ARRAY": true, "JOIN": true}

// Operands of ORDER BY and of FILL are given the start of the clause.
var exprTypes = map[string]bool{"CaseExpr": true, "CastExpr": true, "ExtractExpr": true, "PlaceHolder": true, "UnaryExpr": true,
	"NumberLiteral": true, "StringLiteral": true, "IntervalExpr": true, "ArrayParamList": true, "MapLiteral": true}
var fillWords = map[string]bool{"FROM": true, "TO": true, "STEP": true, "STALENESS": true}

func blameName(name, class string) string {
	if exprTypes[name] && (class == "ORDER" || class == "FILL" || class == "TTL") {
		return "operand"
	}
	return name
}

// startClass is the kind of token a node wrongly starts at.
func (l *layout) startClass(name string, i int) string {
	if i >= len(l.ref) {
		return "eof"
	}
	if u := word(l.ref[i]); keywordSet[u] {
		if exprTypes[name] && fillWords[u] {
			return "FILL"
		}
		if name == "JoinExpr" || name == "Fill" {
			return "keyword"
		}
		return u
	}
	if l.ref[i].Kind == gram.Punct {
		return "punct"
	}
	return "operand"
}

// class says where a wrong end lies.
func (l *layout) class(E, i, last, lt int) string {
	if E == 0 {
		return "zero"
	}
	if E < 0 || E > len(l.src) {
		return "outside"
	}
	if lt < len(l.ref) && lt+1 == len(l.ref) && E > l.ref[lt].RawEnd {
		return "next" // the end of the input
	}
	t, atEnd := l.ends[E]
	if !atEnd {
		var ok bool
		if t, ok = l.starts[E]; !ok {
			return "off"
		}
	}
	switch {
	case t < i:
		return "before"
	case t == i && !atEnd:
		return "start"
	case t == last && last != lt:
		return "bracket"
	case t <= last:
		return "short"
	case t == lt+1:
		return "next"
	}
	return "late"
}

// missing is the kind of the first token, up to lt, that a range ending at E
// leaves out.
func (l *layout) missing(E, lt int) string {
	if E == 0 {
		return "zero"
	}
	i := sort.Search(len(l.ref), func(i int) bool { return l.ref[i].End > E })
	for i < len(l.ref) && (l.ref[i].Text == ")" || l.ref[i].Text == "]") {
		i++
	}
	if i > lt || i >= len(l.ref) {
		return "bracket"
	}
	if u := word(l.ref[i]); keywordSet[u] {
		return u
	}
	if l.ref[i].Kind == gram.Punct {
		return "punct"
	}
	return "operand"
}

// place is a position relative to the tokens: an offset into a token.
type place struct{ tok, off int }

func (l *layout) places(v int) []place {
	var out []place
	i := sort.Search(len(l.ref), func(i int) bool { return l.ref[i].RawEnd >= v })
	for ; i < len(l.ref) && l.ref[i].RawStart <= v; i++ {
		out = append(out, place{i, v - l.ref[i].RawStart})
	}
	if v == len(l.src) || v == len(l.src)+1 {
		out = append(out, place{len(l.ref), v - len(l.src)})
	}
	return out
}

type posVal struct {
	name string
	v    int
}

// allPos lists every position an AST holds or computes, in a fixed order.
func allPos(st []p.Expr) []posVal {
	var out []posVal
	for _, s := range st {
		astx.PosFields(s, func(o, f string, v p.Pos) { out = append(out, posVal{o + "." + f, int(v)}) })
		for _, n := range astx.Nodes(s) {
			name := astx.TypeName(n.Expr)
			out = append(out, posVal{name + ".Pos()", int(n.Expr.Pos())}, posVal{name + ".End()", int(n.Expr.End())})
		}
	}
	return out
}

// relayout is src with a wide gap before, between and after all tokens.
func (l *layout) relayout(sep string) (string, bool) {
	t := make([]string, len(l.ref))
	for i := range t {
		t[i] = l.ref[i].Text
	}
	v := sep + strings.Join(t, sep) + sep
	return v, sameTokens(v, t)
}

// posLeaf checks the range of identifiers and literals.
func posLeaf(l *layout, e p.Expr) string {
	var want string
	switch x := e.(type) {
	case *p.Ident:
		if want = x.Name; want == "*" {
			return ""
		}
	case *p.StringLiteral:
		want = x.Literal
	case *p.NumberLiteral:
		want = x.Literal
	default:
		return ""
	}
	P, E := int(e.Pos()), int(e.End())
	if P < 0 || E < P || E > len(l.src) {
		return "outside"
	}
	if got := l.src[P:E]; got != want {
		t := "gap"
		if i, ok := l.starts[P]; ok {
			t = l.startClass(astx.TypeName(e), i)
		}
		return t
	}
	return ""
}

var draftSeen = map[string]int{}

func positions(c *eng.Ctx, k *eng.Case) error {
	src := srcOf(k)
	st, err := parseNote(c, src)
	if err != nil {
		return nil
	}
	l, ok := newLayout(src)
	if !ok {
		return nil
	}
	for _, s := range st {
		for _, n := range astx.Nodes(s) {
			if i, ok := n.Expr.(*p.Ident); ok && strings.EqualFold(i.Name, "AS") {
				return nil // AS carries no meaning for the matching below
			}
		}
	}
	var out []string
	add := func(id, f string, a ...any) {
		if !c.Listed(id) {
			out = append(out, id+" "+fmt.Sprintf(f, a...))
		}
	}
	for _, s := range st {
		for _, b := range l.judge(s) {
			add(b.id, "%s", b.what)
		}
	}
	for _, s := range st {
		for _, n := range astx.Nodes(s) {
			if at := posLeaf(l, n.Expr); at != "" {
				add("leaf:"+blameName(astx.TypeName(n.Expr), at)+":"+at, "%s has range %d-%d", compact(n.Expr), n.Expr.Pos(), n.Expr.End())
			}
		}
	}
	a := allPos(st)
	// one value is blamed on the last, innermost position that has it
	blamed := map[int]string{}
	for i := len(a) - 1; i >= 0; i-- {
		if v := a[i].v; v < 0 || v > len(src) {
			if blamed[v] == "" {
				blamed[v] = a[i].name
				add("range:"+a[i].name, "%d in %d bytes", v, len(src))
			}
		}
	}
	for _, sep := range []string{" /* ' */\n"} {
		src2, ok := l.relayout(sep)
		if !ok {
			continue
		}
		st2, err := Parse(c, src2)
		if err != nil {
			continue // P11 decides that
		}
		l2, _ := newLayout(src2)
		for _, s := range st2 {
			for _, b := range l2.judge(s) {
				add(b.id, "%s", b.what)
			}
		}
		b := allPos(st2)
		if len(a) != len(b) {
			continue
		}
		type pair struct{ a, b int }
		seen := map[pair]bool{}
		for i := len(a) - 1; i >= 0; i-- {
			if a[i].v == 0 && b[i].v == 0 || seen[pair{a[i].v, b[i].v}] {
				continue
			}
			seen[pair{a[i].v, b[i].v}] = true
			same := false
			q := l2.places(b[i].v)
			for _, x := range l.places(a[i].v) {
				for _, y := range q {
					same = same || x == y
				}
			}
			if !same {
				add("layout:"+a[i].name, "%d becomes %d in another layout: %q", a[i].v, b[i].v, src2)
			}
		}
	}
	if len(out) > 0 {
		if os.Getenv("P07DRAFT") == "" {
			out = out[:1]
		} else { // listing the findings: a few examples of each will do
			var few []string
			for _, o := range out {
				id, _, _ := strings.Cut(o, " ")
				if draftSeen[id]++; draftSeen[id] <= 3 {
					few = append(few, o)
				}
			}
			if out = few; len(out) == 0 {
				return nil
			}
		}
		return fmt.Errorf("%s", strings.Join(out, "|"))
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P07",
		Space: func(c *eng.Ctx) {
			if c.Thorough {
				// no larger ones: the listed findings are complete for these
				stdSpaces(c, "pos")
				Edits(c, "pos", "edits-1", gram.Budget{Shape: 1}, junk, true)
				Edits(c, "pos", "edits-2", gram.Budget{Shape: 2}, nil, true)
				Edits(c, "pos", "keyword-edits-1", gram.Budget{Shape: 1}, gram.Keywords, false)
				RangeEdits(c, "pos", "runs-2", gram.Budget{Shape: 2}, 8)
				Derivs(c, "pos", gram.Budget{Shape: 2, Size: 1})
				return
			}
			Derivs(c, "pos", gram.Budget{Shape: 2})
			Derivs(c, "pos", gram.Budget{Shape: 1, Lex: 1})
			Derivs(c, "pos", gram.Budget{Shape: 1, Size: 1})
			CorpusCases(c, "pos", 1<<20)
			Scale(c, "pos", scriptParts(gram.Budget{}))
			Nests(c, "pos", nestDepths(c))
			Derivs(c, "pos", gram.Budget{Shape: 2, Lex: 1})
			Edits(c, "pos", "edits-1", gram.Budget{Shape: 1}, junk, true)
			Edits(c, "pos", "keyword-edits", gram.Budget{Shape: 0}, gram.Keywords, false)
			RangeEdits(c, "pos", "runs-1", gram.Budget{Shape: 1}, 8)
		},
		Check: positions,
	})
}
