package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
)

// The operator table, loosest first.
const (
	bArrow = iota + 1
	bTernary
	bOr
	bAnd
	bNot
	bIs
	bCompare
	bLike // and BETWEEN
	bIn
	bConcat
	bAdd
	bMul
	bPostfix
)

// xop is one operator as the source writes it, what the AST calls it, and how
// it binds.
type xop struct {
	toks  []string
	name  string
	level int
	kind  byte // 'b'inary, 'p'refix, 's'uffix, special: 'w' BETWEEN, '?' , ':' , '>' lambda
}

func bin(l int, names ...string) (out []xop) {
	for _, n := range names {
		out = append(out, xop{strings.Fields(n), n, l, 'b'})
	}
	return
}

var infixOps = func() []xop {
	var o []xop
	o = append(o, xop{[]string{"->"}, "->", bArrow, '>'}, xop{[]string{"?"}, "?", bTernary, '?'}, xop{[]string{":"}, ":", 0, ':'})
	o = append(o, bin(bOr, "OR")...)
	o = append(o, bin(bAnd, "AND")...)
	o = append(o, bin(bCompare, "=", "==", "!=", "<>", "<", "<=", ">", ">=")...)
	o = append(o, bin(bLike, "LIKE", "NOT LIKE", "ILIKE", "NOT ILIKE", "REGEXP")...)
	o = append(o, xop{[]string{"BETWEEN"}, "BETWEEN", bLike, 'w'}, xop{[]string{"NOT", "BETWEEN"}, "NOT BETWEEN", bLike, 'w'})
	o = append(o, bin(bIn, "IN", "NOT IN", "GLOBAL IN", "GLOBAL NOT IN")...)
	o = append(o, bin(bConcat, "||")...)
	o = append(o, bin(bAdd, "+", "-")...)
	o = append(o, bin(bMul, "*", "/", "%")...)
	return o
}()

var prefixOps = []xop{
	{[]string{"NOT"}, "NOT", bNot, 'p'},
	{[]string{"-"}, "-", bMul, 'p'},
	{[]string{"+"}, "+", bMul, 'p'},
}

var suffixOps = []xop{
	{[]string{"IS", "NULL"}, "IS NULL", bIs, 's'},
	{[]string{"IS", "NOT", "NULL"}, "IS NOT NULL", bIs, 's'},
	{[]string{"[", "i", "]"}, "[i]", bPostfix, 's'},
	{[]string{".", "m"}, ".m", bPostfix, 's'},
	{[]string{".", "1"}, ".1", bPostfix, 's'},
	{[]string{"::", "T"}, "::T", bPostfix, 's'},
}

// A sequence is a list of codes: 0 operand, 1+k prefix k, 100+k infix k,
// 200+k suffix k, 300 '(' and 301 ')'.
const (
	cOperand = 0
	cPrefix  = 1
	cInfix   = 100
	cSuffix  = 200
	cOpen    = 300
	cShut    = 301
)

var operandNames = []string{"a", "b", "c", "d", "e", "f", "g", "h", "k", "l", "n", "o", "q", "r", "s", "u", "v", "w", "x", "y"}

func opSource(seq []int) string {
	var t []string
	n := 0
	for _, s := range seq {
		switch {
		case s == cOperand:
			t = append(t, operandNames[n%len(operandNames)])
			n++
		case s < cInfix:
			t = append(t, prefixOps[s-cPrefix].toks...)
		case s < cSuffix:
			t = append(t, infixOps[s-cInfix].toks...)
		case s < cOpen:
			t = append(t, suffixOps[s-cSuffix].toks...)
		case s == cOpen:
			t = append(t, "(")
		default:
			t = append(t, ")")
		}
	}
	return "SELECT " + strings.Join(t, " ")
}

// opParser is the reference: precedence climbing over the table above.
type opParser struct {
	seq []int
	i   int
	n   int // operands met
	b   []byte
}

var errOps = errors.New("no expression")

func (r *opParser) peek() int {
	if r.i < len(r.seq) {
		return r.seq[r.i]
	}
	return -1
}

func (r *opParser) unary() (string, error) {
	s := r.peek()
	switch {
	case s == cOperand:
		r.i++
		r.n++
		return operandNames[(r.n-1)%len(operandNames)], nil
	case s == cOpen:
		r.i++
		x, err := r.expr(0)
		if err != nil {
			return "", err
		}
		if r.peek() != cShut {
			return "", errOps
		}
		r.i++
		return "(paren " + x + ")", nil
	case s >= cPrefix && s < cInfix:
		o := prefixOps[s-cPrefix]
		r.i++
		x, err := r.expr(o.level)
		if err != nil {
			return "", err
		}
		return "(" + o.name + " " + x + ")", nil
	}
	return "", errOps
}

// expr reads operators that bind tighter than level.
func (r *opParser) expr(level int) (string, error) {
	x, err := r.unary()
	if err != nil {
		return "", err
	}
	for {
		s := r.peek()
		var o xop
		switch {
		case s >= cSuffix && s < cOpen:
			o = suffixOps[s-cSuffix]
		case s >= cInfix && s < cSuffix:
			o = infixOps[s-cInfix]
		default:
			return x, nil
		}
		if o.level <= level {
			return x, nil
		}
		r.i++
		switch o.kind {
		case 's':
			x = "(" + x + " " + o.name + ")"
		case 'b':
			y, err := r.expr(o.level)
			if err != nil {
				return "", err
			}
			x = "(" + x + " " + o.name + " " + y + ")"
		case '>': // the body takes everything
			y, err := r.expr(0)
			if err != nil {
				return "", err
			}
			x = "(" + x + " -> " + y + ")"
		case 'w':
			y, err := r.expr(bLike)
			if err != nil {
				return "", err
			}
			if p := r.peek(); p < cInfix || p >= cSuffix || infixOps[p-cInfix].name != "AND" {
				return "", errOps
			}
			r.i++
			z, err := r.expr(bLike)
			if err != nil {
				return "", err
			}
			x = "(" + x + " " + o.name + " " + y + " AND " + z + ")"
		case '?':
			y, err := r.expr(0)
			if err != nil {
				return "", err
			}
			if p := r.peek(); p < cInfix || p >= cSuffix || infixOps[p-cInfix].name != ":" {
				return "", errOps
			}
			r.i++
			z, err := r.expr(0)
			if err != nil {
				return "", err
			}
			x = "(" + x + " ? " + y + " : " + z + ")"
		}
	}
}

func refTree(seq []int) (string, error) {
	r := &opParser{seq: seq}
	x, err := r.expr(0)
	if err == nil && r.i != len(seq) {
		err = errOps
	}
	return x, err
}

// tree renders the parser's AST in the same way.
func tree(e p.Expr) (string, error) {
	two := func(a, b p.Expr, op string) (string, error) {
		x, err := tree(a)
		if err != nil {
			return "", err
		}
		y, err := tree(b)
		return "(" + x + " " + op + " " + y + ")", err
	}
	switch x := e.(type) {
	case *p.Ident:
		return x.Name, nil
	case *p.UnaryExpr:
		y, err := tree(x.Expr)
		return "(" + strings.ToUpper(string(x.Kind)) + " " + y + ")", err
	case *p.BinaryOperation:
		op := strings.ToUpper(string(x.Operation))
		if x.HasNot {
			op = "NOT " + op
		}
		if x.HasGlobal {
			op = "GLOBAL " + op
		}
		if op == "::" {
			y, err := tree(x.LeftExpr)
			return "(" + y + " ::" + compact(x.RightExpr) + ")", err
		}
		return two(x.LeftExpr, x.RightExpr, op)
	case *p.BetweenClause:
		op := "BETWEEN"
		if x.Not {
			op = "NOT BETWEEN"
		}
		a, err := tree(x.Expr)
		if err != nil {
			return "", err
		}
		b, err := tree(x.Between)
		if err != nil {
			return "", err
		}
		d, err := tree(x.And)
		return "(" + a + " " + op + " " + b + " AND " + d + ")", err
	case *p.TernaryOperation:
		a, err := tree(x.Condition)
		if err != nil {
			return "", err
		}
		b, err := tree(x.TrueExpr)
		if err != nil {
			return "", err
		}
		d, err := tree(x.FalseExpr)
		return "(" + a + " ? " + b + " : " + d + ")", err
	case *p.IsNullExpr:
		a, err := tree(x.Expr)
		return "(" + a + " IS NULL)", err
	case *p.IsNotNullExpr:
		a, err := tree(x.Expr)
		return "(" + a + " IS NOT NULL)", err
	case *p.IndexOperation:
		a, err := tree(x.Object)
		return "(" + a + " ." + compact(x.Index) + ")", err
	case *p.ObjectParams:
		a, err := tree(x.Object)
		return "(" + a + " " + compact(x.Params) + ")", err
	case *p.Path:
		s := x.Fields[0].Name
		for _, f := range x.Fields[1:] {
			s = "(" + s + " ." + f.Name + ")"
		}
		return s, nil
	case *p.ParamExprList:
		if x.Items == nil || len(x.Items.Items) != 1 || x.ColumnArgList != nil {
			return "", fmt.Errorf("a list, not a parenthesised expression")
		}
		y, err := tree(x.Items.Items[0])
		return "(paren " + y + ")", err
	case *p.ColumnExpr:
		if x.Alias != nil {
			return "", fmt.Errorf("read with an alias %s", compact(x.Alias))
		}
		return tree(x.Expr)
	}
	return "", fmt.Errorf("unexpected %s", astx.TypeName(e))
}

func opCheck(c *eng.Ctx, k *eng.Case) error {
	switch k.Kind {
	case "sets", "joins":
		return chainCheck(c, k)
	case "slot", "slot-operand":
		return slotCheck(c, k)
	case "operand":
		return operandCheck(c, k)
	case "batch":
		return opBatch(c, k.N)
	}
	return opOne(c, k.N)
}

// opBatch runs every extension of the sequence N[2:] by up to N[0] items from
// the full (N[1]=0) or reduced table.
func opBatch(c *eng.Ctx, n []int) error {
	pre, in, su := tableOf(n[1])
	seq := append(make([]int, 0, 32), n[2:]...)
	var rec func(left int, operand bool) error
	rec = func(left int, operand bool) error {
		if operand {
			if left > 0 {
				for _, k := range pre {
					seq = append(seq, cPrefix+k)
					if err := rec(left-1, true); err != nil {
						return err
					}
					seq = seq[:len(seq)-1]
				}
			}
			seq = append(seq, cOperand)
			err := rec(left, false)
			if err == nil {
				seq = seq[:len(seq)-1]
			}
			return err
		}
		c.Edges(1)
		if err := opOne(c, seq); err != nil {
			return err
		}
		if left == 0 {
			return nil
		}
		for _, k := range su {
			seq = append(seq, cSuffix+k)
			if err := rec(left-1, false); err != nil {
				return err
			}
			seq = seq[:len(seq)-1]
		}
		for _, k := range in {
			seq = append(seq, cInfix+k)
			if err := rec(left-1, true); err != nil {
				return err
			}
			seq = seq[:len(seq)-1]
		}
		return nil
	}
	last := n[len(n)-1]
	return rec(n[0], last < cSuffix && last != cOperand)
}

var fullTable, reducedTable [3][]int

func init() {
	for k := range prefixOps {
		fullTable[0] = append(fullTable[0], k)
		if k < 2 {
			reducedTable[0] = append(reducedTable[0], k)
		}
	}
	level := map[string]bool{}
	for k, o := range infixOps {
		fullTable[1] = append(fullTable[1], k)
		if id := fmt.Sprint(o.level, o.kind); !level[id] {
			level[id] = true
			reducedTable[1] = append(reducedTable[1], k)
		}
	}
	for k := range suffixOps {
		fullTable[2] = append(fullTable[2], k)
		if k == 0 || k == 2 || k == 5 {
			reducedTable[2] = append(reducedTable[2], k)
		}
	}
}

func tableOf(reduced int) (pre, in, su []int) {
	t := fullTable
	if reduced == 1 {
		t = reducedTable
	}
	return t[0], t[1], t[2]
}

func opOne(c *eng.Ctx, seq []int) error {
	want, rerr := refTree(seq)
	if rerr != nil {
		return nil
	}
	src := opSource(seq)
	st, err := parseNote(c, src)
	if err != nil {
		return fmt.Errorf("%s: rejected: %s", src, firstLine(err))
	}
	e, err := selectItem(st)
	if err != nil {
		return fmt.Errorf("%s: %v", src, err)
	}
	got, err := tree(e)
	if err != nil {
		return fmt.Errorf("%s: %v", src, err)
	}
	if got != want {
		return fmt.Errorf("%s groups as %s, the table says %s", src, got, want)
	}
	return nil
}

func selectItem(st []p.Expr) (p.Expr, error) {
	if len(st) == 1 {
		if s, ok := st[0].(*p.SelectQuery); ok && len(s.SelectItems) == 1 {
			it := s.SelectItems[0]
			if it.Alias != nil || len(it.Modifiers) > 0 {
				return nil, fmt.Errorf("read with an alias or modifier")
			}
			return it.Expr, nil
		}
	}
	return nil, fmt.Errorf("not one select item")
}

// Chains.

var setOps = []string{"UNION ALL", "UNION DISTINCT", "EXCEPT", "INTERSECT"}

var joinOps = []string{",", "JOIN", "LEFT JOIN", "GLOBAL INNER JOIN", "FULL OUTER JOIN", "ASOF JOIN", "CROSS JOIN", "ANY LEFT JOIN", "ARRAY JOIN", "LEFT ARRAY JOIN", "LOCAL RIGHT JOIN"}

func needsOn(op string) bool {
	return op != "," && op != "CROSS JOIN" && !strings.Contains(op, "ARRAY")
}

func chainSource(k *eng.Case) string {
	var b strings.Builder
	if k.Kind == "sets" {
		b.WriteString("SELECT x0")
		for i, o := range k.N {
			fmt.Fprintf(&b, " %s SELECT x%d", setOps[o], i+1)
		}
		return b.String()
	}
	b.WriteString("SELECT 1 FROM x0")
	for i, o := range k.N {
		op := joinOps[o]
		fmt.Fprintf(&b, " %s x%d", op, i+1)
		if needsOn(op) {
			if i%3 == 2 {
				fmt.Fprintf(&b, " USING u%d", i+1)
			} else {
				fmt.Fprintf(&b, " ON u%d = v%d", i+1, i+1)
			}
		}
	}
	return b.String()
}

// chainCheck flattens the right-leaning list the parser builds and compares it
// with the source.
func chainCheck(c *eng.Ctx, k *eng.Case) error {
	src := chainSource(k)
	st, err := parseNote(c, src)
	if err != nil {
		return fmt.Errorf("%s: rejected: %s", src, firstLine(err))
	}
	if len(st) != 1 {
		return fmt.Errorf("%d statements", len(st))
	}
	q, ok := st[0].(*p.SelectQuery)
	if !ok {
		return fmt.Errorf("not a query")
	}
	var got []string
	if k.Kind == "sets" {
		for q != nil {
			if len(q.SelectItems) != 1 {
				return fmt.Errorf("%d items", len(q.SelectItems))
			}
			got = append(got, compact(q.SelectItems[0]))
			var next *p.SelectQuery
			for i, n := range []*p.SelectQuery{q.UnionAll, q.UnionDistinct, q.Except, q.Intersect} {
				if n != nil {
					if next != nil {
						return fmt.Errorf("%s: two set operations at one query", src)
					}
					next = n
					got = append(got, setOps[i])
				}
			}
			q = next
		}
		want := []string{"x0"}
		for i, o := range k.N {
			want = append(want, setOps[o], fmt.Sprintf("x%d", i+1))
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Errorf("%s: read as %v", src, got)
		}
		return nil
	}
	if q.From == nil {
		return fmt.Errorf("no FROM")
	}
	var flat func(e p.Expr) error
	flat = func(e p.Expr) error {
		switch x := e.(type) {
		case *p.JoinExpr:
			if len(x.Modifiers) > 0 {
				got = append(got, strings.ToUpper(strings.Join(x.Modifiers, " ")))
			} else if len(got) > 0 {
				got = append(got, ",")
			}
			got = append(got, compact(x.Left))
			if x.Constraints != nil {
				got = append(got, compact(x.Constraints))
			}
			if x.Right != nil {
				return flat(x.Right)
			}
		case *p.JoinTableExpr:
			if len(got) > 0 {
				got = append(got, ",")
			}
			got = append(got, compact(x))
		default:
			return fmt.Errorf("%s: unexpected %s in FROM", src, astx.TypeName(e))
		}
		return nil
	}
	if err := flat(q.From.Expr); err != nil {
		return err
	}
	want := []string{"x0"}
	for i, o := range k.N {
		op := joinOps[o]
		want = append(want, op, fmt.Sprintf("x%d", i+1))
		if needsOn(op) {
			if i%3 == 2 {
				want = append(want, fmt.Sprintf("USING u%d", i+1))
			} else {
				want = append(want, fmt.Sprintf("ON u%d = v%d", i+1, i+1))
			}
		}
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("%s: read as %q", src, got)
	}
	return nil
}

func chainSpace(c *eng.Ctx, kind string, ops, depth int, long []int, ok func([]int) bool) {
	if !c.Begin("chains/"+kind, fmt.Sprintf("every chain of up to %d of %d operators, chains of one and of two alternating operators up to length %d", depth, ops, long[len(long)-1])) {
		return
	}
	i := 0
	do := func(n []int) bool {
		i++
		if !c.Mine(i) || ok != nil && !ok(n) {
			return true
		}
		c.Edges(1)
		return c.Do(&eng.Case{Kind: kind, N: append([]int{}, n...)})
	}
	var rec func(n []int) bool
	rec = func(n []int) bool {
		if !do(n) {
			return false
		}
		if len(n) == depth {
			return true
		}
		for o := 0; o < ops; o++ {
			if !rec(append(n, o)) {
				return false
			}
		}
		return true
	}
	if !rec(nil) {
		return
	}
	for a := 0; a < ops; a++ {
		for b := 0; b < ops; b++ {
			for _, l := range long {
				n := make([]int, l)
				for j := range n {
					n[j] = a
					if j%2 == 1 {
						n[j] = b
					}
				}
				if !do(n) {
					return
				}
			}
		}
	}
}

// After ARRAY JOIN, ON and USING there may be a list of columns, which takes a
// following comma.
func joinChainOK(n []int) bool {
	for i := 1; i < len(n); i++ {
		if joinOps[n[i]] == "," && (needsOn(joinOps[n[i-1]]) || strings.Contains(joinOps[n[i-1]], "ARRAY")) {
			return false
		}
	}
	return true
}

// opSequences deals out the prefixes of two items and lets each case run all
// its extensions.
func opSequences(c *eng.Ctx, depth, reduced int) {
	name := "full"
	pre, in, su := tableOf(reduced)
	if reduced == 1 {
		name = "one-per-level"
	}
	if !c.Begin(fmt.Sprintf("sequences/%s-%d", name, depth), fmt.Sprintf("every sequence of up to %d of %d operators", depth, len(pre)+len(in)+len(su))) {
		return
	}
	i := 0
	do := func(left int, seq ...int) bool {
		i++
		if !c.Mine(i) {
			return true
		}
		return c.Do(&eng.Case{Kind: "batch", N: append([]int{left, reduced}, seq...)})
	}
	var rec func(seq []int, left, deal int, operand bool) bool
	rec = func(seq []int, left, deal int, operand bool) bool {
		if deal == 0 || left == 0 {
			return do(left, seq...)
		}
		if operand {
			for _, k := range pre {
				if !rec(append(seq[:len(seq):len(seq)], cPrefix+k), left-1, deal-1, true) {
					return false
				}
			}
			return rec(append(seq[:len(seq):len(seq)], cOperand), left, deal, false)
		}
		if !do(0, seq...) {
			return false
		}
		for _, k := range su {
			if !rec(append(seq[:len(seq):len(seq)], cSuffix+k), left-1, deal-1, false) {
				return false
			}
		}
		for _, k := range in {
			if !rec(append(seq[:len(seq):len(seq)], cInfix+k), left-1, deal-1, true) {
				return false
			}
		}
		return true
	}
	rec(nil, depth, 2, true)
}

// opParens puts one pair of parentheses at every pair of places of every
// sequence of up to depth operators.
func opParens(c *eng.Ctx, depth, reduced int) {
	pre, in, su := tableOf(reduced)
	if !c.Begin(fmt.Sprintf("parens/%d-%d", reduced, depth), fmt.Sprintf("one pair of parentheses anywhere in every sequence of up to %d operators", depth)) {
		return
	}
	i := 0
	var rec func(seq []int, left int, operand bool) bool
	rec = func(seq []int, left int, operand bool) bool {
		if operand {
			if left > 0 {
				for _, k := range pre {
					if !rec(append(seq[:len(seq):len(seq)], cPrefix+k), left-1, true) {
						return false
					}
				}
			}
			return rec(append(seq[:len(seq):len(seq)], cOperand), left, false)
		}
		i++
		if c.Mine(i) {
			for lo := 0; lo < len(seq); lo++ {
				for hi := lo + 1; hi <= len(seq); hi++ {
					v := append([]int{}, seq[:lo]...)
					v = append(v, cOpen)
					v = append(v, seq[lo:hi]...)
					v = append(v, cShut)
					v = append(v, seq[hi:]...)
					if _, err := refTree(v); err != nil {
						continue
					}
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: "op", N: v}) {
						return false
					}
				}
			}
		}
		if left == 0 {
			return true
		}
		for _, k := range su {
			if !rec(append(seq[:len(seq):len(seq)], cSuffix+k), left-1, false) {
				return false
			}
		}
		for _, k := range in {
			if !rec(append(seq[:len(seq):len(seq)], cInfix+k), left-1, true) {
				return false
			}
		}
		return true
	}
	rec(nil, depth, true)
}

// opLong: chains of one operator, and of two alternating, up to 65 long.
func opLong(c *eng.Ctx) {
	if !c.Begin("sequences/long", "chains of one and of two alternating operators, 3 to 65 long") {
		return
	}
	i := 0
	n := len(infixOps)
	item := func(k int) []int {
		if k < n {
			return []int{cInfix + k, cOperand}
		}
		return []int{cSuffix + k - n}
	}
	for a := 0; a < n+len(suffixOps); a++ {
		for b := 0; b < n+len(suffixOps); b++ {
			for _, l := range []int{3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65} {
				i++
				if !c.Mine(i) {
					continue
				}
				seq := []int{cOperand}
				for j := 0; j < l; j++ {
					if j%2 == 0 {
						seq = append(seq, item(a)...)
					} else {
						seq = append(seq, item(b)...)
					}
				}
				c.Edges(1)
				if !c.Do(&eng.Case{Kind: "op", N: seq}) {
					return
				}
			}
		}
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P10",
		Notes: []string{
			"the reference is a precedence-climbing reader over the operator table, independent of the parser",
			"sequences the table gives no meaning (a BETWEEN without AND, a ? without :) are not judged",
		},
		Space: func(c *eng.Ctx) {
			opSequences(c, 4, 0)
			opSequences(c, 5, 1)
			opParens(c, 3, 1)
			opParens(c, 2, 0)
			opLong(c)
			slotSpace(c, 2, 0)
			slotSpace(c, 3, 1)
			operandSpace(c, 2, 0)
			operandSpace(c, 3, 1)
			slotOperandSpace(c, 1, 0)
			chainSpace(c, "sets", len(setOps), 6, []int{7, 8, 9, 16, 17, 33, 64}, nil)
			chainSpace(c, "joins", len(joinOps), 4, []int{5, 6, 7, 8, 16, 17, 33}, joinChainOK)
			if c.Thorough {
				slotSpace(c, 3, 0)
				operandSpace(c, 3, 0)
				slotOperandSpace(c, 2, 0)
				opSequences(c, 6, 1)
				opParens(c, 4, 1)
				opSequences(c, 5, 0)
				chainSpace(c, "sets", len(setOps), 8, []int{128}, nil)
				chainSpace(c, "joins", len(joinOps), 5, []int{65}, joinChainOK)
			}
		},
		Check: opCheck,
	})
}
