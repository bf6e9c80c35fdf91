package props

import (
	"fmt"
	"strings"

	"verif/mc/astx"
	"verif/mc/eng"
)

// exprSlots are the places an expression can stand in.
var exprSlots = []struct{ pre, post string }{
	{"SELECT b0 , ", ""}, {"SELECT ", " AS x0 , b0"}, {"SELECT DISTINCT ", " FROM t"},
	{"SELECT f ( ", " )"}, {"SELECT f ( a0 , ", " , b0 )"}, {"SELECT count ( DISTINCT ", " )"}, {"SELECT f ( 1 ) ( ", " )"},
	{"SELECT [ ", " ]"}, {"SELECT [ a0 , ", " , b0 ]"}, {"SELECT ( a0 , ", " )"}, {"SELECT a0 [ ", " ]"}, {"SELECT ( ", " )"},
	{"SELECT CASE WHEN ", " THEN 1 END"}, {"SELECT CASE WHEN 1 THEN ", " WHEN 2 THEN 3 ELSE 2 END"}, {"SELECT CASE WHEN 1 THEN 2 ELSE ", " END"},
	{"SELECT { 'k' : ", " }"}, {"SELECT { 'k' : 1 , 'l' : ", " , 'm' : 2 }"}, {"SELECT CAST ( ", " AS Int8 )"}, {"SELECT CAST ( ", " , 'Int8' )"},
	{"SELECT sum ( a0 ) OVER ( PARTITION BY ", " )"}, {"SELECT sum ( a0 ) OVER ( ORDER BY ", " DESC )"},
	{"SELECT a0 FROM t WHERE ", ""}, {"SELECT a0 FROM t WHERE ", " ORDER BY z0"}, {"SELECT a0 FROM t PREWHERE ", " WHERE b0"}, {"SELECT a0 FROM t GROUP BY a0 HAVING ", " LIMIT 1"},
	{"SELECT a0 FROM t GROUP BY ", ""}, {"SELECT a0 FROM t GROUP BY b0 , ", " WITH TOTALS"}, {"SELECT a0 FROM t ORDER BY ", ""}, {"SELECT a0 FROM t ORDER BY b0 , ", " DESC LIMIT 1"},
	{"SELECT a0 FROM t JOIN s ON ", ""}, {"SELECT a0 FROM t LEFT JOIN s ON ", " WHERE b0"},
	{"SELECT a0 IN ( 1 , ", " )"}, {"SELECT a0 BETWEEN ( ", " ) AND 1"}, {"SELECT ( SELECT ", " )"}, {"SELECT a0 FROM ( SELECT ", " )"}, {"SELECT a0 WHERE a0 IN ( SELECT ", " FROM t )"},
	{"WITH ", " AS x0 SELECT x0"}, {"WITH a0 AS ( SELECT ", " ) SELECT x0"}, {"SELECT x0 -> ", ""}, {"SELECT f ( x0 -> ", " , b0 )"}, {"SELECT f ( ( x0 , y0 ) -> ", " )"},
	{"SELECT a0 UNION ALL SELECT ", ""}, {"EXPLAIN SYNTAX SELECT ", ""}, {"SELECT a0 ? ( ", " ) : b0"}, {"SELECT INTERVAL ( ", " ) DAY"}, {"SELECT * REPLACE ( ", " AS x0 )"},
	{"SELECT a0 FROM t LIMIT 1 BY ", ""}, {"SELECT a0 ORDER BY a0 WITH FILL INTERPOLATE ( a0 AS ", " )"},
	{"INSERT INTO t VALUES ( ", " )"}, {"INSERT INTO t VALUES ( 1 , ", " , 2 )"}, {"INSERT INTO t SELECT ", ""},
	{"ALTER TABLE t DELETE WHERE ", ""}, {"ALTER TABLE t UPDATE a0 = ( ", " ) WHERE 1"}, {"ALTER TABLE t UPDATE a0 = 1 WHERE ", ""}, {"DELETE FROM t WHERE ", ""},
	{"CREATE TABLE t ( a0 Int8 DEFAULT ", " , b0 Int8 ) ENGINE = Memory"}, {"CREATE TABLE t ( a0 Int8 MATERIALIZED ", " ) ENGINE = Memory"}, {"CREATE TABLE t ( a0 Int8 ALIAS ", " COMMENT 'c' ) ENGINE = Memory"},
	{"CREATE TABLE t ( a0 Int8 , CONSTRAINT c CHECK ", " ) ENGINE = Memory"}, {"CREATE TABLE t ( a0 Int8 , INDEX i ", " TYPE minmax GRANULARITY 1 ) ENGINE = Memory"},
	{"CREATE TABLE t ( a0 Int8 ) ENGINE = MergeTree PARTITION BY ", " ORDER BY a0"}, {"CREATE TABLE t ( a0 Int8 ) ENGINE = MergeTree ORDER BY ( a0 , ", " )"}, {"CREATE TABLE t ( a0 Int8 ) ENGINE = MergeTree TTL ", " DELETE"},
	{"CREATE TABLE t ( a0 Int8 ) ENGINE = MergeTree ( ", " )"}, {"CREATE VIEW v AS SELECT ", ""}, {"CREATE FUNCTION f AS ( x0 ) -> ", ""},
}

// exprOperands are operands other than a bare name.
var exprOperands = []string{
	"f ( x )", "f ( )", "f ( 1 ) ( x )", "'s'", "[ 1 , 2 ]", "( 1 , 2 )", "( SELECT 1 )", "CASE WHEN 1 THEN 2 ELSE 3 END", "CASE x WHEN 1 THEN 2 END", "CAST ( x AS Int8 )", "NULL",
	"{ p : Int8 }", "`q`", "\"q\"", "{ 'k' : 1 }", "INTERVAL 1 DAY", "INTERVAL ( x ) DAY", "EXTRACT ( DAY FROM x )", "1", "1.5", "0x1F", "1e3", "sum ( x ) OVER ( )", "sum ( x ) OVER z", "count ( DISTINCT x )", "( x -> y )", "( x )", "timestamp", "values", "interval",
}

const slotMark = "424242"

func dump1(c *eng.Ctx, src string) (string, error) {
	st, err := parseNote(c, src)
	if err != nil {
		return "", err
	}
	if len(st) != 1 {
		return "", fmt.Errorf("%d statements", len(st))
	}
	return astx.Dump(st[0]), nil
}

func dumpItem(c *eng.Ctx, expr string) (string, error) {
	st, err := parseNote(c, "SELECT "+expr)
	if err != nil {
		return "", err
	}
	e, err := selectItem(st)
	if err != nil {
		return "", err
	}
	return astx.Dump(e), nil
}

var slotDumps = map[int]string{}

// slotCheck: an expression groups in every place as it does as the only item
// of a SELECT, which opOne compares with the table.  N = the place, then the
// sequence.
func slotCheck(c *eng.Ctx, k *eng.Case) error {
	seq, at, kind := k.N[1:], 0, ""
	if k.Kind == "slot-operand" {
		at, kind, seq = k.N[1], exprOperands[k.N[2]], k.N[3:]
	}
	if _, err := refTree(seq); err != nil {
		return nil
	}
	s := exprSlots[k.N[0]]
	frame, ok := slotDumps[k.N[0]]
	mark, err := dumpItem(c, slotMark)
	if err != nil {
		return err
	}
	if !ok {
		if frame, err = dump1(c, s.pre+slotMark+s.post); err != nil {
			return fmt.Errorf("%s: %s", s.pre+slotMark+s.post, firstLine(err))
		}
		if strings.Count(frame, mark) != 1 {
			return fmt.Errorf("%s: the expression is not in the AST once", s.pre+slotMark+s.post)
		}
		slotDumps[k.N[0]] = frame
	}
	expr := strings.TrimPrefix(opSource(seq), "SELECT ")
	if kind != "" {
		expr = withOperand(expr, at, kind)
	}
	item, err := dumpItem(c, expr)
	if err != nil {
		return nil // opOne's business
	}
	src := s.pre + expr + s.post
	got, err := dump1(c, src)
	if err != nil {
		return fmt.Errorf("%s: rejected: %s", src, firstLine(err))
	}
	if want := strings.Replace(frame, mark, item, 1); want != got {
		return fmt.Errorf("%s: grouped in another way than alone: %s", src, firstDiff(want, got))
	}
	return nil
}

// withOperand writes kind for the operand.
func withOperand(expr string, at int, kind string) string {
	t := strings.Fields(expr)
	for i, x := range t {
		if x == operandNames[at] {
			t[i] = kind
			break
		}
	}
	return strings.Join(t, " ")
}

// operandCheck: an operand of another kind does not change the grouping.
// N = the operand's index, its kind, then the sequence.
func operandCheck(c *eng.Ctx, k *eng.Case) error {
	at, kind, seq := k.N[0], exprOperands[k.N[1]], k.N[2:]
	if _, err := refTree(seq); err != nil {
		return nil
	}
	name := operandNames[at]
	expr := strings.TrimPrefix(opSource(seq), "SELECT ")
	base, err := dumpItem(c, expr)
	if err != nil {
		return nil
	}
	src := withOperand(expr, at, kind)
	old, err := dumpItem(c, name)
	if err != nil {
		return err
	}
	if strings.Count(base, old) != 1 {
		return nil // the start of a path
	}
	repl, err := dumpItem(c, kind)
	if err != nil {
		return fmt.Errorf("operand %s: %s", kind, firstLine(err))
	}
	got, err := dumpItem(c, src)
	if err != nil {
		return fmt.Errorf("%s: rejected: %s", src, firstLine(err))
	}
	if want := strings.Replace(base, old, repl, 1); want != got {
		return fmt.Errorf("%s: grouped in another way than with a name for the operand: %s", src, firstDiff(want, got))
	}
	return nil
}

// eachSequence visits every sequence of 1 to depth operators.
func eachSequence(depth, reduced int, visit func([]int) bool) {
	pre, in, su := tableOf(reduced)
	var rec func(seq []int, left int, operand bool) bool
	rec = func(seq []int, left int, operand bool) bool {
		if operand {
			if left > 0 {
				for _, k := range pre {
					if !rec(append(seq[:len(seq):len(seq)], cPrefix+k), left-1, true) {
						return false
					}
				}
			}
			return rec(append(seq[:len(seq):len(seq)], cOperand), left, false)
		}
		if left < depth && !visit(seq) {
			return false
		}
		if left == 0 {
			return true
		}
		for _, k := range su {
			if !rec(append(seq[:len(seq):len(seq)], cSuffix+k), left-1, false) {
				return false
			}
		}
		for _, k := range in {
			if !rec(append(seq[:len(seq):len(seq)], cInfix+k), left-1, true) {
				return false
			}
		}
		return true
	}
	rec(nil, depth, true)
}

func slotSpace(c *eng.Ctx, depth, reduced int) {
	if !c.Begin(fmt.Sprintf("slots/%d-%d", reduced, depth), fmt.Sprintf("every sequence of up to %d operators in each of %d places an expression can stand in", depth, len(exprSlots))) {
		return
	}
	i := 0
	eachSequence(depth, reduced, func(seq []int) bool {
		for s := range exprSlots {
			i++
			if !c.Mine(i) {
				continue
			}
			c.Edges(1)
			if !c.Do(&eng.Case{Kind: "slot", N: append([]int{s}, seq...)}) {
				return false
			}
		}
		return true
	})
}

func operandSpace(c *eng.Ctx, depth, reduced int) {
	if !c.Begin(fmt.Sprintf("operands/%d-%d", reduced, depth), fmt.Sprintf("every sequence of up to %d operators with each of %d kinds of operand in each place", depth, len(exprOperands))) {
		return
	}
	i := 0
	eachSequence(depth, reduced, func(seq []int) bool {
		n := 0
		for j, s := range seq {
			if s != cOperand {
				continue
			}
			for k, x := range exprOperands {
				if !operandOK(seq, j, x) {
					continue
				}
				i++
				if !c.Mine(i) {
					continue
				}
				c.Edges(1)
				if !c.Do(&eng.Case{Kind: "operand", N: append([]int{n, k}, seq...)}) {
					return false
				}
			}
			n++
		}
		return true
	})
}

// operandOK: a name followed by .m is a path, which another operand is not.
func operandOK(seq []int, j int, x string) bool {
	if j+1 < len(seq) && seq[j+1] >= cSuffix && seq[j+1] < cOpen && suffixOps[seq[j+1]-cSuffix].name == ".m" {
		return len(x) > 1 && x[0] != '(' && !strings.Contains(x, " ") && (x[0] == '`' || x[0] == '"' || x == "timestamp" || x == "values")
	}
	return true
}

// slotOperandSpace puts every kind of operand, first and last in a sequence,
// into every place.
func slotOperandSpace(c *eng.Ctx, depth, reduced int) {
	if !c.Begin(fmt.Sprintf("slot-operands/%d-%d", reduced, depth), fmt.Sprintf("every sequence of up to %d operators with each kind of operand first and last, in each of %d places", depth, len(exprSlots))) {
		return
	}
	i := 0
	eachSequence(depth, reduced, func(seq []int) bool {
		var at []int
		for j, s := range seq {
			if s == cOperand {
				at = append(at, j)
			}
		}
		for n := 0; n < len(at); n += max(1, len(at)-1) {
			for k, x := range exprOperands {
				if !operandOK(seq, at[n], x) {
					continue
				}
				for s := range exprSlots {
					i++
					if !c.Mine(i) {
						continue
					}
					c.Edges(1)
					if !c.Do(&eng.Case{Kind: "slot-operand", N: append([]int{s, n, k}, seq...)}) {
						return false
					}
				}
			}
		}
		return true
	})
}
