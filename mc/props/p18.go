package props

import (
	"fmt"
	"reflect"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

var exprIface = reflect.TypeOf((*p.Expr)(nil)).Elem()

// leafText is how a leaf is written.
func leafText(e p.Expr) (string, bool) {
	switch x := e.(type) {
	case *p.Ident:
		q := ""
		switch x.QuoteType {
		case p.BackTicks:
			q = "`"
		case p.DoubleQuote:
			q = "\""
		case p.SingleQuote:
			q = "'"
		}
		return q + x.Name + q, true
	case *p.StringLiteral:
		return "'" + x.Literal + "'", true
	case *p.NumberLiteral:
		return x.Literal, true
	}
	return "", false
}

// setLeaf gives the leaf another content; it returns the undo.
func setLeaf(e p.Expr, s string) func() {
	switch x := e.(type) {
	case *p.Ident:
		old := x.Name
		x.Name = s
		return func() { x.Name = old }
	case *p.StringLiteral:
		old := x.Literal
		x.Literal = s
		return func() { x.Literal = old }
	case *p.NumberLiteral:
		old := x.Literal
		x.Literal = s
		return func() { x.Literal = old }
	}
	return func() {}
}

type formatted struct {
	toks []string
	ok   bool
}

func formats(s p.Expr) [2]formatted {
	var out [2]formatted
	out[0].toks, out[0].ok = texts(compact(s))
	out[1].toks, out[1].ok = texts(beautify(s, "  "))
	return out
}

// around: parts whose parent writes them differently from a plain name, by
// putting keywords or brackets around them.
func around(owner string, part p.Expr) bool {
	switch part.(type) {
	case *p.SelectQuery:
		return owner == "CTEStmt.Alias"
	case *p.FunctionExpr, *p.TableFunctionExpr:
		return owner == "InsertStmt.Table"
	case *p.ParamExprList:
		return owner == "GroupByClause.Expr"
	case *p.UsingClause: // gets brackets before a table list
		return owner == "JoinExpr.Constraints"
	case *p.JoinExpr:
		return strings.HasPrefix(owner, "JoinExpr.")
	}
	return false
}

func editCheck(c *eng.Ctx, k *eng.Case) error {
	st, err := parseNote(c, srcOf(k))
	if err != nil {
		return nil
	}
	for _, s := range st {
		if err := editLeaves(c, s); err != nil {
			return err
		}
		if err := editFields(c, s); err != nil {
			return err
		}
	}
	return nil
}

func editLeaves(c *eng.Ctx, s p.Expr) error {
	before := formats(s)
	dump := astx.Dump(s)
	var leaves []p.Expr
	p.Walk(s, func(e p.Expr) bool {
		if _, ok := leafText(e); ok {
			leaves = append(leaves, e)
		}
		return true
	})
	used := map[int]bool{}
	for i, l := range leaves {
		if !edgeIndex(i, len(leaves)) {
			continue
		}
		old, _ := leafText(l)
		repl := "zz9"
		if _, num := l.(*p.NumberLiteral); num {
			repl = "90909"
		}
		undo := setLeaf(l, repl)
		now, _ := leafText(l)
		after := formats(s)
		c.Edges(1)
		undo()
		for m := range after {
			mode := []string{"compact", "beautified"}[m]
			if !after[m].ok {
				return fmt.Errorf("%s text does not lex after replacing %s", mode, old)
			}
			part, _ := texts(old)
			i, ok := replaced(before[m].toks, after[m].toks, part, now)
			if !ok {
				return fmt.Errorf("replacing the %s %s by %s does not change just that in the %s text: %s", astx.TypeName(l), old, now, mode, firstDiff(strings.Join(before[m].toks, " "), strings.Join(after[m].toks, " ")))
			}
			if m == 0 {
				if used[i] {
					return fmt.Errorf("two leaves are printed as the same token %d %s", i, old)
				}
				used[i] = true
			}
		}
	}
	if astx.Dump(s) != dump {
		eng.HarnessBug("undo failed")
	}
	return nil
}

// field is a settable place of type Expr.
type field struct {
	v     reflect.Value
	owner string
}

func exprFields(v reflect.Value, owner string, out *[]field) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == exprIface && v.CanSet() {
			*out = append(*out, field{v, owner})
		}
		exprFields(v.Elem(), owner, out)
	case reflect.Ptr:
		if !v.IsNil() {
			exprFields(v.Elem(), owner, out)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				exprFields(v.Field(i), t.Name()+"."+t.Field(i).Name, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			exprFields(v.Index(i), owner, out)
		}
	}
}

// editFields replaces each expression held in a field of type Expr by a plain
// identifier, then by a quoted one with a line break.
func editFields(c *eng.Ctx, s p.Expr) error {
	before := formats(s)
	var fs []field
	exprFields(reflect.ValueOf(s), "", &fs)
	for i, f := range fs {
		if !edgeIndex(i, len(fs)) {
			continue
		}
		old := f.v.Interface().(p.Expr)
		c.Outcome(f.owner + " " + astx.TypeName(old))
		part, ok := texts(compact(old))
		if !ok {
			return fmt.Errorf("%s: the text of the part does not lex", f.owner)
		}
		f.v.Set(reflect.ValueOf(p.Expr(&p.Ident{Name: "zz9"})))
		after := formats(s)
		f.v.Set(reflect.ValueOf(old))
		c.Edges(1)
		for m := range after {
			a, b := before[m].toks, after[m].toks
			if _, ok := replaced(a, b, part, "zz9"); !ok && !around(f.owner, old) {
				return fmt.Errorf("replacing the %s in %s: %s\n    part: %s", astx.TypeName(old), f.owner, firstDiff(strings.Join(a, " "), strings.Join(b, " ")), strings.Join(part, " "))
			}
		}
	}
	return nil
}

// edgeIndex: every index of a short list; of a long one both ends and the
// powers of two.
func edgeIndex(i, n int) bool {
	end := 30
	if n > 500 {
		end = 8
	}
	return n <= 150 || i < end || i >= n-end || i&(i-1) == 0 || i&(i+1) == 0
}

// replaced: b is a with one occurrence of part replaced by the new token.
func replaced(a, b, part []string, now string) (int, bool) {
	if len(a)-len(part)+1 != len(b) {
		return 0, false
	}
	at := 0
	for at < len(b) && at < len(a) && a[at] == b[at] {
		at++
	}
	if at == len(b) || b[at] != now || at+len(part) > len(a) {
		return 0, false
	}
	return at, eqStrs(part, a[at:at+len(part)]) && eqStrs(a[at+len(part):], b[at+1:])
}

func init() {
	eng.Register(&eng.Prop{
		ID:    "P18",
		Notes: []string{"leaves are those handed out by Walk; expression fields are found by reflection", "in statements of more than 150 leaves (or fields) those at the two ends (30, or 8 of more than 500) and at the powers of two are replaced"},
		Space: func(c *eng.Ctx) {
			Derivs(c, "edit-ast", gram.Budget{Shape: 2})
			Derivs(c, "edit-ast", gram.Budget{Shape: 1, Lex: 1})
			Exprs(c, "edit-ast")
			Nests(c, "edit-ast", []int{1, 2, 3, 4, 5, 8})
			Edits(c, "edit-ast", "edits-1", gram.Budget{Shape: 1}, junk, true)
			CorpusCases(c, "edit-ast", 4000)
			Derivs(c, "edit-ast", gram.Budget{Shape: 0, Size: 1})
			if c.Thorough {
				Derivs(c, "edit-ast", gram.Budget{Shape: 2, Lex: 1})
				Derivs(c, "edit-ast", gram.Budget{Shape: 3})
				CorpusCases(c, "edit-ast", 1<<20)
				Edits(c, "edit-ast", "edits-2", gram.Budget{Shape: 2}, nil, true)
				Derivs(c, "edit-ast", gram.Budget{Shape: 1, Lex: 2})
				Derivs(c, "edit-ast", gram.Budget{Shape: 1, Size: 1})
			}
		},
		Check: editCheck,
	})
}
