// Package astx looks at ASTs by reflection: a position-free dump, the nodes and
// leaves in field order, and a deep copy-free comparison.  It knows nothing of
// individual node types, so it is independent of Walk and Accept.
package astx

import (
	"reflect"
	"strconv"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
)

var posType = reflect.TypeOf(p.Pos(0))
var exprType = reflect.TypeOf((*p.Expr)(nil)).Elem()

// Dump renders v without positions.  Two things the AST records are not part of
// its meaning and are normalised: the letter case of keywords kept as text, and
// the order of JSON type options (the formatter prints them grouped by kind).
func Dump(v any) string {
	b := make([]byte, 0, 1024)
	b = dump(b, reflect.ValueOf(v), false)
	return string(b)
}

// keywordText lists the string fields that hold a keyword as it was written.
var keywordText = map[string]bool{
	"CastExpr.Separator": true,
}

// jsonGroup is the position of a JSON option's kind in the printed order.
func jsonGroup(v reflect.Value) int {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	set := func(n string) bool { f := v.FieldByName(n); return f.IsValid() && !f.IsNil() }
	switch {
	case set("MaxDynamicPaths"), set("MaxDynamicTypes"):
		return 0
	case set("Column"):
		return 1
	}
	return 2
}

// DumpPos renders v with positions.
func DumpPos(v any) string {
	b := make([]byte, 0, 1024)
	b = dump(b, reflect.ValueOf(v), true)
	return string(b)
}

func dump(b []byte, v reflect.Value, pos bool) []byte {
	switch v.Kind() {
	case reflect.Invalid:
		return append(b, "nil"...)
	case reflect.Interface:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return dump(b, v.Elem(), pos)
	case reflect.Ptr:
		if v.IsNil() {
			return append(b, "nil"...)
		}
		return dump(b, v.Elem(), pos)
	case reflect.Struct:
		t := info(v.Type())
		b = append(b, t.name...)
		b = append(b, '{')
		for _, f := range t.fields {
			fv := v.Field(f.i)
			if f.pos && !pos {
				continue
			}
			// zero values are left out, which also equates nil and empty slices
			if isZero(fv) {
				continue
			}
			b = append(b, f.name...)
			b = append(b, ':')
			switch {
			case !pos && f.kwText:
				b = strconv.AppendQuote(b, strings.ToUpper(fv.String()))
			case !pos && f.jsonOpts:
				b = append(b, '[')
				for grp := 0; grp < 3; grp++ {
					for i := 0; i < fv.Len(); i++ {
						if jsonGroup(fv.Index(i)) == grp {
							b = dump(b, fv.Index(i), pos)
							b = append(b, ' ')
						}
					}
				}
				b = append(b, ']')
			default:
				b = dump(b, fv, pos)
			}
			b = append(b, ' ')
		}
		return append(b, '}')
	case reflect.Slice, reflect.Array:
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			b = dump(b, v.Index(i), pos)
			b = append(b, ' ')
		}
		return append(b, ']')
	case reflect.String:
		return strconv.AppendQuote(b, v.String())
	case reflect.Bool:
		return strconv.AppendBool(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.AppendUint(b, v.Uint(), 10)
	case reflect.Map:
		// order-free: maps do not occur in the AST today
		b = append(b, "map"...)
		return strconv.AppendInt(b, int64(v.Len()), 10)
	default:
		return append(b, v.Kind().String()...)
	}
}

func isZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Func, reflect.Chan:
		return v.IsNil()
	case reflect.Slice:
		return v.Len() == 0
	case reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

type finfo struct {
	i        int
	name     string
	pos      bool
	exported bool
	kwText   bool
	jsonOpts bool
}
type tinfo struct {
	name   string
	fields []finfo
}

var cache = map[reflect.Type]*tinfo{}

func info(t reflect.Type) *tinfo {
	if x, ok := cache[t]; ok {
		return x
	}
	x := &tinfo{name: t.Name()}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		x.fields = append(x.fields, finfo{i, f.Name, f.Type == posType, f.PkgPath == "",
			f.Type.Kind() == reflect.String && keywordText[t.Name()+"."+f.Name],
			t.Name() == "JSONOptions" && f.Name == "Items" && f.Type.Kind() == reflect.Slice})
	}
	cache[t] = x
	return x
}

// Node is one AST node met by reflection.
type Node struct {
	Expr   p.Expr
	Parent int // index of the nearest enclosing node, -1 for the root
	Path   string
}

// Nodes lists every non-nil Expr reachable from root, in field order, parents
// first.  A node reachable twice is listed twice.
func Nodes(root p.Expr) []Node {
	var out []Node
	collect(reflect.ValueOf(root), -1, "", false, &out, 0)
	return out
}

func collect(v reflect.Value, parent int, path string, deref bool, out *[]Node, depth int) {
	if depth > 100000 {
		panic("astx: cyclic AST")
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			collect(v.Elem(), parent, path, false, out, depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type().Implements(exprType) && v.CanInterface() {
			*out = append(*out, Node{v.Interface().(p.Expr), parent, path})
			parent = len(*out) - 1
		}
		collect(v.Elem(), parent, path, true, out, depth+1)
	case reflect.Struct:
		if !deref && v.CanAddr() && v.Addr().CanInterface() && v.Addr().Type().Implements(exprType) {
			// a node held by value
			*out = append(*out, Node{v.Addr().Interface().(p.Expr), parent, path})
			parent = len(*out) - 1
		}
		t := info(v.Type())
		for _, f := range t.fields {
			fv := v.Field(f.i)
			switch fv.Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Struct:
				collect(fv, parent, t.name+"."+f.name, false, out, depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			collect(v.Index(i), parent, path, false, out, depth+1)
		}
	}
}

// TypeName is the bare node type name.
func TypeName(e any) string {
	t := reflect.TypeOf(e)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

// PosFields calls f for every Pos-typed field of every struct reachable from
// root: owner type, field name, value.
func PosFields(root any, f func(owner, field string, v p.Pos)) {
	posFields(reflect.ValueOf(root), f)
}

func posFields(v reflect.Value, f func(owner, field string, v p.Pos)) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			posFields(v.Elem(), f)
		}
	case reflect.Struct:
		t := info(v.Type())
		for _, fi := range t.fields {
			fv := v.Field(fi.i)
			if fi.pos {
				f(t.name, fi.name, p.Pos(fv.Int()))
			} else {
				posFields(fv, f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			posFields(v.Index(i), f)
		}
	}
}

// Strings calls f for every string reachable from root (type and field name
// given), in field order.
func Strings(root any, f func(owner, field, s string)) {
	strs(reflect.ValueOf(root), "", "", f)
}

func strs(v reflect.Value, owner, field string, f func(owner, field, s string)) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			strs(v.Elem(), owner, field, f)
		}
	case reflect.Struct:
		t := info(v.Type())
		for _, fi := range t.fields {
			strs(v.Field(fi.i), t.name, fi.name, f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			strs(v.Index(i), owner, field, f)
		}
	case reflect.String:
		f(owner, field, v.String())
	}
}
