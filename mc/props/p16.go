package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/astx"
	"verif/mc/eng"
	"verif/mc/gram"
)

// jv is a JSON value read by a strict reader that keeps member order and
// notices duplicate members.
type jv struct {
	kind byte // 'n'ull 't'rue 'f'alse '#' 's' 'a' 'o'
	s    string
	arr  []jv
	keys []string
}

type jreader struct {
	b []byte
	i int
}

func (r *jreader) ws() {
	for r.i < len(r.b) && strings.IndexByte(" \t\r\n", r.b[r.i]) >= 0 {
		r.i++
	}
}

func (r *jreader) fail(what string) error { return fmt.Errorf("bad JSON at %d: %s", r.i, what) }

func (r *jreader) str() (string, error) {
	if r.i >= len(r.b) || r.b[r.i] != '"' {
		return "", r.fail("string expected")
	}
	r.i++
	var o []byte
	for {
		if r.i >= len(r.b) {
			return "", r.fail("open string")
		}
		c := r.b[r.i]
		switch {
		case c == '"':
			r.i++
			return string(o), nil
		case c < 0x20:
			return "", r.fail("control byte in string")
		case c == '\\':
			if r.i+1 >= len(r.b) {
				return "", r.fail("open escape")
			}
			e := r.b[r.i+1]
			r.i += 2
			if k := strings.IndexByte("\"\\/bfnrt", e); k >= 0 {
				o = append(o, "\"\\/\b\f\n\r\t"[k])
				continue
			}
			if e != 'u' || r.i+4 > len(r.b) {
				return "", r.fail("escape")
			}
			n, err := strconv.ParseUint(string(r.b[r.i:r.i+4]), 16, 32)
			if err != nil {
				return "", r.fail("escape")
			}
			r.i += 4
			o = utf8.AppendRune(o, rune(n))
		default:
			o = append(o, c)
			r.i++
		}
	}
}

func (r *jreader) value(depth int) (jv, error) {
	r.ws()
	if r.i >= len(r.b) || depth > 20000 {
		return jv{}, r.fail("value expected")
	}
	lit := func(w string, k byte) (jv, error) {
		if !bytes.HasPrefix(r.b[r.i:], []byte(w)) {
			return jv{}, r.fail("literal")
		}
		r.i += len(w)
		return jv{kind: k}, nil
	}
	switch c := r.b[r.i]; c {
	case 'n':
		return lit("null", 'n')
	case 't':
		return lit("true", 't')
	case 'f':
		return lit("false", 'f')
	case '"':
		s, err := r.str()
		return jv{kind: 's', s: s}, err
	case '[', '{':
		out := jv{kind: 'a'}
		shut := byte(']')
		if c == '{' {
			out.kind, shut = 'o', '}'
		}
		r.i++
		r.ws()
		if r.i < len(r.b) && r.b[r.i] == shut {
			r.i++
			return out, nil
		}
		for {
			if out.kind == 'o' {
				r.ws()
				k, err := r.str()
				if err != nil {
					return out, err
				}
				r.ws()
				if r.i >= len(r.b) || r.b[r.i] != ':' {
					return out, r.fail("colon expected")
				}
				r.i++
				out.keys = append(out.keys, k)
			}
			v, err := r.value(depth + 1)
			if err != nil {
				return out, err
			}
			out.arr = append(out.arr, v)
			r.ws()
			if r.i >= len(r.b) {
				return out, r.fail("open " + string(c))
			}
			if r.b[r.i] == ',' {
				r.i++
				continue
			}
			if r.b[r.i] != shut {
				return out, r.fail("comma expected")
			}
			r.i++
			return out, nil
		}
	default:
		st := r.i
		for r.i < len(r.b) && strings.IndexByte("+-0123456789.eE", r.b[r.i]) >= 0 {
			r.i++
		}
		if st == r.i {
			return jv{}, r.fail("unexpected byte")
		}
		return jv{kind: '#', s: string(r.b[st:r.i])}, nil
	}
}

func readJSON(b []byte) (jv, error) {
	r := &jreader{b: b}
	v, err := r.value(0)
	if err != nil {
		return v, err
	}
	r.ws()
	if r.i != len(b) {
		return v, r.fail("text after the value")
	}
	return v, nil
}

// match: the JSON value is the Go value, member by member.  A node type may
// rename members (json tags) but not drop one.
func match(path string, v reflect.Value, j jv) error {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			if j.kind != 'n' {
				return fmt.Errorf("%s: nil, but JSON has %c", path, j.kind)
			}
			return nil
		}
		return match(path, v.Elem(), j)
	case reflect.Struct:
		if j.kind != 'o' {
			return fmt.Errorf("%s: %s, but JSON has %c", path, v.Type(), j.kind)
		}
		seen := map[string]int{}
		for i, k := range j.keys {
			if _, dup := seen[k]; dup {
				return fmt.Errorf("%s: member %q twice", path, k)
			}
			seen[k] = i
		}
		t := v.Type()
		n := 0
		var each func(t reflect.Type, v reflect.Value) error
		each = func(t reflect.Type, v reflect.Value) error {
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.PkgPath != "" && !f.Anonymous {
					continue
				}
				name := f.Name
				if tag, _, _ := strings.Cut(f.Tag.Get("json"), ","); tag != "" && tag != "-" {
					name = tag
				} else if f.Anonymous && f.Type.Kind() == reflect.Struct {
					if err := each(f.Type, v.Field(i)); err != nil {
						return err
					}
					continue
				}
				k, ok := seen[name]
				if !ok {
					// an omitted empty member loses nothing
					if strings.Contains(f.Tag.Get("json"), ",omit") && v.Field(i).IsZero() {
						continue
					}
					return fmt.Errorf("%s: no member for %s.%s", path, t.Name(), f.Name)
				}
				n++
				if err := match(path+"."+f.Name, v.Field(i), j.arr[k]); err != nil {
					return err
				}
			}
			return nil
		}
		if err := each(t, v); err != nil {
			return err
		}
		if n < len(j.keys) {
			// extra members (a type tag, say) are welcome
			return nil
		}
		return nil
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() && j.kind == 'n' {
			return nil
		}
		if j.kind != 'a' || len(j.arr) != v.Len() {
			return fmt.Errorf("%s: %d elements, JSON %c with %d", path, v.Len(), j.kind, len(j.arr))
		}
		for i := range j.arr {
			if err := match(fmt.Sprintf("%s[%d]", path, i), v.Index(i), j.arr[i]); err != nil {
				return err
			}
		}
		return nil
	case reflect.String:
		if want := strings.ToValidUTF8(v.String(), "\uFFFD"); j.kind != 's' || j.s != want {
			// invalid bytes become U+FFFD one by one
			if utf8.ValidString(v.String()) || j.kind != 's' {
				return fmt.Errorf("%s: %q, JSON %c %q", path, v.String(), j.kind, j.s)
			}
		}
		return nil
	case reflect.Bool:
		if (j.kind == 't') != v.Bool() || j.kind != 't' && j.kind != 'f' {
			return fmt.Errorf("%s: %v, JSON %c", path, v.Bool(), j.kind)
		}
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if j.kind == 's' {
			return nil // an enum spelled out
		}
		if j.kind != '#' || j.s != strconv.FormatInt(v.Int(), 10) {
			return fmt.Errorf("%s: %d, JSON %c %s", path, v.Int(), j.kind, j.s)
		}
		return nil
	}
	return nil
}

// jsonShape is what the JSON says once positions are left out.
func jsonShape(b []byte, v reflect.Value, j jv) []byte {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return append(b, 'n')
		}
		return jsonShape(b, v.Elem(), j)
	case reflect.Struct:
		b = append(b, '{')
		t := v.Type()
		used := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			name := f.Name
			if tag, _, _ := strings.Cut(f.Tag.Get("json"), ","); tag != "" && tag != "-" {
				name = tag
			}
			for k := range j.keys {
				if j.keys[k] != name {
					continue
				}
				used[name] = true
				if f.Type == reflect.TypeOf(p.Pos(0)) {
					continue
				}
				b = append(append(b, name...), ':')
				b = jsonShape(b, v.Field(i), j.arr[k])
				b = append(b, ',')
			}
		}
		for k := range j.keys {
			if !used[j.keys[k]] {
				b = append(append(append(append(b, j.keys[k]...), ':'), fmt.Sprint(j.arr[k])...), ',')
			}
		}
		return append(b, '}')
	case reflect.Slice:
		b = append(b, '[')
		for i := range j.arr {
			b = append(jsonShape(b, v.Index(i), j.arr[i]), ',')
		}
		return append(b, ']')
	}
	return append(append(append(b, j.kind), j.s...), 0)
}

var jsonSeen = map[uint64]jsonEntry{}
var jsonSeed = maphash.MakeSeed()

type jsonEntry struct {
	dump, norm uint64 // norm: IS NULL and IS NOT NULL equated
	src        string
}

func hash64(b []byte) uint64 { return maphash.Bytes(jsonSeed, b) }

func jsonCheck(c *eng.Ctx, k *eng.Case) error {
	if k.Kind == "distinct" {
		return jsonDistinct(c, k)
	}
	st, err := parseNote(c, srcOf(k))
	if err != nil {
		return nil
	}
	return jsonOf(c, st)
}

func jsonOf(c *eng.Ctx, st []p.Expr) error {
	before := astx.DumpPos(st)
	for _, indent := range []bool{false, true} {
		var b []byte
		var err error
		if indent {
			b, err = json.MarshalIndent(st, "", "  ")
		} else {
			b, err = json.Marshal(st)
		}
		if err != nil {
			return fmt.Errorf("marshalling fails: %v", err)
		}
		j, err := readJSON(b)
		if err != nil {
			return err
		}
		if err := match("", reflect.ValueOf(st), j); err != nil {
			return fmt.Errorf("JSON does not match the AST: %v", err)
		}
		if !indent {
			// every identifier and literal is in there, letter for letter
			have := map[string]int{}
			var count func(jv)
			count = func(v jv) {
				if v.kind == 's' {
					have[v.s]++
				}
				for _, x := range v.arr {
					count(x)
				}
			}
			count(j)
			for _, s := range st {
				for _, n := range astx.Nodes(s) {
					t := ""
					switch x := n.Expr.(type) {
					case *p.Ident:
						t = x.Name
					case *p.StringLiteral:
						t = x.Literal
					case *p.NumberLiteral:
						t = x.Literal
					default:
						continue
					}
					if !utf8.ValidString(t) {
						continue
					}
					if have[t]--; have[t] < 0 {
						return fmt.Errorf("%q is missing from the JSON", t)
					}
				}
			}
			c.Outcome(string(b))
		}
	}
	if astx.DumpPos(st) != before {
		return fmt.Errorf("marshalling changed the AST")
	}
	return nil
}

// jsonDistinct: In holds two sources (replay) or one (exploration, where the
// other is an earlier one with the same JSON).
func jsonDistinct(c *eng.Ctx, k *eng.Case) error {
	var known error
	for _, src := range k.In {
		st, err := Parse(c, src)
		if err != nil {
			continue
		}
		b, err := json.Marshal(st)
		if err != nil {
			return err
		}
		j, err := readJSON(b)
		if err != nil {
			return err
		}
		shape := hash64(jsonShape(nil, reflect.ValueOf(st), j))
		if len(k.In) == 1 && shape%uint64(c.N) != uint64(c.Shard) {
			return nil
		}
		dump := astx.Dump(st)
		d, norm := hash64([]byte(dump)), hash64([]byte(strings.ReplaceAll(dump, "IsNotNullExpr", "IsNullExpr")))
		if e, ok := jsonSeen[shape]; !ok {
			jsonSeen[shape] = jsonEntry{d, norm, src}
		} else if e.dump != d && e.norm == norm {
			known = eng.KnownErr{ID: "is-not-null"}
		} else if e.dump != d {
			k.In = []string{e.src, src}
			return fmt.Errorf("different ASTs, same JSON")
		}
	}
	return known
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P16",
		Notes: []string{
			"JSON is read with an independent strict reader and compared member by member with the AST by reflection",
			"bytes that are no UTF-8 may be replaced, as encoding/json documents",
		},
		Space: func(c *eng.Ctx) {
			Derivs(c, "json", gram.Budget{Shape: 2})
			Derivs(c, "json", gram.Budget{Shape: 1, Lex: 1})
			Derivs(c, "json", gram.Budget{Shape: 1, Size: 1})
			Exprs(c, "json")
			Nests(c, "json", nestDepths(c))
			CorpusCases(c, "json", 1<<20)
			Scale(c, "json", scriptParts(gram.Budget{}))
			Edits(c, "json", "edits-1", gram.Budget{Shape: 1}, junk, true)
			// every shard looks at everything but keeps its share of the JSON texts
			if c.Begin("distinct/derivations(2,0,0)", "all pairs of ASTs of derivations(2,0,0) and (1,1,0)") {
				for _, b := range []gram.Budget{{Shape: 2}, {Shape: 1, Lex: 1}} {
					for _, gr := range gram.Grammars {
						var st gram.Stats
						gr.Explore(b, 0, 1, &st, func(g *gram.G) bool {
							return c.Do(&eng.Case{Kind: "distinct", In: []string{g.Source()}})
						})
					}
				}
			}
			if c.Thorough {
				Derivs(c, "json", gram.Budget{Shape: 2, Lex: 1})
				Derivs(c, "json", gram.Budget{Shape: 3})
			}
		},
		Check: jsonCheck,
	})
}
