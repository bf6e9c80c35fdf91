package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/gram"
)

// scaleSizes are the sizes around which counters, buffers and narrow integers
// change their behaviour.
var scaleSizes = []int{127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 131073}

// scalePads are ways to fill n bytes between tokens.
var scalePads = []struct {
	name string
	fill func(n int) string
}{
	{"blanks", func(n int) string { return strings.Repeat(" ", n) }},
	{"line breaks", func(n int) string { return strings.Repeat("\n", n) }},
	{"a block comment", func(n int) string { return "/*" + strings.Repeat("c", n) + "*/" }},
	{"line comments", func(n int) string { return strings.Repeat("--\n", n/3) + " " }},
}

// padded are the layouts of s with one large gap: before, after, and between
// any two of its tokens.
func padded(s string, visit func(string) bool) bool {
	for _, n := range scaleSizes {
		for _, p := range scalePads {
			if !visit(p.fill(n) + s) {
				return false
			}
		}
		if !visit(s + scalePads[0].fill(n)) {
			return false
		}
	}
	t, err := gram.RefLex(s)
	if err != nil {
		return true
	}
	for i := 1; i < len(t); i++ {
		if t[i-1].RawEnd == t[i].RawStart {
			continue
		}
		for _, n := range []int{257, 65537} {
			if !visit(s[:t[i-1].RawEnd] + scalePads[i%len(scalePads)].fill(n) + s[t[i].RawStart:]) {
				return false
			}
		}
	}
	return true
}

// Scale enumerates every statement kind with one large gap anywhere.
func Scale(c *eng.Ctx, kind string, parts []string) {
	if !c.Begin(kind+"/scale", fmt.Sprintf("every statement kind with one gap of up to %d bytes at any place", scaleSizes[len(scaleSizes)-1])) {
		return
	}
	i := 0
	for _, s := range parts {
		ok := padded(s, func(v string) bool {
			i++
			if !c.Mine(i) {
				return true
			}
			c.Edges(1)
			return c.Do(&eng.Case{Kind: kind, In: []string{v}})
		})
		if !ok {
			return
		}
	}
}

// cutOff are the statements without their last token.
func cutOff(parts []string) (out []string) {
	for _, s := range parts {
		if t, err := gram.RefLex(s); err == nil && len(t) > 1 {
			out = append(out, s[:t[len(t)-2].RawEnd], s+" ^ x")
		}
	}
	return
}

// wideGaps compares every statement kind with itself with one large gap.
func wideGaps(c *eng.Ctx, parts []string) {
	if !c.Begin("layout/scale", fmt.Sprintf("every statement kind with one gap of up to %d bytes at any place", scaleSizes[len(scaleSizes)-1])) {
		return
	}
	i := 0
	for _, s := range parts {
		ok := padded(s, func(v string) bool {
			i++
			if !c.Mine(i) {
				return true
			}
			c.Edges(1)
			return c.Do(&eng.Case{Kind: "layout", In: []string{s, v}})
		})
		if !ok {
			return
		}
	}
}

// longTokens are statements with one long token, or a run of n short ones that
// touch.
func longTokens() (out []string) {
	for _, n := range scaleSizes {
		r := func(s string) string { return strings.Repeat(s, n) }
		out = append(out,
			"SELECT "+r("a")+", b", "SELECT `"+r("a")+"`, b", "SELECT \""+r("a")+"\" FROM t", "SELECT '"+r("a")+"', b",
			"SELECT '"+r("''")+"', 'b'", "SELECT '"+r("\\\\")+"', 'b'", "SELECT '"+r("\\'")+"', 'b'", "SELECT '"+r("\n")+"', 'b'", "SELECT '"+r("é")+"', b",
			"SELECT "+r("1")+", 2", "SELECT 0x"+r("A")+", 2", "SELECT 1."+r("0")+"1, 2", "SELECT 1e1, "+r("2"), "USE "+r("a"), "SET a = '"+r("b")+"'",
			"SELECT a /*"+r("'")+"*/, b", "SELECT a --"+r("(")+"\n, b", "SELECT a /*"+r("*")+"*/, b")
	}
	return
}
