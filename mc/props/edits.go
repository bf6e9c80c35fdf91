package props

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/gram"
)

// junk is the edit alphabet: every kind of token, the words with grammatical
// roles that reach the most places, and broken tokens.
var junk = []string{
	"(", ")", "[", "]", "{", "}", ",", ";", ".", ":", "::", "?", "@", "=", "==", "*", "-", "+", "/", "->", "||", "!", "|", "<", "$", "\\", "^",
	"x", "`q`", "\"d\"", "7", "1.5", "'s'", "''",
	"SELECT", "FROM", "AS", "NOT", "IN", "BY", "ON", "TO", "WITH", "SETTINGS", "FORMAT", "NULL", "AND", "INTERVAL", "DISTINCT", "UNION ALL", "IF EXISTS", "ORDER BY", "CASE", "END", "GLOBAL", "TABLE", "FINAL", "CLUSTER", "ALL", "CAST", "COLUMNS", "KEY", "DATE",
	"'", "`", "\"", "/*", "--", "0x", "1e", "1a", "é", "\x00", "\xff",
}

func joinToks(t []string) string { return strings.Join(t, " ") }

// textsOf are the source token texts of a derivation.  Tokens around a dot are
// joined, as in the default rendering.
func textsOf(g *gram.G) []string {
	out := make([]string, len(g.Src))
	for i := range g.Src {
		out[i] = g.Src[i].Text
	}
	return out
}

// Edits applies every one-token edit to each derivation within b: insertion and
// replacement by each word of alphabet, and (basic) cut, deletion, duplication
// and exchange of neighbours.
func Edits(c *eng.Ctx, kind, name string, b gram.Budget, alphabet []string, basic bool) {
	if !c.Begin(kind+"/"+name, fmt.Sprintf("every one-token edit (%d words) of derivations(%d,%d,%d)", len(alphabet), b.Shape, b.Lex, b.Size)) {
		return
	}
	at := 0 // tokens before the edit
	do := func(t []string) bool {
		c.Edges(1)
		return c.Do(&eng.Case{Kind: kind, In: []string{joinToks(t)}, N: []int{at}})
	}
	buf := make([]string, 0, 256)
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			for i := 0; i <= len(t); i++ {
				at = i
				if basic {
					if i < len(t) {
						if !do(t[:i]) {
							return false
						}
						buf = append(append(buf[:0], t[:i]...), t[i+1:]...)
						if !do(buf) {
							return false
						}
						buf = append(append(append(buf[:0], t[:i+1]...), t[i]), t[i+1:]...)
						if !do(buf) {
							return false
						}
						if i+1 < len(t) {
							buf = append(buf[:0], t...)
							buf[i], buf[i+1] = buf[i+1], buf[i]
							if !do(buf) {
								return false
							}
						}
					}
				}
				for _, w := range alphabet {
					buf = append(append(append(buf[:0], t[:i]...), w), t[i:]...)
					if !do(buf) {
						return false
					}
					if i < len(t) {
						buf = append(buf[:0], t...)
						buf[i] = w
						if !do(buf) {
							return false
						}
					}
				}
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}

// ByteEdits cuts every corpus file (up to max bytes) at every byte, and deletes
// or replaces every byte.
func ByteEdits(c *eng.Ctx, kind string, max int) {
	if !c.Begin(kind+"/byte-edits", fmt.Sprintf("every cut, deletion and replacement of one byte in seed files up to %d bytes", max)) {
		return
	}
	repl := []byte("'`\"()[]{},;.-/*\n \\0a\x00\x80")
	n := 0
	for _, f := range Corpus() {
		s := f.sql
		if len(s) > max {
			continue
		}
		for i := 0; i < len(s); i++ {
			n++
			if !c.Mine(n) {
				continue
			}
			c.Edges(3)
			if !c.Do(&eng.Case{Kind: kind, In: []string{s[:i]}}) ||
				!c.Do(&eng.Case{Kind: kind, In: []string{s[:i] + s[i+1:]}}) ||
				!c.Do(&eng.Case{Kind: kind, In: []string{s[i:]}}) {
				return
			}
			for _, r := range repl {
				if s[i] == r {
					continue
				}
				c.Edges(1)
				if !c.Do(&eng.Case{Kind: kind, In: []string{s[:i] + string([]byte{r}) + s[i+1:]}}) {
					return
				}
			}
		}
	}
}

// ByteStrings enumerates every string of length up to n over the alphabet,
// after each prefix.
func ByteStrings(c *eng.Ctx, kind, name string, alphabet []string, n int, prefixes []string) {
	if !c.Begin(kind+"/"+name, fmt.Sprintf("every string of up to %d of %d symbols after %d prefixes", n, len(alphabet), len(prefixes))) {
		return
	}
	idx := 0
	var rec func(s string, left int) bool
	for _, pre := range prefixes {
		rec = func(s string, left int) bool {
			c.Edges(1)
			if !c.Do(&eng.Case{Kind: kind, In: []string{pre + s}}) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, a := range alphabet {
				if !rec(s+a, left-1) {
					return false
				}
			}
			return true
		}
		// deal out by the first two symbols
		if c.Mine(idx) {
			if !c.Do(&eng.Case{Kind: kind, In: []string{pre}}) {
				return
			}
		}
		idx++
		for _, a := range alphabet {
			if c.Mine(idx) {
				if !c.Do(&eng.Case{Kind: kind, In: []string{pre + a}}) {
					return
				}
			}
			idx++
			if n < 2 {
				continue
			}
			for _, b := range alphabet {
				idx++
				if c.Mine(idx) {
					if !rec(a+b, n-2) {
						return
					}
				}
			}
		}
	}
}

// editSpaces are the edit spaces of the properties about accepted input.
func editSpaces(c *eng.Ctx, kind string) {
	Edits(c, kind, "edits-1", gram.Budget{Shape: 1}, junk, true)
	Edits(c, kind, "edits-2", gram.Budget{Shape: 2}, nil, true)
	Edits(c, kind, "keyword-edits", gram.Budget{Shape: 0}, gram.Keywords, false)
	RangeEdits(c, kind, "runs-1", gram.Budget{Shape: 1}, 8)
	if c.Thorough {
		RangeEdits(c, kind, "runs-2", gram.Budget{Shape: 2}, 8)
		Edits(c, kind, "keyword-edits-1", gram.Budget{Shape: 1}, gram.Keywords, false)
		Edits(c, kind, "edits-junk-2", gram.Budget{Shape: 2}, junk, false)
	}
}

// RangeEdits repeats, drops and moves to the end every run of 2..max tokens of
// each derivation within b.
func RangeEdits(c *eng.Ctx, kind, name string, b gram.Budget, max int) {
	if !c.Begin(kind+"/"+name, fmt.Sprintf("every run of 2..%d tokens repeated, repeated at the end, or dropped, in derivations(%d,%d,%d)", max, b.Shape, b.Lex, b.Size)) {
		return
	}
	buf := make([]string, 0, 256)
	at := 0
	do := func(t []string) bool {
		c.Edges(1)
		return c.Do(&eng.Case{Kind: kind, In: []string{joinToks(t)}, N: []int{at}})
	}
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			for i := 0; i < len(t); i++ {
				for j := i + 2; j <= len(t) && j <= i+max; j++ {
					at = j
					buf = append(append(append(buf[:0], t[:j]...), t[i:j]...), t[j:]...)
					if !do(buf) {
						return false
					}
					at = len(t)
					buf = append(append(buf[:0], t...), t[i:j]...)
					if !do(buf) {
						return false
					}
					at = i
					buf = append(append(buf[:0], t[:i]...), t[j:]...)
					if !do(buf) {
						return false
					}
				}
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}
