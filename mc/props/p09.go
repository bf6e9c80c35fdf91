package props

import (
	"errors"
	"fmt"
	"strings"

	p "github.com/AfterShip/clickhouse-sql-parser/parser"
	"verif/mc/eng"
	"verif/mc/gram"
)

// lineCol is the 1-based line and byte column of an offset.
func lineCol(s string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off && i < len(s); i++ {
		if s[i] == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return line, col + max0(off-len(s))
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func lineText(s string, line int) string {
	l := strings.Split(s, "\n")
	t := l[line-1]
	if strings.HasSuffix(t, "\r") {
		t = t[:len(t)-1]
	}
	return t
}

func parseErr(c *eng.Ctx, src string) (*p.ParseError, error) {
	st, err := parseNote(c, src)
	if err == nil {
		return nil, nil
	}
	if len(st) > 0 {
		return nil, fmt.Errorf("error together with %d statements", len(st))
	}
	var pe *p.ParseError
	if !errors.As(err, &pe) {
		return nil, fmt.Errorf("error is no ParseError: %T %v", err, err)
	}
	return pe, nil
}

// errorSound: the parts of the error agree with each other and with the input.
// It returns the index of the offending token, len(toks) at end of input, or -1
// if the input does not lex.
func errorSound(src string, pe *p.ParseError, toks []gram.RTok, lexes bool) (int, error) {
	off := int(pe.Pos)
	if off < 0 || off > len(src) {
		return 0, fmt.Errorf("error offset %d outside the input of %d bytes", off, len(src))
	}
	l, co := lineCol(src, off)
	if pe.Line != l || pe.Column != co {
		return 0, fmt.Errorf("error at offset %d says line %d:%d, which is %d:%d", off, pe.Line, pe.Column, l, co)
	}
	msg := pe.Error()
	if !strings.HasPrefix(msg, fmt.Sprintf("line %d:%d ", l, co)) {
		return 0, fmt.Errorf("message does not start with the position %d:%d: %q", l, co, msg)
	}
	width := 1
	if pe.Got != nil && len(pe.Got.String) > 1 {
		width = len(pe.Got.String)
	}
	tail := "\n" + lineText(src, l) + "\n" + strings.Repeat(" ", co-1) + strings.Repeat("^", width) + "\n"
	if !strings.HasSuffix(msg, tail) {
		return 0, fmt.Errorf("message does not show line %d with the caret at column %d: %q", l, co, msg)
	}
	if head := strings.TrimSuffix(msg, tail); len(head) <= len(fmt.Sprintf("line %d:%d ", l, co)) {
		return 0, fmt.Errorf("message has no text: %q", msg)
	}
	if pe.Got != nil {
		if int(pe.Got.Pos) != off {
			return 0, fmt.Errorf("offending token at %d, error at %d", pe.Got.Pos, off)
		}
	}
	if !lexes {
		return -1, nil
	}
	if pe.Got == nil {
		if len(toks) > 0 && off < toks[len(toks)-1].End {
			return 0, fmt.Errorf("error without a token at offset %d, inside the tokens", off)
		}
		return len(toks), nil
	}
	for i := range toks {
		if toks[i].Start != off {
			continue
		}
		if want := src[toks[i].Start:toks[i].End]; pe.Got.String != want {
			return 0, fmt.Errorf("offending token is %q, the input has %q there", pe.Got.String, want)
		}
		if kindOf(pe.Got.Kind) != toks[i].Kind {
			return 0, fmt.Errorf("offending token %q is called %q", pe.Got.String, pe.Got.Kind)
		}
		return i, nil
	}
	return 0, fmt.Errorf("no token starts at the error offset %d (token %q)", off, pe.Got.String)
}

func kindOf(k p.TokenKind) gram.Kind {
	switch k {
	case p.TokenKindIdent, p.TokenKindKeyword:
		return gram.IdentK
	case p.TokenKindInt, p.TokenKindFloat:
		return gram.NumK
	case p.TokenKindString:
		return gram.StrK
	}
	return gram.Punct
}

// layouts replace every run of blanks between tokens, and add a prefix.
var layouts = []struct{ pre, gap, post string }{
	{"\n", " ", ""},
	{"\r\n\r\n", "\r\n", "\r\n"},
	{" -- c\n", "\n", "\n-- end"},
	{"/* a\n b */\t", " /* x\ny */ ", "   "},
	{"\r\r", "\r\r\n", "\n\r"},
}

// relayout rewrites the blanks of src; tokens that touch stay together.  It
// also returns the tokens' new content offsets.
func relayout(src string, toks []gram.RTok, pre, gap, post string) (string, []int) {
	var b strings.Builder
	starts := make([]int, len(toks))
	b.WriteString(pre)
	for i, t := range toks {
		if i > 0 && toks[i-1].RawEnd < t.RawStart {
			b.WriteString(gap)
		}
		starts[i] = b.Len() + t.Start - t.RawStart
		b.WriteString(t.Text)
	}
	b.WriteString(post)
	return b.String(), starts
}

// never are tokens that no statement contains.
var never = map[string]bool{"^": true, "\\": true, "!": true, "|": true, "&": true, "#": true, "~": true, "\x00": true}

// hasInterval: INTERVAL is tried as an operator first, and read as a column
// name when that fails, wherever it failed.
func hasInterval(toks []gram.RTok) bool {
	for _, t := range toks {
		if strings.EqualFold(t.Text, "INTERVAL") {
			return true
		}
	}
	return false
}

func errorCheck(c *eng.Ctx, k *eng.Case) error {
	src := k.In[0]
	pe, err := parseErr(c, src)
	if err != nil {
		return err
	}
	if pe == nil {
		return nil
	}
	c.Outcome(pe.Error())
	toks, lerr := gram.RefLex(src)
	at, err := errorSound(src, pe, toks, lerr == nil)
	if err != nil {
		return err
	}
	if at < 0 {
		// a lexical error: a prefix moves it all the same
		for _, pre := range []string{"\n\n", "/* c */ ", "\r\n\t"} {
			pe2, err := parseErr(c, pre+src)
			if err != nil {
				return err
			}
			if pe2 == nil {
				return fmt.Errorf("accepted after the prefix %q", pre)
			}
			if _, err := errorSound(pre+src, pe2, nil, false); err != nil {
				return fmt.Errorf("after the prefix %q: %w", pre, err)
			}
			if int(pe2.Pos) != int(pe.Pos)+len(pre) {
				return fmt.Errorf("the prefix %q moves the error from %d to %d", pre, pe.Pos, pe2.Pos)
			}
		}
		return nil
	}
	for i, t := range toks {
		if never[t.Text] && at > i {
			return fmt.Errorf("token %d (%s) is never valid, but the error is at token %d", i, t.Text, at)
		}
	}
	for _, l := range layouts {
		src2, starts := relayout(src, toks, l.pre, l.gap, l.post)
		pe2, err := parseErr(c, src2)
		if err != nil {
			return err
		}
		if pe2 == nil {
			return fmt.Errorf("accepted in another layout: %q", src2)
		}
		toks2, lerr := gram.RefLex(src2)
		if lerr != nil || len(toks2) != len(toks) {
			eng.HarnessBug("layout changes the tokens: %q %q", src, src2)
		}
		for i := range toks2 {
			if toks2[i].Start != starts[i] {
				eng.HarnessBug("layout offsets: %q %q", src, src2)
			}
		}
		at2, err := errorSound(src2, pe2, toks2, true)
		if err != nil {
			return fmt.Errorf("in layout %q: %w", src2, err)
		}
		if at2 != at {
			return fmt.Errorf("the layout moves the error from token %d to token %d: %q", at, at2, src2)
		}
	}
	// the tokens before the edit begin a valid statement: the error cannot come
	// sooner, give or take the last of them (a pair of keywords is tried as one)
	if len(k.N) > 0 && at < k.N[0]-1 && !hasInterval(toks[:k.N[0]]) {
		return fmt.Errorf("error reported at token %d, but the first %d tokens begin a valid statement", at, k.N[0])
	}
	return nil
}

func init() {
	eng.Register(&eng.Prop{
		ID: "P09",
		Notes: []string{
			"columns count bytes; CR LF ends a line; the shown line excludes its terminator",
			"the tokens before an edit begin a valid statement, so the error must not come before the last of them; statements with INTERVAL before the edit are exempt, since the word is re-read as a name when the operator reading fails",
			"for a quoted token the offset is that of its content",
		},
		Space: func(c *eng.Ctx) {
			cuts(c, "error", gram.Budget{Shape: 2})
			cuts(c, "error", gram.Budget{Shape: 1, Lex: 1})
			Edits(c, "error", "edits-1", gram.Budget{Shape: 1}, junk, true)
			Edits(c, "error", "keyword-edits", gram.Budget{Shape: 0}, gram.Keywords, false)
			ByteEdits(c, "error", 400)
			Scale(c, "error", cutOff(scriptParts(gram.Budget{})))
			ByteStrings(c, "error", "bytes", bytes21, 2, []string{"", "SELECT ", "SELECT 1 FROM t WHERE a = ", "SELECT 1;\n"})
			if c.Thorough {
				Edits(c, "error", "edits-2", gram.Budget{Shape: 2}, nil, true)
				Edits(c, "error", "keyword-edits-1", gram.Budget{Shape: 1}, gram.Keywords, false)
				Edits(c, "error", "edits-junk-2", gram.Budget{Shape: 2}, junk, false)
			}
		},
		Check: errorCheck,
	})
}

// cuts enumerates every proper prefix of every derivation.
func cuts(c *eng.Ctx, kind string, b gram.Budget) {
	if !c.Begin(fmt.Sprintf("%s/cuts(%d,%d,%d)", kind, b.Shape, b.Lex, b.Size), "every token prefix of every derivation") {
		return
	}
	for _, gr := range gram.Grammars {
		var st gram.Stats
		ok := gr.Explore(b, c.Shard, c.N, &st, func(g *gram.G) bool {
			t := textsOf(g)
			for i := 1; i < len(t); i++ {
				c.Edges(1)
				if !c.Do(&eng.Case{Kind: kind, In: []string{joinToks(t[:i])}, N: []int{i}}) {
					return false
				}
			}
			return true
		})
		if !ok {
			c.Incomplete()
			return
		}
	}
}
