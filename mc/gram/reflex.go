package gram

import (
	"errors"
	"unicode"
	"unicode/utf8"
)

// RTok is a token of the reference lexer.  Start/End are the offsets of the
// token's content (quotes excluded); RawStart/RawEnd include the quotes.
type RTok struct {
	Kind             Kind
	Text             string // raw text
	Start, End       int
	RawStart, RawEnd int
}

func isIdStart(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDig(c byte) bool     { return c >= '0' && c <= '9' }
func isIdPart(c byte) bool  { return isIdStart(c) || isDig(c) || c == '$' }
func isHex(c byte) bool {
	return isDig(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

var ErrLex = errors.New("lexical error")

// RefLex is an independent implementation of the lexical grammar.
// Keywords are not told apart from identifiers: both are IdentK.
func RefLex(s string) ([]RTok, error) {
	var out []RTok
	i := 0
	n := len(s)
	for {
		// blanks and comments
		for i < n {
			r, sz := utf8.DecodeRuneInString(s[i:])
			if unicode.IsSpace(r) {
				i += sz
				continue
			}
			if i+1 < n && s[i] == '-' && s[i+1] == '-' {
				i += 2
				for i < n && s[i] != '\n' && s[i] != '\r' {
					i++
				}
				continue
			}
			if i+1 < n && s[i] == '/' && s[i+1] == '*' {
				j := i + 2
				for j+1 < n && !(s[j] == '*' && s[j+1] == '/') {
					j++
				}
				if j+1 >= n {
					return out, ErrLex
				}
				i = j + 2
				continue
			}
			break
		}
		if i >= n {
			return out, nil
		}
		c := s[i]
		st := i
		add := func(k Kind, end int) {
			out = append(out, RTok{k, s[st:end], st, end, st, end})
			i = end
		}
		two := ""
		if i+1 < n {
			two = s[i : i+2]
		}
		operandBefore := false
		if len(out) > 0 {
			p := out[len(out)-1]
			operandBefore = p.Kind == IdentK || p.Kind == NumK || p.Kind == StrK || p.Text == ")" || p.Text == "]" || p.Text == "}"
		}
		switch {
		case c == '\'':
			j := i + 1
			for {
				if j >= n {
					return out, ErrLex
				}
				if s[j] == '\\' {
					j += 2
					continue
				}
				if s[j] == '\'' {
					if j+1 < n && s[j+1] == '\'' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			out = append(out, RTok{StrK, s[i : j+1], i + 1, j, i, j + 1})
			i = j + 1
		case c == '`' || c == '"':
			j := i + 1
			for j < n && s[j] != c {
				j++
			}
			if j >= n {
				return out, ErrLex
			}
			out = append(out, RTok{IdentK, s[i : j+1], i + 1, j, i, j + 1})
			i = j + 1
		case isIdStart(c) || c == '$':
			j := i + 1
			for j < n && isIdPart(s[j]) {
				j++
			}
			add(IdentK, j)
		case isDig(c) || (c == '+' || c == '-') && !operandBefore && i+1 < n && isDig(s[i+1]):
			j := i
			if !isDig(c) {
				j++
			}
			if j+1 < n && s[j] == '0' && s[j+1] == 'x' {
				j += 2
				k := j
				for j < n && isHex(s[j]) {
					j++
				}
				if j == k {
					return out, ErrLex
				}
				if j < n && s[j] == '.' {
					return out, ErrLex
				}
			} else {
				for j < n && isDig(s[j]) {
					j++
				}
				if j < n && s[j] == '.' {
					j++
					for j < n && isDig(s[j]) {
						j++
					}
				}
				if j < n && (s[j] == 'e' || s[j] == 'E') {
					j++
					if j < n && (s[j] == '+' || s[j] == '-') {
						j++
					}
					if j >= n || !isDig(s[j]) {
						return out, ErrLex
					}
					for j < n && isDig(s[j]) {
						j++
					}
				}
				if j < n && s[j] == '.' {
					return out, ErrLex
				}
			}
			if j < n && isIdPart(s[j]) {
				return out, ErrLex
			}
			add(NumK, j)
		case two == "||" || two == "<>" || two == "==" || two == "!=" || two == "<=" || two == ">=" || two == "->" || two == "::" || two == "+>":
			add(Punct, i+2)
		case c >= utf8.RuneSelf:
			return out, ErrLex
		default:
			add(Punct, i+1)
		}
	}
}

// IsTokenByte reports whether a single byte of punctuation can occur in a
// statement by itself.
func IsTokenByte(b byte) bool {
	switch b {
	case '(', ')', '[', ']', '{', '}', ',', ';', '.', ':', '?', '@', '=', '*', '-', '+', '/', '%', '<', '>':
		return true
	}
	return false
}
