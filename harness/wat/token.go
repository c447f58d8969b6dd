// Package wat holds a model of the supported text format, a reference lexer
// and parser for it, and the laws about the text format.
package wat

import (
	"regexp"
	"strings"
)

// Kind is the kind of a token in the reference lexer.
type Kind int

const (
	Space Kind = iota
	Line
	Block
	Open
	Close
	String
	ID
	Keyword
	Integer
	Float
	EOF
)

var kindNames = []string{"whitespace", "line comment", "block comment", "(", ")", "string", "identifier", "keyword", "integer", "float", "end"}

func (k Kind) String() string { return kindNames[k] }

// Tok is a token of the reference lexer.
type Tok struct {
	Kind Kind
	Text string
	Pos  int
}

// Verdict says what a reference has to say about an input.
type Verdict int

const (
	Good   Verdict = iota // must be accepted
	Bad                   // must be rejected
	Either                // the grammar leaves it open, or it is outside of the supported subset
)

const (
	reNum = `[0-9](?:_?[0-9])*`
	reHex = `[0-9a-fA-F](?:_?[0-9a-fA-F])*`
)

var (
	reInt   = regexp.MustCompile(`^[+-]?(?:` + reNum + `|0x` + reHex + `)$`)
	reFloat = regexp.MustCompile(`^[+-]?(?:` +
		reNum + `\.?(?:[eE][+-]?` + reNum + `)?|` +
		reNum + `\.` + reNum + `(?:[eE][+-]?` + reNum + `)?|` +
		`0x` + reHex + `\.?(?:[pP][+-]?` + reNum + `)?|` +
		`0x` + reHex + `\.` + reHex + `(?:[pP][+-]?` + reNum + `)?|` +
		`inf|nan|nan:0x` + reHex + `)$`)
	reScriptNan = regexp.MustCompile(`^nan:(?:canonical|arithmetic)$`)
	// spellings about which the grammar and the library may differ
	reOddNan = regexp.MustCompile(`^[+-]nan:(?:canonical|arithmetic)$`)
)

func isIDChar(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' ||
		strings.IndexByte("!#$%&'*+-./:<=>?@\\^_`|~", c) >= 0
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// classify gives the kind of a run of identifier characters.
func classify(s string) (Kind, bool) {
	switch {
	case s[0] == '$':
		if len(s) == 1 {
			return Keyword, true // reserved
		}
		return ID, true
	case reInt.MatchString(s):
		return Integer, true
	case reFloat.MatchString(s), reScriptNan.MatchString(s):
		return Float, true
	case reOddNan.MatchString(s):
		return Float, false
	}
	return Keyword, true
}

// lexOne reads one token. With Bad, the text at pos is no token.
func lexOne(s string, pos int) (Tok, Verdict) {
	tok := func(k Kind, n int) Tok { return Tok{k, s[pos : pos+n], pos} }
	rest := s[pos:]
	if rest == "" {
		return Tok{EOF, "", pos}, Good
	}
	c := rest[0]
	switch {
	case isSpace(c):
		n := 1
		for n < len(rest) && isSpace(rest[n]) {
			n++
		}
		if n < len(rest) && (rest[n] == '\v' || rest[n] == '\f') {
			return Tok{}, Either
		}
		return tok(Space, n), Good
	case c == '\v' || c == '\f':
		return Tok{}, Either
	case strings.HasPrefix(rest, ";;"):
		n := strings.IndexByte(rest, '\n') + 1
		end := n
		if n == 0 {
			n = len(rest)
			end = n
		}
		if i := strings.IndexByte(rest[:end], '\r'); i >= 0 && i != end-2 {
			return Tok{}, Either // whether a lone carriage return ends the comment depends on the version of the grammar
		} else if i >= 0 && rest[end-1] != '\n' {
			return Tok{}, Either
		}
		return tok(Line, n), Good
	case strings.HasPrefix(rest, "(;"):
		depth, i := 0, 0
		for i < len(rest) {
			if strings.HasPrefix(rest[i:], "(;") {
				depth++
				i += 2
			} else if strings.HasPrefix(rest[i:], ";)") {
				depth--
				i += 2
				if depth == 0 {
					return tok(Block, i), Good
				}
			} else {
				i++
			}
		}
		return Tok{}, Bad
	case c == '(':
		return tok(Open, 1), Good
	case c == ')':
		return tok(Close, 1), Good
	case c == '"':
		v := Good
		for i := 1; i < len(rest); i++ {
			switch {
			case rest[i] == '"':
				if i+1 < len(rest) && (isIDChar(rest[i+1]) || rest[i+1] == '"') {
					v = Either // tokens that touch
				}
				return tok(String, i+1), v
			case rest[i] == '\\':
				i++
				if i < len(rest) && strings.IndexByte("tnr\"'\\u0123456789abcdefABCDEF", rest[i]) < 0 {
					v = Either // an unknown escape may be an error of the lexer or of the parser
				}
			case rest[i] < 0x20 || rest[i] == 0x7f:
				v = Either // control characters
			}
		}
		return Tok{}, Bad
	case isIDChar(c):
		n := 1
		for n < len(rest) && isIDChar(rest[n]) {
			n++
		}
		v := Good
		k, sure := classify(rest[:n])
		if !sure || n < len(rest) && rest[n] == '"' {
			v = Either
		}
		return tok(k, n), v
	}
	return Tok{}, Bad
}

// Lex reads tokens up to the end, the first text that is no token, or the
// first place where the outcome is open. The verdict says which.
func Lex(s string) ([]Tok, Verdict) {
	var toks []Tok
	pos := 0
	for {
		tok, v := lexOne(s, pos)
		if v != Good {
			return toks, v
		}
		toks = append(toks, tok)
		if tok.Kind == EOF {
			return toks, Good
		}
		pos += len(tok.Text)
	}
}

// Unescape gives the bytes of a string token.
func Unescape(lit string) (string, bool) {
	s := lit[1 : len(lit)-1]
	var out []byte
	hex := func(c byte) int { return strings.IndexByte("0123456789abcdef", c|0x20*(c>>6&1)) }
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			out = append(out, s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", false
		}
		switch c := s[i]; c {
		case 't':
			out = append(out, '\t')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case '"', '\'', '\\':
			out = append(out, c)
		case 'u':
			i++
			if i == len(s) || s[i] != '{' {
				return "", false
			}
			i++
			v, last := 0, byte('_')
			for ; i < len(s) && s[i] != '}'; i++ {
				if s[i] == '_' {
					if last == '_' {
						return "", false
					}
				} else if d := hex(s[i]); d < 0 {
					return "", false
				} else if v = v*16 + d; v > 0x10ffff {
					return "", false
				}
				last = s[i]
			}
			if i == len(s) || last == '_' || v >= 0xd800 && v < 0xe000 {
				return "", false
			}
			out = append(out, string(rune(v))...)
		default:
			if i+1 >= len(s) || hex(c) < 0 || hex(s[i+1]) < 0 {
				return "", false
			}
			out = append(out, byte(hex(c)<<4|hex(s[i+1])))
			i++
		}
	}
	return string(out), true
}
