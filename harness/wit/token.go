// Package wit holds a model of the interface language, a reference lexer and
// parser for it, and the laws about it.
package wit

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// tok is a token of the reference lexer. The kind is the text of keywords and
// punctuation and one of the names below otherwise.
type tok struct {
	kind string
	text string
	pos  int
}

const (
	space   = "whitespace"
	line    = "line comment"
	block   = "block comment"
	ident   = "identifier"
	escaped = "escaped identifier"
	number  = "integer"
	eof     = "end"
)

// verdict says what the reference has to say about an input.
type verdict int

const (
	good   verdict = iota // must be accepted
	bad                   // must be rejected
	either                // not settled, or outside of the supported subset
)

var keywords = map[string]bool{}

var keywordList = strings.Fields(`use type func u8 u16 u32 u64 s8 s16 s32 s64 float32 float64 char resource own borrow record flags
	variant enum union bool string option result future stream list as from static interface tuple world import export
	package constructor include with`)

func init() {
	for _, k := range keywordList {
		keywords[k] = true
	}
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }
func isSpace(c byte) bool  { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
func isWord(c byte) bool   { return isLetter(c) || isDigit(c) || c == '-' }

func run(s string, f func(byte) bool) int {
	n := 0
	for n < len(s) && f(s[n]) {
		n++
	}
	return n
}

// lexOne reads one token.
// unsettled tells whether a text starts with an unusual space, or with a
// letter, a mark, a digit or a space beyond ASCII. Any other character beyond
// ASCII starts no token and belongs to none.
func unsettled(s string) bool {
	if s[0] < 0x80 {
		return s[0] == '\v' || s[0] == '\f'
	}
	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsSpace(r)
}

func lexOne(s string, pos int) (tok, verdict) {
	rest := s[pos:]
	if rest == "" {
		return tok{eof, "", pos}, good
	}
	mk := func(kind string, n int, v verdict) (tok, verdict) { return tok{kind, rest[:n], pos}, v }
	// a character beyond ASCII, or an unusual space, next to a token
	odd := func(n int) verdict {
		if n < len(rest) && unsettled(rest[n:]) {
			return either
		}
		return good
	}
	c := rest[0]
	switch {
	case isSpace(c):
		n := run(rest, isSpace)
		return mk(space, n, odd(n))
	case unsettled(rest):
		return tok{}, either
	case strings.HasPrefix(rest, "//"):
		n := strings.IndexByte(rest, '\n')
		if n < 0 {
			n = len(rest)
		}
		return mk(line, n, good)
	case strings.HasPrefix(rest, "/*"):
		depth, i := 0, 0
		for i < len(rest) {
			switch {
			case strings.HasPrefix(rest[i:], "/*"):
				depth++
				i += 2
			case strings.HasPrefix(rest[i:], "*/"):
				depth--
				i += 2
				if depth == 0 {
					return mk(block, i, good)
				}
			default:
				i++
			}
		}
		return tok{}, bad
	case strings.HasPrefix(rest, "->"):
		return mk("->", 2, good)
	case strings.IndexByte("/=,:.;(){}<>*@-+", c) >= 0:
		return mk(rest[:1], 1, good)
	case c == '%':
		if len(rest) > 1 && isLetter(rest[1]) {
			n := 1 + run(rest[1:], isWord)
			return mk(escaped, n, odd(n))
		}
		if len(rest) > 1 && (rest[1] == '-' || rest[1] == '_' || unsettled(rest[1:])) {
			return tok{}, either
		}
		return tok{}, bad
	case c == '_':
		if len(rest) > 1 && (isWord(rest[1]) || unsettled(rest[1:])) {
			return tok{}, either
		}
		return mk("_", 1, good)
	case isLetter(c):
		n := run(rest, isWord)
		v := odd(n)
		if n < len(rest) && rest[n] == '_' {
			v = either
		}
		if keywords[rest[:n]] {
			return mk(rest[:n], n, v)
		}
		return mk(ident, n, v)
	case isDigit(c):
		n := run(rest, isDigit)
		return mk(number, n, odd(n))
	}
	return tok{}, bad
}

// lexAll reads tokens up to the end or the first place where the text is no
// token or the outcome is open.
func lexAll(s string) (toks []tok, v verdict) {
	pos := 0
	for {
		k, v := lexOne(s, pos)
		if v != good {
			return toks, v
		}
		toks = append(toks, k)
		if k.kind == eof {
			return toks, good
		}
		pos += len(k.text)
	}
}
