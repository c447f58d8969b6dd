package wit

import (
	"fmt"
	"strings"

	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
	wit "github.com/patrickhuber/go-wasm/wit/parse"
	"github.com/patrickhuber/go-wasm/wit/token"

	"vharness/pbt"
)

// kindOf names the kind of a token of the library as the reference does.
func kindOf(k token.TokenType) string {
	switch k {
	case token.Whitespace:
		return space
	case token.LineComment:
		return line
	case token.BlockComment:
		return block
	case token.Id:
		return ident
	case token.ExplicitId:
		return escaped
	case token.Integer:
		return number
	case token.EndOfStream:
		return eof
	}
	return string(k)
}

func genLexeme(t *pbt.T) string {
	switch t.Weighted(4, 4, 2, 3, 2, 2, 1) {
	case 0:
		return pbt.OneOf(t, "{", "}", "(", ")", "<", ">", ",", ":", ";", "=", ".", "/", "*", "@", "-", "+", "->", "_")
	case 1:
		return pbt.Pick(t, keywordList)
	case 2:
		return fmt.Sprint(t.U64())
	case 3:
		return genID(t)
	case 4:
		if t.Bool() {
			return "//" + commentText(t, false) + "\n"
		}
		return blockComment(t, 0)
	case 5:
		return pbt.OneOf(t, " ", "\n", "\t", "\r\n", "  \n ", "\n\n")
	default:
		return pbt.OneOf(t, "--", "->>", "a-", "%1", "%", "%%a", "_a", "a_b", "use-", "user", "Use", "1a", "a1", "é", "\"", "#", "&", "$", "|", "/*", "*/", "//", "!", "\x00", "\xff", " ", "٣", "a->b", "u8u8", "float32x", "%_", "%-", "...", "::", "[", "]", "`", "~", "'", "?", "\\", "^")
	}
}

func genText(t *pbt.T, avg int, noise bool) string {
	var sb strings.Builder
	if noise && t.P(1, 100) {
		sb.WriteString(pbt.OneOf(t, "\ufeff", "\x00", "\x1a", "\ufffe", "#!"))
	}
	if t.P(1, 800) { // far into a long text
		sb.WriteString(strings.Repeat(pbt.OneOf(t, "\n", " ", "a ", "{ ", "}\n", "//\n", "x\r\n", "1 2\n", "\t", "/**/"), pbt.OneOf(t, 255, 256, 300, 1000, 4095, 65535, 65536, 70000)))
	}
	for i, n := 0, t.Len(avg, 80); i < n; i++ {
		s := genLexeme(t)
		if noise && t.P(1, 6) {
			s = nearMiss(t, s)
		}
		sb.WriteString(s)
		if t.P(1, 2) {
			sb.WriteString(pbt.OneOf(t, " ", "\n", " ", "\t", ";", "{"))
		}
	}
	return sb.String()
}

func oddRune(t *pbt.T, set []rune) rune {
	if t.P(1, 4) {
		return rune(t.Range(0, 0x7f))
	}
	return pbt.Pick(t, set)
}

func nearMiss(t *pbt.T, s string) string {
	set := []rune("abz019-_%/*.{}()<>,:;=@+ \n\"é#A\u0000½²Ⅷ€×→‐“😀\ufeff\ufffd\u200b")
	rs := []rune(s)
	at := t.Intn(len(rs) + 1)
	switch t.Intn(5) {
	case 0:
		if at < len(rs) {
			rs = append(rs[:at:at], rs[at+1:]...)
		}
	case 1:
		rs = append(rs[:at:at], append([]rune{oddRune(t, set)}, rs[at:]...)...)
	case 2:
		if at < len(rs) {
			rs = append([]rune{}, rs...)
			rs[at] = oddRune(t, set)
		}
	case 3:
		if at < len(rs) {
			rs = append(rs[:at+1:at+1], rs[at:]...)
		}
	default:
		rs = rs[:at]
	}
	return string(rs)
}

// libLex reads all tokens with a fresh lexer, checking that they tile the text.
func libLex(t *pbt.T, src string) (toks []token.Token, failed bool) {
	pos, ln, column := 0, 0, 0
	t.NoPanic("lexing", func() {
		l := lex.New(src)
		for {
			k, err := l.Next()
			if err != nil {
				failed = true
				return
			}
			if k == nil {
				t.Failf("neither a token nor an error at %d", pos)
			}
			toks = append(toks, *k)
			if k.Position != pos || k.Line != ln || k.Column != column {
				t.Failf("token %+v should be at offset %d, line %d, column %d", *k, pos, ln, column)
			}
			if k.Type == token.EndOfStream {
				if k.Capture != "" || pos != len(src) {
					t.Failf("the end %+v is reported at %d of %d", *k, pos, len(src))
				}
				for i := 0; i < 3; i++ {
					again, err := l.Next()
					if err != nil || again == nil || *again != *k {
						t.Failf("after the end: %v, %v", again, err)
					}
				}
				return
			}
			if k.Capture == "" {
				t.Failf("empty token %+v", *k)
			}
			if !strings.HasPrefix(src[pos:], k.Capture) {
				t.Failf("token %+v is not the text at %d", *k, pos)
			}
			for i := 0; i < len(k.Capture); i++ {
				if k.Capture[i] == '\n' {
					ln++
					column = 0
				} else {
					column++
				}
			}
			pos += len(k.Capture)
		}
	})
	return
}

func compareLex(t *pbt.T, src string) {
	want, v := lexAll(src)
	got, failed := libLex(t, src)
	end := 0
	for i, w := range want {
		if i >= len(got) {
			t.Failf("the lexer fails instead of reading the %s %q at %d", w.kind, w.text, w.pos)
		}
		if got[i].Capture != w.text || kindOf(got[i].Type) != w.kind {
			t.Failf("%s %q at %d is read as %s %q", w.kind, w.text, w.pos, got[i].Type, got[i].Capture)
		}
		end = w.pos + len(w.text)
	}
	switch v {
	case good:
		t.Label("complete")
		if failed {
			t.Failf("error after a complete text")
		}
	case bad:
		t.Label("no token")
		if len(got) > len(want) || !failed {
			t.Failf("the text at %d, %.20q, is no token but is read as %+v", end, src[end:], got[len(want)])
		}
	default:
		t.Label("open")
	}
	if len(want) >= 3 {
		t.NonTrivial(src)
	}
}

func texts(t *pbt.T) {
	src := genText(t, 12, t.P(1, 3))
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
}

// pairs goes through all pairs of punctuation, keywords and names.
var pairSet = append(strings.Fields("{ } ( ) < > , : ; = . / * @ - + -> _ a a-b %a % 0 12 // /* */ /**/ x \" # ½ € × 😀 \ufeff \ufffd \xff"), append([]string{" ", "\n"}, keywordList...)...)

func pairs(t *pbt.T) {
	n := int(t.Index)
	src := pairSet[n%len(pairSet)] + pairSet[n/len(pairSet)]
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
}

// pits: comments in comments in comments.
func pits(t *pbt.T) {
	n := pitDepths[int(t.Index)/4]
	src := strings.Repeat("/*", n) + " x " + strings.Repeat("*/", n)
	switch t.Index % 4 {
	case 1:
		src += " a"
	case 2: // one end is missing
		src = src[:len(src)-2]
	case 3: // one is too many
		src += "*/"
	}
	t.Case(func() string { return fmt.Sprintf("%d comments in each other, case %d", n, t.Index%4) })
	compareLex(t, src)
}

var pitDepths = []int{2, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 1 << 20}

func histories(t *pbt.T) {
	src := genText(t, 8, t.P(1, 2))
	ops := make([]int, t.Range(1, 60))
	picks := make([]int, len(ops))
	for i := range ops {
		ops[i] = t.Weighted(4, 4, 1, 2)
		picks[i] = t.Intn(4)
	}
	t.Case(func() string {
		return fmt.Sprintf("%q, operations (0 next 1 peek 2 clone 3 peek next) %v on copies %v", src, ops, picks)
	})
	toks, failed := libLex(t, src)
	type copyOf struct {
		l      *lex.Lexer
		at     int
		failed bool
	}
	type held struct {
		p *token.Token
		v token.Token
	}
	t.NoPanic("lexing", func() {
		copies := []*copyOf{{l: lex.New(src)}}
		var kept []held
		want := func(c *copyOf, what string, k *token.Token, e error) bool {
			at := c.at
			if at >= len(toks) {
				if failed {
					if e == nil {
						t.Failf("%s: got %+v where a fresh lexer fails (after %d tokens)", what, *k, c.at)
					}
					return false
				}
				at = len(toks) - 1
			}
			if e != nil {
				t.Failf("%s: %v where a fresh lexer reads %+v", what, e, toks[at])
			}
			if k == nil || *k != toks[at] {
				t.Failf("%s: %+v where a fresh lexer reads %+v", what, k, toks[at])
			}
			kept = append(kept, held{k, *k})
			return true
		}
		for i, op := range ops {
			c := copies[picks[i]%len(copies)]
			if c.failed {
				continue
			}
			switch op {
			case 1, 3:
				k, e := c.l.Peek()
				ok := want(c, "peek", k, e)
				if op == 1 && ok {
					break
				}
				k, e = c.l.Next()
				if want(c, "next after peek", k, e) {
					c.at++
				} else {
					c.failed = true
				}
			case 0:
				k, e := c.l.Next()
				if want(c, "next", k, e) {
					c.at++
				} else {
					c.failed = true
				}
			case 2:
				n := &copyOf{l: c.l.Clone(), at: c.at}
				if len(copies) < 4 {
					copies = append(copies, n)
				} else {
					copies[picks[(i+1)%len(ops)]] = n
				}
			}
		}
		for _, h := range kept {
			if *h.p != h.v {
				t.Failf("token %+v changed to %+v after it was returned", h.v, *h.p)
			}
		}
	})
	if len(toks) >= 3 {
		t.NonTrivial(src + fmt.Sprint(ops))
	}
}

// ---- parser

func libParse(t *pbt.T, src string) (a *ast.Ast, err error) {
	t.NoPanic("parsing", func() { a, err = wit.Parse(src) })
	if err == nil && a == nil {
		t.Failf("neither a result nor an error")
	}
	return
}

func compare(t *pbt.T, a *ast.Ast, wanted *file) {
	f, err := fromAST(a)
	if err != nil {
		t.Failf("the tree is not that of the text: %v", err)
	}
	// the escapes of identifiers are kept everywhere, or nowhere
	got, want := f.verbatim(), wanted.verbatim()
	if got != want && !strings.Contains(got, "%") {
		want = wanted.String()
	}
	if got != want {
		w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
		for i := range w {
			if i >= len(g) {
				t.Failf("missing line %q", w[i])
			}
			if w[i] != g[i] {
				a, b := w[i], g[i]
				for len(a) > 200 && len(b) > 200 && a[:100] == b[:100] {
					a, b = a[100:], b[100:]
				}
				t.Failf("expected line %.300q, got %.300q", a, b)
			}
		}
		t.Failf("additional line %q", g[len(w)])
	}
}

func files(t *pbt.T) {
	f := genFile(t, 3)
	p := &printer{t: t}
	p.file(f)
	src := layout(t, p.toks)
	t.Case(func() string { return src })
	for _, i := range f.items {
		t.Label(i.kind)
	}
	if len(p.toks) > 12 {
		t.NonTrivial(src)
	}
	want := f.String()
	if r, v, why := parseRef(src); v != good || r.String() != want {
		panic(fmt.Sprintf("the reference parser disagrees with the generator: %v %s\n%s", v, why, src))
	}
	a, err := libParse(t, src)
	t.Must(err, "parsing")
	compare(t, a, f)
}

// versions: numbers with zeros in front, if they are taken, are decimal.
func versions(t *pbt.T) {
	f := genFile(t, 1)
	if f.pkg == nil {
		f.pkg = &pkg{genID(t), genID(t), nil}
	}
	f.pkg.ver = &version{t.U64(), t.U64(), t.U64()}
	p := &printer{t: t, zeros: true}
	p.file(f)
	src := layout(t, p.toks)
	t.Case(func() string { return src })
	t.NonTrivial(src)
	judge(t, src)
}

// layouts: two layouts give equal trees.
func layouts(t *pbt.T) {
	f := genFile(t, 2)
	p, q := &printer{t: t}, &printer{t: t}
	p.file(f)
	q.file(f) // other trailing commas
	one, two := layout(t, p.toks), layout(t, q.toks)
	t.Case(func() string { return one + "\n---\n" + two })
	if one != two && len(p.toks) > 12 {
		t.NonTrivial(one + two)
	}
	a, err := libParse(t, one)
	t.Must(err, "parsing the first layout")
	b, err := libParse(t, two)
	t.Must(err, "parsing the second layout")
	x, err := fromAST(a)
	t.Must(err, "the first tree")
	compare(t, b, x)
}

// deepTypes: nesting of types.
func deepTypes(t *pbt.T) {
	x := genType(t, 7)
	for i, n := 0, t.Range(1, 200); i < n; i++ {
		switch t.Intn(6) {
		case 0:
			x = &ty{kind: "list", args: []*ty{x}}
		case 1:
			x = &ty{kind: "option", args: []*ty{x}}
		case 2:
			x = &ty{kind: "tuple", args: []*ty{{kind: "u8"}, x}}
		case 3:
			x = &ty{kind: "result", args: []*ty{nil, x}}
		case 4:
			x = &ty{kind: "result", args: []*ty{x, {kind: "string"}}}
		default:
			x = &ty{kind: "future", args: []*ty{x}}
		}
	}
	f := &file{items: []*item{{kind: "interface", name: "a", decls: []*decl{{kind: "type", name: "t", ty: x}}}}}
	p := &printer{t: t}
	p.file(f)
	src := layout(t, p.toks)
	t.Case(func() string { return src })
	t.NonTrivial(src)
	a, err := libParse(t, src)
	t.Must(err, "parsing")
	compare(t, a, f)
}

var largeParts = []string{
	"⟨interface i# {}│\n⟩",
	"⟨world w# {}⟩",
	"⟨use a#;│ ⟩ interface i {}",
	"⟨interface i# {} world w# {import i#;}⟩",
	"interface i { ⟨f#: func();│ ⟩ }",
	"interface i { ⟨type t# = u8;⟩ }",
	"interface i { ⟨use j#.{a};⟩ }",
	"interface i { use j.{⟨a# as b#│, ⟩}; }",
	"interface i { record r { ⟨a#: u8│,⟩ } }",
	"interface i { record r { ⟨a#: list<u8>,⟩ } }",
	"interface i { flags f { ⟨a#│,⟩ } }",
	"interface i { variant v { ⟨a#(u8)│,⟩ } }",
	"interface i { enum e { ⟨a#,⟩ } }",
	"interface i { resource r { ⟨m#: func();⟩ } }",
	"interface i { resource r { ⟨sm#: static func();⟩ } }",
	"interface i { ⟨resource r#;⟩ }",
	"interface i { f: func(⟨p#: u8│, ⟩) -> u8; }",
	"interface i { f: func() -> (⟨r#: u8│, ⟩); }",
	"interface i { type t = tuple<⟨u8│, ⟩>; }",
	"interface i { type t = tuple<⟨t#│,⟩>; }",
	"world w { ⟨import i#;⟩ }",
	"world w { ⟨export i#;⟩ }",
	"world w { ⟨import i#: func();⟩ }",
	"world w { ⟨export i#: interface { f: func(); }⟩ }",
	"world w { ⟨include w#;⟩ }",
	"world w { include v with { ⟨a# as b#│, ⟩ } }",
	"world w { ⟨type t# = u8;⟩ ⟨⟩}",
	"interface ⟨a⟩ {}",
	"interface a⟨-b⟩ {}",
	"package a:⟨b⟩;",
	"⟨ ⟩interface i {}",
	"⟨\n⟩interface i {}",
	"⟨// x\n⟩interface i {}",
	"⟨/* x */⟩interface i {}",
	"/*⟨x⟩*/interface i {}",
	"//⟨x⟩\ninterface i {}",
}

// large: one part of a file comes very often, or is very long.
func large(t *pbt.T) {
	n := pbt.Sizes[int(t.Index)/len(largeParts)]
	tm := largeParts[int(t.Index)%len(largeParts)]
	src := pbt.Repeat(strings.ReplaceAll(tm, "⟨⟩", ""), n)
	t.Case(func() string { return fmt.Sprintf("%s, %d times", tm, n) })
	f, v, why := parseRef(src)
	if v == bad {
		panic("harness: the reference rejects " + tm + ": " + why)
	}
	if v == either {
		t.Label("open")
	}
	a, err := libParse(t, src)
	if v == good {
		t.NonTrivial(fmt.Sprint(t.Index))
		t.Must(err, "parsing a large file")
		compare(t, a, f)
	}
}

var pool = append(strings.Fields(`{ } ( ) < > , : ; = . / * @ - + -> _ a foo %use 0 1 18446744073709551615 18446744073709551616 01 "s" # é // /* */ % async map bogus ; ; { }`), keywordList...)

// declarations are put in places where they may or may not be allowed.
var declarations = []string{"package a : b ;", "package a : b @ 1 . 0 . 0 ;", "use a ;", "use a : b / c as d ;", "use a . { b } ;", "interface a { }", "world w { }",
	"a : func ( ) ;", "a : static func ( ) ;", "constructor ( ) ;", "type a = u8 ;", "record a { b : u8 }", "flags a { b }", "variant a { b }", "enum a { b }",
	"resource a ;", "resource a { }", "import a ;", "export a ;", "import a : func ( ) ;", "export a : interface { }", "include a ;", "include a with { b as c }", "union a { u8 }", ";"}

func edit(t *pbt.T, toks []string) []string {
	at := t.Intn(len(toks))
	switch t.Weighted(4, 2, 4, 3, 2, 4, 3, 3, 2) {
	case 7:
		for n := 0; n < 4 && strings.Contains("{}()<>,:;=./*@->", toks[at]); n++ {
			at = t.Intn(len(toks))
		}
		return splice(toks, at, at+1, full(respell(t, toks[at]))...)
	case 6: // a list in brackets
		at, e := brackets(toks, at)
		if e-at < 2 {
			return splice(toks, at, e)
		}
		open, end := toks[at], toks[e-1]
		items := split(toks[at+1 : e-1])
		switch t.Intn(9) {
		case 0:
			return splice(toks, at, e)
		case 1:
			return splice(toks, e, e, toks[at:e]...)
		case 2: // nothing in them
			return splice(toks, at, e, open, end)
		case 3: // no brackets
			return splice(toks, at, e, toks[at+1:e-1]...)
		case 4: // in more brackets
			return splice(toks, at, e, append(append([]string{open}, toks[at:e]...), end)...)
		case 5: // other brackets
			b := pbt.Pick(t, [][2]string{{"{", "}"}, {"(", ")"}, {"<", ">"}})
			return splice(toks, at, e, append(append([]string{b[0]}, toks[at+1:e-1]...), b[1])...)
		case 6: // one item only
			return splice(toks, at, e, append(append([]string{open}, pbt.Pick(t, items)...), end)...)
		case 7: // one item twice
			i := t.Intn(len(items))
			return splice(toks, at, e, join(open, end, items[:i], items[i:i+1], items[i:])...)
		default: // one item in another place
			i, j := t.Intn(len(items)), t.Intn(len(items))
			c := append([][]string{}, items...)
			c[i], c[j] = c[j], c[i]
			return splice(toks, at, e, join(open, end, c)...)
		}
	case 0:
		return splice(toks, at, at+1)
	case 1:
		return splice(toks, at, at, toks[at])
	case 2:
		return splice(toks, at, at+1, pbt.Pick(t, pool))
	case 3:
		return splice(toks, at, at, pbt.Pick(t, pool))
	case 4:
		o := append([]string{}, toks...)
		b := t.Intn(len(toks))
		o[at], o[b] = o[b], o[at]
		return o
	case 8: // a declaration between others
		for n := 0; n < 30 && at > 0 && toks[at-1] != ";" && toks[at-1] != "}" && toks[at-1] != "{"; n++ {
			at = t.Intn(len(toks))
		}
		return splice(toks, at, at, strings.Fields(pbt.Pick(t, declarations))...)
	default: // a run of tokens
		e := min(len(toks), at+t.Range(2, 8))
		run := append([]string{}, toks[at:e]...)
		switch t.Intn(4) {
		case 0:
			return splice(toks, at, e)
		case 1:
			return splice(toks, at, at, run...)
		case 2:
			return splice(toks, at, e, pbt.Pick(t, pool))
		default:
			o := splice(toks, at, e)
			b := t.Intn(len(o) + 1)
			return splice(o, b, b, run...)
		}
	}
}

// full drops empty tokens.
func full(toks []string) (out []string) {
	for _, k := range toks {
		if k != "" {
			out = append(out, k)
		}
	}
	return
}

// respell writes a token in a way that is nearly the same.
func respell(t *pbt.T, w string) []string {
	switch t.Intn(10) {
	case 9: // one letter in the other case
		at := t.Intn(len(w))
		c := strings.ToUpper(w[at : at+1])
		if c == w[at:at+1] {
			c = strings.ToLower(c)
		}
		return []string{w[:at] + c + w[at+1:]}
	case 0:
		return []string{"%" + w}
	case 1:
		return []string{strings.Trim(w, "%")}
	case 2:
		return []string{strings.ToUpper(w)}
	case 3:
		return []string{strings.ToUpper(w[:1]) + w[1:]}
	case 4:
		return []string{w + pbt.OneOf(t, "-", "-x", "s", "0", "-0", "_", "A", "--a")}
	case 5:
		return []string{w[:len(w)-1]}
	case 6: // in two
		at := t.Intn(len(w))
		return []string{w[:at], w[at:]}
	case 7:
		return []string{pbt.OneOf(t, "a-", "-", "0", "_", "A-", "x") + w}
	default:
		return []string{strings.NewReplacer("-", "_").Replace(w)}
	}
}

// brackets finds the brackets around a token.
func brackets(toks []string, at int) (int, int) {
	isOpen := func(s string) bool { return s == "{" || s == "(" || s == "<" }
	for at > 0 && !isOpen(toks[at]) {
		at--
	}
	depth, e := 0, at
	for e < len(toks) {
		if isOpen(toks[e]) {
			depth++
		} else if s := toks[e]; s == "}" || s == ")" || s == ">" {
			depth--
		}
		e++
		if depth <= 0 {
			break
		}
	}
	return at, e
}

// split cuts the contents of brackets behind commas and semicolons.
func split(toks []string) (items [][]string) {
	from, depth := 0, 0
	for i, s := range toks {
		switch s {
		case "{", "(", "<":
			depth++
		case "}", ")", ">":
			depth--
		case ",", ";":
			if depth == 0 {
				items = append(items, toks[from:i+1])
				from = i + 1
			}
		}
	}
	return append(items, toks[from:])
}

func join(open, end string, parts ...[][]string) []string {
	out := []string{open}
	for _, p := range parts {
		for _, i := range p {
			out = append(out, i...)
		}
	}
	return append(out, end)
}

// splice replaces some tokens.
func splice(toks []string, from, to int, by ...string) []string {
	out := append([]string{}, toks[:from]...)
	return append(append(out, by...), toks[to:]...)
}

func judge(t *pbt.T, src string) {
	f, v, why := parseRef(src)
	a, err := libParse(t, src)
	switch v {
	case good:
		t.Label("well formed")
		t.Must(err, "parsing")
		compare(t, a, f)
	case bad:
		t.Label("malformed")
		t.NonTrivial(src)
		if err == nil {
			t.Failf("accepted although: %s", why)
		}
	default:
		t.Label("open")
		if f != nil && err == nil { // there is one way to read it
			compare(t, a, f)
		}
	}
}

func edits(t *pbt.T) {
	p := &printer{t: t}
	f := genFile(t, 2)
	if t.P(1, 2) && len(f.items) > 0 { // one part, so that an edit is likely to meet it
		x := pbt.Pick(t, f.items)
		if len(x.decls) > 0 {
			x.decls = []*decl{pbt.Pick(t, x.decls)}
		}
		f = &file{items: []*item{x}}
	}
	p.file(f)
	toks := p.toks
	for i, n := 0, t.Weighted(6, 2, 1)+1; i < n && len(toks) > 0; i++ {
		toks = edit(t, toks)
	}
	src := layout(t, toks)
	t.Case(func() string { return src })
	judge(t, src)
}

// partFrames hold lists of partItems at the place of the sign #.
var partFrames = []string{"interface a { # }", "interface a { record r { # } }", "interface a { variant v { # } }", "interface a { enum e { # } }", "interface a { flags f { # } }", "interface a { resource r { # } }",
	"interface a { resource r # }", "interface a { f: func(#) }", "interface a { f: func(#); }", "interface a { f: func() # }", "interface a { f: func() -> #; }", "interface a { type t = #; }", "interface a { type # }", "interface a { use #; }", "interface a { use b.{#}; }",
	"interface a { use # }", "interface # { }", "interface a #", "world w { # }", "world w { import # }", "world w { import #; }", "world w { export #; }", "world w { export # }", "world w { import a: #; }", "world w { import a: interface { # } }", "world w { import a: func(#); }",
	"world w { include #; }", "world w { include a with { # } }", "world w { use #; }", "world #", "package #;", "package #; interface a { }", "use #;", "use # interface a { }", "#", "interface a { type t = list<#>; }", "interface a { type t = result<#>; }", "interface a { type t = tuple<#>; }",
	"interface a { type t = stream<#>; }", "interface a { record r { a: # } }", "interface a { variant v { a(#) } }", "interface a { resource r { constructor(#); } }", "interface a { resource r { a: static func(#) -> #; } }", "world w { type t = #; }", "world w { resource r { # } }", "interface a { f: func(a: #, b: #) -> (#); }"}
var partItems = []string{"a", "b: u8", "c: string,", "d,", "e", ",", ";", ":", "u8", "string", "list<u8>", "option<a>", "result", "result<u8, a>", "result<_, a>", "tuple<u8, a>", "stream<u8>", "future<u8>", "borrow<a>", "own<a>", "_", "x(u8)", "y(list<a>),", "a as b", "a as b,", "a.{b}", "a.{b as c, d}", "a.{}",
	"n:p/a", "n:p/a.{b}", "n:p/a@1.2.3", "n:p@1.2.3", "n:p", "@1.2.3", "func()", "func();", "f: func();", "f: func(a: u8) -> u8;", "static func();", "g: static func();", "constructor();", "constructor(a: u8)", "type t = u8;", "record r { a: u8 }", "enum e { a }", "flags f { a, b }", "variant v { a }", "resource r;", "resource r { }", "use a.{b};",
	"import a;", "export a;", "import a: func();", "include a;", "interface { }", "interface b { }", "world v { }", "-> u8", "-> (a: u8)", "->", "=", "with", "{", "}", "(", ")", "<", ">", "1", "%a", "// c\n", "/* c */", "func", "static", "type", "use", "as", "package n:p;"}

// parts: short lists of parts at every place.
func parts(t *pbt.T) {
	src := pbt.Pick(t, partFrames)
	for strings.Contains(src, "#") {
		var sb strings.Builder
		for i, n := 0, t.Weighted(2, 5, 3, 2, 1); i < n; i++ {
			if i > 0 {
				sb.WriteString(pbt.OneOf(t, " ", " ", "\n", ", "))
			}
			sb.WriteString(pbt.Pick(t, partItems))
		}
		src = strings.Replace(src, "#", sb.String(), 1)
	}
	t.Case(func() string { return src })
	judge(t, src)
}

func truncations(t *pbt.T) {
	p := &printer{t: t}
	p.file(genFile(t, 2))
	src := layout(t, p.toks)
	full, cut := src, t.Intn(len(src)+1)
	src = src[:cut]
	t.Case(func() string { return fmt.Sprintf("%s cut short to %d: %q", full, cut, src) })
	judge(t, src)
}

func characters(t *pbt.T) {
	p := &printer{t: t}
	p.file(genFile(t, 2))
	src := layout(t, p.toks)
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		src = nearMiss(t, src)
	}
	if t.P(1, 20) { // in front of everything, or behind
		odd := pbt.OneOf(t, "\ufeff", "\x00", "\x1a", "\x04", "\x7f", "\ufffe", "#!")
		if t.Bool() {
			src = odd + src
		} else {
			src += odd
		}
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	judge(t, src)
}

func soup(t *pbt.T) {
	var src string
	switch t.Weighted(4, 2, 1, 1) {
	case 0:
		var toks []string
		for i, n := 0, t.Len(12, 60); i < n; i++ {
			toks = append(toks, pbt.Pick(t, pool))
		}
		src = layout(t, toks)
		if t.P(2, 3) {
			src = pbt.OneOf(t, "interface a { ", "world w { ", "world w { import ", "interface a { type t = ", "interface a { resource r { ", "package a:b@", "interface a { f: func(") + src
		}
	case 1:
		src = genText(t, 20, true)
	case 2:
		src = string(t.Bytes(t.Len(20, 200)))
	default:
		n := t.Range(1, 2000)
		open := pbt.OneOf(t, "{", "list<", "option<", "tuple<", "result<_,", "interface a{", "(", "/*", "world w{export a: interface{")
		src = pbt.OneOf(t, "", "interface a{type t=", "world w{") + strings.Repeat(open, n) + pbt.OneOf(t, "", "u8") + strings.Repeat(pbt.OneOf(t, ">", "}"), t.Range(0, n))
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	judge(t, src)
}

// Props lists the properties of this package.
func Props() []pbt.Prop {
	return []pbt.Prop{
		{ID: "I01", Quick: 1000000, Thorough: 12000000,
			Rule: "texts of at least two tokens",
			Assumptions: []string{"lines and columns count from zero, columns count bytes, a line ends with a line feed; a line comment does not contain it",
				"left open: letters and spaces beyond ASCII, underscores next to letters, names that start with a minus"},
			Laws: []pbt.Law{{Name: "pairs", Enum: len(pairSet) * len(pairSet), Run: pairs},
				{Name: "pits", Run: pits, Enum: len(pitDepths) * 4}, {Name: "texts", Weight: 1, Run: texts}, {Name: "histories", Weight: 1, Run: histories}}},
		{ID: "I02", Quick: 200000, Thorough: 2500000,
			Rule:        "files of more than twelve tokens",
			Assumptions: []string{"the supported grammar is the one described in DESIGN.md", "whether the escape of an identifier is part of the name is left open"},
			Laws: []pbt.Law{{Name: "files", Weight: 6, Run: files}, {Name: "layouts", Weight: 1, Run: layouts}, {Name: "versions", Weight: 1, Run: versions},
				{Name: "deep-types", Weight: 1, Run: deepTypes}, {Name: "large", Run: large, Enum: len(largeParts) * len(pbt.Sizes)}}},
		{ID: "I03", Quick: 500000, Thorough: 4000000,
			Rule:        "texts the reference parser rejects",
			Assumptions: []string{"constructs of newer or older versions of the language may be accepted or rejected", "nesting up to 2000 levels"},
			Laws: []pbt.Law{{Name: "edits", Weight: 5, Run: edits}, {Name: "parts", Weight: 4, Run: parts}, {Name: "truncations", Weight: 2, Run: truncations},
				{Name: "characters", Weight: 2, Run: characters}, {Name: "soup", Weight: 2, Run: soup}}},
	}
}

// Source draws a text: a file, a damaged one, or tokens.
func Source(t *pbt.T) string {
	if t.P(1, 5) {
		return genText(t, 10, true)
	}
	p := &printer{t: t}
	p.file(genFile(t, 1))
	src := layout(t, p.toks)
	if t.P(1, 4) {
		src = nearMiss(t, src)
	}
	return src
}
