package wat

import (
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	wasmwat "github.com/patrickhuber/go-wasm/wat"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/wat/token"

	"vharness/pbt"
	"vharness/stream"
)

// ---- tokens

var kinds = map[token.Type]Kind{
	token.LineComment:  Line,
	token.BlockComment: Block,
	token.Whitespace:   Space,
	token.OpenParen:    Open,
	token.CloseParen:   Close,
	token.String:       String,
	token.Id:           ID,
	token.Keyword:      Keyword,
	token.Reserved:     Keyword,
	token.Module:       Keyword,
	token.Component:    Keyword,
	token.Integer:      Integer,
	token.Float:        Float,
	token.EndOfStream:  EOF,
}

// genLexeme draws the text of one token.
func genLexeme(t *pbt.T) string {
	switch t.Weighted(2, 3, 3, 2, 2, 2, 2, 2) {
	case 0:
		return pbt.OneOf(t, "(", ")")
	case 1:
		return genInt(t)
	case 2:
		return genFloat(t)
	case 3:
		return SpellString(t, GenName(t))
	case 4:
		return GenID(t)
	case 5:
		return pbt.OneOf(t, pbt.Pick(t, Simple), pbt.Pick(t, Indexed), "module", "component", "func", "param", "i32", "modules", "component2", "offset=4", "$", "nan:canonical", "nan:arithmetic", "infinity", "nanx", "inf_", "-", "+", ".", "_", "_1", "0x", "+x", "e5", "1e", "0X1", "0x1.", "1.", "=", "module.x", "a\"")
	case 6:
		switch t.Intn(3) {
		case 0:
			return ";;" + commentText(t, false) + "\n"
		default:
			return blockComment(t, 0)
		}
	default:
		return pbt.OneOf(t, " ", "\n", "\t", "\r\n", "  \n ", "\n\n")
	}
}

// NearMiss edits one character of a lexeme.
func NearMiss(t *pbt.T, s string) string {
	const odd = "0123456789abcdefxpnEP+-._:$()\"; \n\\i_é,{}[]\u0000"
	rs := []rune(s)
	set := []rune(odd)
	at := t.Intn(len(rs) + 1)
	switch t.Intn(5) {
	case 0: // delete
		if at < len(rs) {
			rs = append(rs[:at:at], rs[at+1:]...)
		}
	case 1: // insert
		rs = append(rs[:at:at], append([]rune{oddRune(t, set)}, rs[at:]...)...)
	case 2: // replace
		if at < len(rs) {
			rs = append([]rune{}, rs...)
			rs[at] = oddRune(t, set)
		}
	case 3: // double
		if at < len(rs) {
			rs = append(rs[:at+1:at+1], rs[at:]...)
		}
	default: // cut
		rs = rs[:at]
	}
	return string(rs)
}

func oddRune(t *pbt.T, set []rune) rune {
	if t.P(1, 4) {
		return rune(t.Range(0, 0x7f))
	}
	return pbt.Pick(t, set)
}

// genText draws a text out of lexemes, near misses and noise.
func genText(t *pbt.T, avg int, noise bool) string {
	var sb strings.Builder
	if noise && t.P(1, 100) {
		sb.WriteString(pbt.OneOf(t, "\ufeff", "\x00", "\x1a", "\ufffe", "#!"))
	}
	if t.P(1, 800) { // far into a long text
		sb.WriteString(strings.Repeat(pbt.OneOf(t, "\n", " ", "a ", "( ", ")\n", ";;\n", "x\r\n", "1 2\n", "\t", "\"\" "), pbt.OneOf(t, 255, 256, 300, 1000, 4095, 65535, 65536, 70000)))
		if t.P(1, 10) {
			sb.WriteString(" " + strings.Repeat(pbt.OneOf(t, " ", "a", "1", "\n"), 1<<20+t.Intn(3)))
		}
	}
	for i, n := 0, t.Len(avg, 80); i < n; i++ {
		s := genLexeme(t)
		if noise && t.P(1, 6) {
			s = NearMiss(t, s)
		}
		if noise && t.P(1, 60) {
			s = string(t.Bytes(t.Range(1, 4)))
		}
		sb.WriteString(s)
		if t.P(2, 3) {
			sb.WriteString(pbt.OneOf(t, " ", "\n", " ", "\t", "(", ")"))
		}
	}
	return sb.String()
}

// libLex reads tokens with a fresh lexer until the end or an error, checking
// that they tile the text.
func libLex(t *pbt.T, src string) ([]token.Token, error) {
	var toks []token.Token
	pos, line, column := 0, 0, 0
	t.NoPanic("lexing", func() {
		l := lex.New(src)
		for {
			tok, err := l.Next()
			if err != nil {
				if tok != nil && tok.Type == token.EndOfStream {
					t.Failf("both the end and an error: %v", err)
				}
				toks = append(toks, token.Token{})
				return
			}
			if tok == nil {
				t.Failf("neither a token nor an error at %d", pos)
			}
			toks = append(toks, *tok)
			k, ok := kinds[tok.Type]
			if !ok {
				t.Failf("token %+v has an unknown type", *tok)
			}
			if tok.Position != pos || tok.Line != line || tok.Column != column {
				t.Failf("token %+v should be at offset %d, line %d, column %d", *tok, pos, line, column)
			}
			if k == EOF {
				if tok.Capture != "" || pos != len(src) {
					t.Failf("the end %+v is reported at %d of %d", *tok, pos, len(src))
				}
				for i := 0; i < 3; i++ {
					again, err := l.Next()
					if err != nil || again == nil || *again != *tok {
						t.Failf("after the end: %v, %v", again, err)
					}
				}
				return
			}
			if tok.Capture == "" {
				t.Failf("empty token %+v", *tok)
			}
			if !strings.HasPrefix(src[pos:], tok.Capture) {
				t.Failf("token %+v is not the text at %d", *tok, pos)
			}
			for i := 0; i < len(tok.Capture); i++ {
				if tok.Capture[i] == '\n' {
					line++
					column = 0
				} else {
					column++
				}
			}
			pos += len(tok.Capture)
		}
	})
	last := len(toks) - 1
	if toks[last] == (token.Token{}) {
		return toks[:last], fmt.Errorf("error")
	}
	return toks, nil
}

// tile: the tokens of any text tile it.
func tile(t *pbt.T) {
	src := genText(t, 12, t.P(2, 3))
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	toks, err := libLex(t, src)
	if len(toks) >= 4 {
		t.NonTrivial(src)
	}
	if err != nil {
		t.Label("error")
	} else {
		t.Label("complete")
	}
}

// histories: looking ahead and copying do not change what is read.
func histories(t *pbt.T) {
	src := genText(t, 8, t.P(1, 2))
	ops := make([]int, t.Range(1, 60))
	for i := range ops {
		ops[i] = t.Weighted(4, 4, 1, 2, 2)
	}
	picks := make([]int, len(ops))
	for i := range picks {
		picks[i] = t.Intn(4)
	}
	t.Case(func() string {
		return fmt.Sprintf("%q, operations (0 next 1 peek 2 clone 3 peek next 4 skip to the next word) %v on copies %v", src, ops, picks)
	})
	toks, err := libLex(t, src)
	type copyOf struct {
		l      *lex.Lexer
		at     int
		failed bool
	}
	t.NoPanic("lexing", func() {
		copies := []*copyOf{{l: lex.New(src)}}
		type held struct {
			p *token.Token
			v token.Token
		}
		var kept []held
		want := func(c *copyOf, what string, tok *token.Token, e error) bool {
			at := c.at
			if at >= len(toks) {
				if err == nil {
					at = len(toks) - 1 // the end, forever
				} else {
					if e == nil {
						t.Failf("%s: got %+v where a fresh lexer fails (after %d tokens)", what, *tok, c.at)
					}
					return false
				}
			}
			if e != nil {
				t.Failf("%s: %v where a fresh lexer reads %+v", what, e, toks[at])
			}
			if tok == nil || *tok != toks[at] {
				t.Failf("%s: %+v where a fresh lexer reads %+v", what, tok, toks[at])
			}
			kept = append(kept, held{tok, *tok})
			return true
		}
		peeks, clones := 0, 0
		for i, op := range ops {
			c := copies[picks[i]%len(copies)]
			if c.failed {
				continue
			}
			switch op {
			case 1, 3:
				peeks++
				tok, e := c.l.Peek()
				ok := want(c, "peek", tok, e)
				if op == 1 && ok {
					break
				}
				tok, e = c.l.Next()
				if want(c, "next after peek", tok, e) {
					c.at++
				} else {
					c.failed = true
				}
			case 0:
				tok, e := c.l.Next()
				if want(c, "next", tok, e) {
					c.at++
				} else {
					c.failed = true
				}
			case 4:
				// the parser's look at the next token that is not space
				tok, e := parse.Peek(c.l)
				for c.at < len(toks) && (toks[c.at].Type == token.Whitespace || toks[c.at].Type == token.BlockComment || toks[c.at].Type == token.LineComment) {
					c.at++
				}
				if !want(c, "skip", tok, e) {
					c.failed = true
				}
			case 2:
				clones++
				n := &copyOf{l: c.l.Clone(), at: c.at}
				if len(copies) < 4 {
					copies = append(copies, n)
				} else {
					copies[picks[(i+1)%len(ops)]] = n
				}
			}
		}
		for _, h := range kept {
			if *h.p != h.v {
				t.Failf("token %+v changed to %+v after it was returned", h.v, *h.p)
			}
		}
		if len(toks) >= 3 && peeks > 0 {
			t.NonTrivial(src + fmt.Sprint(ops))
		}
		if clones > 0 {
			t.Label("with copies")
		}
		if err != nil {
			t.Label("with an error")
		}
	})
}

// compareLex compares the lexer with the reference.
func compareLex(t *pbt.T, src string) {
	want, v := Lex(src)
	got, err := libLex(t, src)
	for i, w := range want {
		if i >= len(got) {
			t.Failf("the lexer fails instead of reading the %v %q at %d", w.Kind, w.Text, w.Pos)
		}
		g := got[i]
		if g.Capture != w.Text || kinds[g.Type] != w.Kind {
			t.Failf("%v %q at %d is read as %s %q", w.Kind, w.Text, w.Pos, g.Type, g.Capture)
		}
		if (g.Type == token.Module) != (w.Text == "module") || (g.Type == token.Component) != (w.Text == "component") {
			t.Failf("%q is read as %s", w.Text, g.Type)
		}
	}
	switch v {
	case Good:
		t.Label("complete")
		if err != nil {
			t.Failf("error after a complete text")
		}
	case Bad:
		t.Label("no token")
		if len(got) > len(want) || err == nil {
			t.Failf("the text at %d, %.20q, is no token but is read as %+v", end(want), src[end(want):], got[len(want)])
		}
	default:
		t.Label("open")
	}
	if len(want) >= 2 {
		t.NonTrivial(src)
	}
}

func end(toks []Tok) int {
	if len(toks) == 0 {
		return 0
	}
	last := toks[len(toks)-1]
	return last.Pos + len(last.Text)
}

// lexemes: one lexeme, or a near miss, and what follows it.
func lexemes(t *pbt.T) {
	src := genLexeme(t)
	if t.P(1, 2) {
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			src = NearMiss(t, src)
		}
	}
	src += pbt.OneOf(t, "", " ", "\n", "(", ")", ";;", "(;x;)", ";", "\"", "x", "1", ".", "$", "é", ",", "\t", "+")
	if t.P(1, 4) {
		src = pbt.OneOf(t, " ", "(", ")", ";;\n", "(;;)") + src
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
}

// shapes goes through all short numbers over a small alphabet.
func shapes(t *pbt.T) {
	const alphabet = "0x1_.e+-pnaif:"
	n := t.Index
	var b []byte
	for {
		b = append(b, alphabet[n%uint64(len(alphabet))])
		n /= uint64(len(alphabet))
		if n == 0 {
			break
		}
		n--
	}
	src := string(b)
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
	if k, _ := classify(src); k == Integer || k == Float {
		t.Label("number")
	}
}

// longShapes draws longer numbers over the alphabet of numbers.
func longShapes(t *pbt.T) {
	const alphabet = "0x1_.e+-pnaif:9AE"
	b := make([]byte, t.Range(4, 14))
	for i := range b {
		b[i] = alphabet[t.Intn(len(alphabet))]
	}
	src := pbt.OneOf(t, "", "0x", "-", "1", "nan:0x", "1.", "0x1.", "1e", "0x1p") + string(b)
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
	if k, _ := classify(src); k == Integer || k == Float {
		t.Label("number")
	}
}

// longNumbers: numbers of every length, each way to write them.
func longNumbers(t *pbt.T) {
	n, form := 1+int(t.Index)/len(numberForms), numberForms[int(t.Index)%len(numberForms)]
	digits := strings.Repeat(pbt.OneOf(t, "1", "0", "7", "1_0", "90"), n)[:n]
	src := strings.ReplaceAll(form, "#", strings.TrimSuffix(digits, "_"))
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	t.NonTrivial(src)
	compareLex(t, src)
}

var numberForms = []string{"#", "0x#", "-#", "#.", "#.5", "1.#", "#e1", "1e#", "1e-#", "#.#e#", "0x#.", "0x#.a", "0x1.#", "0x#p1", "0x#.p1", "0x1p#", "0x1p+#", "0x#.#p#", "nan:0x#", "#x", "0x#g", "1.#.", "#_", "0x#.#_p1", "$#", "a#", "\"#\"", ";;#", "(;#;)"}

// escapes: the value of string literals.
func escapes(t *pbt.T) {
	want := GenName(t)
	lit := SpellString(t, want)
	ok := true
	if t.P(1, 2) {
		for i, n := 0, t.Range(1, 3); i < n; i++ {
			lit = NearMiss(t, lit)
		}
		tok, v := lexOne(lit, 0)
		if v == Either || v == Good && tok.Kind != String {
			t.Discard()
		}
		ok = v == Good
		if ok {
			want, ok = Unescape(tok.Text)
		}
	}
	t.Case(func() string { return lit })
	if strings.Contains(lit, "\\") {
		t.NonTrivial(lit)
	}
	var got string
	var err error
	t.NoPanic("parsing a string", func() { got, err = parse.ParseString(lex.New(lit)) })
	switch {
	case !ok && err == nil:
		t.Label("malformed")
		t.Failf("%s is accepted as %q", lit, got)
	case !ok:
		t.Label("malformed")
	case err != nil:
		t.Failf("%s is rejected: %v", lit, err)
	case got != want:
		t.Failf("%s stands for %q, got %q", lit, want, got)
	}
}

func sequences(t *pbt.T) {
	src := genText(t, 15, t.P(1, 3))
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
}

// nesting: comments nest to any depth.
func nesting(t *pbt.T) {
	var sb strings.Builder
	depth := 0
	for i, n := 0, t.Range(1, 40); i < n; i++ {
		switch t.Weighted(3, 3, 2) {
		case 0:
			sb.WriteString("(;")
			depth++
		case 1:
			sb.WriteString(";)")
			depth--
		default:
			sb.WriteString(pbt.OneOf(t, "x", ";", "(", ")", "\n", " ", "\"", ";;"))
		}
	}
	src := "(;" + sb.String()
	if t.P(1, 2) {
		for ; depth >= 0; depth-- {
			src += ";)"
		}
	}
	src += pbt.OneOf(t, "", "x", ")", " 1")
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	compareLex(t, src)
}

// pits: comments in comments in comments.
func pits(t *pbt.T) {
	n := pitDepths[int(t.Index)/4]
	src := strings.Repeat("(;", n) + " x " + strings.Repeat(";)", n)
	switch t.Index % 4 {
	case 1:
		src += " $x"
	case 2: // one end is missing
		src = src[:len(src)-2]
	case 3: // one is too many
		src += ";)"
	}
	t.Case(func() string { return fmt.Sprintf("%d comments in each other, case %d", n, t.Index%4) })
	compareLex(t, src)
}

var pitDepths = []int{2, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 1 << 20}

// ---- modules

// libParse parses a text with the library.
func libParse(t *pbt.T, src string) (d ast.Directive, err error) {
	t.NoPanic("parsing", func() {
		d, err = parse.Parse(lex.New(src))
	})
	if err == nil && d == nil {
		t.Failf("neither a result nor an error")
	}
	return
}

func parseLaw(t *pbt.T) {
	size := 30
	if t.Thorough {
		size = 120
	}
	m := GenModule(t, size)
	p := &Printer{T: t}
	p.Module(m)
	src := Layout(t, p.Toks)
	t.Case(func() string { return src })
	if len(p.Toks) > 12 {
		t.NonTrivial(src)
	}
	if len(m.Funcs) > 0 {
		t.Label("functions")
	}
	if len(m.Tables) > 0 {
		t.Label("tables")
	}
	if len(m.Types) > 0 {
		t.Label("types")
	}
	if len(m.Globals) > 0 {
		t.Label("globals")
	}
	if len(m.Mems) > 0 {
		t.Label("memories")
	}
	want := m.String()
	if r, _, v, why := ParseModule(src); v != Good || r.String() != want {
		panic(fmt.Sprintf("the reference parser disagrees with the generator: %v %s\n%s", v, why, src))
	}
	d, err := libParse(t, src)
	t.Must(err, "parsing a module")
	compareModule(t, d, want)
}

func compareModule(t *pbt.T, d ast.Directive, want string) {
	got, err := FromAST(d)
	if err != nil {
		t.Failf("the tree is not that of the module: %v", err)
	}
	if g := got.String(); g != want {
		t.Failf("the tree differs: %s", diff(want, g))
	}
}

// diff shows the first lines that differ.
func diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; ; i++ {
		switch {
		case i >= len(w) && i >= len(g):
			return "nothing"
		case i >= len(w):
			return fmt.Sprintf("additional line %q", g[i])
		case i >= len(g):
			return fmt.Sprintf("missing line %q", w[i])
		case w[i] != g[i]:
			a, b := w[i], g[i]
			for len(a) > 200 && len(b) > 200 && a[:100] == b[:100] {
				a, b = a[100:], b[100:]
			}
			return fmt.Sprintf("expected line %.300q, got %.300q", a, b)
		}
	}
}

// layouts: two layouts of one module give equal trees.
func layouts(t *pbt.T) {
	m := GenModule(t, 20)
	p := &Printer{T: t}
	p.Module(m)
	one, two := Layout(t, p.Toks), Layout(t, p.Toks)
	t.Case(func() string { return one + "\n---\n" + two })
	if one != two && len(p.Toks) > 12 {
		t.NonTrivial(one + two)
	}
	a, err := libParse(t, one)
	t.Must(err, "parsing the first layout")
	b, err := libParse(t, two)
	t.Must(err, "parsing the second layout")
	x, err := FromAST(a)
	t.Must(err, "the first tree")
	compareModule(t, b, x.String())
}

// deep: nesting of instructions and results.
func deep(t *pbt.T) {
	depth := t.Range(1, 300)
	i := &Inst{Op: "drop"}
	for d := 0; d < depth; d++ {
		var o *Inst
		switch t.Intn(4) {
		case 0:
			o = &Inst{Op: "block", Body: []*Inst{i}}
		case 1:
			o = &Inst{Op: "i32.add", Args: []*Inst{{Op: "i32.const", Bits: 1}, i}}
		case 2:
			o = &Inst{Op: "if", Clause: []*Inst{{Op: "local.get", Index: &Index{Num: 7}}}, Body: []*Inst{i}}
		default:
			o = &Inst{Op: "if", HasElse: true, Else: []*Inst{i}}
		}
		i = o
	}
	m := &Module{Funcs: []*Func{{Body: []*Inst{i}}}}
	p := &Printer{T: t}
	p.Module(m)
	src := Layout(t, p.Toks)
	t.Case(func() string { return src })
	t.NonTrivial(src)
	d, err := libParse(t, src)
	t.Must(err, "parsing a deep module")
	compareModule(t, d, m.String())
}

var largeParts = []string{
	"(module ⟨(type $t# (func (param i32)))⟩)",
	"(module ⟨(func $f# (result i64) (i64.const #))⟩ (func $last))",
	"(module ⟨(func)⟩)",
	"(module ⟨(table # funcref)⟩)",
	"(module ⟨(global $g# (mut f32) (f32.const #))⟩)",
	"(module ⟨(memory $m# # #)⟩)",
	"(module ⟨(memory #)(func)(type (func))(global i32)⟩)",
	"(module (func ⟨(export \"e#\")⟩))",
	"(module (func ⟨(import \"m#\" \"n\")⟩))",
	"(module (func ⟨(param $p# i32)⟩))",
	"(module (func ⟨(param f64 i32)⟩ (result i32)))",
	"(module (func (param ⟨i32│ ⟩)))",
	"(module (type (func ⟨(param $p# i64)⟩ (result f32))))",
	"(module (func ⟨(result i32)⟩))",
	"(module (func ⟨(local i32)⟩))",
	"(module (func ⟨(local i32)(local f64)⟩ drop))",
	"(module (func ⟨drop│ ⟩))",
	"(module (func ⟨(local.get #)⟩))",
	"(module (func ⟨i32.const # │⟩drop))",
	"(module (func (drop ⟨(i32.const #)⟩)))",
	"(module (func (block $l ⟨(br #)⟩)))",
	"(module (func (loop ⟨(drop)⟩)))",
	"(module (func (if (then ⟨(call $f#)⟩) (else (drop)))))",
	"(module (func (if (then) (else ⟨(call $f#)⟩))))",
	"(module (func (if ⟨(local.get #)⟩ (then))))",
	"(module (global i32 ⟨(i32.const #)⟩))",
	"(module (table funcref ⟨(elem $f#)⟩))",
	"(module (func (export \"⟨x⟩\")))",
	"(module (func (export \"⟨\\u{1f600}⟩\")))",
	"(module (func $⟨x⟩))",
	"(module (memory ⟨0⟩1))",
	"(module (memory 0x⟨0⟩1 1))",
	"(module (func (i64.const -⟨0_⟩8)))",
	"(module (func (f64.const 0.⟨0⟩1)))",
	"(module (func (f32.const 1.⟨0⟩)))",
	"(module ⟨ ⟩(func))",
	"(module ⟨\n⟩(func))",
	"(module ⟨;; x\n⟩(func))",
	"(module ⟨(; x ;)⟩(func))",
	"(module (;⟨x⟩;)(func))",
	"(module ;;⟨x⟩\n(func))",
}

// large: one part of a module comes very often, or is very long.
func large(t *pbt.T) {
	n := pbt.Sizes[int(t.Index)/len(largeParts)]
	tm := largeParts[int(t.Index)%len(largeParts)]
	src := pbt.Repeat(tm, n)
	t.Case(func() string { return fmt.Sprintf("%s, %d times", tm, n) })
	m, _, v, why := ParseModule(src)
	if v == Bad {
		panic("harness: the reference rejects " + tm + ": " + why)
	}
	if v == Either {
		t.Label("open")
	}
	d, err := libParse(t, src)
	if v == Good {
		t.NonTrivial(fmt.Sprint(t.Index))
		t.Must(err, "parsing a large module")
		compareModule(t, d, m.String())
	}
}

// ---- literals

// place is a position of a literal.
type place struct {
	name   string
	before string
	after  string
	get    func(m *ast.Module) (uint64, error)
	eval   func(lit string) (uint64, Verdict)
}

func fnBody(m *ast.Module) (ast.Instruction, error) {
	if len(m.Functions) != 1 || len(m.Functions[0].Instructions) != 1 {
		return nil, fmt.Errorf("one function with one instruction expected")
	}
	return m.Functions[0].Instructions[0], nil
}

func bitsOf(i ast.Instruction) (uint64, error) {
	x := fromInst(i)
	if x.Index != nil {
		return uint64(x.Index.Num), nil
	}
	return x.Bits, nil
}

func evalInt(width uint) func(string) (uint64, Verdict) {
	return func(lit string) (uint64, Verdict) {
		if k, _ := classify(lit); k != Integer {
			return 0, Bad
		}
		v, ok := IntBits(lit, width)
		if !ok {
			return 0, Bad
		}
		return v, Good
	}
}

func evalFloat(width int) func(string) (uint64, Verdict) {
	return func(lit string) (uint64, Verdict) {
		if k, _ := classify(lit); k != Integer && k != Float {
			return 0, Bad
		}
		return FloatBits(lit, width)
	}
}

func evalU32(lit string) (uint64, Verdict) {
	if k, _ := classify(lit); k != Integer {
		return 0, Bad
	}
	v, ok := U32Value(lit)
	if !ok {
		return 0, Bad
	}
	return uint64(v), Good
}

var places = func() (ps []place) {
	fn := func(m *ast.Module) (uint64, error) {
		i, err := fnBody(m)
		if err != nil {
			return 0, err
		}
		return bitsOf(i)
	}
	operand := func(m *ast.Module) (uint64, error) {
		i, err := fnBody(m)
		if err != nil {
			return 0, err
		}
		f, ok := i.(ast.Folded)
		if !ok || len(f.Parameters) != 1 {
			return 0, fmt.Errorf("operand expected")
		}
		return bitsOf(f.Parameters[0])
	}
	global := func(m *ast.Module) (uint64, error) {
		if len(m.Globals) != 1 || len(m.Globals[0].Instructions) != 1 {
			return 0, fmt.Errorf("global expected")
		}
		return bitsOf(m.Globals[0].Instructions[0])
	}
	for _, c := range []struct {
		op   string
		eval func(string) (uint64, Verdict)
	}{{"i32", evalInt(32)}, {"i64", evalInt(64)}, {"f32", evalFloat(32)}, {"f64", evalFloat(64)}} {
		ps = append(ps,
			place{c.op + " constant", "(module (func " + c.op + ".const ", "))", fn, c.eval},
			place{c.op + " operand", "(module (func (drop (" + c.op + ".const ", "))))", operand, c.eval},
			place{c.op + " global", "(module (global " + c.op + " (" + c.op + ".const ", ")))", global, c.eval})
	}
	for _, op := range Indexed {
		ps = append(ps, place{op, "(module (func (" + op + " ", ")))", fn, evalU32})
	}
	mem := func(max bool) func(m *ast.Module) (uint64, error) {
		return func(m *ast.Module) (uint64, error) {
			if len(m.Memory) != 1 {
				return 0, fmt.Errorf("memory expected")
			}
			return pick(fromLimits(m.Memory[0].Limits), max)
		}
	}
	table := func(max bool) func(m *ast.Module) (uint64, error) {
		return func(m *ast.Module) (uint64, error) {
			if len(m.Tables) != 1 {
				return 0, fmt.Errorf("table expected")
			}
			return pick(fromLimits(m.Tables[0].TableType.Limits), max)
		}
	}
	ps = append(ps,
		place{"memory minimum", "(module (memory ", "))", mem(false), evalU32},
		place{"memory maximum", "(module (memory 0 ", "))", mem(true), evalU32},
		place{"table minimum", "(module (table ", " funcref))", table(false), evalU32},
		place{"table maximum", "(module (table 0 ", " funcref))", table(true), evalU32})
	return
}()

func pick(l Limits, max bool) (uint64, error) {
	if max {
		if !l.HasMax {
			return 0, fmt.Errorf("maximum expected")
		}
		return uint64(l.Max), nil
	}
	if l.HasMax {
		return 0, fmt.Errorf("no maximum expected")
	}
	return uint64(l.Min), nil
}

func literals(t *pbt.T) {
	pl := pbt.Pick(t, places)
	var lit string
	if t.Weighted(3, 2) == 0 && strings.HasPrefix(pl.name, "f") || t.P(1, 8) {
		lit = genFloat(t)
	} else {
		lit = genInt(t)
	}
	checkLiteral(t, pl, lit)
}

// edges goes through all boundary numbers in all places.
func edges(t *pbt.T) {
	n := int(t.Index)
	pl := places[n%len(places)]
	n /= len(places)
	sg := []string{"", "-", "+"}[n%3]
	n /= 3
	hex := n%2 == 1
	n /= 2
	delta := n%5 - 2
	n /= 5
	v := new(big.Int).Lsh(big.NewInt(1), []uint{0, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65, 128}[n])
	v.Add(v, big.NewInt(int64(delta)))
	if v.Sign() < 0 {
		t.Discard()
	}
	lit := sg + v.String()
	if hex {
		lit = sg + "0x" + v.Text(16)
	}
	checkLiteral(t, pl, lit)
}

// longLiterals: literals of every length, most of it digits that hardly matter.
var longForms = []string{"#1", "#1.5", "1.#1", "#2e3", "1.5e#2", "1.5e-#2", "0x#1", "0x#1.8", "0x1.#1", "0x#1p3", "0x1.8p#3", "0x1.8p-#3", "nan:0x#1", "1.#1e2", "0x1.#1p2"}

func longLiterals(t *pbt.T) {
	n, form := 1+int(t.Index)/len(longForms), longForms[int(t.Index)%len(longForms)]
	var d strings.Builder
	digit := pbt.OneOf(t, "0", "0", "0", "3", "9")
	every := pbt.OneOf(t, 0, 1, 3, 10)
	for i := 0; d.Len() < n; i++ {
		d.WriteString(digit)
		if every > 0 && i%every == 0 {
			d.WriteByte('_')
		}
	}
	lit := sign(t) + strings.Replace(form, "#", d.String(), 1)
	for _, pl := range places {
		if strings.HasPrefix(pl.name, "f") || t.P(1, 4) {
			checkLiteral(t, pl, lit)
		}
	}
}

const edgeCount = 3 * 2 * 5 * 13

func checkLiteral(t *pbt.T, pl place, lit string) {
	t.Case(func() string { return fmt.Sprintf("%s as %s", lit, pl.name) })
	src := pl.before + lit + pl.after
	want, v := pl.eval(lit)
	if len(lit) > 1 {
		t.NonTrivial(pl.name + lit)
	}
	d, err := libParse(t, src)
	switch v {
	case Bad:
		t.Label("out of range or wrong kind")
		if err == nil {
			t.Failf("%s is accepted as %s", lit, pl.name)
		}
		return
	case Either:
		t.Label("open")
		return
	}
	t.Label("in range")
	if err != nil {
		t.Failf("%s is rejected as %s: %v", lit, pl.name, err)
	}
	m, ok := d.(*ast.Module)
	if !ok {
		t.Failf("the result is a %T", d)
	}
	got, err := pl.get(m)
	if err != nil {
		t.Failf("%s as %s: %v", lit, pl.name, err)
	}
	if got != want {
		t.Failf("%s as %s has the bits %#x, got %#x", lit, pl.name, want, got)
	}
}

// helpers: the exported functions for literals agree with the grammar.
func helpers(t *pbt.T) {
	which := t.Intn(4)
	lit := genFloat(t)
	if t.Bool() {
		lit = genInt(t)
	}
	src := pbt.OneOf(t, "", " ", "(;x;)", ";;\n") + lit + pbt.OneOf(t, "", " ", ")", " 5")
	t.Case(func() string { return fmt.Sprintf("%q by function %d", src, which) })
	eval := []func(string) (uint64, Verdict){evalInt(32), evalInt(64), evalFloat(32), evalFloat(64)}[which]
	want, v := eval(lit)
	var got uint64
	var err error
	t.NoPanic("parsing a literal", func() {
		l := lex.New(src)
		switch which {
		case 0:
			var x int32
			x, err = parse.ParseInt32(l)
			got = uint64(uint32(x))
		case 1:
			var x int64
			x, err = parse.ParseInt64(l)
			got = uint64(x)
		case 2:
			var x float32
			x, err = parse.ParseFloat32(l)
			got = uint64(math.Float32bits(x))
		default:
			var x float64
			x, err = parse.ParseFloat64(l)
			got = math.Float64bits(x)
		}
	})
	if len(lit) > 1 {
		t.NonTrivial(fmt.Sprint(which) + lit)
	}
	switch {
	case v == Bad && err == nil:
		t.Failf("%s is accepted with the bits %#x", lit, got)
	case v == Good && err != nil:
		t.Failf("%s is rejected: %v", lit, err)
	case v == Good && got != want:
		t.Failf("%s has the bits %#x, got %#x", lit, want, got)
	}
}

// ---- malformed text

// Pool lists tokens for edits.
var Pool = strings.Fields(`( ) func param result local i32 i64 f32 f64 $x 0 1 -1 +1 4294967295 4294967296 -2147483649 18446744073709551616
	1.5 nan inf nan:0x0 1e999 "s" "\q" "\u{110000}" "\u{d800}" "\0" "unclosed foo bogus i32.bogus i32.const f32.const f64.const i64.const then else if block loop
	mut elem type funcref externref i32ref module component export import memory table global start data ;; (; ;) , é [ drop end br br_table select
	i32.add call local.get call_indirect (result (then (else (func ) $ 0x 1_ 1__0 .5 offset=4 quote binary`)

// Edit changes the tokens of a text at one place.
func Edit(t *pbt.T, toks []string, pool []string) []string {
	at := t.Intn(len(toks))
	switch t.Weighted(3, 2, 4, 3, 2, 2, 2, 2, 3) {
	case 8:
		for n := 0; n < 4 && (toks[at] == "(" || toks[at] == ")"); n++ {
			at = t.Intn(len(toks))
		}
		return splice(toks, at, at+1, full(respell(t, toks[at]))...)
	case 7: // two neighbouring groups
		at, e := group(toks, at)
		if e >= len(toks) || toks[e] != "(" {
			return splice(toks, at, at, toks[at:e]...)
		}
		_, f := group(toks, e)
		a, b := toks[at:e], toks[e:f]
		switch t.Intn(4) {
		case 0: // in the other order
			return splice(toks, at, f, append(append([]string{}, b...), a...)...)
		case 1: // the first comes back
			return splice(toks, f, f, a...)
		case 2: // the second comes first, too
			return splice(toks, at, at, b...)
		default: // one in the other
			return splice(toks, at, f, append(append(append([]string{}, a[:len(a)-1]...), b...), ")")...)
		}
	case 0: // delete
		return splice(toks, at, at+1)
	case 1: // double
		return splice(toks, at, at, toks[at])
	case 2: // replace
		return splice(toks, at, at+1, pbt.Pick(t, pool))
	case 3: // insert
		return splice(toks, at, at, pbt.Pick(t, pool))
	case 4: // swap with another
		o := append([]string{}, toks...)
		b := t.Intn(len(toks))
		o[at], o[b] = o[b], o[at]
		return o
	case 5: // delete a group
		at, e := group(toks, at)
		return splice(toks, at, e)
	default:
		at, e := group(toks, at)
		g := append([]string{}, toks[at:e]...)
		switch t.Intn(6) {
		case 0: // only the head is left
			return splice(toks, at, e, append(append([]string{}, g[:min(2, len(g))]...), ")")...)
		case 1: // another head, and nothing else
			return splice(toks, at, e, "(", pbt.Pick(t, pool), ")")
		case 2: // nothing at all
			return splice(toks, at, e, "(", ")")
		case 3: // twice
			return splice(toks, at, at, g...)
		case 4: // without its parentheses
			return splice(toks, at, e, g[min(1, len(g)):max(1, len(g)-1)]...)
		default: // in another place
			o := splice(toks, at, e)
			b := t.Intn(len(o) + 1)
			return splice(o, b, b, g...)
		}
	}
}

// full drops empty tokens.
func full(toks []string) (out []string) {
	for _, k := range toks {
		if k != "" {
			out = append(out, k)
		}
	}
	return
}

// respell writes a token in a way that is nearly the same.
func respell(t *pbt.T, w string) []string {
	switch t.Intn(10) {
	case 0:
		return []string{"$" + w}
	case 1:
		return []string{`"` + strings.Trim(w, `"`) + `"`}
	case 2:
		return []string{strings.Trim(w, `"$`)}
	case 3:
		return []string{strings.ToUpper(w)}
	case 4: // one letter in the other case
		at := t.Intn(len(w))
		c := strings.ToUpper(w[at : at+1])
		if c == w[at:at+1] {
			c = strings.ToLower(c)
		}
		return []string{w[:at] + c + w[at+1:]}
	case 5:
		return []string{w + pbt.OneOf(t, "_", ".", "s", "0", "$", ":", "x", "=0")}
	case 6:
		return []string{w[:len(w)-1]}
	case 7: // in two
		at := t.Intn(len(w))
		return []string{w[:at], w[at:]}
	case 8:
		return []string{"(", w, ")"}
	default:
		if _, after, ok := strings.Cut(w, "."); ok && t.Bool() {
			return []string{after}
		}
		return []string{strings.NewReplacer("_", "-", ".", "_", "$", "%").Replace(w)}
	}
}

// splice replaces some tokens.
func splice(toks []string, from, to int, by ...string) []string {
	out := append([]string{}, toks[:from]...)
	return append(append(out, by...), toks[to:]...)
}

// group finds the parentheses around a token.
func group(toks []string, at int) (int, int) {
	for at > 0 && toks[at] != "(" {
		at--
	}
	depth, e := 0, at
	for e < len(toks) {
		if toks[e] == "(" {
			depth++
		} else if toks[e] == ")" {
			depth--
		}
		e++
		if depth <= 0 {
			break
		}
	}
	return at, e
}

// judge compares the library with the reference parser on any text.
func judge(t *pbt.T, src string) {
	m, _, v, why := ParseModule(src)
	d, err := libParse(t, src)
	switch v {
	case Good:
		t.Label("well formed")
		t.Must(err, "parsing a module")
		compareModule(t, d, m.String())
	case Bad:
		t.Label("malformed")
		t.NonTrivial(src)
		if err == nil {
			t.Failf("accepted although: %s", why)
		}
	default:
		t.Label("open")
		// whatever it is, an error comes without a result
	}
	var dec any
	var derr error
	t.NoPanic("decoding", func() {
		r := strings.NewReader(src)
		dec, derr = wasmwat.NewDecoder(r).Decode(r)
	})
	if m, ok := dec.(*api.Module); v == Good && derr == nil && (!ok || m == nil) {
		t.Failf("decoding a module gives %#v", dec)
	}
	// the parser leaves what follows the module, the decoder has to have an end
	_, w, why := ParseText(src)
	switch {
	case w == Bad && derr == nil:
		t.Failf("decoded although: %s", why)
	case v == Good && w == Good && derr != nil:
		t.Failf("decoding a module: %v", derr)
	case err != nil && derr == nil:
		t.Failf("the parser says %v and the decoder does not", err)
	}
	if v == Good && w == Bad {
		t.Label("text after the module")
		t.NonTrivial(src)
	}
}

// narrow keeps one part of a module, so that an edit is likely to meet it.
func narrow(t *pbt.T, m *Module) *Module {
	var ms []*Module
	for _, f := range m.Funcs {
		if len(f.Body) == 0 || t.Bool() {
			ms = append(ms, &Module{Funcs: []*Func{f}})
			continue
		}
		ms = append(ms, &Module{Funcs: []*Func{{Body: []*Inst{pbt.Pick(t, f.Body)}}}})
	}
	for _, x := range m.Types {
		ms = append(ms, &Module{Types: []*Type{x}})
	}
	for _, x := range m.Tables {
		ms = append(ms, &Module{Tables: []*Table{x}})
	}
	for _, x := range m.Globals {
		ms = append(ms, &Module{Globals: []*Global{x}})
	}
	for _, x := range m.Mems {
		ms = append(ms, &Module{Mems: []*Mem{x}})
	}
	if len(ms) == 0 {
		return m
	}
	return pbt.Pick(t, ms)
}

func edits(t *pbt.T) {
	m := GenModule(t, pbt.OneOf(t, 12, 4))
	if t.P(1, 2) {
		m = narrow(t, m)
	}
	p := &Printer{T: t}
	p.Module(m)
	toks := p.Toks
	for i, n := 0, t.Weighted(6, 2, 1)+1; i < n && len(toks) > 0; i++ {
		toks = Edit(t, toks, Pool)
	}
	src := Layout(t, toks)
	t.Case(func() string { return src })
	judge(t, src)
}

// fieldHeads and codeHeads begin groups inside a module and inside a function,
// partItems are what may stand in them.
var fieldHeads = []string{"func", "func $f", "func (export \"e\")", "type", "type $t", "type (func", "table", "table 1", "table $t 1 2", "table funcref",
	"memory", "memory $m", "memory 1", "global", "global $g", "global $g i32", "global (mut i32)", "func $f (param i32)", "func (result i32)", "func (local i32)", "func (import \"a\" \"b\")"}
var codeHeads = []string{"if", "if", "if $l", "if (then)", "if (result i32)", "if (i32.const 1) (then)", "if (then) (else)", "block", "block $l", "block (result i32)", "loop", "loop $l",
	"then", "else", "drop", "i32.add", "i32.const", "call", "call $f", "call_indirect", "call_indirect (type $t)", "br", "br_if 0", "br_table", "local.get", "local.set 0", "global.set $g", "i32.store", "i32.load", "memory.grow", "select", "return", "nop", "f32.const", "local.tee $x"}
var partItems = []string{"(then)", "(then (nop))", "(then (drop (i32.const 2)))", "(else)", "(else (nop))", "(i32.const 1)", "(nop)", "(local.get 0)", "(drop (local.get $x))", "(block)", "(loop)",
	"(result i32)", "(result)", "(param i32)", "(param $x i64)", "(param)", "(local f32)", "(local $l f64)", "(type $t)", "(type 0)", "(export \"a\")", "(import \"a\" \"b\")", "(mut i32)", "(mut)", "(elem $f)", "(elem)",
	"(func)", "(func (param i32))", "nop", "i32.add", "i32.const 1", "drop", "return", "0", "1", "2", "-1", "1.5", "$x", "$f", "i32", "f64", "funcref", "externref", "\"s\"", "()", "(foo)", "foo"}

// parts: short lists of groups and words after every keyword.
func parts(t *pbt.T) {
	var sb strings.Builder
	code := t.Bool()
	sb.WriteString("(module ")
	if code {
		sb.WriteString(pbt.OneOf(t, "(func ", "(func ", "(func (drop ", "(func (block ", "(func (if (then ", "(func (result i32) "))
		sb.WriteString("(" + pbt.Pick(t, codeHeads))
	} else {
		sb.WriteString("(" + pbt.Pick(t, fieldHeads))
	}
	for i, n := 0, t.Intn(5); i < n; i++ {
		sb.WriteString(pbt.OneOf(t, " ", " ", " ", "\n", "  ", " (;;)") + pbt.Pick(t, partItems))
	}
	src := sb.String()
	open := strings.Count(src, "(") - strings.Count(src, ")")
	if t.P(1, 20) {
		open += t.Intn(3) - 1
	}
	src += strings.Repeat(")", max(0, open))
	t.Case(func() string { return src })
	judge(t, src)
}

func truncations(t *pbt.T) {
	m := GenModule(t, 12)
	p := &Printer{T: t}
	p.Module(m)
	src := Layout(t, p.Toks)
	full := src
	cut := t.Intn(len(src) + 1)
	src = src[:cut]
	t.Case(func() string { return fmt.Sprintf("%s cut short to %d: %q", full, cut, src) })
	judge(t, src)
}

// characters: edits of single characters.
func characters(t *pbt.T) {
	m := GenModule(t, 8)
	p := &Printer{T: t}
	p.Module(m)
	src := Layout(t, p.Toks)
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		src = NearMiss(t, src)
	}
	if t.P(1, 20) { // in front of everything, or behind
		odd := pbt.OneOf(t, "\ufeff", "\x00", "\x1a", "\x04", "\x7f", "\ufffe", "#!")
		if t.Bool() {
			src = odd + src
		} else {
			src += odd
		}
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	judge(t, src)
}

// soup: texts without structure, and with much nesting.
func soup(t *pbt.T) {
	var src string
	switch t.Weighted(3, 3, 1, 1) {
	case 0:
		var toks []string
		for i, n := 0, t.Len(15, 60); i < n; i++ {
			toks = append(toks, pbt.Pick(t, Pool))
		}
		src = Layout(t, toks)
		if t.P(2, 3) {
			src = pbt.OneOf(t, "(module ", "(module (func ", "(module(func(if ", "(module (table ") + src
		}
	case 1:
		src = genText(t, 20, true)
	case 2:
		src = string(t.Bytes(t.Len(20, 200)))
	default:
		n := t.Range(1, 3000)
		open := pbt.OneOf(t, "(", "(func", "(block", "(if", "(drop", "(;", "(module", "(if (then ", "(i32.add (", "\"")
		src = pbt.OneOf(t, "", "(module ", "(module (func ") + strings.Repeat(open, n) + strings.Repeat(")", t.Range(0, n))
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	judge(t, src)
}

// readers: the decoder on readers that deliver in pieces and fail.
// tail draws what may follow a module: a parenthesis too many, a word, a group
// or another module.
func tail(t *pbt.T) []string {
	switch t.Intn(6) {
	case 5:
		return []string{pbt.OneOf(t, "\x00", "\x1a", "\x04", "\ufeff", "\x7f", "€", "\xff")}
	case 0:
		return []string{")"}
	case 1:
		return []string{"("}
	case 2:
		return []string{pbt.Pick(t, Pool)}
	case 3:
		return []string{"(", pbt.Pick(t, Pool), ")"}
	default:
		p := &Printer{T: t}
		p.Module(GenModule(t, 2))
		return p.Toks
	}
}

// trailing: a well-formed module and something after it.
func trailing(t *pbt.T) {
	m := GenModule(t, 6)
	p := &Printer{T: t}
	p.Module(m)
	toks := p.Toks
	if !t.P(1, 8) {
		toks = append(append([]string{}, toks...), tail(t)...)
	}
	src := Layout(t, toks)
	t.Case(func() string { return src })
	judge(t, src)
}

func readers(t *pbt.T) {
	m := GenModule(t, 8)
	p := &Printer{T: t}
	p.Module(m)
	toks := p.Toks
	if t.P(1, 4) {
		toks = append(append([]string{}, toks...), tail(t)...)
	}
	src := Layout(t, toks)
	if t.P(1, 3) {
		src = src[:t.Intn(len(src)+1)]
	}
	r := stream.New(t, []byte(src))
	broken := t.P(1, 3)
	if broken {
		r.End = stream.Failure(t)
	}
	t.Case(func() string { return fmt.Sprintf("%q, %v", src, r) })
	t.NonTrivial(src)
	_, v, _ := ParseText(src)
	var err error
	var dec any
	t.NoPanic("decoding", func() {
		dec, err = wasmwat.NewDecoder(r).Decode(r)
	})
	if m, ok := dec.(*api.Module); v == Good && err == nil && (!ok || m == nil) {
		t.Failf("decoding a module gives %#v", dec)
	}
	switch {
	case broken && err == nil:
		t.Failf("a reader that fails gives no error")
	case !broken && v == Good && err != nil:
		t.Failf("%v", err)
	case !broken && v == Bad && err == nil:
		t.Failf("malformed text is accepted")
	}
}

var _ io.Reader = (*stream.Reader)(nil)

// Props lists the properties of this package.
func Props() []pbt.Prop {
	return []pbt.Prop{
		{ID: "W01", Quick: 800000, Thorough: 12000000,
			Rule: "texts of at least four tokens; histories with at least three tokens and one look ahead",
			Assumptions: []string{"lines and columns count from zero, columns count bytes, a line ends with a line feed",
				"after an error only the error itself is compared"},
			Laws: []pbt.Law{{Name: "tile", Weight: 1, Run: tile}, {Name: "histories", Weight: 1, Run: histories}}},
		{ID: "W02", Quick: 2000000, Thorough: 30000000,
			Rule:        "texts of at least one token before the end",
			Assumptions: []string{"left open: control characters in strings, a string that touches another token, a lone carriage return in a line comment, form feeds and vertical tabs, signed nan:canonical"},
			Laws: []pbt.Law{{Name: "lexemes", Weight: 4, Run: lexemes}, {Name: "sequences", Weight: 2, Run: sequences},
				{Name: "nesting", Weight: 1, Run: nesting}, {Name: "long-shapes", Weight: 2, Run: longShapes}, {Name: "escapes", Weight: 2, Run: escapes}, {Name: "pits", Run: pits, Enum: len(pitDepths) * 4}, {Name: "long-numbers", Run: longNumbers, Enum: 530 * len(numberForms)}, {Name: "shapes", Run: shapes, Enum: 14 + 14*14 + 14*14*14 + 14*14*14*14}}},
		{ID: "W03", Quick: 90000, Thorough: 1000000,
			Rule:        "modules of more than twelve tokens",
			Assumptions: []string{"the supported grammar is the one described in DESIGN.md"},
			Laws: []pbt.Law{{Name: "modules", Weight: 6, Run: parseLaw}, {Name: "layouts", Weight: 1, Run: layouts},
				{Name: "deep", Weight: 1, Run: deep}, {Name: "large", Run: large, Enum: len(largeParts) * len(pbt.Sizes)}}},
		{ID: "W04", Quick: 1500000, Thorough: 20000000,
			Rule:        "literals of at least two characters",
			Assumptions: []string{"a float literal that rounds to infinity is out of range", "indices and limits have no sign"},
			Laws: []pbt.Law{{Name: "literals", Weight: 3, Run: literals}, {Name: "helpers", Weight: 1, Run: helpers},
				{Name: "edges", Run: edges, Enum: edgeCount * len(places)}, {Name: "long", Run: longLiterals, Enum: 600 * len(longForms)}}},
		{ID: "W05", Quick: 300000, Thorough: 3000000,
			Rule:        "texts the reference parser rejects, and decoded readers",
			Assumptions: []string{"nesting up to 3000 levels", "constructs outside of the supported grammar may be accepted or rejected"},
			Laws: []pbt.Law{{Name: "edits", Weight: 5, Run: edits}, {Name: "parts", Weight: 4, Run: parts}, {Name: "truncations", Weight: 2, Run: truncations},
				{Name: "characters", Weight: 2, Run: characters}, {Name: "soup", Weight: 2, Run: soup}, {Name: "readers", Weight: 1, Run: readers},
				{Name: "trailing", Weight: 1, Run: trailing}}},
	}
}

// Source draws a text: a module, a damaged one, or tokens.
func Source(t *pbt.T) string {
	if t.P(1, 5) {
		return genText(t, 10, true)
	}
	p := &Printer{T: t}
	p.Module(GenModule(t, 8))
	src := Layout(t, p.Toks)
	if t.P(1, 4) {
		src = NearMiss(t, src)
	}
	return src
}
