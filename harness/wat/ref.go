package wat

import (
	"strings"
	"unicode/utf8"
)

// outcome is what the reference parser stops with.
type outcome struct {
	v   Verdict
	why string
}

type refParser struct {
	src string
	pos int
}

// ParseModule is the reference parser: it reads "( module ... )" from the
// start of the text. With Good the module and the length of the text read
// are returned; with Bad the text must be rejected; with Either the text is
// legal but outside of the supported subset, or its status is not settled.
func ParseModule(src string) (m *Module, n int, v Verdict, why string) {
	p := &refParser{src: src}
	v, why = p.run(func() {
		p.open()
		switch tok := p.peek(); {
		case tok.Kind == Keyword && tok.Text == "module":
			m = p.module()
		case tok.Kind == Keyword && tok.Text == "component":
			p.next()
			if p.peek().Kind == Close {
				p.either("a component")
			}
			p.either("the contents of a component")
		default:
			p.bad("neither module nor component")
		}
	})
	if v != Good {
		return nil, 0, v, why
	}
	return m, p.pos, Good, ""
}

// ParseText is ParseModule for a text that holds nothing but the module.
func ParseText(src string) (m *Module, v Verdict, why string) {
	m, n, v, why := ParseModule(src)
	if v != Good {
		return nil, v, why
	}
	p := &refParser{src: src, pos: n}
	v, why = p.run(func() {
		if p.next().Kind != EOF {
			p.bad("text after the module")
		}
	})
	return m, v, why
}

func (p *refParser) run(f func()) (v Verdict, why string) {
	defer func() {
		if r := recover(); r != nil {
			o, ok := r.(outcome)
			if !ok {
				panic(r)
			}
			v, why = o.v, o.why
		}
	}()
	f()
	return Good, ""
}

func (p *refParser) bad(why string)    { panic(outcome{Bad, why}) }
func (p *refParser) either(why string) { panic(outcome{Either, why}) }

// next reads a token that is neither space nor comment.
func (p *refParser) next() Tok {
	for {
		tok, v := lexOne(p.src, p.pos)
		switch v {
		case Bad:
			p.bad("no token")
		case Either:
			p.either("unsettled token")
		}
		p.pos += len(tok.Text)
		if tok.Kind > Block {
			return tok
		}
	}
}

func (p *refParser) peek() Tok {
	pos := p.pos
	tok := p.next()
	p.pos = pos
	return tok
}

func (p *refParser) open() {
	if p.next().Kind != Open {
		p.bad("( expected")
	}
}

func (p *refParser) close() {
	if p.next().Kind != Close {
		p.bad(") expected")
	}
}

// group looks for an opening parenthesis and the keyword after it.
func (p *refParser) group() (string, bool) {
	if p.peek().Kind != Open {
		return "", false
	}
	pos := p.pos
	p.next()
	tok := p.peek()
	p.pos = pos
	if tok.Kind != Keyword {
		p.bad("keyword expected after (")
	}
	return tok.Text, true
}

func (p *refParser) enter() { p.next(); p.next() }

func (p *refParser) id() string {
	if tok := p.peek(); tok.Kind == ID {
		p.next()
		return tok.Text
	}
	return ""
}

// text reads a string that may hold any bytes.
func (p *refParser) text() string {
	tok := p.next()
	if tok.Kind != String {
		p.bad("string expected")
	}
	return p.unescape(tok)
}

func (p *refParser) unescape(tok Tok) string {
	s, ok := Unescape(tok.Text)
	if !ok {
		p.bad("escape")
	}
	return s
}

func (p *refParser) str() string {
	tok := p.next()
	if tok.Kind != String {
		p.bad("string expected")
	}
	s := p.unescape(tok)
	if !utf8.ValidString(s) {
		p.either("name that is not UTF-8")
	}
	return s
}

func (p *refParser) u32() uint32 {
	tok := p.next()
	if tok.Kind != Integer {
		p.bad("number expected")
	}
	v, ok := U32Value(tok.Text)
	if !ok {
		p.bad("number out of range")
	}
	return v
}

func (p *refParser) valType() string {
	tok := p.next()
	if tok.Kind == Keyword && valType[tok.Text] {
		return tok.Text
	}
	if tok.Kind == Keyword && (tok.Text == "funcref" || tok.Text == "externref" || tok.Text == "v128" || strings.HasSuffix(tok.Text, "ref")) {
		p.either("other value type")
	}
	if tok.Kind == Open && p.peek().Text == "ref" {
		p.either("other value type")
	}
	p.bad("value type expected")
	return ""
}

func (p *refParser) limits() Limits {
	l := Limits{Min: p.u32()}
	if p.peek().Kind == Integer {
		l.HasMax, l.Max = true, p.u32()
	}
	return l
}

func (p *refParser) param() Param {
	p.enter()
	x := Param{ID: p.id()}
	if x.ID != "" {
		x.Types = []string{p.valType()}
	} else {
		for p.peek().Kind != Close {
			x.Types = append(x.Types, p.valType())
		}
	}
	p.close()
	return x
}

// result reads (result t*); many says whether other numbers than one are supported.
func (p *refParser) result(many bool) []string {
	p.enter()
	var ts []string
	for p.peek().Kind != Close {
		ts = append(ts, p.valType())
	}
	p.close()
	if !many && len(ts) != 1 {
		p.either("number of results")
	}
	return ts
}

func (p *refParser) module() *Module {
	p.next()
	m := &Module{}
	if p.peek().Kind == ID {
		p.either("name of the module")
	}
	for {
		if p.peek().Kind == Close {
			p.next()
			return m
		}
		kw, ok := p.group()
		if !ok {
			if tok := p.peek(); tok.Kind == Keyword && (tok.Text == "binary" || tok.Text == "quote" || tok.Text == "definition" || tok.Text == "instance") {
				p.either("binary or quoted module")
			}
			p.bad("section expected")
		}
		switch kw {
		case "func":
			p.enter()
			m.Funcs = append(m.Funcs, p.fn())
		case "type":
			p.enter()
			x := &Type{ID: p.id()}
			kw, ok := p.group()
			if ok && (kw == "sub" || kw == "struct" || kw == "array") {
				p.either("other type")
			}
			if !ok || kw != "func" {
				p.bad("func expected")
			}
			p.enter()
			for {
				kw, ok := p.group()
				if ok && kw == "param" {
					if len(x.Results) > 0 {
						p.either("order")
					}
					x.Params = append(x.Params, p.param())
				} else if ok && kw == "result" {
					x.Results = append(x.Results, p.result(false))
				} else {
					break
				}
			}
			p.close()
			p.close()
			m.Types = append(m.Types, x)
		case "table":
			p.enter()
			m.Tables = append(m.Tables, p.table())
		case "global":
			p.enter()
			x := &Global{ID: p.id()}
			if kw, ok := p.group(); ok {
				if kw == "export" || kw == "import" {
					p.either("inline")
				}
				if kw != "mut" {
					p.bad("mut expected")
				}
				p.enter()
				x.Mutable = true
				x.Type = p.valType()
				p.close()
			} else {
				x.Type = p.valType()
			}
			x.Init = p.foldedOnly()
			p.close()
			m.Globals = append(m.Globals, x)
		case "memory":
			p.enter()
			x := &Mem{ID: p.id()}
			if kw, ok := p.group(); ok && (kw == "data" || kw == "export" || kw == "import") {
				p.either("inline")
			}
			if tok := p.peek(); tok.Text == "i32" || tok.Text == "i64" {
				p.either("index type")
			}
			x.Limits = p.limits()
			p.close()
			m.Mems = append(m.Mems, x)
		case "import", "export", "start", "elem", "data", "rec", "tag":
			p.either("other section")
		default:
			p.bad("unknown section")
		}
	}
}

func (p *refParser) table() *Table {
	x := &Table{ID: p.id()}
	if kw, ok := p.group(); ok && (kw == "export" || kw == "import") {
		p.either("inline")
	}
	if tok := p.peek(); tok.Text == "i32" || tok.Text == "i64" {
		p.either("index type")
	}
	if p.peek().Kind == Integer {
		x.HasLimits, x.Limits = true, p.limits()
	}
	tok := p.next()
	if tok.Kind == Open && p.peek().Text == "ref" {
		p.either("other reference type")
	}
	if tok.Kind != Keyword {
		p.bad("reference type expected")
	}
	switch {
	case tok.Text == "funcref" || tok.Text == "externref":
		x.Ref = tok.Text
	case strings.HasSuffix(tok.Text, "ref") && tok.Text != "anyfooref":
		p.either("other reference type")
	default:
		p.bad("reference type expected")
	}
	for {
		kw, ok := p.group()
		if !ok {
			break
		}
		if kw != "elem" {
			if x.HasLimits {
				p.either("initializer")
			}
			p.bad("elem expected")
		}
		if x.HasLimits {
			p.either("limits and elements")
		}
		p.enter()
		switch tok := p.peek(); tok.Kind {
		case ID:
			x.Elems = append(x.Elems, p.id())
			if tok := p.peek(); tok.Kind == ID || tok.Kind == Integer {
				p.either("several elements")
			}
		case Integer:
			p.u32()
			p.either("numeric element")
		case Open:
			p.either("element expression")
		case Close:
			p.either("no element")
		default:
			p.bad("element expected")
		}
		p.close()
	}
	p.close()
	if !x.HasLimits && len(x.Elems) == 0 {
		p.bad("limits expected")
	}
	return x
}

func (p *refParser) fn() *Func {
	f := &Func{ID: p.id()}
	stage := 0
	later := func(n int) {
		if n < stage {
			p.either("order")
		}
		stage = n
	}
	for {
		tok := p.peek()
		if tok.Kind == Close {
			p.next()
			return f
		}
		if tok.Kind == Keyword {
			later(5)
			f.Body = append(f.Body, p.plain())
			continue
		}
		kw, ok := p.group()
		if !ok {
			p.bad("instruction expected")
		}
		switch kw {
		case "export":
			later(0)
			p.enter()
			f.Exports = append(f.Exports, p.str())
			p.close()
		case "import":
			later(1)
			p.enter()
			f.Imports = append(f.Imports, [2]string{p.str(), p.str()})
			p.close()
		case "type":
			p.either("type use")
		case "param":
			later(2)
			f.Params = append(f.Params, p.param())
		case "result":
			later(3)
			f.Results = append(f.Results, p.result(false))
		case "local":
			later(4)
			p.enter()
			if p.id() != "" {
				p.valType()
				p.close()
				p.either("named local")
			}
			var ts []string
			for p.peek().Kind != Close {
				ts = append(ts, p.valType())
			}
			p.close()
			if len(ts) != 1 {
				p.either("number of locals")
			}
			f.Locals = append(f.Locals, ts[0])
		default:
			later(5)
			f.Body = append(f.Body, p.folded())
		}
	}
}

// foldedOnly reads instructions where the library only supports folded ones.
func (p *refParser) foldedOnly() (r []*Inst) {
	for {
		tok := p.peek()
		switch {
		case tok.Kind == Open:
			r = append(r, p.folded())
		case tok.Kind == Keyword && known(tok.Text):
			p.either("plain instruction")
		case tok.Kind == Close:
			return r
		default:
			p.bad("instruction expected")
		}
	}
}

func (p *refParser) plain() *Inst {
	tok := p.peek()
	switch tok.Text {
	case "block", "loop", "if":
		p.either("plain block")
	}
	return p.operator()
}

func (p *refParser) folded() *Inst {
	p.open()
	i := p.operator()
	switch i.Op {
	case "block", "loop", "if":
		p.close()
		return i
	}
	for p.peek().Kind == Open {
		i.Args = append(i.Args, p.folded())
	}
	p.close()
	return i
}

// operator reads an instruction and its immediates.
func (p *refParser) operator() *Inst {
	tok := p.next()
	if tok.Kind != Keyword {
		p.bad("instruction expected")
	}
	i := &Inst{Op: tok.Text}
	next := func() Tok { return p.peek() }
	switch {
	case simple[i.Op]:
		switch i.Op {
		case "select":
			if kw, ok := p.groupMaybe(); ok && kw == "result" {
				p.either("typed select")
			}
		case "memory.grow", "i32.load", "i32.store":
			tok := next()
			if tok.Kind == Integer || tok.Kind == ID || strings.HasPrefix(tok.Text, "offset=") || strings.HasPrefix(tok.Text, "align=") {
				p.either("memory immediate")
			}
		}
	case indexed[i.Op]:
		i.Index = p.index()
		if i.Op == "br_table" {
			if tok := next(); tok.Kind == Integer || tok.Kind == ID {
				p.either("several labels")
			}
		}
	case i.Op == "i32.const" || i.Op == "i64.const":
		tok := p.next()
		if tok.Kind != Integer {
			p.bad("integer expected")
		}
		v, ok := IntBits(tok.Text, uint(consts[i.Op]))
		if !ok {
			p.bad("integer out of range")
		}
		i.Bits = v
	case i.Op == "f32.const" || i.Op == "f64.const":
		tok := p.next()
		if tok.Kind != Integer && tok.Kind != Float {
			p.bad("float expected")
		}
		v, verdict := FloatBits(tok.Text, consts[i.Op])
		switch verdict {
		case Bad:
			p.bad("float out of range")
		case Either:
			p.either("nan pattern")
		}
		i.Bits = v
	case i.Op == "call_indirect":
		if tok := next(); tok.Kind == Integer || tok.Kind == ID {
			p.either("table of the call")
		}
		kw, ok := p.groupMaybe()
		if !ok || kw != "type" {
			p.either("type use")
		}
		p.enter()
		switch tok := p.next(); tok.Kind {
		case ID:
			i.Type = tok.Text
		case Integer:
			if _, ok := U32Value(tok.Text); !ok {
				p.bad("index out of range")
			}
			p.either("numeric type use")
		default:
			p.bad("type expected")
		}
		p.close()
		if kw, ok := p.groupMaybe(); ok && (kw == "param" || kw == "result") {
			p.either("type use")
		}
	case i.Op == "block" || i.Op == "loop":
		i.Label = p.id()
		p.blockType(i, true)
		i.Body = p.foldedOnly()
	case i.Op == "if":
		i.Label = p.id()
		p.blockType(i, false)
		for {
			kw, ok := p.group()
			if !ok {
				if tok := p.peek(); tok.Kind == Keyword && known(tok.Text) {
					p.either("plain instruction")
				}
				p.bad("then expected")
			}
			if kw == "then" {
				break
			}
			if kw == "else" {
				p.bad("else without then")
			}
			if kw == "result" {
				p.bad("result after the condition")
			}
			i.Clause = append(i.Clause, p.folded())
		}
		p.enter()
		i.Body = p.foldedOnly()
		p.close()
		if kw, ok := p.group(); ok {
			if kw != "else" {
				p.bad("else expected")
			}
			p.enter()
			i.HasElse, i.Else = true, p.foldedOnly()
			p.close()
		}
	case known(i.Op):
		p.either("other instruction")
	default:
		p.bad("unknown instruction")
	}
	return i
}

// groupMaybe is group without an opinion about what follows.
func (p *refParser) groupMaybe() (string, bool) {
	if p.peek().Kind != Open {
		return "", false
	}
	pos := p.pos
	p.next()
	tok := p.peek()
	p.pos = pos
	return tok.Text, tok.Kind == Keyword
}

func (p *refParser) blockType(i *Inst, many bool) {
	for {
		kw, ok := p.groupMaybe()
		if !ok {
			return
		}
		switch kw {
		case "result":
			i.Results = append(i.Results, p.result(many))
		case "param", "type":
			p.either("block type")
		default:
			return
		}
	}
}

func (p *refParser) index() *Index {
	tok := p.next()
	switch tok.Kind {
	case ID:
		return &Index{ID: tok.Text}
	case Integer:
		v, ok := U32Value(tok.Text)
		if !ok {
			p.bad("index out of range")
		}
		return &Index{Num: v}
	}
	p.bad("index expected")
	return nil
}

// known says whether a keyword may be an instruction of some version of the
// language. Words made up by the generator are not.
func known(kw string) bool {
	if simple[kw] || indexed[kw] || consts[kw] != 0 {
		return true
	}
	switch kw {
	case "block", "loop", "if", "else", "end", "call_indirect", "unreachable", "nop", "return_call", "return_call_indirect":
		return true
	}
	if strings.Contains(kw, "bogus") {
		return false
	}
	head, _, ok := strings.Cut(kw, ".")
	if !ok {
		return false
	}
	switch head {
	case "i32", "i64", "f32", "f64", "v128", "i8x16", "i16x8", "i32x4", "i64x2", "f32x4", "f64x2", "ref", "table", "elem", "memory", "data", "local", "global", "struct", "array", "i31", "any", "extern", "atomic":
		return true
	}
	return false
}
