package wit

import "math/big"

// outcome is what the reference parser stops with.
type outcome struct {
	v   verdict
	why string
}

type refParser struct {
	src string
	pos int
	lax string // why the text may also be rejected
}

// parseRef is the reference parser. With bad the text must be rejected; with
// either it is legal in some version of the language but outside of the
// supported subset, or its status is not settled.
func parseRef(src string) (f *file, v verdict, why string) {
	defer func() {
		if r := recover(); r != nil {
			o, ok := r.(outcome)
			if !ok {
				panic(r)
			}
			f, v, why = nil, o.v, o.why
		}
	}()
	p := &refParser{src: src}
	f = p.file()
	if p.lax != "" {
		return f, either, p.lax
	}
	return f, good, ""
}

func (p *refParser) bad(why string)    { panic(outcome{bad, why}) }
func (p *refParser) either(why string) { panic(outcome{either, why}) }

func (p *refParser) next() tok {
	for {
		k, v := lexOne(p.src, p.pos)
		switch v {
		case bad:
			p.bad("no token")
		case either:
			p.either("unsettled token")
		}
		p.pos += len(k.text)
		if k.kind != space && k.kind != line && k.kind != block {
			return k
		}
	}
}

func (p *refParser) peek() string {
	pos := p.pos
	k := p.next()
	p.pos = pos
	return k.kind
}

func (p *refParser) eat(kind string) bool {
	if p.peek() != kind {
		return false
	}
	p.next()
	return true
}

func (p *refParser) expect(kind string) {
	if k := p.next(); k.kind != kind {
		p.bad(kind + " expected instead of " + k.text)
	}
}

func (p *refParser) id() string {
	k := p.next()
	if k.kind != ident && k.kind != escaped {
		p.bad("name expected instead of " + k.text)
	}
	return k.text
}

func (p *refParser) version() *version {
	if !p.eat("@") {
		return nil
	}
	var v version
	for i := range v {
		if i > 0 {
			p.expect(".")
		}
		k := p.next()
		if k.kind != number {
			p.bad("number expected")
		}
		if len(k.text) > 1 && k.text[0] == '0' {
			p.lax = "leading zero"
		}
		n, _ := new(big.Int).SetString(k.text, 10)
		if !n.IsUint64() {
			p.bad("number out of range")
		}
		v[i] = n.Uint64()
	}
	if k := p.peek(); k == "-" || k == "+" || k == ident || k == number {
		p.either("pre-release or build")
	}
	return &v
}

func (p *refParser) file() *file {
	f := &file{}
	if p.eat("package") {
		f.pkg = &pkg{ns: p.id()}
		p.expect(":")
		f.pkg.name = p.id()
		if k := p.peek(); k == ":" || k == "/" {
			p.either("nested name")
		}
		f.pkg.ver = p.version()
		if p.peek() == "{" {
			p.either("nested package")
		}
		p.expect(";")
	}
	for {
		k := p.next()
		x := &item{kind: k.kind}
		switch k.kind {
		case eof:
			return f
		case "use":
			x.path = p.path()
			if p.eat("as") {
				x.as = p.id()
			}
			p.expect(";")
		case "interface":
			x.name = p.id()
			x.decls = p.interfaceItems()
		case "world":
			x.name = p.id()
			p.expect("{")
			for !p.eat("}") {
				x.decls = append(x.decls, p.worldItem())
			}
		case "package":
			p.id()
			p.expect(":")
			p.id()
			if k := p.peek(); k == ":" || k == "/" {
				p.either("nested name")
			}
			p.version()
			if p.peek() == "{" {
				p.either("nested package")
			}
			p.bad("another package")
		case "@":
			p.either("annotation")
		default:
			p.bad("item expected instead of " + k.text)
		}
		f.items = append(f.items, x)
	}
}

func (p *refParser) path() *path {
	id := p.id()
	if !p.eat(":") {
		if p.peek() == "/" {
			p.either("path without namespace")
		}
		return &path{id: id}
	}
	x := &path{pkg: &pkg{ns: id, name: p.id()}}
	if p.peek() == ":" {
		p.either("nested namespace")
	}
	p.expect("/")
	x.id = p.id()
	if p.peek() == "/" {
		p.either("nested path")
	}
	x.pkg.ver = p.version()
	return x
}

func (p *refParser) interfaceItems() (ds []*decl) {
	p.expect("{")
	for !p.eat("}") {
		ds = append(ds, p.interfaceItem())
	}
	return
}

func (p *refParser) interfaceItem() *decl {
	if d := p.shared(); d != nil {
		return d
	}
	d := &decl{kind: "func", name: p.id()}
	p.expect(":")
	d.fn = p.fn()
	p.expect(";")
	return d
}

// shared reads the items interfaces and worlds have in common.
func (p *refParser) shared() *decl {
	d := &decl{kind: p.peek()}
	switch d.kind {
	case "@":
		p.either("annotation")
	case "union":
		p.either("union")
	case "use":
		p.next()
		d.path = p.path()
		p.expect(".")
		p.list("{", "}", func() {
			n := [2]string{p.id()}
			if p.eat("as") {
				n[1] = p.id()
			}
			d.names = append(d.names, n)
		})
		p.expect(";")
	case "type":
		p.next()
		d.name = p.id()
		p.expect("=")
		d.ty = p.ty()
		p.expect(";")
	case "record":
		p.next()
		d.name = p.id()
		p.list("{", "}", func() { d.fields = append(d.fields, p.field()) })
	case "flags", "enum":
		p.next()
		d.name = p.id()
		p.list("{", "}", func() { d.fields = append(d.fields, field{name: p.id()}) })
	case "variant":
		p.next()
		d.name = p.id()
		p.list("{", "}", func() {
			f := field{name: p.id()}
			if p.eat("(") {
				f.ty = p.ty()
				p.expect(")")
			}
			d.fields = append(d.fields, f)
		})
	case "resource":
		p.next()
		d.name = p.id()
		if p.eat(";") {
			break
		}
		p.expect("{")
		for !p.eat("}") {
			d.methods = append(d.methods, p.method())
		}
	default:
		return nil
	}
	return d
}

func (p *refParser) method() *decl {
	if p.peek() == "@" {
		p.either("annotation")
	}
	if p.eat("constructor") {
		d := &decl{kind: "constructor", fn: &fn{params: p.params()}}
		if p.peek() == "->" {
			p.either("result of a constructor")
		}
		p.expect(";")
		return d
	}
	d := &decl{kind: "method", name: p.id()}
	p.expect(":")
	if p.eat("static") {
		d.kind = "static"
	}
	d.fn = p.fn()
	p.expect(";")
	return d
}

func (p *refParser) worldItem() *decl {
	if d := p.shared(); d != nil {
		return d
	}
	k := p.next()
	d := &decl{kind: k.kind}
	switch k.kind {
	case "import", "export":
		pos := p.pos
		id := p.id()
		if p.eat(":") {
			switch p.peek() {
			case "func":
				d.form, d.name, d.fn = "func", id, p.fn()
				p.expect(";")
				return d
			case "interface":
				p.next()
				d.form, d.name, d.methods = "interface", id, p.interfaceItems()
				return d
			case ident:
				name := p.id()
				if name == "async" && p.peek() == "func" {
					p.either("async function")
				}
				if k := p.peek(); k == ";" || k == ":" {
					p.either("named path")
				}
			}
		}
		p.pos = pos
		d.form, d.path = "path", p.path()
		p.expect(";")
	case "include":
		d.path = p.path()
		if !p.eat("with") {
			p.expect(";")
			break
		}
		d.with = true
		p.list("{", "}", func() {
			n := [2]string{p.id()}
			p.expect("as")
			n[1] = p.id()
			d.names = append(d.names, n)
		})
		if p.peek() == ";" {
			p.either("semicolon after names")
		}
	default:
		p.bad("item of a world expected instead of " + k.text)
	}
	return d
}

// list reads items separated by commas; an empty list is not in the grammar
// but the library may take it.
func (p *refParser) list(open, close string, f func()) {
	p.expect(open)
	if p.peek() == close {
		p.either("empty list")
	}
	for {
		f()
		if !p.eat(",") {
			p.expect(close)
			return
		}
		if p.eat(close) {
			return
		}
	}
}

func (p *refParser) field() field {
	f := field{name: p.id()}
	p.expect(":")
	f.ty = p.ty()
	return f
}

func (p *refParser) params() (fs []field) {
	p.expect("(")
	for !p.eat(")") {
		fs = append(fs, p.field())
		if !p.eat(",") {
			p.expect(")")
			return
		}
	}
	return
}

func (p *refParser) fn() *fn {
	k := p.next()
	if k.kind == ident && k.text == "async" && p.peek() == "func" {
		p.either("async function")
	}
	if k.kind != "func" {
		p.bad("func expected instead of " + k.text)
	}
	f := &fn{params: p.params()}
	if p.eat("->") {
		if p.peek() == "(" {
			f.named = p.params()
			if len(f.named) == 0 {
				p.either("no named result")
			}
		} else {
			f.anon = p.ty()
		}
	}
	return f
}

var primitive = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range primitives {
		m[k] = true
	}
	return m
}()

func (p *refParser) ty() *ty {
	k := p.next()
	x := &ty{kind: k.kind}
	switch {
	case primitive[k.kind]:
	case k.kind == ident || k.kind == escaped:
		if k.text == "map" && p.peek() == "<" {
			p.either("map")
		}
		x.kind, x.id = "id", k.text
	case k.kind == "list" || k.kind == "option":
		p.expect("<")
		x.args = []*ty{p.ty()}
		if k.kind == "list" && p.peek() == "," {
			p.either("list of fixed length")
		}
		p.expect(">")
	case k.kind == "tuple":
		p.list("<", ">", func() { x.args = append(x.args, p.ty()) })
	case k.kind == "own" || k.kind == "borrow":
		p.expect("<")
		x.id = p.id()
		p.expect(">")
	case k.kind == "future":
		if p.eat("<") {
			if p.peek() == "_" {
				p.either("future of nothing")
			}
			x.args = []*ty{p.ty()}
			p.expect(">")
		}
	case k.kind == "result" || k.kind == "stream":
		if p.eat("<") {
			if p.eat("_") {
				if p.peek() == ">" {
					p.either("nothing only")
				}
				p.expect(",")
				x.args = []*ty{nil, p.ty()}
			} else {
				x.args = []*ty{p.ty()}
				if p.eat(",") {
					if p.peek() == "_" {
						p.either("nothing second")
					}
					x.args = append(x.args, p.ty())
				}
			}
			p.expect(">")
		}
	default:
		p.bad("type expected instead of " + k.text)
	}
	return x
}
