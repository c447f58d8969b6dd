package wit

import (
	"fmt"
	"strings"

	"vharness/pbt"
)

// file is a parsed interface definition.
type file struct {
	pkg   *pkg
	items []*item
}

type pkg struct {
	ns, name string
	ver      *version
}

type version [3]uint64

// item is an interface, world or top-level use.
type item struct {
	kind  string // interface, world, use
	name  string
	decls []*decl
	path  *path
	as    string
}

// decl is an item of an interface, a world or a resource.
type decl struct {
	kind    string // func, use, type, record, flags, variant, enum, resource, import, export, include, method, static, constructor
	name    string
	fn      *fn
	ty      *ty     // type
	fields  []field // record, variant (optional type), flags and enum (no type)
	path    *path   // use, include, import and export of a path
	names   [][2]string
	with    bool    // include with names
	form    string  // import, export: func, interface, path
	methods []*decl // resource, or the items of an inline interface
}

type field struct {
	name string
	ty   *ty
}

type path struct {
	id  string
	pkg *pkg
}

type fn struct {
	params []field
	named  []field
	anon   *ty
}

type ty struct {
	kind string // a keyword, or "id"
	id   string
	args []*ty // nil entries stand for _
}

func (t *ty) String() string {
	if t == nil {
		return "_"
	}
	switch t.kind {
	case "id":
		return "id:" + bare(t.id)
	case "own", "borrow":
		return t.kind + "(" + bare(t.id) + ")"
	}
	if len(t.args) == 0 {
		return t.kind
	}
	var parts []string
	for _, a := range t.args {
		parts = append(parts, a.String())
	}
	return t.kind + "<" + strings.Join(parts, " ") + ">"
}

// bare drops the escape of an identifier: whether it is part of the name is
// left open.
func bare(id string) string {
	if keepEscapes {
		return id
	}
	return strings.TrimPrefix(id, "%")
}

var keepEscapes bool

// verbatim describes a file with the escapes of identifiers.
func (f *file) verbatim() string {
	keepEscapes = true
	defer func() { keepEscapes = false }()
	return f.String()
}

func fieldsString(fs []field) string {
	var sb strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&sb, "{%s %v}", bare(f.name), f.ty)
	}
	return sb.String()
}

func (f *fn) String() string {
	if f == nil {
		return "no function"
	}
	anon := "none"
	if f.anon != nil {
		anon = f.anon.String()
	}
	return fmt.Sprintf("params=%s named=%s result=%s", fieldsString(f.params), fieldsString(f.named), anon)
}

func (p *pkg) String() string {
	if p == nil {
		return "none"
	}
	s := bare(p.ns) + ":" + bare(p.name)
	if p.ver != nil {
		s += fmt.Sprintf("@%d.%d.%d", p.ver[0], p.ver[1], p.ver[2])
	}
	return s
}

func (p *path) String() string {
	if p == nil {
		return "no path"
	}
	if p.pkg == nil {
		return bare(p.id)
	}
	return p.pkg.String() + "/" + bare(p.id)
}

func (d *decl) write(sb *strings.Builder, depth int) {
	fmt.Fprintf(sb, "\n%s%s %s", strings.Repeat(" ", depth), d.kind, bare(d.name))
	switch d.kind {
	case "func", "method", "static", "constructor":
		fmt.Fprintf(sb, " %v", d.fn)
	case "type":
		fmt.Fprintf(sb, " = %v", d.ty)
	case "record", "variant", "flags", "enum":
		sb.WriteString(" " + fieldsString(d.fields))
	case "use", "include":
		fmt.Fprintf(sb, " %v", d.path)
		for _, n := range d.names {
			fmt.Fprintf(sb, " {%s as %q}", bare(n[0]), bare(n[1]))
		}
	case "resource":
		for _, m := range d.methods {
			m.write(sb, depth+1)
		}
	case "import", "export":
		sb.WriteString(" " + d.form)
		switch d.form {
		case "func":
			fmt.Fprintf(sb, " %v", d.fn)
		case "path":
			fmt.Fprintf(sb, " %v", d.path)
		default:
			for _, m := range d.methods {
				m.write(sb, depth+1)
			}
		}
	}
}

func (f *file) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %v", f.pkg)
	for _, i := range f.items {
		fmt.Fprintf(&sb, "\n %s %s", i.kind, bare(i.name))
		if i.kind == "use" {
			fmt.Fprintf(&sb, " %v as %q", i.path, bare(i.as))
		}
		for _, d := range i.decls {
			d.write(&sb, 2)
		}
	}
	return sb.String()
}

// ---- generator

func genID(t *pbt.T) string {
	switch t.Weighted(5, 3, 2, 1) {
	case 0:
		return pbt.OneOf(t, "a", "b", "foo", "bar", "x1", "my-type", "wasi", "io", "streams")
	case 1:
		var ws []string
		for i, n := 0, 1+t.Many(1, 3); i < n; i++ {
			w := pbt.OneOf(t, "a", "get", "useful", "types", "functor", "u88", "recorder", "X", "HTTP", "s6", "string2", "isa", "ass", "lists", "world0")
			ws = append(ws, w)
		}
		return strings.Join(ws, "-")
	case 2: // an escaped keyword or name
		return "%" + pbt.OneOf(t, pbt.Pick(t, keywordList), "a", "foo-bar")
	default: // keywords joined to others
		return pbt.Pick(t, keywordList) + "-" + pbt.Pick(t, keywordList)
	}
}

var primitives = strings.Fields("u8 u16 u32 u64 s8 s16 s32 s64 float32 float64 char bool string")

func genType(t *pbt.T, depth int) *ty {
	k := t.Weighted(5, 3, 2, 1, 1, 1, 1, 1, 1)
	if depth > 6 && k >= 2 {
		k = 0
	}
	sub := func() *ty { return genType(t, depth+1) }
	switch k {
	case 0:
		return &ty{kind: pbt.Pick(t, primitives)}
	case 1:
		return &ty{kind: "id", id: genID(t)}
	case 2:
		return &ty{kind: pbt.OneOf(t, "list", "option"), args: []*ty{sub()}}
	case 3:
		x := &ty{kind: "tuple"}
		for i, n := 0, 1+t.Many(1, 4); i < n; i++ {
			x.args = append(x.args, sub())
		}
		return x
	case 4, 5:
		x := &ty{kind: pbt.OneOf(t, "result", "stream")}
		switch t.Intn(4) {
		case 1:
			x.args = []*ty{sub()}
		case 2:
			x.args = []*ty{sub(), sub()}
		case 3:
			x.args = []*ty{nil, sub()}
		}
		return x
	case 6:
		x := &ty{kind: "future"}
		if t.Bool() {
			x.args = []*ty{sub()}
		}
		return x
	default:
		return &ty{kind: pbt.OneOf(t, "own", "borrow"), id: genID(t)}
	}
}

func genFields(t *pbt.T, min int, typed func() *ty) (fs []field) {
	for i, n := 0, min+t.Many(2, 5); i < n; i++ {
		fs = append(fs, field{genID(t), typed()})
	}
	return
}

func genFn(t *pbt.T) *fn {
	typed := func() *ty { return genType(t, 1) }
	f := &fn{params: genFields(t, 0, typed)}
	switch t.Intn(3) {
	case 1:
		f.anon = typed()
	case 2:
		f.named = genFields(t, 1, typed)
	}
	return f
}

func genVersion(t *pbt.T) *version {
	if !t.P(1, 2) {
		return nil
	}
	return &version{t.U64(), t.U64(), t.U64()}
}

func genPath(t *pbt.T) *path {
	p := &path{id: genID(t)}
	if t.P(1, 2) {
		p.pkg = &pkg{genID(t), genID(t), genVersion(t)}
	}
	return p
}

func genDecl(t *pbt.T, world bool) *decl {
	d := &decl{}
	typed := func() *ty { return genType(t, 1) }
	k := t.Weighted(4, 2, 2, 2, 1, 2, 1, 2)
	if world && k == 0 {
		k = 8 + t.Weighted(2, 2, 1)
	}
	switch k {
	case 0:
		d.kind, d.name, d.fn = "func", genID(t), genFn(t)
	case 1:
		d.kind, d.path = "use", genPath(t)
		for i, n := 0, 1+t.Many(1, 3); i < n; i++ {
			nm := [2]string{genID(t)}
			if t.P(1, 3) {
				nm[1] = genID(t)
			}
			d.names = append(d.names, nm)
		}
	case 2:
		d.kind, d.name, d.ty = "type", genID(t), genType(t, 0)
	case 3:
		d.kind, d.name, d.fields = "record", genID(t), genFields(t, 1, typed)
	case 4:
		d.kind, d.name = pbt.OneOf(t, "flags", "enum"), genID(t)
		d.fields = genFields(t, 1, func() *ty { return nil })
	case 5:
		d.kind, d.name = "variant", genID(t)
		d.fields = genFields(t, 1, func() *ty {
			if t.Bool() {
				return typed()
			}
			return nil
		})
	case 6:
		d.kind, d.name, d.ty = "type", genID(t), genType(t, 0)
	case 7:
		d.kind, d.name = "resource", genID(t)
		for i, n := 0, t.Many(2, 5); i < n; i++ {
			m := &decl{kind: pbt.OneOf(t, "method", "static", "constructor"), fn: genFn(t)}
			if m.kind == "constructor" {
				m.fn.named, m.fn.anon = nil, nil
			} else {
				m.name = genID(t)
			}
			d.methods = append(d.methods, m)
		}
	case 8, 9:
		d.kind = "import"
		if k == 9 {
			d.kind = "export"
		}
		switch t.Intn(3) {
		case 0:
			d.form, d.path = "path", genPath(t)
		case 1:
			d.form, d.name, d.fn = "func", genID(t), genFn(t)
		default:
			d.form, d.name = "interface", genID(t)
			for i, n := 0, t.Many(2, 4); i < n; i++ {
				d.methods = append(d.methods, genDecl(t, false))
			}
		}
	default:
		d.kind, d.path = "include", genPath(t)
		if t.Bool() {
			d.with = true
			for i, n := 0, 1+t.Many(1, 3); i < n; i++ {
				d.names = append(d.names, [2]string{genID(t), genID(t)})
			}
		}
	}
	return d
}

func genFile(t *pbt.T, avg int) *file {
	f := &file{}
	if t.P(2, 3) {
		f.pkg = &pkg{genID(t), genID(t), genVersion(t)}
	}
	for i, n := 0, t.Many(avg, 6); i < n; i++ {
		x := &item{kind: pbt.OneOf(t, "interface", "world", "use")}
		if x.kind == "use" {
			x.path = genPath(t)
			if t.Bool() {
				x.as = genID(t)
			}
		} else {
			x.name = genID(t)
			for j, m := 0, t.Many(3, 8); j < m; j++ {
				x.decls = append(x.decls, genDecl(t, x.kind == "world"))
			}
		}
		f.items = append(f.items, x)
	}
	return f
}

// ---- printer

type printer struct {
	t     *pbt.T
	toks  []string
	zeros bool // in front of the numbers of a version
}

func (p *printer) put(s ...string) { p.toks = append(p.toks, s...) }

// list puts items with commas between and, sometimes, one at the end.
func (p *printer) list(open, close string, n int, f func(i int)) {
	p.put(open)
	for i := 0; i < n; i++ {
		f(i)
		if i+1 < n || p.t.P(1, 4) {
			p.put(",")
		}
	}
	p.put(close)
}

func (p *printer) ty(x *ty) {
	switch {
	case x == nil:
		p.put("_")
	case x.kind == "id":
		p.put(x.id)
	case x.kind == "own" || x.kind == "borrow":
		p.put(x.kind, "<", x.id, ">")
	case x.kind == "tuple":
		p.put("tuple")
		p.list("<", ">", len(x.args), func(i int) { p.ty(x.args[i]) })
	default:
		p.put(x.kind)
		if len(x.args) > 0 {
			p.put("<")
			for i, a := range x.args {
				if i > 0 {
					p.put(",")
				}
				p.ty(a)
			}
			p.put(">")
		}
	}
}

func (p *printer) fields(fs []field) {
	p.list("(", ")", len(fs), func(i int) {
		p.put(fs[i].name, ":")
		p.ty(fs[i].ty)
	})
}

func (p *printer) fn(f *fn) {
	p.put("func")
	p.fields(f.params)
	if f.anon != nil {
		p.put("->")
		p.ty(f.anon)
	} else if len(f.named) > 0 {
		p.put("->")
		p.fields(f.named)
	}
}

func (p *printer) pkg(x *pkg) { p.put(x.ns, ":", x.name) }

func (p *printer) version(v *version) {
	if v != nil {
		var parts [3]string
		for i, n := range v {
			if p.zeros {
				parts[i] = strings.Repeat("0", p.t.Many(1, 6))
			}
			parts[i] += fmt.Sprint(n)
		}
		p.put("@", parts[0], ".", parts[1], ".", parts[2])
	}
}

func (p *printer) path(x *path) {
	if x.pkg == nil {
		p.put(x.id)
		return
	}
	p.pkg(x.pkg)
	p.put("/", x.id)
	p.version(x.pkg.ver)
}

func (p *printer) decls(ds []*decl) {
	p.put("{")
	for _, d := range ds {
		p.decl(d)
	}
	p.put("}")
}

func (p *printer) decl(d *decl) {
	switch d.kind {
	case "func", "method":
		p.put(d.name, ":")
		p.fn(d.fn)
		p.put(";")
	case "static":
		p.put(d.name, ":", "static")
		p.fn(d.fn)
		p.put(";")
	case "constructor":
		p.put("constructor")
		p.fields(d.fn.params)
		p.put(";")
	case "use":
		p.put("use")
		p.path(d.path)
		p.put(".")
		p.list("{", "}", len(d.names), func(i int) {
			p.put(d.names[i][0])
			if d.names[i][1] != "" {
				p.put("as", d.names[i][1])
			}
		})
		p.put(";")
	case "type":
		p.put("type", d.name, "=")
		p.ty(d.ty)
		p.put(";")
	case "record":
		p.put("record", d.name)
		p.list("{", "}", len(d.fields), func(i int) {
			p.put(d.fields[i].name, ":")
			p.ty(d.fields[i].ty)
		})
	case "flags", "enum", "variant":
		p.put(d.kind, d.name)
		p.list("{", "}", len(d.fields), func(i int) {
			p.put(d.fields[i].name)
			if d.fields[i].ty != nil {
				p.put("(")
				p.ty(d.fields[i].ty)
				p.put(")")
			}
		})
	case "resource":
		p.put("resource", d.name)
		if len(d.methods) == 0 && p.t.Bool() {
			p.put(";")
		} else {
			p.decls(d.methods)
		}
	case "import", "export":
		p.put(d.kind)
		switch d.form {
		case "path":
			p.path(d.path)
			p.put(";")
		case "func":
			p.put(d.name, ":")
			p.fn(d.fn)
			p.put(";")
		default:
			p.put(d.name, ":", "interface")
			p.decls(d.methods)
		}
	case "include":
		p.put("include")
		p.path(d.path)
		if d.with {
			p.put("with")
			p.list("{", "}", len(d.names), func(i int) { p.put(d.names[i][0], "as", d.names[i][1]) })
		} else {
			p.put(";")
		}
	}
}

func (p *printer) file(f *file) {
	if f.pkg != nil {
		p.put("package")
		p.pkg(f.pkg)
		p.version(f.pkg.ver)
		p.put(";")
	}
	for _, i := range f.items {
		p.put(i.kind)
		if i.kind == "use" {
			p.path(i.path)
			if i.as != "" {
				p.put("as", i.as)
			}
			p.put(";")
			continue
		}
		p.put(i.name)
		p.decls(i.decls)
	}
}

// layout joins tokens with drawn white space and comments.
func layout(t *pbt.T, toks []string) string {
	style := t.Weighted(3, 3, 2, 1)
	var sb strings.Builder
	if t.P(1, 4000) { // far down or far to the right
		sb.WriteString(strings.Repeat(pbt.OneOf(t, "\n", " ", "\r\n"), pbt.OneOf(t, 255, 65536, 70001)))
	}
	prev := ""
	for i, k := range toks {
		need := i > 0 && wordy(prev[len(prev)-1]) && (wordy(k[0]) || k[0] == '-')
		switch style {
		case 0:
			if i > 0 {
				sb.WriteByte(' ')
			}
		case 1:
			if need {
				sb.WriteByte(' ')
			}
		case 2:
			if need || t.P(1, 3) {
				g := gap(t)
				if strings.HasSuffix(prev, "/") && g[0] == '/' {
					g = " " + g
				}
				sb.WriteString(g)
			}
		default:
			if i > 0 {
				sb.WriteString(pbt.OneOf(t, "\n", "\r\n", "\n\n"))
			}
		}
		sb.WriteString(k)
		prev = k
	}
	if style == 2 && t.Bool() {
		sb.WriteString(gap(t))
		if t.P(1, 4) {
			sb.WriteString("// the end")
		}
	}
	return sb.String()
}

func wordy(c byte) bool { return isWord(c) || c == '_' || c == '%' || c >= 0x80 }

func gap(t *pbt.T) string {
	var sb strings.Builder
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		switch t.Weighted(4, 2, 2) {
		case 0:
			sb.WriteString(pbt.OneOf(t, " ", "\n", "\t", "\r\n", "   ", "\n\n\t"))
		case 1:
			sb.WriteString("//" + commentText(t, false) + "\n")
		default:
			sb.WriteString(blockComment(t, 0))
		}
	}
	return sb.String()
}

// anyText draws printable text.
func anyText(t *pbt.T) string {
	var sb strings.Builder
	for i, n := 0, t.Many(4, 40); i < n; i++ {
		if t.P(1, 8) {
			sb.WriteString(pbt.OneOf(t, "\t", "é", "\u00a0", "\u0a0d", "\u2028", "\ufeff", "\U0001f600"))
		} else {
			sb.WriteByte(byte(t.Range(0x20, 0x7e)))
		}
	}
	return sb.String()
}

func commentText(t *pbt.T, nested bool) string {
	var s string
	if t.P(1, 3) {
		s = anyText(t)
	} else {
		s = pbt.OneOf(t, "", " note ", "é", "\"", "/", "///", "*", "**", "{", "}", "; x: u8", "%", "\\", "\U0001f600", "_")
	}
	if !nested {
		return s + pbt.OneOf(t, "", "/*", "*/", "/* x */", "\r")
	}
	s += pbt.OneOf(t, "", "\n", "// x\n", "\n\n", " ")
	for strings.Contains(s, "/*") || strings.Contains(s, "*/") {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "/*", "/ *"), "*/", "* /")
	}
	if strings.HasSuffix(s, "*") || strings.HasSuffix(s, "/") {
		s += " "
	}
	if strings.HasPrefix(s, "*") || strings.HasPrefix(s, "/") {
		s = " " + s
	}
	return s
}

func blockComment(t *pbt.T, depth int) string {
	s := "/*" + commentText(t, true)
	for depth < 5 && t.P(1, 3) {
		s += blockComment(t, depth+1) + commentText(t, true)
	}
	s += "*/"
	if depth == 0 && t.P(1, 20) {
		n := t.Many(3, 12)
		s = strings.Repeat("/*", n) + s + strings.Repeat("*/", n)
	}
	return s
}
