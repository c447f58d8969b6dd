package wit

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/patrickhuber/go-wasm/wit/ast"
)

type astError string

func (e astError) Error() string { return string(e) }

func fail(format string, a ...any) { panic(astError(fmt.Sprintf(format, a...))) }

// opt is what is needed of the optional values of the library.
type opt[E any] interface{ Deconstruct() (E, bool) }

func get[E any](o opt[E]) (e E, ok bool) {
	if o == nil {
		return e, false
	}
	return o.Deconstruct()
}

// fromAST turns the tree of the library into the model.
func fromAST(a *ast.Ast) (f *file, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(astError); ok {
				f, err = nil, e
				return
			}
			panic(r)
		}
	}()
	f = &file{}
	if p, ok := get[ast.PackageDeclaration](a.PackageDeclaration); ok {
		f.pkg = fromPkg(&p)
	}
	for _, i := range a.Items {
		x := &item{}
		n := 0
		if i.Interface != nil {
			n++
			x.kind, x.name = "interface", i.Interface.Name
			for _, d := range i.Interface.Items {
				x.decls = append(x.decls, fromDecl(d))
			}
		}
		if i.World != nil {
			n++
			x.kind, x.name = "world", i.World.Id
			for _, d := range i.World.Items {
				x.decls = append(x.decls, fromDecl(d))
			}
		}
		if i.Use != nil {
			n++
			x.kind, x.path = "use", fromPath(i.Use.Item)
			x.as, _ = get[string](i.Use.As)
		}
		if n != 1 {
			fail("an item is %d things at once", n)
		}
		f.items = append(f.items, x)
	}
	return f, nil
}

func fromPkg(p *ast.PackageDeclaration) *pkg {
	r := &pkg{ns: p.Namespace, name: p.Name}
	if v, ok := get[ast.Version](p.Version); ok {
		if v.Pre != "" || v.Build != "" {
			fail("version with pre-release or build")
		}
		r.ver = &version{v.Major, v.Minor, v.Patch}
	}
	return r
}

func fromPath(p *ast.UsePath) *path {
	if p == nil {
		fail("a path is missing")
	}
	if p.Package.Id == nil {
		if p.Package.Name != "" {
			fail("path with a name but no package")
		}
		return &path{id: p.Id}
	}
	if p.Id != "" && p.Id != p.Package.Name {
		fail("path with an identifier %q and a package", p.Id)
	}
	return &path{id: p.Package.Name, pkg: fromPkg(p.Package.Id)}
}

func deref(x any) any {
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			fail("a part is missing (%T)", x)
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		fail("a part is missing")
	}
	return v.Interface()
}

func fromDecl(x any) *decl {
	switch d := deref(x).(type) {
	case ast.FuncItem:
		return &decl{kind: "func", name: d.ID, fn: fromFn(d.FuncType)}
	case ast.Use:
		r := &decl{kind: "use", path: fromPath(d.From)}
		for _, n := range d.Names {
			as, _ := get[string](n.As)
			r.names = append(r.names, [2]string{n.Name, as})
		}
		return r
	case ast.TypeItem:
		return &decl{kind: "type", name: d.ID, ty: fromType(d.Type)}
	case ast.Record:
		r := &decl{kind: "record", name: d.ID}
		for _, f := range d.Fields {
			r.fields = append(r.fields, field{f.Name, fromType(f.Type)})
		}
		return r
	case ast.Flags:
		r := &decl{kind: "flags", name: d.ID}
		for _, f := range d.Flags {
			r.fields = append(r.fields, field{name: f.Id})
		}
		return r
	case ast.Enum:
		r := &decl{kind: "enum", name: d.ID}
		for _, f := range d.Cases {
			r.fields = append(r.fields, field{name: f.Name})
		}
		return r
	case ast.Variant:
		r := &decl{kind: "variant", name: d.ID}
		for _, f := range d.Cases {
			c := field{name: f.Name}
			if ty, ok := get[ast.Type](f.Type); ok {
				c.ty = fromType(ty)
			}
			r.fields = append(r.fields, c)
		}
		return r
	case ast.Resource:
		r := &decl{kind: "resource", name: d.ID}
		for _, m := range d.Methods {
			r.methods = append(r.methods, fromMethod(m))
		}
		return r
	case ast.Import:
		return fromExtern("import", d.ExternType)
	case ast.Export:
		return fromExtern("export", d.ExternType)
	case ast.Include:
		r := &decl{kind: "include", path: fromPath(d.From)}
		for _, n := range d.Names {
			r.names = append(r.names, [2]string{n.Name, n.As})
		}
		return r
	default:
		fail("item of type %T", x)
	}
	return nil
}

func fromMethod(x any) *decl {
	switch m := deref(x).(type) {
	case ast.Constructor:
		return &decl{kind: "constructor", fn: &fn{params: fromParams(m.ParameterList)}}
	case ast.Static:
		return &decl{kind: "static", name: m.ID, fn: fromFn(m.FuncType)}
	case ast.Method:
		if m.Func == nil {
			fail("a method without function")
		}
		if m.ID != "" && m.ID != m.Func.ID {
			fail("a method with two names")
		}
		return &decl{kind: "method", name: m.Func.ID, fn: fromFn(m.Func.FuncType)}
	default:
		fail("method of type %T", x)
	}
	return nil
}

func fromExtern(kind string, x any) *decl {
	switch e := deref(x).(type) {
	case ast.ExternTypeFunc:
		return &decl{kind: kind, form: "func", name: e.ID, fn: fromFn(e.Func)}
	case ast.ExternTypeInterface:
		r := &decl{kind: kind, form: "interface", name: e.ID}
		for _, d := range e.InterfaceItems {
			r.methods = append(r.methods, fromDecl(d))
		}
		return r
	case ast.ExternTypeUsePath:
		return &decl{kind: kind, form: "path", path: fromPath(e.UsePath)}
	default:
		fail("extern type %T", x)
	}
	return nil
}

func fromParams(ps []ast.Parameter) (fs []field) {
	for _, p := range ps {
		fs = append(fs, field{p.Id, fromType(p.Type)})
	}
	return
}

func fromFn(f *ast.FuncType) *fn {
	if f == nil {
		fail("a function type is missing")
	}
	r := &fn{params: fromParams(f.Params)}
	if f.Results != nil {
		r.named = fromParams(f.Results.Named)
		if f.Results.Anonymous != nil {
			r.anon = fromType(f.Results.Anonymous)
		}
	}
	return r
}

func fromType(x ast.Type) *ty {
	if x == nil {
		fail("a type is missing")
	}
	two := func(kind string, a, b opt[ast.Type]) *ty {
		r := &ty{kind: kind}
		first, ok1 := get[ast.Type](a)
		second, ok2 := get[ast.Type](b)
		if ok1 {
			r.args = []*ty{fromType(first)}
		} else if ok2 {
			r.args = []*ty{nil}
		}
		if ok2 {
			r.args = append(r.args, fromType(second))
		}
		return r
	}
	switch t := deref(x).(type) {
	case ast.Tuple:
		r := &ty{kind: "tuple"}
		for _, e := range t.Types {
			r.args = append(r.args, fromType(e))
		}
		return r
	case ast.List:
		return &ty{kind: "list", args: []*ty{fromType(t.ItemType)}}
	case ast.Option:
		return &ty{kind: "option", args: []*ty{fromType(t.ItemType)}}
	case ast.Result:
		return two("result", t.Ok, t.Error)
	case ast.Stream:
		return two("stream", t.Element, t.End)
	case ast.Future:
		return two("future", t.ItemType, nil)
	case ast.Own:
		return &ty{kind: "own", id: t.Id}
	case ast.Borrow:
		return &ty{kind: "borrow", id: t.Id}
	case ast.Id:
		return &ty{kind: "id", id: t.Value}
	default:
		name := strings.ToLower(reflect.TypeOf(t).Name())
		if !primitive[name] {
			fail("type %T", x)
		}
		return &ty{kind: name}
	}
}
