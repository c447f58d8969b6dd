package wat

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/patrickhuber/go-wasm/wat/ast"
)

// FromAST turns the tree of the library into the model. It fails on anything
// it does not know.
func FromAST(d ast.Directive) (m *Module, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(astError); ok {
				m, err = nil, e
				return
			}
			panic(r)
		}
	}()
	mod, ok := d.(*ast.Module)
	if !ok || mod == nil {
		return nil, fmt.Errorf("the result is a %T", d)
	}
	m = &Module{}
	for _, f := range mod.Functions {
		g := &Func{ID: optString(f.ID), Params: fromParams(f.Parameters), Results: fromResults(f.Results), Body: fromInsts(f.Instructions)}
		for _, e := range f.Exports {
			g.Exports = append(g.Exports, e.Name)
		}
		for _, i := range f.Imports {
			g.Imports = append(g.Imports, [2]string{i.Module, i.Field})
		}
		for _, l := range f.Locals {
			g.Locals = append(g.Locals, fromType(l.Type))
		}
		m.Funcs = append(m.Funcs, g)
	}
	for _, x := range mod.Types {
		m.Types = append(m.Types, &Type{ID: optString(x.ID), Params: fromParams(x.FuncType.Parameters), Results: fromResults(x.FuncType.Results)})
	}
	for _, x := range mod.Tables {
		g := &Table{ID: optString(x.ID), Limits: fromLimits(x.TableType.Limits)}
		switch x.TableType.RefType.(type) {
		case ast.FuncRef, *ast.FuncRef:
			g.Ref = "funcref"
		case ast.ExternRef, *ast.ExternRef:
			g.Ref = "externref"
		default:
			panic(astError(fmt.Sprintf("reference type %T", x.TableType.RefType)))
		}
		for _, e := range x.Elements {
			g.Elems = append(g.Elems, e.ID)
		}
		m.Tables = append(m.Tables, g)
	}
	for _, x := range mod.Globals {
		m.Globals = append(m.Globals, &Global{ID: optString(x.ID), Mutable: x.Type.Mutable, Type: fromType(x.Type.Type), Init: fromInsts(x.Instructions)})
	}
	for _, x := range mod.Memory {
		m.Mems = append(m.Mems, &Mem{ID: optString(x.ID), Limits: fromLimits(x.Limits)})
	}
	return m, nil
}

type astError string

func (e astError) Error() string { return string(e) }

// opt is what is needed of the optional values of the library.
type opt[E any] interface{ Deconstruct() (E, bool) }

func optString(o opt[string]) string {
	if o == nil {
		return ""
	}
	s, ok := o.Deconstruct()
	if !ok {
		return ""
	}
	if s == "" {
		return "<empty>"
	}
	return s
}

func fromLimits(l ast.Limits) Limits {
	r := Limits{Min: l.Min}
	if l.Max != nil {
		r.Max, r.HasMax = l.Max.Deconstruct()
		if !r.HasMax {
			r.Max = 0
		}
	}
	return r
}

func fromParams(ps []ast.Parameter) (r []Param) {
	for _, p := range ps {
		q := Param{ID: optString(p.ID)}
		for _, t := range p.Types {
			q.Types = append(q.Types, fromType(t))
		}
		r = append(r, q)
	}
	return
}

func fromResults(rs []ast.Result) (out [][]string) {
	for _, r := range rs {
		var ts []string
		for _, t := range r.Types {
			ts = append(ts, fromType(t))
		}
		out = append(out, ts)
	}
	return
}

func fromType(t ast.ValType) string {
	switch t.(type) {
	case ast.I32, *ast.I32:
		return "i32"
	case ast.I64, *ast.I64:
		return "i64"
	case ast.F32, *ast.F32:
		return "f32"
	case ast.F64, *ast.F64:
		return "f64"
	}
	panic(astError(fmt.Sprintf("value type %T", t)))
}

func fromIndex(i ast.Index) *Index {
	switch i := i.(type) {
	case ast.IDIndex:
		return &Index{ID: i.ID}
	case *ast.IDIndex:
		return &Index{ID: i.ID}
	case ast.RawIndex:
		return &Index{Num: i.Index}
	case *ast.RawIndex:
		return &Index{Num: i.Index}
	}
	panic(astError(fmt.Sprintf("index %T", i)))
}

// goName gives the name of the type that stands for an instruction: i32.rem_s
// becomes I32RemS.
func goName(op string) string {
	var sb strings.Builder
	for _, p := range strings.FieldsFunc(op, func(r rune) bool { return r == '.' || r == '_' }) {
		sb.WriteString(strings.ToUpper(p[:1]) + p[1:])
	}
	return sb.String()
}

var byGoName = func() map[string]string {
	m := map[string]string{}
	for _, op := range append(append([]string{}, Simple...), Indexed...) {
		m[goName(op)] = op
	}
	return m
}()

func fromInsts(is []ast.Instruction) (r []*Inst) {
	for _, i := range is {
		r = append(r, fromInst(i))
	}
	return
}

func fromInst(i ast.Instruction) *Inst {
	if i == nil {
		panic(astError("an instruction is missing"))
	}
	if v := reflect.ValueOf(i); v.Kind() == reflect.Pointer {
		if v.IsNil() {
			panic(astError("an instruction is missing"))
		}
		if x, ok := v.Elem().Interface().(ast.Instruction); ok {
			i = x
		}
	}
	switch x := i.(type) {
	case ast.Folded:
		r := fromInst(x.Instruction)
		if len(x.Parameters) == 0 {
			panic(astError("folded instruction without operands"))
		}
		if len(r.Args) > 0 {
			panic(astError("folded twice"))
		}
		r.Args = fromInsts(x.Parameters)
		return r
	case ast.I32Const:
		return &Inst{Op: "i32.const", Bits: uint64(uint32(x.Value))}
	case ast.I64Const:
		return &Inst{Op: "i64.const", Bits: uint64(x.Value)}
	case ast.F32Const:
		return &Inst{Op: "f32.const", Bits: uint64(math.Float32bits(x.Value))}
	case ast.F64Const:
		return &Inst{Op: "f64.const", Bits: math.Float64bits(x.Value)}
	case ast.Block:
		return &Inst{Op: "block", Label: optString(x.Name), Results: fromResults(x.BlockType.Results), Body: fromInsts(x.Instructions)}
	case ast.Loop:
		return &Inst{Op: "loop", Label: optString(x.Name), Results: fromResults(x.BlockType.Results), Body: fromInsts(x.Instructions)}
	case ast.If:
		r := &Inst{Op: "if", Label: optString(x.Name), Results: fromResults(x.BlockType.Results), Clause: fromInsts(x.Clause), Body: fromInsts(x.Then.Instructions)}
		if x.Else != nil {
			if e, ok := x.Else.Deconstruct(); ok {
				r.HasElse, r.Else = true, fromInsts(e.Instructions)
			}
		}
		return r
	case ast.CallIndirect:
		return &Inst{Op: "call_indirect", Type: x.Type.Index}
	case ast.BrTable:
		if len(x.Indicies) != 1 {
			panic(astError(fmt.Sprintf("br_table with %d indices", len(x.Indicies))))
		}
		return &Inst{Op: "br_table", Index: fromIndex(x.Indicies[0])}
	}
	v := reflect.ValueOf(i)
	op, ok := byGoName[v.Type().Name()]
	if !ok {
		panic(astError(fmt.Sprintf("instruction %T", i)))
	}
	r := &Inst{Op: op}
	if indexed[op] {
		r.Index = fromIndex(v.FieldByName("Index").Interface().(ast.Index))
	}
	return r
}
