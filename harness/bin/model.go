// Package bin holds the laws of the binary format.
package bin

import (
	"fmt"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/api"
)

// The model of a module in the supported subset.
type (
	FuncT struct{ Params, Results []byte } // value type codes
	Inst  struct {
		Op  byte
		Arg uint32
	}
	Func struct {
		Type   uint32
		Locals []byte
		Body   []Inst // including the final end
	}
	Export struct {
		Name string
		Func uint32
	}
	Module struct {
		Types   []FuncT
		Funcs   []Func
		Exports []Export
	}
)

const (
	opEnd = 0x0b
	opGet = 0x20
	opAdd = 0x6a
)

var order = map[byte]int{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 12: 10, 10: 11, 11: 12}

// verdict of the reference decoder.
type verdict int

const (
	good verdict = iota
	bad
	open // the statement leaves it open
)

// maxLocals is the number of locals up to which a function has to be accepted.
const maxLocals = 5000

type refDecoder struct {
	b      []byte
	at     int
	why    string
	open   string
	locals int
}

type stop struct{}

func (d *refDecoder) fail(format string, a ...any) {
	d.why = fmt.Sprintf(format, a...)
	panic(stop{})
}

func (d *refDecoder) byte(end int) byte {
	if d.at >= end {
		d.fail("data ends at %d", d.at)
	}
	d.at++
	return d.b[d.at-1]
}

func (d *refDecoder) leb(end int) uint32 {
	var x uint64
	for i := 0; ; i++ {
		if i == 5 {
			d.fail("integer too long at %d", d.at)
		}
		c := d.byte(end)
		x |= uint64(c&0x7f) << (7 * i)
		if c&0x80 == 0 {
			break
		}
	}
	if x > 0xffffffff {
		d.fail("integer too large at %d", d.at)
	}
	return uint32(x)
}

func (d *refDecoder) valType(end int) byte {
	c := d.byte(end)
	if c < 0x7c || c > 0x7f {
		d.fail("value type %#x", c)
	}
	return c
}

func (d *refDecoder) types(end int) []byte {
	n := d.leb(end)
	var out []byte
	for ; n > 0; n-- {
		out = append(out, d.valType(end))
	}
	return out
}

// Decode is the reference decoder of modules.
func Decode(b []byte) (m *Module, v verdict, why string, locals int) {
	d := &refDecoder{b: b}
	defer func() {
		locals = d.locals
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				panic(r)
			}
			m, v, why = nil, bad, d.why
			if d.open != "" {
				v, why = open, d.open
			}
		}
	}()
	m = &Module{}
	for _, c := range []byte{0, 'a', 's', 'm'} {
		if d.byte(len(b)) != c {
			d.fail("magic")
		}
	}
	var ver [4]byte
	for i := range ver {
		ver[i] = d.byte(len(b))
	}
	if ver == [4]byte{0x0a, 0, 1, 0} {
		d.open = "component"
		d.fail("component")
	}
	if ver != [4]byte{1, 0, 0, 0} {
		d.fail("version")
	}
	last, bodies := 0, 0
	for d.at < len(b) {
		id := d.byte(len(b))
		size := uint64(d.leb(len(b)))
		if uint64(d.at)+size > uint64(len(b)) {
			// the contents of a cut section may be decoded up to its end
			d.locals += d.peekLocals(id)
			d.fail("section %d of %d bytes is cut", id, size)
		}
		end := d.at + int(size)
		if o := order[id]; o > 0 {
			if o <= last {
				d.fail("section %d repeated or out of order", id)
			}
			last = o
		} else if id != 0 {
			d.open = "section id unknown to the specification"
		}
		switch id {
		case 1:
			for n := d.leb(end); n > 0; n-- {
				if d.byte(end) != 0x60 {
					d.fail("function type form")
				}
				m.Types = append(m.Types, FuncT{d.types(end), d.types(end)})
			}
		case 3:
			for n := d.leb(end); n > 0; n-- {
				m.Funcs = append(m.Funcs, Func{Type: d.leb(end)})
			}
		case 7:
			for n := d.leb(end); n > 0; n-- {
				k := uint64(d.leb(end))
				if uint64(d.at)+k > uint64(end) {
					d.fail("name is cut")
				}
				name := b[d.at : d.at+int(k)]
				d.at += int(k)
				if !utf8.Valid(name) {
					d.fail("name is not UTF-8")
				}
				if kind := d.byte(end); kind != 0 {
					d.fail("export kind %d", kind)
				}
				m.Exports = append(m.Exports, Export{string(name), d.leb(end)})
			}
		case 10:
			n := d.leb(end)
			if int64(n) != int64(len(m.Funcs)) {
				// decoding may still look at bodies before noticing
				d.locals += d.peekLocals(10)
				d.fail("%d bodies for %d functions", n, len(m.Funcs))
			}
			bodies = int(n)
			for i := range m.Funcs {
				k := uint64(d.leb(end))
				if uint64(d.at)+k > uint64(end) {
					d.locals += d.peekLocals(10)
					d.fail("body is cut")
				}
				d.body(&m.Funcs[i], d.at+int(k))
			}
		case 0:
			// A custom section without a proper name is malformed for the
			// specification; whether a reader cares is left open.
			func() {
				at, was := d.at, d.open
				defer func() {
					if r := recover(); r != nil {
						d.open = "custom section name"
					}
					d.at = at
				}()
				if was != "" {
					return
				}
				k := uint64(d.leb(end))
				if uint64(d.at)+k > uint64(end) || !utf8.Valid(b[d.at:d.at+int(k)]) {
					d.fail("custom section name")
				}
			}()
			d.at = end
		default:
			d.at = end
		}
		if d.at != end {
			d.fail("section %d has %d bytes left", id, end-d.at)
		}
	}
	if bodies != len(m.Funcs) {
		d.fail("functions without code")
	}
	if d.open != "" {
		return m, open, d.open, d.locals
	}
	return m, good, "", d.locals
}

// peekLocals bounds the locals a decoder may read before it notices an error.
func (d *refDecoder) peekLocals(id byte) int { return 50001 * (len(d.b)/4 + 1) }

func (d *refDecoder) body(f *Func, end int) {
	var total uint64
	for n := d.leb(end); n > 0; n-- {
		k := d.leb(end)
		c := d.valType(end)
		total += uint64(k)
		if total > 0xffffffff {
			d.fail("more than 2^32-1 locals")
		}
		if total > maxLocals {
			d.open = "more locals than need be supported"
			if total <= 100000 {
				d.locals += int(k)
			}
			continue
		}
		d.locals += int(k)
		for ; k > 0; k-- {
			f.Locals = append(f.Locals, c)
		}
	}
	for {
		op := d.byte(end)
		in := Inst{Op: op}
		switch op {
		case opGet:
			in.Arg = d.leb(end)
		case opAdd, opEnd:
		default:
			d.fail("opcode %#x", op)
		}
		f.Body = append(f.Body, in)
		if op == opEnd {
			break
		}
	}
	if d.at != end {
		d.fail("body has %d bytes left", end-d.at)
	}
}

var valTypes = map[byte]api.ValType{0x7f: api.I32Type, 0x7e: api.I64Type, 0x7d: api.F32Type, 0x7c: api.F64Type}

func sameTypes(got []api.ValType, want []byte) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != valTypes[want[i]] {
			return false
		}
	}
	return true
}

// Diff compares a decoded document with the model.
func Diff(doc *api.Document, m *Module) string {
	if doc == nil {
		return "no document"
	}
	if doc.Preamble != (api.Preamble{Version: 1, Layer: 0}) {
		return fmt.Sprintf("preamble %v", doc.Preamble)
	}
	mod, ok := doc.Directive.(*api.Module)
	if !ok || mod == nil {
		return fmt.Sprintf("directive %T", doc.Directive)
	}
	if len(mod.Types) != len(m.Types) {
		return fmt.Sprintf("%d types want %d", len(mod.Types), len(m.Types))
	}
	for i, t := range mod.Types {
		if t == nil || !sameTypes(t.Parameters.Types, m.Types[i].Params) || !sameTypes(t.Returns.Types, m.Types[i].Results) {
			return fmt.Sprintf("type %d is %+v want %x", i, t, m.Types[i])
		}
	}
	if len(mod.Funcs) != len(m.Funcs) {
		return fmt.Sprintf("%d functions want %d", len(mod.Funcs), len(m.Funcs))
	}
	for i, f := range mod.Funcs {
		w := m.Funcs[i]
		if f == nil || uint32(f.Type) != w.Type {
			return fmt.Sprintf("function %d is %+v want type %d", i, f, w.Type)
		}
		if !sameTypes(f.Locals, w.Locals) {
			return fmt.Sprintf("locals of function %d are %v want %x", i, f.Locals, w.Locals)
		}
		if f.Body == nil || len(f.Body.Instructions) != len(w.Body) {
			return fmt.Sprintf("body of function %d is %+v want %v", i, f.Body, w.Body)
		}
		for j, in := range f.Body.Instructions {
			var want api.Instruction
			switch w.Body[j].Op {
			case opEnd:
				want = api.End{}
			case opAdd:
				want = api.I32Add{}
			case opGet:
				want = api.LocalGet{Index: api.LocalIndex(w.Body[j].Arg)}
			}
			if in != want {
				return fmt.Sprintf("instruction %d of function %d is %#v want %#v", j, i, in, want)
			}
		}
	}
	if len(mod.Exports) != len(m.Exports) {
		return fmt.Sprintf("%d exports want %d", len(mod.Exports), len(m.Exports))
	}
	for i, e := range mod.Exports {
		d, ok := e.Description.(*api.FuncExportDescription)
		if !ok || d == nil || e.Name != m.Exports[i].Name || uint32(d.FuncIdx) != m.Exports[i].Func {
			return fmt.Sprintf("export %d is %q %+v want %q %d", i, e.Name, e.Description, m.Exports[i].Name, m.Exports[i].Func)
		}
	}
	if len(mod.Tables)+len(mod.Mems)+len(mod.Globals)+len(mod.Elems)+len(mod.Datas)+len(mod.Imports) != 0 {
		return "the module has parts nobody encoded"
	}
	return ""
}
