package abi

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	abiio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"vharness/pbt"
	"vharness/ref"
)

var encs = []ref.Enc{ref.UTF8, ref.UTF16, ref.Latin1UTF16}

func libEnc(e ref.Enc) encoding.Encoding {
	switch e {
	case ref.UTF8:
		return encoding.UTF8
	case ref.UTF16:
		return encoding.UTF16
	}
	return encoding.Latin1Utf16
}

func newInstance() *types.ComponentInstance {
	return &types.ComponentInstance{MayEnter: true, MayLeave: true,
		Handles: types.HandleTables{ResourceTypeToTable: map[types.ResourceType]*types.HandleTable{}}}
}

// Env is a guest: memory, allocator, instance and resource types.
type Env struct {
	lent, borrowed int // handles that contexts hold from the start
	Enc            ref.Enc
	Mem            *bytes.Buffer
	Opts           *types.CanonicalOptions
	Inst           *types.ComponentInstance
	Other          *types.ComponentInstance
	RT             []types.ResourceType // 0,1: implemented by Other; 2: by Inst
	Cx             *types.CallContext
	Next           uint64
	Gap            uint64
	Extra          uint64
	Blocks         []ref.Block
	Before         []byte // contents that memory had, extended as it grows
	fill           uint64
}

func (e *Env) fillByte() byte {
	e.fill = e.fill*6364136223846793005 + 1442695040888963407
	return byte(e.fill >> 56)
}

// NewEnv draws a guest. Memory has random contents; the allocator hands out
// aligned blocks with gaps, from base on, growing memory when needed.
func NewEnv(t *pbt.T, enc ref.Enc, reserve uint64) *Env {
	size := reserve + uint64(pbt.OneOf(t, 0, 1, 7, 64, 1000, 65536))
	fill := t.U64n(1 << 16)
	gap := uint64(pbt.OneOf(t, 0, 1, 3, 17))
	extra := uint64(pbt.OneOf(t, 0, 1, 100, 65536))
	e := makeEnv(enc, reserve, size, fill, gap, extra)
	if t.P(1, 6) {
		// other parameters of the call lent and borrowed handles before
		e.lent, e.borrowed = t.Many(2, 6), t.Many(2, 6)
		e.Cx = e.NewCx()
	}
	return e
}

func makeEnv(enc ref.Enc, reserve, size, fill, gap, extra uint64) *Env {
	e := &Env{Enc: enc, fill: fill, Gap: gap, Extra: extra, Next: reserve}
	b := make([]byte, size)
	for i := range b {
		b[i] = e.fillByte()
	}
	e.Mem = bytes.NewBuffer(b)
	e.Before = append([]byte(nil), b...)
	e.Inst, e.Other = newInstance(), newInstance()
	e.RT = []types.ResourceType{types.NewResourceType(nil, e.Other), types.NewResourceType(nil, e.Other), types.NewResourceType(nil, e.Inst)}
	e.Opts = &types.CanonicalOptions{Memory: e.Mem, StringEncoding: libEnc(enc), Realloc: e.Realloc}
	e.Cx = e.NewCx()
	return e
}

// NewCx makes a call context of the guest.
func (e *Env) NewCx() *types.CallContext {
	cx := &types.CallContext{Options: e.Opts, Instance: e.Inst}
	for i := 0; i < e.lent; i++ {
		cx.LiftBorrowFrom(&types.HandleElem{Rep: uint32(i), Own: true})
	}
	for i := 0; i < e.borrowed; i++ {
		cx.AddBorrowCountToTable()
	}
	return cx
}

// Grow extends memory to at least n bytes.
func (e *Env) Grow(n uint64) {
	if n <= uint64(e.Mem.Len()) {
		return
	}
	add := make([]byte, n+e.Extra-uint64(e.Mem.Len()))
	for i := range add {
		add[i] = e.fillByte()
	}
	e.Mem.Write(add)
	e.Before = append(e.Before, add...)
}

// Alloc hands out a block.
func (e *Env) Alloc(size, align uint64) uint64 {
	p := (e.Next + align - 1) / align * align
	e.Next = p + size + e.Gap
	e.Grow(p + size)
	e.Blocks = append(e.Blocks, ref.Block{Ptr: p, Size: size, Align: align})
	return p
}

// Realloc is the guest's allocator as the library sees it.
func (e *Env) Realloc(op, os, align, size uint32) (uint32, error) {
	if op != 0 || os != 0 {
		p := e.Alloc(uint64(size), uint64(align))
		copy(e.Mem.Bytes()[p:], e.Mem.Bytes()[op:op+min(os, size)])
		return uint32(p), nil
	}
	if align == 0 {
		return 0, fmt.Errorf("alignment 0")
	}
	return uint32(e.Alloc(uint64(size), uint64(align))), nil
}

// Storer writes canonical images into the guest with the model.
func (e *Env) Storer() *ref.Storer {
	s := &ref.Storer{Enc: e.Enc}
	s.Mem = e.Mem.Bytes()
	s.Alloc = func(size, align uint64) uint64 {
		p := e.Alloc(size, align)
		s.Mem = e.Mem.Bytes()
		return p
	}
	s.Handle = func(t *ref.Ty, rep uint32) uint32 {
		h := &types.HandleElem{Rep: rep, Own: t.K == ref.Own}
		i, err := e.Inst.Handles.Add(e.RT[t.Res], h)
		if err != nil {
			panic(pbt.Failure{Msg: "handle table Add: " + err.Error()})
		}
		return i
	}
	return s
}

// entry is a handle as the model knows it.
type entry struct {
	rep   uint32
	own   bool
	lends int
}

// Handles is a model of an instance's handle tables: per resource, by number.
type Handles []map[uint32]*entry

// Snapshot copies the live handles of the guest into a model.
func (e *Env) Snapshot() Handles {
	m := make(Handles, len(e.RT))
	for r, rt := range e.RT {
		m[r] = map[uint32]*entry{}
		for i, free := uint32(0), 0; free < 64; i++ {
			h, err := e.Inst.Handles.Get(rt, i)
			if err != nil {
				free++
				continue
			}
			free = 0
			m[r][i] = &entry{h.Rep, h.Own, h.LendCount}
		}
	}
	return m
}

// Lift applies the rules for handles passed by the guest.
func (m Handles) Lift(t *ref.Ty, h uint32) (any, error) {
	en := m[t.Res][h]
	if en == nil {
		return nil, &ref.Trap{Why: "no such handle"}
	}
	if t.K == ref.Borrow {
		en.lends++
		return en.rep, nil
	}
	if en.lends != 0 || !en.own {
		return nil, &ref.Trap{Why: "handle lent or not owned"}
	}
	delete(m[t.Res], h)
	return en.rep, nil
}

// Loader reads the guest with the model. Call it before the library lifts.
func (e *Env) Loader(t *pbt.T) *ref.Loader {
	steps := 0
	return &ref.Loader{Mem: e.Mem.Bytes(), Enc: e.Enc, Handle: e.Snapshot().Lift, Step: func(n int) {
		if steps += n; steps > 300000 {
			t.Discard()
		}
	}}
}

// Checker verifies images in the guest.
func (e *Env) Checker() *ref.Checker {
	c := e.checker()
	c.Own = make([]bool, e.Mem.Len())
	return c
}

func (e *Env) checker() *ref.Checker {
	return &ref.Checker{Mem: e.Mem.Bytes(), Enc: e.Enc, Handle: func(t *ref.Ty, h, rep uint32) string {
		if t.K == ref.Borrow && e.RT[t.Res].Impl() == e.Inst {
			if h != rep {
				return fmt.Sprintf("borrow of the instance's own resource arrived as %d want representation %d", h, rep)
			}
			return ""
		}
		el, err := e.Inst.Handles.Get(e.RT[t.Res], h)
		if err != nil {
			return fmt.Sprintf("handle %d not in table: %v", h, err)
		}
		if el.Rep != rep || el.Own != (t.K == ref.Own) {
			return fmt.Sprintf("handle %d is (rep %d own %v) want (rep %d own %v)", h, el.Rep, el.Own, rep, t.K == ref.Own)
		}
		return ""
	}}
}

// Stray reports a byte that changed although it belongs neither to the
// fields marked by the checker nor to an allocated block.
func (e *Env) Stray(own []bool) string {
	mem := e.Mem.Bytes()
	allowed := make([]bool, len(mem))
	copy(allowed, own)
	for _, b := range e.Blocks {
		for i := b.Ptr; i < b.Ptr+b.Size && i < uint64(len(mem)); i++ {
			allowed[i] = true
		}
	}
	for i := range mem {
		if !allowed[i] && i < len(e.Before) && mem[i] != e.Before[i] {
			return fmt.Sprintf("byte %d changed from %02x to %02x but belongs to nothing that was written", i, e.Before[i], mem[i])
		}
	}
	return ""
}

// SameBlocks compares the allocations made with those the value needs,
// without regard to their order.
func SameBlocks(got, want []ref.Block) string {
	count := map[ref.Block]int{}
	for _, b := range got {
		if b.Size == 0 {
			continue
		}
		count[b]++
	}
	for _, b := range want {
		if b.Size == 0 {
			continue
		}
		count[b]--
		if count[b] < 0 {
			return fmt.Sprintf("value lives in block %+v that the allocator was not asked for (asked: %v)", b, got)
		}
	}
	for b, n := range count {
		if n != 0 {
			return fmt.Sprintf("allocator was asked for %+v which no part of the value uses", b)
		}
	}
	return ""
}

// Lib converts a model type to the library's.
func (e *Env) Lib(t *ref.Ty) types.ValType {
	if t == nil {
		return nil
	}
	switch t.K {
	case ref.Bool:
		return types.NewBool()
	case ref.U8:
		return types.NewU8()
	case ref.S8:
		return types.NewS8()
	case ref.U16:
		return types.NewU16()
	case ref.S16:
		return types.NewS16()
	case ref.U32:
		return types.NewU32()
	case ref.S32:
		return types.NewS32()
	case ref.U64:
		return types.NewU64()
	case ref.S64:
		return types.NewS64()
	case ref.F32:
		return types.NewF32()
	case ref.F64:
		return types.NewF64()
	case ref.Char:
		return types.NewChar()
	case ref.String:
		return types.NewString()
	case ref.List:
		return types.NewList(e.Lib(t.Elem))
	case ref.Record:
		var fs []types.Field
		for _, f := range t.Items {
			fs = append(fs, types.Field{Label: f.Label, Type: e.Lib(f.T)})
		}
		return types.NewRecord(fs...)
	case ref.Tuple:
		return types.NewTuple(e.libs(t.Items)...)
	case ref.Flags:
		return types.NewFlags(t.Labels...)
	case ref.Variant:
		var cs []types.Case
		for _, c := range t.Items {
			if c.Refines != "" {
				cs = append(cs, types.NewCaseRefines(c.Label, e.Lib(c.T), c.Refines))
			} else {
				cs = append(cs, types.NewCase(c.Label, e.Lib(c.T)))
			}
		}
		return types.NewVariant(cs...)
	case ref.Enum:
		return types.NewEnum(t.Labels...)
	case ref.Union:
		return types.NewUnion(e.libs(t.Items)...)
	case ref.Option:
		return types.NewOption(e.Lib(t.Elem))
	case ref.Result:
		return types.NewResult(e.Lib(t.Items[0].T), e.Lib(t.Items[1].T))
	case ref.Own:
		return types.NewOwn(e.RT[t.Res])
	case ref.Borrow:
		return types.NewBorrow(e.RT[t.Res])
	}
	panic("kind")
}

func (e *Env) libs(items []ref.Item) []types.ValType {
	var out []types.ValType
	for _, it := range items {
		out = append(out, e.Lib(it.T))
	}
	return out
}

func libKind(k ref.CK) kind.Kind {
	return []kind.Kind{kind.U32, kind.U64, kind.Float32, kind.Float64}[k]
}

func kindsDiff(got []kind.Kind, want []ref.CK) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%v want %v", got, want)
	}
	for i := range got {
		if got[i] != libKind(want[i]) {
			return fmt.Sprintf("%v want %v", got, want)
		}
	}
	return ""
}

// bitsOf gives the raw bits of core values and checks their kinds.
func bitsOf(vs []values.Value, want []ref.CK) ([]uint64, string) {
	if len(vs) != len(want) {
		return nil, fmt.Sprintf("%d core values, want %d (%v)", len(vs), len(want), want)
	}
	out := make([]uint64, len(vs))
	for i, v := range vs {
		if v == nil {
			return nil, fmt.Sprintf("core value %d is nil", i)
		}
		if v.Kind() != libKind(want[i]) {
			return nil, fmt.Sprintf("core value %d has kind %v, want %v", i, v.Kind(), want[i])
		}
		switch x := v.Value().(type) {
		case uint32:
			out[i] = uint64(x)
		case uint64:
			out[i] = x
		case float32:
			out[i] = uint64(math.Float32bits(x))
		case float64:
			out[i] = math.Float64bits(x)
		default:
			return nil, fmt.Sprintf("core value %d is a %T", i, x)
		}
	}
	return out, ""
}

// coreValues makes core values of the given kinds from raw bits.
func coreValues(bits []uint64, ks []ref.CK) []values.Value {
	out := make([]values.Value, len(bits))
	for i, b := range bits {
		switch ks[i] {
		case ref.I32:
			out[i] = values.U32(uint32(b))
		case ref.I64:
			out[i] = values.U64(b)
		case ref.CF32:
			out[i] = values.Float32(math.Float32frombits(uint32(b)))
		case ref.CF64:
			out[i] = values.Float64(math.Float64frombits(b))
		}
	}
	return out
}

func anys(vs []values.Value) []any {
	out := make([]any, len(vs))
	for i := range vs {
		out[i] = vs[i]
	}
	return out
}

func coreOf(xs []any) ([]values.Value, string) {
	out := make([]values.Value, len(xs))
	for i, x := range xs {
		v, ok := x.(values.Value)
		if !ok {
			return nil, fmt.Sprintf("core value %d is a %T, not a core value", i, x)
		}
		out[i] = v
	}
	return out, ""
}

func isTrap(err error) bool { return errors.Is(err, types.Trap()) }

var _ = abiio.Load
