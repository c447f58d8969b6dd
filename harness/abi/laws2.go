package abi

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	abiio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"

	"vharness/pbt"
	"vharness/ref"
)

// verdict compares what the library lifted with what the model says.
func verdict(t *pbt.T, got any, err error, want any, werr error) {
	switch {
	case werr != nil && err == nil:
		t.Failf("lifting must trap (%v) but returned %s", werr, clip(ref.Show(got)))
	case werr == nil && err != nil:
		t.Failf("lifting must return %s but failed: %v", clip(ref.Show(want)), err)
	case werr != nil:
		if !isTrap(err) {
			t.Failf("lifting must trap (%v) but the error is not a trap: %v", werr, err)
		}
		t.Label("traps")
	default:
		if d := ref.Diff(got, want, ""); d != "" {
			t.Failf("lifted value differs: %s", d)
		}
		t.Label("lifts")
	}
}

// addHandles fills the tables of the guest a little.
func (e *Env) addHandles(t *pbt.T) {
	for r := range e.RT {
		for i, n := 0, t.Intn(4); i < n; i++ {
			_, err := e.Inst.Handles.Add(e.RT[r], &types.HandleElem{Rep: uint32(100*r + i), Own: !t.P(1, 4)})
			t.Must(err, "handle table Add")
		}
	}
}

var liftTypes = TyOpts{Depth: 4, Own: true, BorrowOther: true, BorrowSelf: true, Big: true}

// Core values: canonical ones with some slots disturbed.
func lawLiftFlatBits(t *pbt.T) {
	ty := GenTy(t, liftTypes)
	c := drawCase(t, ty, GenVal(t, ty))
	c.env.addHandles(t)
	s := c.env.Storer()
	s.RawFloats = true
	bits := s.LowerFlat(c.v, ty)
	ks := ref.Flatten(ty)
	if len(bits) > 0 {
		for i, n := 0, t.Intn(4); i < n; i++ {
			disturb(t, bits, t.Intn(len(bits)))
		}
		if t.P(1, 6) {
			for i := range bits {
				disturb(t, bits, i)
			}
		}
	}
	// a slot only has the bits of its kind
	for i, k := range ks {
		if k == ref.I32 || k == ref.CF32 {
			bits[i] &= 0xffffffff
		}
	}
	c.liftFlatCase(t, bits, ks)
}

func disturb(t *pbt.T, bits []uint64, i int) {
	switch t.Weighted(3, 2, 2, 2) {
	case 0:
		bits[i] = t.U64()
	case 1:
		bits[i] ^= 1 << t.Intn(64)
	case 2: // garbage above the value
		bits[i] |= t.U64n(0) << pbt.OneOf(t, 1, 8, 16, 32)
	default:
		bits[i] += uint64(t.Intn(5)) - 2
	}
}

func (c *valueCase) liftFlatCase(t *pbt.T, bits []uint64, ks []ref.CK) {
	t.Case(func() string {
		return clip(fmt.Sprintf("type %s core values %x (%v) encoding %s memory % x", c.ty, bits, ks, c.env.Enc, clipBytes(c.env.Mem.Bytes())))
	})
	t.NonTrivial(fmt.Sprint(c.ty, bits, c.env.Enc))
	want, _, werr := c.env.Loader(t).LiftFlat(c.ty, bits)
	vi := values.NewIterator(coreValues(bits, ks)...)
	before := append([]byte(nil), c.env.Mem.Bytes()...)
	got, err := abiio.LiftFlat(c.env.Cx, vi, c.lib)
	verdict(t, got, err, want, werr)
	if !bytes.Equal(before, c.env.Mem.Bytes()) {
		t.Failf("lifting changed the guest memory")
	}
	if werr == nil && vi.Index() != len(ks) {
		t.Failf("lifting consumed %d of %d core values", vi.Index(), len(ks))
	}
}

func clipBytes(b []byte) []byte {
	if len(b) > 96 {
		return b[:96]
	}
	return b
}

// Memory images: canonical ones with some bytes disturbed.
func lawLiftImage(t *pbt.T) {
	ty := GenTy(t, liftTypes)
	c := drawCase(t, ty, GenVal(t, ty))
	c.env.addHandles(t)
	s := c.env.Storer()
	s.RawFloats = true
	s.Store(c.v, ty, uint64(c.ptr))
	mem := c.env.Mem.Bytes()
	size := ref.Size(ty)
	muts := t.Intn(4)
	for i := 0; i < muts; i++ {
		at := uint64(0)
		switch t.Weighted(3, 3, 1) {
		case 0:
			if size == 0 {
				continue
			}
			at = uint64(c.ptr) + t.U64n(size)
		case 1:
			if len(s.Spots) == 0 {
				continue
			}
			at = pbt.Pick(t, s.Spots)
		default:
			if len(c.env.Blocks) == 0 {
				continue
			}
			b := pbt.Pick(t, c.env.Blocks)
			if b.Size == 0 {
				continue
			}
			at = b.Ptr + t.U64n(b.Size)
		}
		if at >= uint64(len(mem)) {
			continue
		}
		switch t.Intn(3) {
		case 0:
			mem[at] = byte(t.U32())
		case 1:
			mem[at] ^= 1 << t.Intn(8)
		default:
			x := t.U32()
			for j := uint64(0); j < 4 && at+j < uint64(len(mem)); j++ {
				mem[at+j] = byte(x >> (8 * j))
			}
		}
	}
	c.loadCase(t)
}

func (c *valueCase) loadCase(t *pbt.T) {
	t.Case(func() string {
		return clip(fmt.Sprintf("load %s at %d, encoding %s, memory size %d, bytes there % x", c.ty, c.ptr, c.env.Enc, c.env.Mem.Len(), c.around()))
	})
	t.NonTrivial(fmt.Sprintf("%s %d %s %x", c.ty, c.ptr, c.env.Enc, c.around()))
	want, werr := c.env.Loader(t).Load(c.ty, uint64(c.ptr))
	outside := uint64(c.ptr)+ref.Size(c.ty) > uint64(c.env.Mem.Len())
	if outside {
		werr = &ref.Trap{Why: "address outside memory"}
	}
	before := append([]byte(nil), c.env.Mem.Bytes()...)
	got, err := abiio.Load(c.env.Cx, c.lib, c.ptr)
	// what is at an address that is not aligned is left open
	if uint64(c.ptr)%ref.Align(c.ty) == 0 || outside {
		verdict(t, got, err, want, werr)
	}
	if !bytes.Equal(before, c.env.Mem.Bytes()) {
		t.Failf("loading changed the guest memory")
	}
}

func (c *valueCase) around() []byte {
	mem := c.env.Mem.Bytes()
	lo := min(uint64(c.ptr), uint64(len(mem)))
	hi := min(lo+ref.Size(c.ty), uint64(len(mem)))
	return clipBytes(mem[lo:hi])
}

// Random memory under types without pointers.
func lawLiftRandom(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 3, Own: true, BorrowOther: true})
	c := drawCase(t, ty, nil)
	c.env.addHandles(t)
	mem := c.env.Mem.Bytes()
	mode := t.Intn(4)
	fill := t.U64n(0)
	for i, end := uint64(c.ptr), uint64(c.ptr)+ref.Size(ty); i < end; i++ {
		fill = fill*6364136223846793005 + 1442695040888963407
		b := byte(fill >> 56)
		switch mode {
		case 1:
			b &= 3
		case 2:
			b = []byte{0, 0, 0, 1, 2, 255}[b%6]
		case 3:
			if b&3 != 0 {
				b = 0
			}
		}
		mem[i] = b
	}
	c.loadCase(t)
}

// hostile draws numbers that guests use to reach outside.
func hostile(t *pbt.T, memLen, unit uint64) uint32 {
	if unit == 0 {
		unit = 1
	}
	d := uint64(t.Intn(9)) - 4
	switch t.Weighted(3, 2, 2, 2, 1, 1, 1) {
	case 0:
		return uint32(memLen + d)
	case 1:
		return uint32(memLen/unit + d)
	case 2: // wraps when multiplied
		return uint32((1<<32)/unit*uint64(1+t.Intn(3)) + d)
	case 3: // wraps when added
		return uint32((1 << 32) - memLen + d)
	case 4:
		return t.U32()
	case 5:
		return uint32(1<<31 + d)
	default:
		return uint32((1<<32)/unit - memLen/unit + d)
	}
}

// unitsIn lists the element sizes of lists in the type.
func unitsIn(ty *ref.Ty, out []uint64) []uint64 {
	if ty == nil {
		return out
	}
	if ty.K == ref.List {
		out = append(out, ref.Size(ty.Elem))
	}
	if ty.K == ref.String {
		out = append(out, 1, 2)
	}
	out = unitsIn(ty.Elem, out)
	for _, it := range ty.Items {
		out = unitsIn(it.T, out)
	}
	return out
}

func pointerTy(t *pbt.T) *ref.Ty {
	for i := 0; i < 8; i++ {
		ty := GenTy(t, TyOpts{Depth: 4, NoZeroElem: true})
		if len(unitsIn(ty, nil)) > 0 {
			return ty
		}
	}
	return &ref.Ty{K: ref.List, Elem: GenTy(t, TyOpts{Depth: 2, NoZeroElem: true})}
}

// poison gives the memory spare capacity behind its end, with contents that
// must never be seen.
func (e *Env) poison(t *pbt.T) {
	b := e.Mem.Bytes()
	spare := pbt.OneOf(t, 0, 16, 4096)
	nb := make([]byte, len(b)+spare)
	copy(nb, b)
	for i := len(b); i < len(nb); i++ {
		nb[i] = 0x01
	}
	e.Mem = bytes.NewBuffer(nb[:len(b):len(nb)])
	e.Opts.Memory = e.Mem
}

func lawHostileNested(t *pbt.T) {
	ty := pointerTy(t)
	c := drawCase(t, ty, GenVal(t, ty))
	s := c.env.Storer()
	s.Store(c.v, ty, uint64(c.ptr))
	c.env.poison(t)
	mem := c.env.Mem.Bytes()
	units := unitsIn(ty, nil)
	if len(s.Spots) > 0 {
		for i, n := 0, 1+t.Intn(2); i < n; i++ {
			at := pbt.Pick(t, s.Spots)
			x := hostile(t, uint64(len(mem)), pbt.Pick(t, units))
			for j := uint64(0); j < 4 && at+j < uint64(len(mem)); j++ {
				mem[at+j] = byte(x >> (8 * j))
			}
		}
	}
	c.loadCase(t)
}

func lawHostileTop(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 3, NoZeroElem: true})
	c := drawCase(t, ty, GenVal(t, ty))
	s := c.env.Storer()
	s.Store(c.v, ty, uint64(c.ptr))
	c.env.poison(t)
	al := uint32(ref.Align(ty))
	p := hostile(t, uint64(c.env.Mem.Len()), ref.Size(ty))
	c.ptr = p / al * al
	if t.P(1, 5) {
		c.ptr = p
	}
	c.loadCase(t)
}

func lawHostileFlat(t *pbt.T) {
	ty := pointerTy(t)
	c := drawCase(t, ty, GenVal(t, ty))
	s := c.env.Storer()
	bits := s.LowerFlat(c.v, ty)
	c.env.poison(t)
	units := unitsIn(ty, nil)
	ks := ref.Flatten(ty)
	for i, n := 0, 1+t.Intn(2); i < n; i++ {
		bits[t.Intn(len(bits))] = uint64(hostile(t, uint64(c.env.Mem.Len()), pbt.Pick(t, units)))
	}
	c.liftFlatCase(t, bits, ks)
}

// Spilled parameters or results at a hostile address.
func lawHostileSpill(t *pbt.T) {
	ps, _ := drawFunc(t, TyOpts{Depth: 2, NoZeroElem: true}, 8)
	if len(ref.FlattenAll(ps)) == 0 {
		ps = append(ps, &ref.Ty{K: ref.U32})
	}
	tup := ref.TupleOf(ps)
	c := drawCase(t, tup, GenVal(t, tup))
	s := c.env.Storer()
	s.Store(c.v, tup, uint64(c.ptr))
	c.env.poison(t)
	if t.P(3, 4) {
		c.ptr = hostile(t, uint64(c.env.Mem.Len()), ref.Size(tup))
		if t.Bool() {
			c.ptr = c.ptr / uint32(ref.Align(tup)) * uint32(ref.Align(tup))
		}
	}
	t.Case(func() string {
		return clip(fmt.Sprintf("lift spilled %v from address %d of memory %d", ps, c.ptr, c.env.Mem.Len()))
	})
	t.NonTrivial(fmt.Sprint(ps, c.ptr, c.env.Mem.Len()))
	var want any
	var werr error
	switch {
	case uint64(c.ptr)%ref.Align(tup) != 0:
		werr = &ref.Trap{Why: "misaligned"}
	case uint64(c.ptr)+ref.Size(tup) > uint64(c.env.Mem.Len()):
		werr = &ref.Trap{Why: "outside memory"}
	default:
		want, werr = c.env.Loader(t).Load(tup, uint64(c.ptr))
	}
	got, err := abiio.LiftValues(c.env.Cx, len(ref.FlattenAll(ps))-1, values.NewIterator(values.U32(c.ptr)), c.env.libs(tup.Items))
	var wl any
	if werr == nil {
		var l []any
		for i := range ps {
			l = append(l, want.(map[string]any)[fmt.Sprint(i)])
		}
		wl = l
	}
	verdict(t, any(got), err, wl, werr)
}

// Too few or wrongly kinded core values are an error.
func lawLiftKinds(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 3})
	c := drawCase(t, ty, GenVal(t, ty))
	s := c.env.Storer()
	bits := s.LowerFlat(c.v, ty)
	ks := ref.Flatten(ty)
	if len(ks) == 0 {
		t.Discard()
	}
	if t.Bool() {
		n := t.Intn(len(ks))
		bits, ks = bits[:n], ks[:n]
	} else {
		i := t.Intn(len(ks))
		ks = append([]ref.CK{}, ks...)
		ks[i] = (ks[i] + 1 + ref.CK(t.Intn(3))) % 4
	}
	t.Case(func() string { return clip(fmt.Sprintf("type %s core values %x of kinds %v", ty, bits, ks)) })
	t.NonTrivial(fmt.Sprint(ty, bits, ks))
	_, err := abiio.LiftFlat(c.env.Cx, values.NewIterator(coreValues(bits, ks)...), c.lib)
	if err == nil {
		t.Failf("lifting accepted core values that do not match the type")
	}
}

// allocators

type faulty struct {
	e     *Env
	at    int // the call that misbehaves
	kind  int // how
	val   int // what comes with an error: nothing, a good address, a bad one
	n     int // calls so far
	reqs  []ref.Block
	bad   bool // a block was returned that does not fit, even an empty one
	kinds string
}

var faultNames = []string{"none", "error", "misaligned", "end+1", "end", "huge", "wrap", "partly outside"}

func (f *faulty) realloc(op, os, align, size uint32) (uint32, error) {
	i := f.n
	f.n++
	f.reqs = append(f.reqs, ref.Block{Size: uint64(size), Align: uint64(align)})
	if i != f.at || f.kind == 0 {
		return f.e.Realloc(op, os, align, size)
	}
	l := uint32(f.e.Mem.Len())
	var p uint32
	switch f.kind {
	case 1:
		f.bad = true
		if f.val > 0 { // an address nevertheless
			q, err := f.e.Realloc(op, os, align, size)
			if err != nil {
				return q, err
			}
			if os == 0 {
				f.e.Blocks[len(f.e.Blocks)-1].Size = 0 // it was not handed out
			}
			p = q
		}
		if f.val == 2 {
			p = l
		}
		return p, fmt.Errorf("out of memory")
	case 2:
		q, err := f.e.Realloc(op, os, 16, size+16)
		if err != nil {
			return 0, err
		}
		if os == 0 { // the allocator itself moves what was there
			f.e.Blocks[len(f.e.Blocks)-1].Size = 0 // nothing of it may be written when refused
		}
		p = q + 1
		if align == 1 {
			p = q
			f.e.Blocks[len(f.e.Blocks)-1] = ref.Block{Ptr: uint64(p), Size: uint64(size), Align: 1}
		}
	case 3:
		p = l + 1
	case 4:
		p = l
	case 5:
		p = 0xfffffff8
	case 6: // address plus size wraps to something small
		p = -size
		if size == 0 {
			p = 0xfffffff8
		}
	case 7: // the last byte is outside
		if l+1 >= size && size > 0 {
			p = l - size + 1
		} else {
			p = l
		}
		p = p / align * align
		if uint64(p)+uint64(size) <= uint64(l) {
			p += align
		}
	}
	if p%align != 0 || uint64(p)+uint64(size) > uint64(f.e.Mem.Len()) {
		f.bad = true
	} else if f.kind != 2 {
		f.e.Blocks = append(f.e.Blocks, ref.Block{Ptr: uint64(p), Size: uint64(size), Align: uint64(align)})
	}
	return p, nil
}

func lawAllocator(t *pbt.T) {
	var ty *ref.Ty
	if t.P(3, 4) {
		ty = pointerTy(t)
	} else {
		ty = GenTy(t, TyOpts{Depth: 3})
	}
	v := GenVal(t, ty)
	c := drawCase(t, ty, v)
	how := t.Intn(3) // store, flat, spilled arguments
	// what the value needs, from the model, in a copy of the guest
	probe := NewEnv(t, c.env.Enc, ref.Size(ty)+64)
	ps := probe.Storer()
	switch how {
	case 0:
		ps.Store(v, ty, 0)
	case 1:
		ps.LowerFlat(v, ty)
	case 2:
		if len(ref.Flatten(ty)) == 0 {
			t.Discard()
		}
		ps.Store(v, ty, ps.Alloc(ref.Size(ty), ref.Align(ty)))
	}
	need := probe.Blocks
	f := &faulty{e: c.env, kind: t.Intn(len(faultNames)), val: t.Intn(3)}
	if len(need) > 0 {
		f.at = t.Intn(len(need))
	}
	c.env.Opts.Realloc = f.realloc
	t.Case(func() string {
		return clip(fmt.Sprintf("%s type %s value %s encoding %s; allocator call %d misbehaves: %s; memory %d", []string{"store", "lower", "lower spilled"}[how], ty, ref.Show(v), c.env.Enc, f.at, faultNames[f.kind], len(c.env.Before)))
	})
	if len(need) > 0 {
		t.NonTrivial(fmt.Sprint(ty, ref.Show(v), f.at, f.kind, how))
	}
	t.Label("allocator %s", faultNames[f.kind])
	var err error
	var flat []values.Value
	var spilled []any
	t.NoPanic("lowering", func() {
		switch how {
		case 0:
			err = abiio.Store(c.env.Cx, v, c.lib, c.ptr)
		case 1:
			flat, err = abiio.LowerFlat(c.env.Cx, v, c.lib)
		case 2:
			spilled, err = abiio.LowerValues(c.env.Cx, len(ref.Flatten(ty))-1, []any{v}, []types.ValType{c.lib}, nil)
		}
	})
	if f.bad && err == nil {
		t.Failf("the allocator misbehaved (%s) and lowering reported no error", faultNames[f.kind])
	}
	if !f.bad && err != nil {
		t.Failf("the allocator behaved but lowering failed: %v", err)
	}
	// requests: exact sizes and alignments, each at most as often as needed,
	// and none left out when all went well
	count := map[ref.Block]int{}
	for _, b := range need {
		count[ref.Block{Size: b.Size, Align: b.Align}]++
	}
	for _, b := range f.reqs {
		if count[b]--; count[b] < 0 {
			t.Failf("allocator asked for size %d alignment %d; the value needs %v", b.Size, b.Align, need)
		}
	}
	if err == nil && len(f.reqs) < len(need) {
		t.Failf("allocator asked for %v; the value needs %v", f.reqs, need)
	}
	dest := make([]bool, c.env.Mem.Len())
	if how == 0 {
		for i, n := uint64(0), ref.Size(ty); i < n; i++ {
			dest[uint64(c.ptr)+i] = true
		}
	}
	if d := c.env.Stray(dest); d != "" {
		t.Failf("%s", d)
	}
	if err != nil {
		return
	}
	ch := c.env.Checker()
	var d string
	switch how {
	case 0:
		d = ch.Image(v, ty, uint64(c.ptr), "value")
	case 1:
		var bits []uint64
		if bits, d = bitsOf(flat, ref.Flatten(ty)); d == "" {
			_, d = ch.Flat(v, ty, bits, "value")
		}
	case 2:
		core, e := coreOf(spilled)
		d = e
		if d == "" {
			var bits []uint64
			if bits, d = bitsOf(core, []ref.CK{ref.I32}); d == "" {
				d = ch.Image(v, ty, bits[0], "value")
			}
		}
	}
	if d != "" {
		t.Failf("lowering succeeded but the result is not canonical: %s", d)
	}
}

// The destination of a store is checked too.
func lawStoreDest(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 3, Own: true})
	c := drawCase(t, ty, GenVal(t, ty))
	c.env.poison(t)
	al := uint32(ref.Align(ty))
	p := hostile(t, uint64(c.env.Mem.Len()), ref.Size(ty))
	if t.Bool() {
		p = p / al * al
	}
	t.Case(func() string {
		return clip(fmt.Sprintf("store %s at %d of memory %d", ty, p, c.env.Mem.Len()))
	})
	t.NonTrivial(fmt.Sprint(ty, p, c.env.Mem.Len(), ref.Show(c.v)))
	fits := p%al == 0 && uint64(p)+ref.Size(ty) <= uint64(c.env.Mem.Len())
	var err error
	t.NoPanic("store", func() { err = abiio.Store(c.env.Cx, c.v, c.lib, p) })
	if fits != (err == nil) {
		t.Failf("destination fits: %v, store error: %v", fits, err)
	}
	dest := make([]bool, c.env.Mem.Len())
	if fits {
		for i, n := uint64(0), ref.Size(ty); i < n; i++ {
			dest[uint64(p)+i] = true
		}
	}
	if d := c.env.Stray(dest); d != "" {
		t.Failf("%s", d)
	}
}

// The lower level functions that store text are as careful as Store is.
func lawTextHelpers(t *pbt.T) {
	s := GenString(t, t.P(1, 8))
	how := t.Intn(4)
	enc := []ref.Enc{ref.UTF8, ref.UTF16, ref.Latin1UTF16, ref.UTF16}[how]
	want, units := ref.EncodeString(s, enc)
	if units>>31 == 1 && enc == ref.Latin1UTF16 {
		t.Discard() // the text is not latin-1
	}
	e := NewEnv(t, enc, 8)
	f := &faulty{e: e, kind: t.Intn(len(faultNames)), at: t.Intn(2), val: t.Intn(3)}
	e.Opts.Realloc = f.realloc
	name := []string{"copy as utf-8", "copy as utf-16", "copy as latin-1", "utf-8 to utf-16"}[how]
	t.Case(func() string {
		return clip(fmt.Sprintf("%s %q; allocator call %d misbehaves: %s; memory %d", name, s, f.at, faultNames[f.kind], len(e.Before)))
	})
	t.NonTrivial(fmt.Sprint(how, s, f.kind, f.at))
	t.Label(name)
	var ptr, n uint32
	var err error
	var need []ref.Block
	t.NoPanic("storing text", func() {
		switch how {
		case 0:
			ptr, n, err = abiio.StoreStringCopy(e.Cx, s, units, 1, 1, encoding.NewUTF8())
			need = []ref.Block{{Size: uint64(len(want)), Align: 1}}
		case 1:
			ptr, n, err = abiio.StoreStringCopy(e.Cx, s, units, 2, 2, encoding.NewUTF16())
			need = []ref.Block{{Size: uint64(len(want)), Align: 2}}
		case 2:
			ptr, n, err = abiio.StoreStringCopy(e.Cx, s, units, 1, 1, encoding.NewLatin1())
			need = []ref.Block{{Size: uint64(len(want)), Align: 1}}
		case 3:
			ptr, n, err = abiio.StoreUtf8ToUtf16(e.Cx, s, uint32(len(s)))
			need = []ref.Block{{Size: uint64(2 * len(s)), Align: 2}, {Size: uint64(len(want)), Align: 2}}
		}
	})
	if f.bad != (err != nil) {
		t.Failf("the allocator misbehaved: %v; error: %v", f.bad, err)
	}
	for i, b := range f.reqs {
		if i >= len(need) || b != need[i] {
			t.Failf("request %d of the allocator is for size %d alignment %d; expected %v", i, b.Size, b.Align, need)
		}
	}
	if d := e.Stray(nil); d != "" {
		t.Failf("%s", d)
	}
	if err != nil {
		return
	}
	if n != units || string(e.Mem.Bytes()[ptr:uint64(ptr)+uint64(len(want))]) != string(want) {
		t.Failf("stored %d units at %d: % x; expected %d: % x", n, ptr, clipBytes(e.Mem.Bytes()[ptr:uint64(ptr)+uint64(len(want))]), units, clipBytes(want))
	}
}

// strings

func lawStringChain(t *pbt.T) {
	s := GenString(t, true)
	n := 2 + t.Intn(3)
	var chain []ref.Enc
	for i := 0; i < n; i++ {
		chain = append(chain, drawEnc(t))
	}
	nest := t.Intn(3)
	ty := &ref.Ty{K: ref.String}
	var v any = s
	switch nest {
	case 1:
		ty = &ref.Ty{K: ref.List, Elem: ty}
		v = []any{s, GenString(t, false), s}
	case 2:
		ty = &ref.Ty{K: ref.Record, Items: []ref.Item{{Label: "b", T: ty}, {Label: "a", T: &ref.Ty{K: ref.Option, Elem: ty}}}}
		v = map[string]any{"b": GenString(t, false), "a": map[string]any{"some": s}}
	}
	t.Case(func() string { return clip(fmt.Sprintf("%s through %v", ref.Show(v), chain)) })
	if s != "" {
		t.NonTrivial(fmt.Sprint(ref.Show(v), chain))
	}
	t.Label("first encoding %s", chain[0])
	want := v
	for i, enc := range chain {
		e := NewEnv(t, enc, ref.Size(ty)+8)
		lib := e.Lib(ty)
		var got any
		var err error
		if t.Bool() {
			t.Must(abiio.Store(e.Cx, v, lib, 8), "Store")
			if d := e.Checker().Image(want, ty, 8, "value"); d != "" {
				t.Failf("guest %d (%s): %s", i, enc, d)
			}
			got, err = abiio.Load(e.Cx, lib, 8)
		} else {
			var flat []values.Value
			flat, err = abiio.LowerFlat(e.Cx, v, lib)
			t.Must(err, "LowerFlat")
			checkFlat(t, e, want, ty, flat)
			got, err = abiio.LiftFlat(e.Cx, values.NewIterator(flat...), lib)
		}
		t.Must(err, "lifting")
		if d := ref.Diff(got, want, ""); d != "" {
			t.Failf("guest %d (%s): %s", i, enc, d)
		}
		v = got
	}
}

// Every scalar value, in every encoding, in blocks of 256.
func lawStringScalars(t *pbt.T) {
	enc := encs[t.Index%3]
	base := rune(t.Index / 3 * 256)
	t.Case(func() string { return fmt.Sprintf("characters %x..%x in %s", base, base+255, enc) })
	t.NonTrivial(fmt.Sprint(base, enc))
	var all strings.Builder
	one := func(s string) {
		e := NewEnv(t, enc, 16)
		ty := &ref.Ty{K: ref.String}
		t.Must(abiio.Store(e.Cx, s, types.NewString(), 8), "Store")
		if d := e.Checker().Image(s, ty, 8, "value"); d != "" {
			t.Failf("%s: %s", clip(ref.Show(s)), d)
		}
		got, err := abiio.Load(e.Cx, types.NewString(), 8)
		t.Must(err, "Load")
		if d := ref.Diff(got, any(s), ""); d != "" {
			t.Failf("%s", d)
		}
	}
	for r := base; r < base+256; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		all.WriteRune(r)
		if r%17 == 0 || base < 0x1000 {
			one(string(r))
		}
	}
	one(all.String())
}

func isASCII(b []byte) bool {
	for _, c := range b {
		if c >= 0x80 {
			return false
		}
	}
	return true
}

// Guest text that may be ill-formed.
func lawStringGuest(t *pbt.T) {
	enc := drawEnc(t)
	var b []byte
	utf16le := enc == ref.UTF16 || (enc == ref.Latin1UTF16 && t.P(3, 4))
	valid, _ := ref.EncodeString(GenString(t, t.P(1, 8)), map[bool]ref.Enc{true: ref.UTF16, false: ref.UTF8}[utf16le])
	b = append(b, valid...)
	for i, n := 0, t.Intn(3); i < n; i++ {
		switch k := t.Intn(4); {
		case k == 0 && len(b) > 0:
			b[t.Intn(len(b))] = byte(t.U64n(256))
		case k == 1 && len(b) > 0:
			b = b[:t.Intn(len(b))]
		case k == 2: // insert something nasty
			nasty := pbt.OneOf(t, "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xef\xbb\xbf", "\xc1\xbf", "\x80", "\xf8\x88\x80\x80\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xed\xbf\xbf")
			if utf16le {
				nasty = pbt.OneOf(t, "\x00\xd8", "\x00\xdc", "\xff\xdb", "\xff\xdf", "\xff\xfe", "\xfe\xff", "\x00\xdc\x00\xd8", "\x00\xd8\x00\xd8\x00\xdc", "\x00\xd8a\x00")
			}
			at := t.Intn(len(b) + 1)
			if utf16le {
				at &^= 1
			}
			b = append(b[:at:at], append([]byte(nasty), b[at:]...)...)
		default:
			b = append(b, t.Bytes(t.Intn(4))...)
		}
	}
	units := uint32(len(b))
	if utf16le {
		b = b[:len(b)&^1]
		units = uint32(len(b) / 2)
		if enc == ref.Latin1UTF16 {
			units |= 1 << 31
		}
	}
	off := uint32(8)
	if t.P(1, 10) {
		off++ // misaligned for two-byte units
	}
	e := NewEnv(t, enc, 64+uint64(len(b)))
	e.poison(t)
	copy(e.Mem.Bytes()[16+off:], b)
	le := func(at, x uint32) {
		for j := uint32(0); j < 4; j++ {
			e.Mem.Bytes()[at+j] = byte(x >> (8 * j))
		}
	}
	le(4, 16+off)
	le(8, units)
	t.Case(func() string { return clip(fmt.Sprintf("%s text % x, %#x units at %d", enc, b, units, 16+off)) })
	if len(b) > 0 {
		t.NonTrivial(fmt.Sprintf("%s %x %d %d", enc, b, units, off))
	}
	ty := &ref.Ty{K: ref.String}
	want, werr := e.Loader(t).Load(ty, 4)
	got, err := abiio.Load(e.Cx, types.NewString(), 4)
	verdict(t, got, err, want, werr)
	got, err = abiio.LiftFlat(e.Cx, values.NewIterator(values.U32(16+off), values.U32(units)), types.NewString())
	verdict(t, got, err, want, werr)
	if werr != nil {
		return
	}
	// well-formed text goes on to another guest unchanged
	e2 := NewEnv(t, drawEnc(t), 16)
	t.Must(abiio.Store(e2.Cx, got, types.NewString(), 8), "Store")
	if d := e2.Checker().Image(want, ty, 8, "value"); d != "" {
		t.Failf("passed on to %s: %s", e2.Enc, d)
	}
}

// ill-typed host values

type badValue struct {
	v       any
	what    string
	numeric bool // an integer of another type that denotes a number in range
	num     int64
}

func badFor(t *pbt.T, ty *ref.Ty, v any) badValue {
	common := []badValue{
		{v: nil, what: "nil"}, {v: struct{}{}, what: "struct"}, {v: int(1), what: "int"}, {v: uint(1), what: "uint"},
		{v: []int{1}, what: "[]int"}, {v: map[string]int{"c0": 1}, what: "map[string]int"}, {v: new(int), what: "pointer"},
		{v: complex(1, 1), what: "complex"}, {v: []string{"a"}, what: "[]string"}, {v: map[any]any{"a": 1}, what: "map[any]any"},
		{v: fmt.Errorf("x"), what: "error"}, {v: uintptr(1), what: "uintptr"},
	}
	type kv struct {
		k ref.Kind
		v any
	}
	others := []kv{{ref.Bool, true}, {ref.U8, uint8(1)}, {ref.S8, int8(1)}, {ref.U16, uint16(1)}, {ref.S16, int16(1)}, {ref.U32, uint32(1)}, {ref.S32, int32(1)}, {ref.U64, uint64(1)}, {ref.S64, int64(1)}, {ref.F32, float32(1)}, {ref.F64, float64(1)}, {ref.Char, rune('a')}, {ref.String, "a"}, {ref.String, "c0"}, {ref.String, "true"}, {ref.List, []any{uint8(1)}}, {ref.Record, map[string]any{"zz": uint8(1)}}, {ref.List, []byte("abc")}}
	isInt := ty.K >= ref.U8 && ty.K <= ref.S64
	signed := ty.K == ref.S8 || ty.K == ref.S16 || ty.K == ref.S32 || ty.K == ref.S64
	switch t.Weighted(2, 3, 6) {
	case 0:
		return pbt.Pick(t, common)
	case 1:
		for i := 0; i < 20; i++ {
			o := pbt.Pick(t, others)
			k := o.k
			switch {
			case k == ty.K:
				if k == ref.List && fmt.Sprintf("%T", o.v) != "[]interface {}" {
					return badValue{v: o.v, what: "[]byte"}
				}
				continue
			case k == ref.S32 && ty.K == ref.Char, k == ref.Char && ty.K == ref.S32:
				continue
			case k == ref.U32 && (ty.K == ref.Own || ty.K == ref.Borrow):
				continue
			case k == ref.Record && (ty.IsRecord() && len(ty.Items) == 0 || ty.K == ref.Flags && len(ty.Labels) == 0):
				continue
			case k == ref.Char && isInt:
				k = ref.S32
			}
			oInt := k >= ref.U8 && k <= ref.S64
			oSigned := k == ref.S8 || k == ref.S16 || k == ref.S32 || k == ref.S64
			if isInt && oInt && signed == oSigned {
				return badValue{v: o.v, what: "integer of another width", numeric: true, num: 1}
			}
			return badValue{v: o.v, what: fmt.Sprintf("%T", o.v)}
		}
		return common[0]
	}
	// specific to the type
	var opts []badValue
	add := func(v any, what string) { opts = append(opts, badValue{v: v, what: what}) }
	switch {
	case isInt:
		switch ty.K {
		case ref.U8:
			add(uint16(256), "out of range")
			add(uint32(1<<31), "out of range")
			add(uint64(1<<40), "out of range")
			add(uint16(511), "out of range")
		case ref.U16:
			add(uint32(65536), "out of range")
			add(uint64(1<<63), "out of range")
		case ref.U32:
			add(uint64(1<<32), "out of range")
			add(uint64(math.MaxUint64), "out of range")
		case ref.S8:
			add(int16(128), "out of range")
			add(int16(-129), "out of range")
			add(int64(math.MinInt64), "out of range")
			add(int32(255), "out of range")
		case ref.S16:
			add(int32(32768), "out of range")
			add(int32(-32769), "out of range")
			add(int64(65535), "out of range")
		case ref.S32:
			add(int64(1<<31), "out of range")
			add(int64(-1<<31-1), "out of range")
		}
		add("1", "numeral in a string")
		add(1.0, "float")
	case ty.K == ref.Bool:
		add(uint8(1), "number")
		add("true", "string")
		add(uint32(0), "number")
	case ty.K == ref.F32:
		add(1.5, "float64")
		add(int32(1), "int32")
	case ty.K == ref.F64:
		add(float32(1.5), "float32")
		add(int64(1), "int64")
	case ty.K == ref.Char:
		add(rune(0xd800), "surrogate")
		add(rune(0xdfff), "surrogate")
		add(rune(0x110000), "too large")
		add(rune(-1), "negative")
		add(rune(math.MinInt32), "negative")
		add(rune(math.MaxInt32), "too large")
		add("a", "string")
		add(uint32('a'), "uint32")
	case ty.K == ref.String:
		add([]byte("abc"), "bytes")
		add('a', "rune")
		add("\xff", "invalid UTF-8")
		add("ab\xed\xa0\x80", "invalid UTF-8")
		add([]any{"a"}, "list")
	case ty.K == ref.List:
		add("abc", "string")
		add([]byte{1}, "bytes")
		add(map[string]any{"0": uint8(1)}, "map")
		add([2]any{}, "array")
	case ty.K == ref.Own || ty.K == ref.Borrow:
		add(uint64(1), "uint64")
		add(int32(1), "int32")
		add("h", "string")
		add(&types.HandleElem{}, "table entry")
	case ty.K == ref.Flags:
		if len(ty.Labels) > 0 {
			m := clone(v)
			l := pbt.Pick(t, ty.Labels)
			delete(m, l)
			add(m, "missing flag "+l)
			m = clone(v)
			m[l] = pbt.OneOf[any](t, uint8(1), nil, "true", 1, map[string]any{})
			add(m, "non-boolean flag "+l)
		}
		add([]any{"f0"}, "list")
		add(uint32(1), "bit set")
		add(uint64(1), "bit set")
	case ty.IsRecord():
		if fs := ty.Fields(); len(fs) > 0 {
			m := clone(v)
			f := pbt.Pick(t, fs)
			delete(m, f.Label)
			add(m, "missing field "+f.Label)
			m = clone(v)
			delete(m, f.Label)
			m[f.Label+"x"] = v.(map[string]any)[f.Label]
			add(m, "misspelled field "+f.Label)
			add(map[string]any(nil), "nil map")
		}
		add([]any{}, "list")
		add("a", "string")
	case ty.IsVariant():
		cs := ty.Cases()
		m := clone(v)
		var k string
		var p any
		for k, p = range m {
		}
		add(map[string]any{}, "no case")
		add(map[string]any{"nope": p}, "unknown case")
		add(map[string]any{"nope|nada": p}, "unknown case")
		add(map[string]any{k: p, "c9": nil}, "two cases")
		many := map[string]any{k: p}
		for i, n := 0, 2+t.Many(3, 9); i < n; i++ {
			l := fmt.Sprint("x", i)
			if i < len(cs) {
				l = cs[i].Label
			}
			many[l] = p
		}
		if len(many) > 2 {
			add(many, "many cases")
		}
		if len(cs) > 1 {
			o := cs[t.Intn(len(cs))].Label
			if _, dup := m[o]; !dup {
				add(map[string]any{k: p, o: p}, "two cases")
			}
		}
		add(map[string]any{"": p}, "empty case name")
		if u := strings.ToUpper(k); u != k && ref.MatchCase(cs, u) < 0 {
			add(map[string]any{u: p}, "case name in upper case")
		}
		if !strings.Contains(k, "|") {
			add(map[string]any{k + " ": p}, "case name with blank")
		}
		add(k, "bare case name")
		add(uint32(0), "case number")
	}
	if len(opts) == 0 {
		return common[0]
	}
	return pbt.Pick(t, opts)
}

func clone(v any) map[string]any {
	m := map[string]any{}
	for k, x := range v.(map[string]any) {
		m[k] = x
	}
	return m
}

// breakValue replaces one position of the value by something ill-typed.
func breakValue(t *pbt.T, ty *ref.Ty, v any) (any, badValue) {
	down := t.P(2, 3)
	if down {
		switch {
		case ty.K == ref.List:
			if l := v.([]any); len(l) > 0 {
				i := t.Intn(len(l))
				if t.Bool() {
					i = len(l) - 1
				}
				x, b := breakValue(t, ty.Elem, l[i])
				nl := append([]any{}, l...)
				nl[i] = x
				return nl, b
			}
		case ty.IsRecord():
			if fs := ty.Fields(); len(fs) > 0 {
				f := pbt.Pick(t, fs)
				m := clone(v)
				x, b := breakValue(t, f.T, m[f.Label])
				m[f.Label] = x
				return m, b
			}
		case ty.IsVariant():
			cs := ty.Cases()
			for k, p := range v.(map[string]any) {
				if i := ref.MatchCase(cs, k); cs[i].T != nil {
					x, b := breakValue(t, cs[i].T, p)
					return map[string]any{k: x}, b
				}
			}
		}
	}
	b := badFor(t, ty, v)
	return b.v, b
}

func lawIllTyped(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 3, Own: true, BorrowOther: true})
	v := GenVal(t, ty)
	c := drawCase(t, ty, v)
	x, b := breakValue(t, ty, v)
	how := t.Intn(3)
	t.Case(func() string {
		return clip(fmt.Sprintf("%s of type %s given %s (%s)", []string{"store", "lower", "spill"}[how], ty, ref.Show(x), b.what))
	})
	t.NonTrivial(fmt.Sprint(ty, ref.Show(x), how))
	t.Label("ill-typed: %s", b.what)
	var err error
	var back any
	var lerr error
	t.NoPanic("lowering an ill-typed value", func() {
		switch how {
		case 0:
			if err = abiio.Store(c.env.Cx, x, c.lib, c.ptr); err == nil && b.numeric {
				back, lerr = abiio.Load(c.env.Cx, c.lib, c.ptr)
			}
		case 1:
			var flat []values.Value
			if flat, err = abiio.LowerFlat(c.env.Cx, x, c.lib); err == nil && b.numeric {
				back, lerr = abiio.LiftFlat(c.env.Cx, values.NewIterator(flat...), c.lib)
			}
		case 2:
			n := len(ref.Flatten(ty))
			if n == 0 {
				err = fmt.Errorf("nothing to spill")
				return
			}
			var out []any
			ts := []types.ValType{c.lib}
			if out, err = abiio.LowerValues(c.env.Cx, n-1, []any{x}, ts, nil); err == nil && b.numeric {
				core, d := coreOf(out)
				if d != "" {
					t.Failf("%s", d)
				}
				var l []any
				if l, lerr = abiio.LiftValues(c.env.Cx, n-1, values.NewIterator(core...), ts); lerr == nil {
					back = l[0]
				}
			}
		}
	})
	if err != nil {
		return
	}
	if !b.numeric {
		t.Failf("ill-typed value accepted: %s", b.what)
	}
	// an integer of another width may be taken for the number it denotes
	if lerr != nil {
		t.Failf("value accepted but does not lift: %v", lerr)
	}
	if countNum(back) != countNum(x) {
		t.Failf("%s accepted as %s", ref.Show(x), ref.Show(back))
	}
}

// countNum prints a value with integer types erased.
func countNum(v any) string {
	switch x := v.(type) {
	case []any:
		s := make([]string, len(x))
		for i, e := range x {
			s[i] = countNum(e)
		}
		return "[" + strings.Join(s, ",") + "]"
	case map[string]any:
		if len(x) == 1 { // case labels may come back refined
			for _, e := range x {
				return "{" + countNum(e) + "}"
			}
		}
		s := []string{}
		for k, e := range x {
			s = append(s, k+"="+countNum(e))
		}
		sort.Strings(s)
		return fmt.Sprint(s)
	case uint8, uint16, uint32, uint64, int8, int16, int32, int64:
		return fmt.Sprint(x)
	case float32:
		return fmt.Sprint(ref.CanonBits32(x))
	case float64:
		return fmt.Sprint(ref.CanonBits64(x))
	}
	return fmt.Sprint(v)
}

func lawArity(t *pbt.T) {
	ps, rs := drawFunc(t, TyOpts{Depth: 2}, 8)
	var vs []any
	for _, p := range ps {
		vs = append(vs, GenVal(t, p))
	}
	e := NewEnv(t, drawEnc(t), 0)
	n := len(ps)
	for n == len(ps) {
		n = t.Intn(len(ps) + 3)
		if n == len(ps) {
			n = len(ps) + 1
		}
	}
	var args []any
	for i := 0; i < n; i++ {
		if i < len(vs) {
			args = append(args, vs[i])
		} else if len(vs) > 0 && t.Bool() {
			args = append(args, vs[len(vs)-1])
		} else {
			args = append(args, uint32(1))
		}
	}
	maxP := pbt.OneOf(t, 16, 0, 4, len(ref.FlattenAll(ps)))
	t.Case(func() string {
		return clip(fmt.Sprintf("%d arguments for %d parameters %v, limit %d", n, len(ps), ps, maxP))
	})
	t.NonTrivial(fmt.Sprint(ps, n, maxP))
	ran := false
	var err error
	ft := e.libFunc(ps, rs)
	t.NoPanic("call", func() {
		_, _, err = abiio.CanonLift(e.Opts, e.Inst, func(a any) (any, error) {
			ran = true
			return []any{}, nil
		}, ft, args, maxP, 1)
	})
	if ran {
		t.Failf("the function ran although it was given %d arguments for %d parameters", n, len(ps))
	}
	if err == nil {
		t.Failf("wrong number of arguments accepted")
	}
}

// alien is a type that the component model does not define.
type alien struct{ types.ValTypeImpl }

// lawAlien nests a type that is no component value type in others.
func lawAlien(t *pbt.T) {
	e := NewEnv(t, drawEnc(t), 4096)
	var ty types.ValType = &alien{}
	var v any = pbt.OneOf[any](t, uint32(1), "a", true, nil, map[string]any{})
	text, listed := "alien", false
	for i, n := 0, t.Intn(4); i < n; i++ {
		other := &ref.Ty{K: pbt.OneOf(t, ref.U8, ref.U64, ref.F32, ref.String)}
		o, ov := e.Lib(other), GenVal(t, other)
		switch t.Intn(7) {
		case 0:
			if t.Bool() {
				ty = types.NewRecord(types.Field{Label: "a", Type: o}, types.Field{Label: "b", Type: ty})
			} else {
				ty = types.NewRecord(types.Field{Label: "b", Type: ty}, types.Field{Label: "a", Type: o})
			}
			v, text = map[string]any{"a": ov, "b": v}, "record<"+text+">"
		case 1:
			ty, v, text = types.NewTuple(o, ty), map[string]any{"0": ov, "1": v}, "tuple<"+text+">"
		case 2:
			if t.Bool() {
				ty = types.NewVariant(types.NewCase("a", o), types.NewCase("b", ty))
			} else {
				ty = types.NewVariant(types.NewCase("b", ty), types.NewCase("a", o))
			}
			v, text = map[string]any{"b": v}, "variant<"+text+">"
		case 3:
			ty, v, text = types.NewOption(ty), map[string]any{"some": v}, "option<"+text+">"
		case 4:
			if t.Bool() {
				ty, v = types.NewResult(ty, o), map[string]any{"ok": v}
			} else {
				ty, v = types.NewResult(o, ty), map[string]any{"error": v}
			}
			text = "result<" + text + ">"
		case 5:
			ty, v, text = types.NewUnion(o, ty), map[string]any{"1": v}, "union<"+text+">"
		default:
			ty, v, text = types.NewList(ty), []any{v}, "list<"+text+">"
			listed = true
		}
	}
	op := t.Intn(12)
	name := []string{"size", "alignment", "flattening", "storing", "lowering", "loading", "lifting", "calling",
		"signature of a lifted function", "signature of a lowered function", "calling for a result", "calling out"}[op]
	// the function has it among its parameters or its results
	first := types.Parameter{Name: "n", Type: types.NewU32()}
	sig, at := [2][]types.Parameter{{first}, {first}}, t.Intn(2)
	if t.Bool() {
		sig[at] = append(sig[at], types.Parameter{Name: "a", Type: ty})
	} else {
		sig[at] = []types.Parameter{{Name: "a", Type: ty}, first}
	}
	maxP, maxR := pbt.OneOf(t, 16, 1, 0), pbt.OneOf(t, 16, 1, 0)
	t.Case(func() string { return fmt.Sprintf("%s of %s given %s", name, text, ref.Show(v)) })
	t.NonTrivial(fmt.Sprint(op, text, ref.Show(v)))
	t.Label("unknown type: %s", name)
	var err error
	t.NoPanic(name, func() {
		switch op {
		case 0:
			_, err = abiio.Size(ty)
		case 1:
			_, err = abiio.Alignment(ty)
		case 2:
			_, err = abiio.FlattenType(ty)
		case 3:
			err = abiio.Store(e.Cx, v, ty, 64)
		case 4:
			_, err = abiio.LowerFlat(e.Cx, v, ty)
		case 5:
			_, err = abiio.Load(e.Cx, ty, 64)
		case 6:
			var flat []values.Value
			for i := 0; i < 40; i++ {
				flat = append(flat, values.U32(0))
			}
			_, err = abiio.LiftFlat(e.Cx, values.NewIterator(flat...), ty)
		case 8:
			_, err = abiio.FlattenFuncTypeLift(types.NewFuncType(sig[0], sig[1]), maxP, maxR)
		case 9:
			_, err = abiio.FlattenFuncTypeLower(types.NewFuncType(sig[0], sig[1]), maxP, maxR)
		case 10:
			ft := types.NewFuncType(nil, []types.Parameter{{Name: "r", Type: ty}})
			_, _, err = abiio.CanonLift(e.Opts, e.Inst, func(any) (any, error) {
				return []any{values.U32(0), values.U32(0), values.U32(0), values.U32(0)}, nil
			}, ft, nil, maxP, maxR)
		case 11:
			ft := types.NewFuncType(nil, []types.Parameter{{Name: "r", Type: ty}})
			_, err = abiio.CanonLower(e.Opts, e.Inst, func([]any) ([]any, types.PostReturnFunc, error) {
				return []any{v}, nil, nil
			}, t.Bool(), ft, []any{values.U32(64)}, maxP, maxR)
		default:
			ft := types.NewFuncType([]types.Parameter{{Name: "a", Type: ty}}, []types.Parameter{{Name: "r", Type: ty}})
			_, _, err = abiio.CanonLift(e.Opts, e.Inst, func(any) (any, error) { return []any{values.U32(0)}, nil }, ft, []any{v}, 16, 1)
		}
	})
	// the element type of a list matters only when there is an element
	if listed && (op == 0 || op == 1 || op == 2 || op == 5 || op == 6 || op >= 8 && op <= 10) {
		return
	}
	// what is read may choose another case of a variant
	chosen := strings.Contains(text, "variant") || strings.Contains(text, "option") || strings.Contains(text, "result") || strings.Contains(text, "union")
	if (op == 5 || op == 6) && chosen {
		return
	}
	if err == nil {
		t.Failf("no error from a type that the component model does not define")
	}
}

// lawTooLong passes texts and lists that no guest can hold. The texts are
// made of pages that are never backed by memory. All cases run one after
// another, so that a library that accepts them does not use too much memory.
func lawTooLong(t *pbt.T) {
	t.NonTrivial("")
	text := func(n uint64) string {
		b, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			t.Discard()
		}
		return unsafe.String(&b[0], len(b))
	}
	// 2^16 numbers of eight bytes
	var elem types.ValType = types.NewU64()
	var v any = uint64(7)
	for i := 0; i < 16; i++ {
		elem, v = types.NewTuple(elem, elem), map[string]any{"0": v, "1": v}
	}
	list := func(n int) []any {
		l := make([]any, n)
		for i := range l {
			l[i] = v
		}
		return l
	}
	type long struct {
		what string
		ty   types.ValType
		v    func() any
	}
	var longs []long
	for _, n := range []int{1 << 13, 1<<13 + 1, 1 << 14, 1<<14 + 3} {
		longs = append(longs, long{fmt.Sprintf("a list of %d elements of 512 KiB", n), types.NewList(elem), func() any { return list(n) }})
	}
	for _, n := range []uint64{1 << 31, 1<<32 + 5} {
		longs = append(longs, long{fmt.Sprintf("a text of %d characters", n), types.NewString(), func() any { return text(n) }})
	}
	for _, l := range longs {
		x := l.v()
		for _, enc := range []ref.Enc{ref.UTF8, ref.UTF16, ref.Latin1UTF16} {
			for _, flat := range []bool{false, true} {
				if _, ok := x.([]any); ok && enc != ref.UTF8 {
					continue
				}
				e := makeEnv(enc, 64, 4096, 1, 0, 0)
				asked := false
				e.Opts.Realloc = func(op, os, align, size uint32) (uint32, error) {
					asked = true
					return e.Realloc(op, os, align, size)
				}
				t.Case(func() string { return fmt.Sprintf("%s, encoding %s, as core values: %v", l.what, enc, flat) })
				var err error
				t.NoPanic("lowering", func() {
					if flat {
						_, err = abiio.LowerFlat(e.Cx, x, l.ty)
					} else {
						err = abiio.Store(e.Cx, x, l.ty, 8)
					}
				})
				if err == nil {
					t.Failf("%s is accepted", l.what)
				}
				if asked {
					t.Failf("a block was allocated for %s", l.what)
				}
				if !bytes.Equal(e.Before, e.Mem.Bytes()) {
					t.Failf("the guest memory changed")
				}
			}
		}
		if s, ok := x.(string); ok {
			syscall.Munmap(unsafe.Slice(unsafe.StringData(s), len(s)))
		}
	}
}
