package abi

import (
	"fmt"
	"math"
	"strconv"

	abiio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"vharness/pbt"
	"vharness/ref"
)

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// valueCase draws a typed value in a guest, with room reserved for its image.
type valueCase struct {
	env *Env
	ty  *ref.Ty
	lib types.ValType
	v   any
	ptr uint32
}

func drawEnc(t *pbt.T) ref.Enc { return pbt.Pick(t, encs) }

func drawCase(t *pbt.T, ty *ref.Ty, v any) *valueCase {
	c := &valueCase{ty: ty, v: v}
	enc := drawEnc(t)
	al := ref.Align(ty)
	off := al * uint64(t.Intn(5))
	c.ptr = uint32(off)
	c.env = NewEnv(t, enc, off+ref.Size(ty))
	c.lib = c.env.Lib(ty)
	t.Case(func() string {
		return clip(fmt.Sprintf("type %s value %s encoding %s address %d memory %d", ty, ref.Show(v), enc, c.ptr, len(c.env.Before)))
	})
	labelKinds(t, ty)
	if ty.K > ref.Char {
		t.NonTrivial(ty.String() + ref.Show(v) + enc.String())
	}
	return c
}

var roundTripTypes = TyOpts{Depth: 4, Own: true, BorrowOther: true, Big: true}

func lawStoreLoad(t *pbt.T) {
	ty := GenTy(t, roundTripTypes)
	c := drawCase(t, ty, GenVal(t, ty))
	want := ref.Norm(c.v, ty)
	t.Must(abiio.Store(c.env.Cx, c.v, c.lib, c.ptr), "Store")
	got, err := abiio.Load(c.env.NewCx(), c.lib, c.ptr)
	t.Must(err, "Load")
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("loaded value differs: %s", d)
	}
	if !hasHandle(ty) {
		again, err := abiio.Load(c.env.NewCx(), c.lib, c.ptr)
		t.Must(err, "second Load")
		if d := ref.Diff(again, want, ""); d != "" {
			t.Failf("second load differs: %s", d)
		}
	}
}

// Several values side by side in one memory keep out of each other's way.
func lawManyStores(t *pbt.T) {
	n := 2 + t.Intn(4)
	enc := drawEnc(t)
	type one struct {
		ty  *ref.Ty
		v   any
		ptr uint64
	}
	var all []one
	at := uint64(t.Intn(9))
	for i := 0; i < n; i++ {
		ty := GenTy(t, TyOpts{Depth: 2, Own: true, BorrowOther: true})
		a := ref.Align(ty)
		at = (at + a - 1) / a * a
		all = append(all, one{ty, GenVal(t, ty), at})
		at += ref.Size(ty)
	}
	e := NewEnv(t, enc, at)
	t.Case(func() string {
		s := enc.String()
		for _, o := range all {
			s += fmt.Sprintf("; %s = %s at %d", o.ty, ref.Show(o.v), o.ptr)
		}
		return clip(s)
	})
	key := ""
	order := t.Intn(2)
	for i := range all {
		o := all[i]
		if order == 1 {
			o = all[n-1-i]
		}
		key += o.ty.String() + ref.Show(o.v)
		t.Must(abiio.Store(e.Cx, o.v, e.Lib(o.ty), uint32(o.ptr)), "Store")
	}
	t.NonTrivial(key)
	for _, o := range all {
		got, err := abiio.Load(e.NewCx(), e.Lib(o.ty), uint32(o.ptr))
		t.Must(err, "Load")
		if d := ref.Diff(got, ref.Norm(o.v, o.ty), ""); d != "" {
			t.Failf("value of %s at %d differs after storing its neighbours: %s", o.ty, o.ptr, d)
		}
	}
}

// A value the model wrote is read back, and vice versa the model reads what
// the library wrote.
func lawModelReads(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 4, Own: true, BorrowOther: true, Big: true})
	c := drawCase(t, ty, GenVal(t, ty))
	want := ref.Norm(c.v, ty)
	if t.Bool() {
		s := c.env.Storer()
		s.Store(c.v, ty, uint64(c.ptr))
		got, err := abiio.Load(c.env.Cx, c.lib, c.ptr)
		t.Must(err, "Load")
		if d := ref.Diff(got, want, ""); d != "" {
			t.Failf("canonical image loads differently: %s", d)
		}
		return
	}
	t.Must(abiio.Store(c.env.Cx, c.v, c.lib, c.ptr), "Store")
	got, err := c.env.Loader(t).Load(ty, uint64(c.ptr))
	if err != nil {
		t.Failf("stored image is not canonical: %v", err)
	}
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("stored image denotes another value: %s", d)
	}
}

func lawFlatRoundTrip(t *pbt.T) {
	n := 1
	if t.P(1, 3) {
		n = 2 + t.Intn(2)
	}
	var tys []*ref.Ty
	var vs []any
	for i := 0; i < n; i++ {
		ty := GenTy(t, roundTripTypes)
		tys = append(tys, ty)
		vs = append(vs, GenVal(t, ty))
	}
	enc := drawEnc(t)
	e := NewEnv(t, enc, 0)
	t.Case(func() string {
		s := enc.String()
		for i := range tys {
			s += fmt.Sprintf("; %s = %s", tys[i], ref.Show(vs[i]))
		}
		return clip(s)
	})
	labelKinds(t, tys[0])
	if n > 1 || tys[0].K > ref.Char {
		t.NonTrivial(fmt.Sprint(tys) + ref.Show(vs) + enc.String())
	}
	var flat []values.Value
	var upto []int
	for i := range tys {
		f, err := abiio.LowerFlat(e.Cx, vs[i], e.Lib(tys[i]))
		t.Must(err, "LowerFlat")
		flat = append(flat, f...)
		upto = append(upto, len(flat))
	}
	flat = append(flat, values.U32(7), values.Float64(7)) // more than was lowered
	vi := values.NewIterator(flat...)
	for i := range tys {
		got, err := abiio.LiftFlat(e.NewCx(), vi, e.Lib(tys[i]))
		t.Must(err, "LiftFlat")
		if d := ref.Diff(got, ref.Norm(vs[i], tys[i]), ""); d != "" {
			t.Failf("lifted value differs: %s", d)
		}
		if vi.Index() != upto[i] {
			t.Failf("lifting %s consumed core values up to %d, lowering produced up to %d", tys[i], vi.Index(), upto[i])
		}
	}
}

// The flat bits that the model makes lift to the value, and the other way round.
func lawFlatModel(t *pbt.T) {
	ty := GenTy(t, roundTripTypes)
	c := drawCase(t, ty, GenVal(t, ty))
	ks := ref.Flatten(ty)
	s := c.env.Storer()
	bits := s.LowerFlat(c.v, ty)
	vi := values.NewIterator(coreValues(bits, ks)...)
	got, err := abiio.LiftFlat(c.env.Cx, vi, c.lib)
	t.Must(err, "LiftFlat")
	if d := ref.Diff(got, ref.Norm(c.v, ty), ""); d != "" {
		t.Failf("canonical core values lift differently: %s", d)
	}
	if vi.Index() != len(ks) {
		t.Failf("lifting consumed %d of %d core values", vi.Index(), len(ks))
	}
}

func lawImage(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 4, Own: true, BorrowOther: true, BorrowSelf: true, Big: true})
	c := drawCase(t, ty, GenVal(t, ty))
	sizeAlign(t, c.env, ty)
	t.Must(abiio.Store(c.env.Cx, c.v, c.lib, c.ptr), "Store")
	checkImage(t, c.env, []any{c.v}, []*ref.Ty{ty}, []uint64{uint64(c.ptr)}, nil)
}

// checkImage verifies images at the given addresses, the allocations and
// that nothing else changed.
func checkImage(t *pbt.T, e *Env, vs []any, tys []*ref.Ty, ptrs []uint64, extra []ref.Block) {
	ch := e.Checker()
	for i := range vs {
		if d := ch.Image(vs[i], tys[i], ptrs[i], "value"); d != "" {
			t.Failf("memory image is not canonical: %s", d)
		}
	}
	ch.Blocks = append(ch.Blocks, extra...)
	if d := SameBlocks(e.Blocks, ch.Blocks); d != "" {
		t.Failf("%s", d)
	}
	// padding inside the value's own extent is left alone too
	if d := e.Stray(ch.Own); d != "" {
		t.Failf("%s", d)
	}
}

func sizeAlign(t *pbt.T, e *Env, ty *ref.Ty) {
	lib := e.Lib(ty)
	size, err := abiio.Size(lib)
	t.Must(err, "Size")
	al, err := abiio.Alignment(lib)
	t.Must(err, "Alignment")
	if uint64(size) != ref.Size(ty) || uint64(al) != ref.Align(ty) {
		t.Failf("size %d alignment %d of %s, canonical are %d and %d", size, al, ty, ref.Size(ty), ref.Align(ty))
	}
}

func lawSizes(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 5, Own: true, BorrowOther: true, BorrowSelf: true, Big: true})
	t.Case(func() string { return clip(ty.String()) })
	labelKinds(t, ty)
	if ty.K > ref.Char {
		t.NonTrivial(ty.String())
	}
	sizeAlign(t, NewEnv(t, ref.UTF8, 0), ty)
}

// Every flags width, enum width and one-field record around it.
func lawSizesEnum(t *pbt.T) {
	i := int(t.Index)
	var ty *ref.Ty
	switch {
	case i < 200:
		ty = &ref.Ty{K: ref.Flags, Labels: labels("f", i)}
	case i < 600:
		ty = &ref.Ty{K: ref.Enum, Labels: labels("e", i-200+1)}
	case i < 900: // variants with n cases, the last with a payload
		n := i - 600 + 1
		ty = &ref.Ty{K: ref.Variant}
		for j := 0; j < n; j++ {
			ty.Items = append(ty.Items, ref.Item{Label: fmt.Sprint("c", j)})
		}
		ty.Items[n-1].T = &ref.Ty{K: scalars[n%len(scalars)]}
	case i < 905:
		n := []int{65534, 65535, 65536, 65537, 70000}[i-900]
		ty = &ref.Ty{K: ref.Enum, Labels: labels("e", n)}
	case i < 905+len(wideSizes): // records
		ty = &ref.Ty{K: ref.Record}
		for j := 0; j < wideSizes[i-905]; j++ {
			ty.Items = append(ty.Items, ref.Item{Label: "f" + strconv.Itoa(j), T: &ref.Ty{K: scalars[(i+j*5+j*j)%len(scalars)]}})
		}
	default: // every payload behind a discriminant of every width
		i -= 905 + len(wideSizes)
		n := []int{2, 256, 257, 65536, 65537}[i/len(scalars)]
		ty = &ref.Ty{K: ref.Variant}
		for j := 0; j < n; j++ {
			ty.Items = append(ty.Items, ref.Item{Label: "c" + strconv.Itoa(j)})
		}
		ty.Items[n-1].T = &ref.Ty{K: scalars[i%len(scalars)]}
	}
	t.Case(func() string { return clip(ty.String()) })
	t.NonTrivial(fmt.Sprint(i))
	e := NewEnv(t, ref.UTF8, 0)
	sizeAlign(t, e, ty)
	// between two other fields
	sizeAlign(t, e, &ref.Ty{K: ref.Tuple, Items: []ref.Item{{T: &ref.Ty{K: ref.U8}}, {T: ty}, {T: &ref.Ty{K: ref.U8}}}})
	k, err := abiio.FlattenType(e.Lib(ty))
	t.Must(err, "FlattenType")
	if d := kindsDiff(k, ref.Flatten(ty)); d != "" {
		t.Failf("flattening: %s", d)
	}
	// the extreme values of the type, in memory and flat
	for _, ends := range []bool{false, true} {
		v := endValue(ty, ends)
		c := &valueCase{env: NewEnv(t, ref.UTF8, 64+ref.Size(ty)), ty: ty, v: v, ptr: 32}
		c.lib = c.env.Lib(ty)
		t.Must(abiio.Store(c.env.Cx, v, c.lib, c.ptr), "Store")
		checkImage(t, c.env, []any{v}, []*ref.Ty{ty}, []uint64{32}, nil)
		got, err := abiio.Load(c.env.Cx, c.lib, c.ptr)
		t.Must(err, "Load")
		if d := ref.Diff(got, ref.Norm(v, ty), ""); d != "" {
			t.Failf("loaded value differs: %s", d)
		}
		flat, err := abiio.LowerFlat(c.env.Cx, v, c.lib)
		t.Must(err, "LowerFlat")
		checkFlat(t, c.env, v, ty, flat)
		got, err = abiio.LiftFlat(c.env.Cx, values.NewIterator(flat...), c.lib)
		t.Must(err, "LiftFlat")
		if d := ref.Diff(got, ref.Norm(v, ty), ""); d != "" {
			t.Failf("lifted value differs: %s", d)
		}
	}
}

var sizesEnum = 905 + len(wideSizes) + 5*len(scalars)

var ends = map[ref.Kind]any{ref.Bool: true, ref.U8: uint8(255), ref.S8: int8(-1), ref.U16: uint16(65535), ref.S16: int16(-2), ref.U32: uint32(0xfffffffe), ref.S32: int32(-3), ref.U64: ^uint64(0) - 3, ref.S64: int64(-4), ref.F32: float32(-1.5), ref.F64: -2.5, ref.Char: rune(0x10ffff)}

func endValue(ty *ref.Ty, last bool) any {
	if ty.K == ref.Flags {
		m := map[string]any{}
		for i, l := range ty.Labels {
			m[l] = last == (i == len(ty.Labels)-1)
		}
		return m
	}
	if ty.IsRecord() {
		m := map[string]any{}
		for i, f := range ty.Fields() {
			if last {
				m[f.Label] = ends[f.T.K]
			} else { // different from one field to the next
				m[f.Label] = map[ref.Kind]any{ref.Bool: i%3 == 0, ref.U8: uint8(i), ref.S8: int8(i), ref.U16: uint16(i), ref.S16: int16(-i), ref.U32: uint32(i), ref.S32: int32(-i), ref.U64: uint64(i) << 40, ref.S64: int64(-i) << 33, ref.F32: float32(i), ref.F64: float64(-i), ref.Char: rune(i)}[f.T.K]
			}
		}
		return m
	}
	cs := ty.Cases()
	i := 0
	if last {
		i = len(cs) - 1
	}
	var p any
	if cs[i].T != nil {
		p = ends[cs[i].T.K]
	}
	return map[string]any{cs[i].Label: p}
}

func checkFlat(t *pbt.T, e *Env, v any, ty *ref.Ty, flat []values.Value) {
	bits, d := bitsOf(flat, ref.Flatten(ty))
	if d != "" {
		t.Failf("lowered %s: %s", ty, d)
	}
	ch := e.Checker()
	if _, d := ch.Flat(v, ty, bits, "value"); d != "" {
		t.Failf("core values are not canonical: %s", d)
	}
}

func lawFlattenType(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 5, Own: true, BorrowOther: true, BorrowSelf: true})
	t.Case(func() string { return clip(ty.String()) })
	labelKinds(t, ty)
	if ty.K > ref.Char {
		t.NonTrivial(ty.String())
	}
	e := NewEnv(t, ref.UTF8, 0)
	k, err := abiio.FlattenType(e.Lib(ty))
	t.Must(err, "FlattenType")
	if d := kindsDiff(k, ref.Flatten(ty)); d != "" {
		t.Failf("flattening of %s is %s", ty, d)
	}
}

func drawFunc(t *pbt.T, o TyOpts, maxN int) (ps, rs []*ref.Ty) {
	draw := func(avg int) (out []*ref.Ty) {
		n := t.Len(avg, maxN)
		if t.P(1, 40) { // far more than usual, of simple types
			n = pbt.OneOf(t, 33, 40, 64, 99, 101, 127, 128, 129, 150, 255, 256, 257, 300)
			o.Depth = 0
		}
		for i := 0; i < n; i++ {
			out = append(out, GenTy(t, o))
		}
		return
	}
	ps = draw(3)
	rs = draw(1)
	return
}

func (e *Env) libFunc(ps, rs []*ref.Ty) types.FuncType {
	mk := func(ts []*ref.Ty, prefix string) []types.Parameter {
		var out []types.Parameter
		for i, x := range ts {
			out = append(out, types.Parameter{Name: fmt.Sprint(prefix, i), Type: e.Lib(x)})
		}
		return out
	}
	return types.NewFuncType(mk(ps, "p"), mk(rs, "r"))
}

func wantSig(ps, rs []*ref.Ty, maxP, maxR int, lower bool) (p, r []ref.CK) {
	p, r = ref.FlattenAll(ps), ref.FlattenAll(rs)
	if len(p) > maxP {
		p = []ref.CK{ref.I32}
	}
	if len(r) > maxR {
		if lower {
			p = append(append([]ref.CK{}, p...), ref.I32)
			r = nil
		} else {
			r = []ref.CK{ref.I32}
		}
	}
	return
}

func lawFlattenFunc(t *pbt.T) {
	ps, rs := drawFunc(t, TyOpts{Depth: 3, Own: true, BorrowOther: true}, 20)
	e := NewEnv(t, ref.UTF8, 0)
	maxP, maxR := 16, 1
	if t.P(2, 3) {
		maxP, maxR = t.Intn(24), t.Intn(6)
		if t.P(1, 8) {
			maxP, maxR = pbt.OneOf(t, 100, 127, 128, 255, 256, 1000, 100000), pbt.OneOf(t, 16, 127, 128, 255, 256, 1000, 100000)
		}
		if t.Bool() { // right at the limit
			maxP = max(0, len(ref.FlattenAll(ps))-t.Intn(2))
			maxR = max(0, len(ref.FlattenAll(rs))-t.Intn(2))
		}
	}
	t.Case(func() string { return clip(fmt.Sprintf("func %v -> %v limits %d %d", ps, rs, maxP, maxR)) })
	t.NonTrivial(fmt.Sprint(ps, rs, maxP, maxR))
	t.Label("params spilled %v results spilled %v", len(ref.FlattenAll(ps)) > maxP, len(ref.FlattenAll(rs)) > maxR)
	ft := e.libFunc(ps, rs)
	for _, lower := range []bool{false, true} {
		f := abiio.FlattenFuncTypeLift
		if lower {
			f = abiio.FlattenFuncTypeLower
		}
		core, err := f(ft, maxP, maxR)
		t.Must(err, "flatten function")
		p, r := wantSig(ps, rs, maxP, maxR, lower)
		if d := kindsDiff(coreKinds(core.Params()), p); d != "" {
			t.Failf("core params (lower=%v): %s", lower, d)
		}
		if d := kindsDiff(coreKinds(core.Results()), r); d != "" {
			t.Failf("core results (lower=%v): %s", lower, d)
		}
	}
}

func coreKinds(ks []kind.Kind) []kind.Kind { return ks }

func lawFlatValues(t *pbt.T) {
	ty := GenTy(t, TyOpts{Depth: 4, Own: true, BorrowOther: true, BorrowSelf: true, Big: true})
	c := drawCase(t, ty, GenVal(t, ty))
	flat, err := abiio.LowerFlat(c.env.Cx, c.v, c.lib)
	t.Must(err, "LowerFlat")
	checkFlat(t, c.env, c.v, ty, flat)
	bits, _ := bitsOf(flat, ref.Flatten(ty))
	ch := c.env.Checker()
	ch.Flat(c.v, ty, bits, "")
	if d := SameBlocks(c.env.Blocks, ch.Blocks); d != "" {
		t.Failf("%s", d)
	}
	if d := c.env.Stray(nil); d != "" {
		t.Failf("%s", d)
	}
}

// floats

func floatTy(t *pbt.T, depth int) *ref.Ty {
	w := 1
	if depth <= 0 {
		w = 0
	}
	switch t.Weighted(2, 2, w, w, w, 2*w, w, w) {
	case 0:
		return &ref.Ty{K: ref.F32}
	case 1:
		return &ref.Ty{K: ref.F64}
	case 2:
		return &ref.Ty{K: ref.List, Elem: floatTy(t, depth-1)}
	case 3:
		r := &ref.Ty{K: ref.Tuple}
		for i, n := 0, 1+t.Intn(4); i < n; i++ {
			r.Items = append(r.Items, ref.Item{T: floatTy(t, depth-1)})
		}
		return r
	case 4:
		r := &ref.Ty{K: ref.Record}
		for i, n := 0, 1+t.Intn(4); i < n; i++ {
			r.Items = append(r.Items, ref.Item{Label: fieldLabel(t, i), T: floatTy(t, depth-1)})
		}
		return r
	case 5: // joined with integers
		r := &ref.Ty{K: ref.Variant}
		others := []ref.Kind{ref.F32, ref.F64, ref.U32, ref.U64, ref.U8, ref.S64, ref.Bool, ref.Char}
		for i, n := 0, 1+t.Intn(4); i < n; i++ {
			it := ref.Item{Label: fmt.Sprint("c", i)}
			if t.Bool() {
				it.T = floatTy(t, depth-1)
			} else {
				it.T = &ref.Ty{K: pbt.Pick(t, others)}
			}
			r.Items = append(r.Items, it)
		}
		return r
	case 6:
		return &ref.Ty{K: ref.Option, Elem: floatTy(t, depth-1)}
	default:
		return &ref.Ty{K: ref.Result, Items: []ref.Item{{T: floatTy(t, depth-1)}, {T: floatTy(t, depth-1)}}}
	}
}

func lawFloatNested(t *pbt.T) {
	ty := floatTy(t, 3)
	c := drawCase(t, ty, GenVal(t, ty))
	t.NonTrivial(ty.String() + ref.Show(c.v))
	floatAll(t, c)
}

func floatAll(t *pbt.T, c *valueCase) {
	want := ref.Norm(c.v, c.ty)
	t.Must(abiio.Store(c.env.Cx, c.v, c.lib, c.ptr), "Store")
	if d := c.env.Checker().Image(c.v, c.ty, uint64(c.ptr), "value"); d != "" {
		t.Failf("stored bits: %s", d)
	}
	got, err := abiio.Load(c.env.Cx, c.lib, c.ptr)
	t.Must(err, "Load")
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("loaded: %s", d)
	}
	flat, err := abiio.LowerFlat(c.env.Cx, c.v, c.lib)
	t.Must(err, "LowerFlat")
	checkFlat(t, c.env, c.v, c.ty, flat)
	got, err = abiio.LiftFlat(c.env.Cx, values.NewIterator(flat...), c.lib)
	t.Must(err, "LiftFlat")
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("lifted: %s", d)
	}
}

// Bits that a guest supplies, uncanonicalized, in memory and as core values.
func lawFloatGuest(t *pbt.T) {
	ty := floatTy(t, 3)
	v := GenVal(t, ty)
	c := drawCase(t, ty, v)
	t.NonTrivial(ty.String() + ref.Show(c.v))
	want := ref.Norm(v, ty)
	s := c.env.Storer()
	s.RawFloats = true
	s.Store(v, ty, uint64(c.ptr))
	got, err := abiio.Load(c.env.Cx, c.lib, c.ptr)
	t.Must(err, "Load")
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("loaded: %s", d)
	}
	bits := s.LowerFlat(v, ty)
	got, err = abiio.LiftFlat(c.env.Cx, values.NewIterator(coreValues(bits, ref.Flatten(ty))...), c.lib)
	t.Must(err, "LiftFlat")
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("lifted: %s", d)
	}
}

// A sweep over all exponents and many mantissas for bare floats.
func lawFloatScalar(t *pbt.T) {
	e := NewEnv(t, ref.UTF8, 16)
	n := 64
	wide := t.Bool()
	sign := t.U64n(2)
	exp := t.U64n(2048)
	t.Case(func() string { return fmt.Sprintf("wide %v sign %d exponent %d", wide, sign, exp) })
	t.NonTrivial(fmt.Sprint(wide, sign, exp, t.U64n(1<<20)))
	for i := 0; i < n; i++ {
		var m uint64
		if i < 4 {
			m = []uint64{0, 1, 1 << 51, 1<<52 - 1}[i]
		} else {
			m = t.U64n(1 << 52)
		}
		var v any
		ty := &ref.Ty{K: ref.F64}
		if wide {
			v = math.Float64frombits(sign<<63 | exp<<52 | m)
		} else {
			v = math.Float32frombits(uint32(sign<<31 | (exp&255)<<23 | m>>29))
			if i == 1 {
				v = math.Float32frombits(uint32(sign<<31 | (exp&255)<<23 | 1))
			}
			ty.K = ref.F32
		}
		floatAll(t, &valueCase{env: e, ty: ty, lib: e.Lib(ty), v: v, ptr: 8})
	}
}
