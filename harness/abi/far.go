package abi

import (
	"bytes"
	"fmt"
	"strings"
	"syscall"

	abiio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"vharness/pbt"
	"vharness/ref"
)

// Guests with large memories. The pages are mapped, not allocated, and only the
// few that are touched exist.

const farMargin = 64

// farEnv makes a guest with a memory of the given size, all zero.
func farEnv(t *pbt.T, enc ref.Enc, size uint64) (*Env, func()) {
	b, err := syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		t.Discard()
	}
	syscall.Madvise(b, 15) // no huge pages
	e := makeEnv(enc, 0, 0, 0, 0, 0)
	e.Mem = bytes.NewBuffer(b)
	e.Opts.Memory = e.Mem
	e.Opts.Realloc = func(op, os, align, n uint32) (uint32, error) {
		if align == 0 {
			return 0, fmt.Errorf("alignment 0")
		}
		if a := uint64(align); (e.Next+a-1)/a*a+uint64(n) > size {
			return 0, fmt.Errorf("out of memory")
		}
		return e.Realloc(op, os, align, n)
	}
	return e, func() { syscall.Munmap(b) }
}

// farCase is a value at the edge of something in a large memory.
type farCase struct {
	valueCase
	size  uint64 // of the memory
	base  uint64 // of the blocks
	total uint64 // size of all blocks
}

// need is the room for the blocks of a value from an address that is a multiple of eight.
func need(v any, ty *ref.Ty, enc ref.Enc) uint64 {
	e := makeEnv(enc, ref.Size(ty)+8, ref.Size(ty)+8, 1, 0, 0)
	start := (e.Next + 7) / 8 * 8
	e.Next = start
	e.Storer().Store(v, ty, 0)
	return e.Next - start
}

// edge draws a place for n bytes at the end of memory or around a power of two.
func edge(t *pbt.T, size, n, align uint64) uint64 {
	at := size
	for _, b := range []uint64{1 << 31, 1 << 24, 1 << 20, 1 << 16, 1 << 28, 1 << 30} {
		if n < b && b+n+1024 < size && t.P(1, 5) {
			at = b + t.U64n(n+16)
			break
		}
	}
	return (at - n) / align * align
}

func drawFar(t *pbt.T, o TyOpts) (*farCase, func()) {
	ty := GenTy(t, o)
	v := GenVal(t, ty)
	enc := drawEnc(t)
	c := &farCase{valueCase: valueCase{ty: ty, v: v}}
	c.size = pbt.OneOf[uint64](t, 1<<32, 1<<32, 1<<32-65536, 1<<31, 1<<31+65536, 1<<24+65536, 1<<20)
	c.total = need(v, ty, enc)
	if c.total > 1<<19 {
		t.Discard()
	}
	c.ptr = uint32(edge(t, c.size, ref.Size(ty), ref.Align(ty)))
	c.base = edge(t, c.size, c.total, 8)
	if c.base < uint64(c.ptr)+ref.Size(ty)+farMargin && uint64(c.ptr) < c.base+c.total+farMargin {
		c.base = (uint64(c.ptr) - c.total - 2*farMargin) / 8 * 8
		if uint64(c.ptr) < c.total+2*farMargin {
			t.Discard()
		}
	}
	e, done := farEnv(t, enc, c.size)
	c.env = e
	e.Next = c.base
	c.lib = e.Lib(ty)
	t.Case(func() string {
		return clip(fmt.Sprintf("type %s value %s encoding %s address %#x blocks from %#x on, memory of %#x bytes", ty, ref.Show(v), enc, c.ptr, c.base, c.size))
	})
	if c.ptr >= 1<<31 {
		t.Label("address above 2^31")
	}
	t.NonTrivial(fmt.Sprint(ty, ref.Show(v), enc, c.ptr, c.base, c.size))
	return c, done
}

// lawFarStore: values are written to and read from the edges of large memories.
func lawFarStore(t *pbt.T) {
	c, done := drawFar(t, TyOpts{Depth: 2, Own: true, BorrowOther: true, NoZeroElem: true})
	defer done()
	e, mem := c.env, c.env.Mem.Bytes()
	// what lies around the value and its blocks, and where a cut address would lead
	type window struct {
		lo     uint64
		before []byte
	}
	var windows []window
	covered := func(i uint64) bool {
		for _, w := range windows {
			if i >= w.lo && i < w.lo+uint64(len(w.before)) {
				return true
			}
		}
		return false
	}
	watch := func(lo, n uint64) {
		if lo >= c.size || covered(lo) || covered(lo+n-1) {
			return
		}
		hi := min(lo+n, c.size)
		windows = append(windows, window{lo, append([]byte(nil), mem[lo:hi]...)})
	}
	mark := func(lo, n uint64) {
		lo -= min(lo, farMargin)
		hi := min(lo+n+2*farMargin, c.size)
		for i := lo; i < hi; i++ {
			mem[i] = 0xa5
		}
		watch(lo, hi-lo)
	}
	size := ref.Size(c.ty)
	mark(uint64(c.ptr), size)
	mark(c.base, c.total)
	for _, k := range []uint64{16, 20, 24, 28, 30, 31} {
		watch(uint64(c.ptr)&(1<<k-1), size+1)
		watch(c.base&(1<<k-1), c.total+1)
	}
	watch(0, farMargin)
	want := ref.Norm(c.v, c.ty)
	if t.P(1, 3) {
		s := e.Storer()
		s.Store(c.v, c.ty, uint64(c.ptr))
	} else {
		t.NoPanic("Store", func() { t.Must(abiio.Store(e.Cx, c.v, c.lib, c.ptr), "Store") })
		own := map[uint64]bool{}
		ch := e.checker()
		ch.Mark = func(i uint64) { own[i] = true }
		if d := ch.Image(c.v, c.ty, uint64(c.ptr), "value"); d != "" {
			t.Failf("memory image is not canonical: %s", d)
		}
		if d := SameBlocks(e.Blocks, ch.Blocks); d != "" {
			t.Failf("%s", d)
		}
		for _, b := range e.Blocks {
			for i := b.Ptr; i < b.Ptr+b.Size; i++ {
				own[i] = true
			}
		}
		for _, w := range windows {
			for i := range w.before {
				if at := w.lo + uint64(i); mem[at] != w.before[i] && !own[at] {
					t.Failf("byte %#x changed from %02x to %02x but belongs to nothing that was written", at, w.before[i], mem[at])
				}
			}
		}
	}
	var got any
	var err error
	t.NoPanic("Load", func() { got, err = abiio.Load(e.NewCx(), c.lib, c.ptr) })
	t.Must(err, "Load")
	if d := ref.Diff(got, want, ""); d != "" {
		t.Failf("loaded value differs: %s", d)
	}
}

// lawFarLoad: guests with large memories pass addresses near their end.
func lawFarLoad(t *pbt.T) {
	c, done := drawFar(t, TyOpts{Depth: 2, NoZeroElem: true})
	defer done()
	e, mem := c.env, c.env.Mem.Bytes()
	s := e.Storer()
	s.Store(c.v, c.ty, uint64(c.ptr))
	for i, n := 0, t.Intn(3); i < n && len(s.Spots) > 0; i++ {
		at := pbt.Pick(t, s.Spots)
		var x uint64
		switch t.Intn(4) {
		case 0: // an address at the end
			x = c.size - uint64(t.Intn(24))
		case 1:
			x = uint64(t.Intn(24))
		case 2:
			x = 1<<32 - uint64(t.Intn(24))
		case 3:
			x = 1<<31 + uint64(t.Intn(24)) - 12
		}
		for j := uint64(0); j < 4 && at+j < c.size; j++ {
			mem[at+j] = byte(x >> (8 * j))
		}
	}
	if t.P(1, 3) {
		al := ref.Align(c.ty)
		c.ptr = uint32((c.size - uint64(t.Intn(24))) / al * al)
	}
	ptr := uint64(c.ptr)
	if ptr%ref.Align(c.ty) != 0 {
		t.Discard()
	}
	ld := e.Loader(t)
	ld.Touch = func(lo, hi uint64) {
		if hi-lo > 1<<20 {
			t.Discard()
		}
	}
	how := t.Intn(2)
	t.Case(func() string {
		return clip(fmt.Sprintf("load type %s (way %d) encoding %s address %#x, memory of %#x bytes; value before it was disturbed %s", c.ty, how, e.Enc, c.ptr, c.size, ref.Show(c.v)))
	})
	want, werr := ld.Load(c.ty, ptr)
	if ptr+ref.Size(c.ty) > c.size {
		werr = &ref.Trap{Why: "address outside memory"}
	}
	var got any
	var err error
	t.NoPanic("lifting", func() {
		if how == 1 && len(ref.Flatten(c.ty)) > 0 {
			var vs []any
			vs, err = abiio.LiftValues(e.Cx, 0, values.NewIterator(values.U32(c.ptr)), []types.ValType{c.lib})
			if err == nil {
				got = vs[0]
			}
			return
		}
		got, err = abiio.Load(e.Cx, c.lib, c.ptr)
	})
	verdict(t, got, err, want, werr)
}

// lawFarAlloc: the allocator of a guest with a large memory answers with the last
// block that fits, or one that does not.
func lawFarAlloc(t *pbt.T) {
	c, done := drawFar(t, TyOpts{Depth: 2, NoZeroElem: true})
	defer done()
	e, mem := c.env, c.env.Mem.Bytes()
	bad := t.Bool()
	over := uint64(t.Intn(9))
	k := t.Intn(3)
	broken := false
	calls := 0
	lo := make([]byte, 256)
	copy(lo, mem)
	e.Opts.Realloc = func(op, os, align, n uint32) (uint32, error) {
		a := uint64(align)
		p := (e.Next + a - 1) / a * a
		if a == 0 || p+uint64(n) > c.size {
			return 0, fmt.Errorf("out of memory")
		}
		calls++
		if bad && calls-1 == k && n > 0 {
			// past the end by a little
			q := (c.size - uint64(n) + over) / a * a
			if q+uint64(n) > c.size && q < 1<<32 {
				broken = true
				return uint32(q), nil
			}
		}
		return e.Realloc(op, os, align, n)
	}
	how := t.Intn(3)
	t.Case(func() string {
		return clip(fmt.Sprintf("lower type %s value %s encoding %s (way %d) address %#x blocks from %#x on, memory of %#x bytes, block %d past the end %v", c.ty, ref.Show(c.v), e.Enc, how, c.ptr, c.base, c.size, k, bad))
	})
	var err error
	t.NoPanic("lowering", func() {
		switch how {
		case 0:
			err = abiio.Store(e.Cx, c.v, c.lib, c.ptr)
		case 1:
			_, err = abiio.LowerFlat(e.Cx, c.v, c.lib)
		default:
			// the caller's address for the result
			_, err = abiio.LowerValues(e.Cx, 0, []any{c.v}, []types.ValType{c.lib}, values.NewIterator(values.U32(c.ptr)))
		}
	})
	if broken && err == nil {
		t.Failf("a block that ends outside of memory is used")
	}
	if !broken {
		t.Must(err, "lowering")
	}
	if uint64(c.ptr) > 256 && c.base > 256 && !bytes.Equal(lo, mem[:256]) {
		t.Failf("the beginning of memory changed")
	}
}

type farText struct {
	name string
	n    int
	unit string
}

var farTexts = func() (out []farText) {
	for _, n := range []int{1<<16 + 1, 1 << 18, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 3, 1<<24 + 1} {
		for _, u := range []string{"a", "\u00e9", "\u20ac", "\U0001f600"} {
			if n < 1<<24 || u == "a" {
				out = append(out, farText{fmt.Sprintf("%d times %q", n, u), n, u})
			}
		}
	}
	return
}()

// lawLongText: texts of a mebibyte and more.
func lawLongText(t *pbt.T) {
	c := farTexts[int(t.Index)/3]
	enc := encs[int(t.Index)%3]
	s := strings.Repeat(c.unit, c.n-1) + "z"
	t.Case(func() string { return fmt.Sprintf("text of %s and z, encoding %s", c.name, enc) })
	t.NonTrivial(c.name + enc.String())
	e, done := farEnv(t, enc, 1<<28)
	defer done()
	e.Next = 1 << 16
	t.Must(abiio.Store(e.Cx, s, types.NewString(), 8), "Store")
	ch := e.checker()
	ch.Mark = func(uint64) {}
	if d := ch.Image(s, &ref.Ty{K: ref.String}, 8, "text"); d != "" {
		t.Failf("memory image is not canonical: %s", d)
	}
	if d := SameBlocks(e.Blocks, ch.Blocks); d != "" {
		t.Failf("%s", d)
	}
	got, err := abiio.Load(e.Cx, types.NewString(), 8)
	t.Must(err, "Load")
	if got != any(s) {
		t.Failf("the text changed")
	}
	// the last unit is disturbed
	b := e.Blocks[len(e.Blocks)-1]
	e.Mem.Bytes()[b.Ptr+b.Size-2] = 0xd8
	e.Mem.Bytes()[b.Ptr+b.Size-1] = 0xd8
	ld := &ref.Loader{Mem: e.Mem.Bytes(), Enc: enc}
	want, werr := ld.Load(&ref.Ty{K: ref.String}, 8)
	got, err = abiio.Load(e.NewCx(), types.NewString(), 8)
	if werr == nil && err == nil && got != want {
		t.Failf("the disturbed text lifts differently")
	}
	if (werr == nil) != (err == nil) {
		t.Failf("the disturbed text: %v, want %v", err, werr)
	}
}

var longLists = []int{1<<16 + 1, 1 << 18, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 1}

// lawLongList: lists of a million elements and more.
func lawLongList(t *pbt.T) {
	n := longLists[int(t.Index)/4]
	ty := []*ref.Ty{{K: ref.U8}, {K: ref.U16}, {K: ref.S64}, {K: ref.Bool}}[t.Index%4]
	t.Case(func() string { return fmt.Sprintf("list of %d elements of type %s", n, ty) })
	t.NonTrivial(fmt.Sprint(n, ty))
	e, done := farEnv(t, ref.UTF8, 1<<28)
	defer done()
	e.Next = 1 << 16
	val := func(i int) any {
		switch ty.K {
		case ref.U8:
			return uint8(i * 7 >> 3)
		case ref.U16:
			return uint16(i * 7 >> 3)
		case ref.S64:
			return int64(i) * -0x123456789
		}
		return i*7>>4&1 == 1
	}
	vs := make([]any, n)
	for i := range vs {
		vs[i] = val(i)
	}
	lib := types.NewList(e.Lib(ty))
	flat, err := abiio.LowerFlat(e.Cx, vs, lib)
	t.Must(err, "LowerFlat")
	if len(e.Blocks) != 1 || len(flat) != 2 || flat[0] != values.Value(values.U32(e.Blocks[0].Ptr)) || flat[1] != values.Value(values.U32(n)) {
		t.Failf("lowered to %v with blocks %v", flat, e.Blocks)
	}
	sz := ref.Size(ty)
	mem := e.Mem.Bytes()[e.Blocks[0].Ptr:]
	for i := range vs {
		x := uint64(0)
		for j := uint64(0); j < sz; j++ {
			x |= uint64(mem[uint64(i)*sz+j]) << (8 * j)
		}
		if want := ref.Bits(vs[i]); x<<(64-8*sz) != want<<(64-8*sz) {
			t.Failf("element %d is stored as %#x, want %#x", i, x, want)
		}
	}
	got, err := abiio.LiftFlat(e.Cx, values.NewIterator(flat...), lib)
	t.Must(err, "LiftFlat")
	l, ok := got.([]any)
	if !ok || len(l) != n {
		t.Failf("lifted %T of another length", got)
	}
	for i := range l {
		if l[i] != vs[i] {
			t.Failf("element %d is %v, want %v", i, l[i], vs[i])
		}
	}
}
