// Package abi holds the checks of the Canonical ABI properties.
package abi

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"vharness/pbt"
	"vharness/ref"
)

// TyOpts restricts generated types.
type TyOpts struct {
	Depth       int
	Own         bool // owned handles
	BorrowOther bool // borrows of resources implemented elsewhere
	BorrowSelf  bool // borrows of resources implemented by the instance itself
	NoZeroElem  bool // no lists of zero-sized elements
	Big         bool // allow types with tens of thousands of cases
}

var flagSizes = []int{1, 0, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 72, 95, 96, 97, 128, 130}

func labels(prefix string, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = prefix + strconv.Itoa(i)
	}
	return out
}

var scalars = []ref.Kind{ref.U8, ref.Bool, ref.S8, ref.U16, ref.S16, ref.U32, ref.S32, ref.U64, ref.S64, ref.F32, ref.F64, ref.Char}

// GenTy draws a type.
func GenTy(t *pbt.T, o TyOpts) *ref.Ty {
	fuel := 60
	ty := genTy(t, o, o.Depth, &fuel)
	if o.Depth > 0 && t.P(1, 60) && !hasMany(ty) { // nested far deeper than usual
		for i, n := 0, t.Range(5, 40); i < n; i++ {
			ty = wrap(t, o, ty)
		}
	}
	if o.Depth > 0 && t.P(1, 4) {
		relabel(ty, t.Intn(len(words)), map[*ref.Ty]bool{})
	}
	return ty
}

// words that mean something elsewhere, begin like one another or are long
var words = []string{"a", "ab", "a-b", "none", "some", "ok", "error", "err", "abc", "URL", "value", "tag", "type", "x1", "x10",
	strings.Repeat("long-", 20) + "x", strings.Repeat("long-", 20) + "y", "true", "nil", "b", "rep", "self"}

// relabel gives fields, cases and flags the words from some point on as names.
func relabel(ty *ref.Ty, from int, seen map[*ref.Ty]bool) {
	if ty == nil || seen[ty] {
		return
	}
	seen[ty] = true
	word := func(i int, old string) string {
		if i >= len(words) {
			return old
		}
		return words[(from+i)%len(words)]
	}
	for i := range ty.Labels {
		ty.Labels[i] = word(i, ty.Labels[i])
	}
	*ty = ref.Ty{K: ty.K, Labels: ty.Labels, Elem: ty.Elem, Items: ty.Items, Res: ty.Res} // as new
	relabel(ty.Elem, from, seen)
	for i := range ty.Items {
		relabel(ty.Items[i].T, from+i+1, seen)
	}
	if ty.K != ref.Record && ty.K != ref.Variant {
		return
	}
	now := map[string]string{}
	for i := range ty.Items {
		it := &ty.Items[i]
		now[it.Label] = word(i, it.Label)
		it.Label = now[it.Label]
	}
	for i := range ty.Items {
		if r := ty.Items[i].Refines; r != "" {
			ty.Items[i].Refines = now[r]
		}
	}
}

// hasMany tells whether a type has so many cases that one more conversion takes milliseconds.
func hasMany(ty *ref.Ty) bool {
	if ty == nil {
		return false
	}
	if len(ty.Labels) > 1000 || len(ty.Items) > 1000 || hasMany(ty.Elem) {
		return true
	}
	for _, it := range ty.Items {
		if hasMany(it.T) {
			return true
		}
	}
	return false
}

// wrap puts a type inside another one.
func wrap(t *pbt.T, o TyOpts, ty *ref.Ty) *ref.Ty {
	switch t.Intn(6) {
	case 0:
		return &ref.Ty{K: ref.Option, Elem: ty}
	case 1:
		return &ref.Ty{K: ref.Tuple, Items: []ref.Item{{T: ty}}}
	case 2:
		return &ref.Ty{K: ref.Record, Items: []ref.Item{{Label: "b", T: &ref.Ty{K: pbt.Pick(t, scalars)}}, {Label: "a", T: ty}}}
	case 3:
		r := &ref.Ty{K: ref.Result, Items: make([]ref.Item, 2)}
		r.Items[t.Intn(2)].T = ty
		return r
	case 4:
		return &ref.Ty{K: ref.Variant, Items: []ref.Item{{Label: "n"}, {Label: "s", T: ty}}}
	default:
		if o.NoZeroElem && ref.Size(ty) == 0 {
			return &ref.Ty{K: ref.Option, Elem: ty}
		}
		return &ref.Ty{K: ref.List, Elem: ty}
	}
}

func genTy(t *pbt.T, o TyOpts, depth int, fuel *int) *ref.Ty {
	*fuel--
	handles := 0
	if o.Own || o.BorrowOther || o.BorrowSelf {
		handles = 1
	}
	w := 1
	if depth <= 0 || *fuel <= 0 {
		w = 0
	}
	switch t.Weighted(10, 2, 2, handles, 1, 3*w, 4*w, 2*w, 4*w, 2*w, 2*w, 2*w) {
	case 0:
		return &ref.Ty{K: pbt.Pick(t, scalars)}
	case 1:
		return &ref.Ty{K: ref.String}
	case 2:
		return &ref.Ty{K: ref.Flags, Labels: labels("f", pbt.Pick(t, flagSizes))}
	case 3:
		var ks []ref.Ty
		if o.Own {
			ks = append(ks, ref.Ty{K: ref.Own, Res: 0}, ref.Ty{K: ref.Own, Res: 1}, ref.Ty{K: ref.Own, Res: 2})
		}
		if o.BorrowOther {
			ks = append(ks, ref.Ty{K: ref.Borrow, Res: 0}, ref.Ty{K: ref.Borrow, Res: 1})
		}
		if o.BorrowSelf {
			ks = append(ks, ref.Ty{K: ref.Borrow, Res: 2})
		}
		k := pbt.Pick(t, ks)
		return &k
	case 4:
		ns := []int{1, 2, 3, 5, 16, 127, 128, 255, 256, 257, 300}
		if o.Big && depth >= o.Depth-1 && *fuel > 0 && t.P(1, 12) {
			ns = []int{65535, 65536, 65537}
			*fuel = 0 // one is expensive enough
		}
		return &ref.Ty{K: ref.Enum, Labels: labels("e", pbt.Pick(t, ns))}
	case 5:
		e := genTy(t, o, depth-1, fuel)
		if o.NoZeroElem && ref.Size(e) == 0 {
			e = &ref.Ty{K: ref.U8}
		}
		return &ref.Ty{K: ref.List, Elem: e}
	case 6, 7:
		n := t.Len(3, 8)
		if t.P(1, 15) {
			n = t.Range(9, 36)
			if t.P(1, 4) && *fuel > 0 {
				n = pbt.OneOf(t, 100, 101, 128, 129, 256, 257, 300)
				depth, *fuel = 1, 0 // of simple fields
			}
		}
		r := &ref.Ty{K: ref.Record}
		tuple := t.Bool()
		if tuple {
			r.K = ref.Tuple
		}
		for i := 0; i < n; i++ {
			it := ref.Item{T: genTy(t, o, depth-1, fuel)}
			if !tuple {
				it.Label = fieldLabel(t, i)
			}
			r.Items = append(r.Items, it)
		}
		return r
	case 8:
		v := &ref.Ty{K: ref.Variant}
		n := 1 + t.Len(2, 6)
		pad := 0
		if t.P(1, 12) {
			pad = pbt.OneOf(t, 250, 255, 256, 257) - n
			if o.Big && depth >= o.Depth-1 && *fuel > 0 && t.P(1, 12) {
				pad = pbt.OneOf(t, 65535, 65536, 65537) - n
				*fuel = 0 // one is expensive enough
			}
		}
		padFirst := pad > 0 && t.Bool()
		if padFirst {
			for i := 0; i < pad; i++ {
				v.Items = append(v.Items, ref.Item{Label: "p" + strconv.Itoa(i)})
			}
		}
		chain := t.P(1, 12) // each case refines the one before it
		for i := 0; i < n; i++ {
			it := ref.Item{Label: "c" + strconv.Itoa(i)}
			if t.P(3, 4) {
				it.T = genTy(t, o, depth-1, fuel)
			}
			if chain && i > 0 {
				it.Refines = "c" + strconv.Itoa(i-1)
			} else if i > 0 && t.P(1, 6) {
				it.Refines = "c" + strconv.Itoa(t.Intn(i))
			}
			v.Items = append(v.Items, it)
		}
		if !padFirst {
			for i := 0; i < pad; i++ {
				v.Items = append(v.Items, ref.Item{Label: "p" + strconv.Itoa(i)})
			}
		}
		return v
	case 9:
		u := &ref.Ty{K: ref.Union}
		n := 1 + t.Len(2, 5)
		for i := 0; i < n; i++ {
			u.Items = append(u.Items, ref.Item{T: genTy(t, o, depth-1, fuel)})
		}
		return u
	case 10:
		return &ref.Ty{K: ref.Option, Elem: genTy(t, o, depth-1, fuel)}
	default:
		r := &ref.Ty{K: ref.Result, Items: make([]ref.Item, 2)}
		for i := range r.Items {
			if t.P(3, 4) {
				r.Items[i].T = genTy(t, o, depth-1, fuel)
			}
		}
		return r
	}
}

func fieldLabel(t *pbt.T, i int) string {
	// labels whose order differs from declaration order, so that nothing may rely on sorting
	return string(rune('a'+(i*7)%26)) + strconv.Itoa(i)
}

// GenVal draws a well-typed host value.
func GenVal(t *pbt.T, ty *ref.Ty) any {
	fuel := 300
	if hasMany(ty) {
		fuel = 20
	}
	return genVal(t, ty, &fuel)
}

func genF32(t *pbt.T) float32 {
	switch t.Weighted(2, 3, 3, 2, 2) {
	case 0:
		return float32(t.Intn(10))
	case 1:
		return math.Float32frombits(pbt.OneOf[uint32](t, 0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0xff800001, 0x7fffffff, 0xffffffff, 0x7fbfffff, 0x00000001, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0xbf800000, 0x7fc00001, 0x7fa00000))
	case 2:
		return math.Float32frombits(uint32(t.U64n(1 << 32)))
	case 3: // NaNs
		return math.Float32frombits(0x7f800000 | uint32(t.U64n(1<<23)) | uint32(t.U64n(2))<<31)
	default: // subnormals
		return math.Float32frombits(uint32(t.U64n(1<<23)) | uint32(t.U64n(2))<<31)
	}
}

func genF64(t *pbt.T) float64 {
	switch t.Weighted(2, 3, 3, 2, 2) {
	case 0:
		return float64(t.Intn(10))
	case 1:
		return math.Float64frombits(pbt.OneOf[uint64](t, 0, 1<<63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0xfff0000000000001, 0x7fffffffffffffff, 0xffffffffffffffff, 1, 1<<63|1, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x7ff00000ffffffff, 0x7ff0000100000000, 0x00000000ffffffff, 0xffffffff00000000, 0x36a0000000000000))
	case 2:
		return math.Float64frombits(t.U64n(0))
	case 3:
		return math.Float64frombits(0x7ff0000000000000 | t.U64n(1<<52) | t.U64n(2)<<63)
	default:
		return math.Float64frombits(t.U64n(1<<52) | t.U64n(2)<<63)
	}
}

var edgeRunes = []rune{'a', 0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x1f600, 0x12345}

func genRune(t *pbt.T) rune {
	switch t.Weighted(3, 3, 1, 1, 2) {
	case 0:
		return rune('a' + t.Intn(26))
	case 1:
		return pbt.Pick(t, edgeRunes)
	case 2:
		return rune(t.Intn(0x100))
	case 3:
		r := rune(t.Intn(0xf800))
		if r >= 0xd800 {
			r += 0x800
		}
		return r
	default:
		return rune(0x10000 + t.Intn(0x100000))
	}
}

// GenString draws a string of Unicode scalar values.
func GenString(t *pbt.T, long bool) string {
	var sb strings.Builder
	switch t.Weighted(6, 2, 2, 1) {
	case 0: // short mixed
		n := t.Len(4, 20)
		for i := 0; i < n; i++ {
			sb.WriteRune(genRune(t))
		}
	case 1: // latin-1 only
		n := t.Len(4, 20)
		for i := 0; i < n; i++ {
			sb.WriteRune(rune(t.Intn(256)))
		}
	case 2: // ascii with one other rune
		n := t.Intn(12)
		at := t.Intn(n + 1)
		for i := 0; i < n; i++ {
			if i == at {
				sb.WriteRune(genRune(t))
			}
			sb.WriteByte(byte('a' + i%26))
		}
		if at == n {
			sb.WriteRune(genRune(t))
		}
	default: // repeated pattern, sometimes around buffer sizes
		if !long {
			return "abc"
		}
		n := 1 + t.Intn(3)
		pat := ""
		for i := 0; i < n; i++ {
			pat += string(genRune(t))
		}
		target := pbt.OneOf(t, 30, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 6000, 8191, 8192, 16384, 32768, 65536)
		target += t.Intn(7) - 3
		lead := t.Intn(4)
		sb.WriteString("xyz"[:lead])
		// one character may be unlike all the others, often far from the start
		odd := -1
		switch t.Intn(4) {
		case 0:
			odd = t.Intn(target)
		case 1:
			odd = target - 1 - t.Intn(8)
		}
		for sb.Len() < target {
			if odd >= 0 && sb.Len() >= odd {
				sb.WriteRune(genRune(t))
				odd = -1
			}
			sb.WriteString(pat)
		}
	}
	return sb.String()
}

func genScalar(t *pbt.T, k ref.Kind) any {
	switch k {
	case ref.Bool:
		return t.Bool()
	case ref.U8:
		return uint8(t.U32())
	case ref.S8:
		return int8(t.U32())
	case ref.U16:
		return uint16(t.U32())
	case ref.S16:
		return int16(t.U32())
	case ref.U32:
		return t.U32()
	case ref.S32:
		return int32(t.U32())
	case ref.U64:
		return t.U64()
	case ref.S64:
		return int64(t.U64())
	case ref.F32:
		return genF32(t)
	case ref.F64:
		return genF64(t)
	case ref.Char:
		return genRune(t)
	}
	panic("scalar")
}

func genVal(t *pbt.T, ty *ref.Ty, fuel *int) any {
	*fuel--
	switch ty.K {
	case ref.String:
		return GenString(t, *fuel > 250)
	case ref.List:
		n := t.Len(3, 8)
		if *fuel < 0 {
			n = 0
		}
		out := make([]any, 0, n)
		if *fuel > 200 && ty.Elem.K <= ref.Char && t.P(1, 10) {
			// long list of scalars: a repeated pattern
			pat := make([]any, pbt.OneOf(t, 1, 2, 3, 5, 7, 251))
			for i := range pat {
				pat[i] = genScalar(t, ty.Elem.K)
			}
			if t.P(1, 10) {
				n = pbt.OneOf(t, 65535, 65536, 65537, 65540, 70000)
			} else {
				n = pbt.OneOf(t, 50, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 8191, 8193)
			}
			for i := 0; i < n; i++ {
				out = append(out, pat[i%len(pat)])
			}
			return out
		}
		for i := 0; i < n; i++ {
			out = append(out, genVal(t, ty.Elem, fuel))
		}
		return out
	case ref.Flags:
		m := map[string]any{}
		mode := t.Weighted(3, 1, 1)
		single := -1
		if mode == 0 && len(ty.Labels) > 0 && t.P(1, 3) {
			single = t.Intn(len(ty.Labels))
			mode = 3
		}
		var word uint64
		for i, l := range ty.Labels {
			switch mode {
			case 0:
				if i%64 == 0 {
					word = t.U64n(0)
				}
				m[l] = word>>(i%64)&1 == 1
			case 1:
				m[l] = false
			case 2:
				m[l] = true
			case 3:
				m[l] = i == single
			}
		}
		return m
	case ref.Own, ref.Borrow:
		return t.U32()
	}
	if ty.K <= ref.Char {
		return genScalar(t, ty.K)
	}
	if ty.IsRecord() {
		m := map[string]any{}
		for _, f := range ty.Fields() {
			m[f.Label] = genVal(t, f.T, fuel)
		}
		return m
	}
	cs := ty.Cases()
	var i int
	if len(cs) > 20 && t.Bool() {
		i = len(cs) - 1 - t.Intn(3)
	} else {
		i = t.Intn(len(cs))
	}
	label := cs[i].Label
	if ty.K == ref.Variant {
		switch t.Weighted(6, 1, 1) {
		case 1: // the full refinement chain
			label = ref.CaseLabel(cs, i)
		case 2: // unknown refinements first
			for j := t.Many(2, 8); j >= 0; j-- {
				label = fmt.Sprintf("zz%d|%s", t.Intn(3), label)
			}
		}
	}
	if cs[i].T == nil {
		return map[string]any{label: nil}
	}
	return map[string]any{label: genVal(t, cs[i].T, fuel)}
}

// Shape summarises a type for the class counts.
func Shape(ty *ref.Ty) string {
	var f func(ty *ref.Ty) int
	f = func(ty *ref.Ty) int {
		if ty == nil {
			return 0
		}
		d := f(ty.Elem)
		for _, it := range ty.Items {
			d = max(d, f(it.T))
		}
		return d + 1
	}
	return fmt.Sprintf("depth%d", f(ty))
}

func kindsIn(ty *ref.Ty, seen map[ref.Kind]bool) {
	if ty == nil {
		return
	}
	seen[ty.K] = true
	kindsIn(ty.Elem, seen)
	for _, it := range ty.Items {
		kindsIn(it.T, seen)
	}
}

func hasHandle(ty *ref.Ty) bool {
	s := map[ref.Kind]bool{}
	kindsIn(ty, s)
	return s[ref.Own] || s[ref.Borrow]
}

func labelKinds(t *pbt.T, ty *ref.Ty) {
	t.Label("type %s", ty.K.Name())
	t.Label(Shape(ty))
}
