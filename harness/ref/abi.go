// Package ref is an independent model of the component-model Canonical ABI,
// written from the specification (CanonicalABI.md, 2023 edition that the
// project implements). It shares no code with the project and does all
// address arithmetic in 64 bits.
package ref

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Kind of a component type.
type Kind int

const (
	Bool Kind = iota
	U8
	S8
	U16
	S16
	U32
	S32
	U64
	S64
	F32
	F64
	Char
	String
	List
	Record
	Tuple
	Flags
	Variant
	Enum
	Union
	Option
	Result
	Own
	Borrow
)

var kindNames = []string{"bool", "u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64", "f32", "f64", "char", "string", "list", "record", "tuple", "flags", "variant", "enum", "union", "option", "result", "own", "borrow"}

// Ty is a component type.
type Ty struct {
	K      Kind
	Elem   *Ty    // list, option
	Items  []Item // record fields, tuple items, variant cases, union members, result ok/error
	Labels []string
	Res    int // resource type number

	cases  []Item // of an enum, made when first needed
	weight int
}

// Weight is the number of types, cases and labels that decide the layout.
func (t *Ty) Weight() int {
	if t.weight == 0 {
		t.weight = 1 + len(t.Labels)
		for _, it := range t.Items {
			t.weight++
			if it.T != nil {
				t.weight += it.T.Weight()
			}
		}
		if t.K != List && t.Elem != nil {
			t.weight += t.Elem.Weight()
		}
	}
	return t.weight
}

// Item is a field or a case.
type Item struct {
	Label   string
	T       *Ty
	Refines string
}

// Enc is a guest string encoding.
type Enc int

const (
	UTF8 Enc = iota
	UTF16
	Latin1UTF16
)

func (e Enc) String() string { return []string{"utf8", "utf16", "latin1+utf16"}[e] }

func (t *Ty) String() string {
	if t == nil {
		return "_"
	}
	n := kindNames[t.K]
	items := func(named bool) string {
		var s []string
		for i, it := range t.Items {
			if i > 40 {
				s = append(s, fmt.Sprintf("...%d", len(t.Items)))
				break
			}
			x := it.T.String()
			if named {
				x = it.Label + ":" + x
				if it.Refines != "" {
					x += " refines " + it.Refines
				}
			}
			s = append(s, x)
		}
		return n + "{" + strings.Join(s, ",") + "}"
	}
	switch t.K {
	case List, Option:
		return n + "<" + t.Elem.String() + ">"
	case Record, Variant:
		return items(true)
	case Tuple, Union, Result:
		return items(false)
	case Flags, Enum:
		return fmt.Sprintf("%s#%d", n, len(t.Labels))
	case Own, Borrow:
		return fmt.Sprintf("%s<r%d>", n, t.Res)
	}
	return n
}

// Settle works out what is otherwise worked out on first use, so that the type
// can be shared.
func (t *Ty) Settle() {
	if t == nil {
		return
	}
	if t.K == Enum {
		t.Cases()
	}
	t.Elem.Settle()
	for _, it := range t.Items {
		it.T.Settle()
	}
}

// Cases gives the case list of a variant-like type.
func (t *Ty) Cases() []Item {
	switch t.K {
	case Variant:
		return t.Items
	case Enum:
		if len(t.cases) != len(t.Labels) {
			t.cases = make([]Item, len(t.Labels))
			for i, l := range t.Labels {
				t.cases[i] = Item{Label: l}
			}
		}
		return t.cases
	case Union:
		c := make([]Item, len(t.Items))
		for i, it := range t.Items {
			c[i] = Item{Label: strconv.Itoa(i), T: it.T}
		}
		return c
	case Option:
		return []Item{{Label: "none"}, {Label: "some", T: t.Elem}}
	case Result:
		return []Item{{Label: "ok", T: t.Items[0].T}, {Label: "error", T: t.Items[1].T}}
	}
	return nil
}

// Fields gives the field list of a record-like type.
func (t *Ty) Fields() []Item {
	if t.K == Tuple {
		f := make([]Item, len(t.Items))
		for i, it := range t.Items {
			f[i] = Item{Label: strconv.Itoa(i), T: it.T}
		}
		return f
	}
	return t.Items
}

func (t *Ty) IsVariant() bool {
	switch t.K {
	case Variant, Enum, Union, Option, Result:
		return true
	}
	return false
}

func (t *Ty) IsRecord() bool { return t.K == Record || t.K == Tuple }

func discSize(n int) uint64 {
	switch {
	case n <= 1<<8:
		return 1
	case n <= 1<<16:
		return 2
	}
	return 4
}

// CaseLabel is the label a lifted case carries: its own followed by what it refines.
func CaseLabel(cases []Item, i int) string {
	l := cases[i].Label
	c := cases[i]
	for c.Refines != "" {
		j := -1
		for k := range cases {
			if cases[k].Label == c.Refines {
				j = k
				break
			}
		}
		if j < 0 {
			break
		}
		c = cases[j]
		l += "|" + c.Label
	}
	return l
}

// MatchCase finds the case a host label designates.
func MatchCase(cases []Item, label string) int {
	for _, part := range strings.Split(label, "|") {
		for i := range cases {
			if cases[i].Label == part {
				return i
			}
		}
	}
	return -1
}

func up(x, a uint64) uint64 { return (x + a - 1) / a * a }

// Align is the canonical alignment.
func Align(t *Ty) uint64 {
	switch t.K {
	case Bool, U8, S8:
		return 1
	case U16, S16:
		return 2
	case U32, S32, F32, Char, String, List, Own, Borrow:
		return 4
	case U64, S64, F64:
		return 8
	case Flags:
		switch n := len(t.Labels); {
		case n <= 8:
			return 1
		case n <= 16:
			return 2
		}
		return 4
	}
	a := uint64(1)
	if t.IsRecord() {
		for _, f := range t.Fields() {
			a = max(a, Align(f.T))
		}
		return a
	}
	cs := t.Cases()
	return max(discSize(len(cs)), payloadAlign(cs))
}

func payloadAlign(cs []Item) uint64 {
	a := uint64(1)
	for _, c := range cs {
		if c.T != nil {
			a = max(a, Align(c.T))
		}
	}
	return a
}

// Size is the canonical size.
func Size(t *Ty) uint64 {
	switch t.K {
	case Bool, U8, S8:
		return 1
	case U16, S16:
		return 2
	case U32, S32, F32, Char, Own, Borrow:
		return 4
	case U64, S64, F64, String, List:
		return 8
	case Flags:
		switch n := len(t.Labels); {
		case n == 0:
			return 0
		case n <= 8:
			return 1
		case n <= 16:
			return 2
		default:
			return 4 * uint64((n+31)/32)
		}
	}
	if t.IsRecord() {
		s := uint64(0)
		for _, f := range t.Fields() {
			s = up(s, Align(f.T)) + Size(f.T)
		}
		return up(s, Align(t))
	}
	cs := t.Cases()
	m := uint64(0)
	for _, c := range cs {
		if c.T != nil {
			m = max(m, Size(c.T))
		}
	}
	return up(up(discSize(len(cs)), payloadAlign(cs))+m, Align(t))
}

// PayloadOffset is where the payload of a variant starts.
func PayloadOffset(t *Ty) uint64 { return up(discSize(len(t.Cases())), payloadAlign(t.Cases())) }

// CK is a core value kind.
type CK int

const (
	I32 CK = iota
	I64
	CF32
	CF64
)

func (c CK) String() string { return []string{"i32", "i64", "f32", "f64"}[c] }

// Flatten is the canonical flattening.
func Flatten(t *Ty) []CK {
	switch t.K {
	case Bool, U8, S8, U16, S16, U32, S32, Char, Own, Borrow:
		return []CK{I32}
	case U64, S64:
		return []CK{I64}
	case F32:
		return []CK{CF32}
	case F64:
		return []CK{CF64}
	case String, List:
		return []CK{I32, I32}
	case Flags:
		return make([]CK, (len(t.Labels)+31)/32)
	}
	var out []CK
	if t.IsRecord() {
		for _, f := range t.Fields() {
			out = append(out, Flatten(f.T)...)
		}
		return out
	}
	out = []CK{I32}
	for _, c := range t.Cases() {
		if c.T == nil {
			continue
		}
		for i, k := range Flatten(c.T) {
			if i+1 >= len(out) {
				out = append(out, k)
				continue
			}
			have := out[i+1]
			switch {
			case have == k:
			case (have == I32 && k == CF32) || (have == CF32 && k == I32):
				out[i+1] = I32
			default:
				out[i+1] = I64
			}
		}
	}
	return out
}

// FlattenAll flattens a list of types.
func FlattenAll(ts []*Ty) []CK {
	var out []CK
	for _, t := range ts {
		out = append(out, Flatten(t)...)
	}
	return out
}

// TupleOf makes a tuple type.
func TupleOf(ts []*Ty) *Ty {
	t := &Ty{K: Tuple}
	for _, x := range ts {
		t.Items = append(t.Items, Item{T: x})
	}
	return t
}

const (
	NaN32 = 0x7fc00000
	NaN64 = 0x7ff8000000000000
)

// CanonBits32 and CanonBits64 are the bits a float has after crossing.
func CanonBits32(f float32) uint32 {
	b := math.Float32bits(f)
	if b&0x7fffffff > 0x7f800000 {
		return NaN32
	}
	return b
}

func CanonBits64(f float64) uint64 {
	b := math.Float64bits(f)
	if b&0x7fffffffffffffff > 0x7ff0000000000000 {
		return NaN64
	}
	return b
}

// Norm is the value a well-typed host value v of type t lifts back to.
func Norm(v any, t *Ty) any {
	switch t.K {
	case F32:
		return math.Float32frombits(CanonBits32(v.(float32)))
	case F64:
		return math.Float64frombits(CanonBits64(v.(float64)))
	case List:
		var out []any
		for _, e := range v.([]any) {
			out = append(out, Norm(e, t.Elem))
		}
		return out
	case Flags:
		m := map[string]any{}
		for _, l := range t.Labels {
			m[l] = v.(map[string]any)[l]
		}
		return m
	}
	if t.IsRecord() {
		m := map[string]any{}
		for _, f := range t.Fields() {
			m[f.Label] = Norm(v.(map[string]any)[f.Label], f.T)
		}
		return m
	}
	if t.IsVariant() {
		cs := t.Cases()
		for l, p := range v.(map[string]any) {
			i := MatchCase(cs, l)
			if cs[i].T == nil {
				return map[string]any{CaseLabel(cs, i): nil}
			}
			return map[string]any{CaseLabel(cs, i): Norm(p, cs[i].T)}
		}
	}
	return v
}

// Diff compares two host values bit for bit and describes the first difference.
func Diff(got, want any, path string) string {
	switch w := want.(type) {
	case float32:
		g, ok := got.(float32)
		if !ok || math.Float32bits(g) != math.Float32bits(w) {
			return fmt.Sprintf("%s: got %s want %s", path, Show(got), Show(want))
		}
		return ""
	case float64:
		g, ok := got.(float64)
		if !ok || math.Float64bits(g) != math.Float64bits(w) {
			return fmt.Sprintf("%s: got %s want %s", path, Show(got), Show(want))
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: got %s want %s", path, Show(got), Show(want))
		}
		for i := range w {
			if d := Diff(g[i], w[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: got %s want %s", path, Show(got), Show(want))
		}
		for k, x := range w {
			y, ok := g[k]
			if !ok {
				return fmt.Sprintf("%s: key %q missing in %s", path, k, Show(got))
			}
			if d := Diff(y, x, path+"."+k); d != "" {
				return d
			}
		}
		return ""
	}
	if got != want {
		return fmt.Sprintf("%s: got %s want %s", path, Show(got), Show(want))
	}
	return ""
}

// Show prints a host value.
func Show(v any) string {
	var s string
	switch x := v.(type) {
	case float32:
		s = fmt.Sprintf("f32:%08x", math.Float32bits(x))
	case float64:
		s = fmt.Sprintf("f64:%016x", math.Float64bits(x))
	case string:
		s = strconv.QuoteToASCII(x)
	case []any:
		var p []string
		for i, e := range x {
			if i > 30 {
				p = append(p, fmt.Sprintf("...%d", len(x)))
				break
			}
			p = append(p, Show(e))
		}
		s = "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for _, k := range sortedKeys(x) {
			if len(p) > 40 {
				p = append(p, fmt.Sprintf("...%d", len(x)))
				break
			}
			p = append(p, k+":"+Show(x[k]))
		}
		s = "{" + strings.Join(p, ",") + "}"
	case nil:
		s = "nil"
	default:
		s = fmt.Sprintf("%T(%v)", v, v)
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func sortedKeys(m map[string]any) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// EncodeString gives the bytes and the tagged length of a string.
func EncodeString(s string, e Enc) (b []byte, tagged uint32) {
	switch e {
	case UTF8:
		return []byte(s), uint32(len(s))
	case UTF16:
		b = utf16Bytes(s)
		return b, uint32(len(b) / 2)
	}
	latin := true
	for _, r := range s {
		if r > 0xff {
			latin = false
		}
	}
	if latin {
		for _, r := range s {
			b = append(b, byte(r))
		}
		return b, uint32(len(b))
	}
	b = utf16Bytes(s)
	return b, uint32(len(b)/2) | 1<<31
}

func utf16Bytes(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}

// StringAlign is the alignment of a string's bytes in an encoding.
func StringAlign(e Enc) uint64 {
	if e == UTF8 {
		return 1
	}
	return 2
}

// Trap is returned by the model where the ABI traps.
type Trap struct{ Why string }

func (t *Trap) Error() string { return "model trap: " + t.Why }

func trap(f string, a ...any) error { return &Trap{fmt.Sprintf(f, a...)} }

// Loader lifts values from a memory image.
type Loader struct {
	Mem []byte
	Enc Enc
	// Handle resolves a handle number, for own and borrow.
	Handle func(t *Ty, h uint32) (any, error)
	Touch  func(lo, hi uint64) // called for every range read
	Step   func(int)           // called for every value loaded with its share of work
}

func (l *Loader) bytes(ptr, n uint64) ([]byte, error) {
	if ptr+n > uint64(len(l.Mem)) {
		return nil, trap("range %d+%d outside memory %d", ptr, n, len(l.Mem))
	}
	if l.Touch != nil && n > 0 {
		l.Touch(ptr, ptr+n)
	}
	return l.Mem[ptr : ptr+n], nil
}

func (l *Loader) le(ptr, n uint64) (uint64, error) {
	b, err := l.bytes(ptr, n)
	if err != nil {
		return 0, err
	}
	var x uint64
	for i := range b {
		x |= uint64(b[i]) << (8 * i)
	}
	return x, nil
}

// Scalar converts raw bits of a scalar type to a host value.
func Scalar(k Kind, x uint64) (any, error) {
	switch k {
	case Bool:
		return uint32(x) != 0, nil
	case U8:
		return uint8(x), nil
	case S8:
		return int8(x), nil
	case U16:
		return uint16(x), nil
	case S16:
		return int16(x), nil
	case U32:
		return uint32(x), nil
	case S32:
		return int32(x), nil
	case U64:
		return x, nil
	case S64:
		return int64(x), nil
	case F32:
		return math.Float32frombits(CanonBits32(math.Float32frombits(uint32(x)))), nil
	case F64:
		return math.Float64frombits(CanonBits64(math.Float64frombits(x))), nil
	case Char:
		c := uint32(x)
		if c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff) {
			return nil, trap("char %x", c)
		}
		return rune(c), nil
	}
	panic("scalar")
}

func scalarKind(k Kind) bool { return k <= Char }

// Load lifts a value of type t at ptr.
func (l *Loader) Load(t *Ty, ptr uint64) (any, error) {
	if l.Step != nil {
		l.Step(1 + t.Weight()/16)
	}
	if scalarKind(t.K) {
		x, err := l.le(ptr, Size(t))
		if err != nil {
			return nil, err
		}
		return Scalar(t.K, x)
	}
	switch t.K {
	case Own, Borrow:
		x, err := l.le(ptr, 4)
		if err != nil {
			return nil, err
		}
		return l.Handle(t, uint32(x))
	case String, List:
		p, err := l.le(ptr, 4)
		if err != nil {
			return nil, err
		}
		n, err := l.le(ptr+4, 4)
		if err != nil {
			return nil, err
		}
		if t.K == String {
			return l.LoadString(p, uint32(n))
		}
		return l.LoadList(t.Elem, p, n)
	case Flags:
		b, err := l.bytes(ptr, Size(t))
		if err != nil {
			return nil, err
		}
		m := map[string]any{}
		for i, lab := range t.Labels {
			m[lab] = b[i/8]>>(i%8)&1 == 1
		}
		return m, nil
	}
	if t.IsRecord() {
		m := map[string]any{}
		off := ptr
		for _, f := range t.Fields() {
			off = up(off, Align(f.T))
			v, err := l.Load(f.T, off)
			if err != nil {
				return nil, err
			}
			m[f.Label] = v
			off += Size(f.T)
		}
		return m, nil
	}
	cs := t.Cases()
	d, err := l.le(ptr, discSize(len(cs)))
	if err != nil {
		return nil, err
	}
	if d >= uint64(len(cs)) {
		return nil, trap("case %d of %d", d, len(cs))
	}
	if cs[d].T == nil {
		return map[string]any{CaseLabel(cs, int(d)): nil}, nil
	}
	v, err := l.Load(cs[d].T, ptr+PayloadOffset(t))
	if err != nil {
		return nil, err
	}
	return map[string]any{CaseLabel(cs, int(d)): v}, nil
}

// LoadString lifts a string from its pointer and tagged length.
func (l *Loader) LoadString(p uint64, tagged uint32) (any, error) {
	e, n, unit := l.Enc, uint64(tagged), uint64(1)
	latin := false
	switch e {
	case UTF16:
		// The library ignores the tag bit here and its own tests rely on it.
		n = uint64(tagged &^ (1 << 31))
		unit = 2
	case Latin1UTF16:
		if tagged&(1<<31) != 0 {
			n = uint64(tagged &^ (1 << 31))
			unit = 2
		} else {
			latin = true
		}
	}
	if p%StringAlign(e) != 0 {
		return nil, trap("string pointer %d misaligned", p)
	}
	b, err := l.bytes(p, n*unit)
	if err != nil {
		return nil, err
	}
	if latin {
		rs := make([]rune, len(b))
		for i, c := range b {
			rs[i] = rune(c)
		}
		return string(rs), nil
	}
	if unit == 1 {
		if !utf8.Valid(b) {
			return nil, trap("invalid utf-8")
		}
		return string(b), nil
	}
	us := make([]uint16, len(b)/2)
	for i := range us {
		us[i] = uint16(b[2*i]) | uint16(b[2*i+1])<<8
	}
	var sb strings.Builder
	for i := 0; i < len(us); i++ {
		u := us[i]
		switch {
		case u < 0xd800 || u > 0xdfff:
			sb.WriteRune(rune(u))
		case u < 0xdc00 && i+1 < len(us) && us[i+1] >= 0xdc00 && us[i+1] <= 0xdfff:
			sb.WriteRune(0x10000 + (rune(u)-0xd800)<<10 + (rune(us[i+1]) - 0xdc00))
			i++
		default:
			return nil, trap("lone surrogate")
		}
	}
	return sb.String(), nil
}

// LoadList lifts a list from its pointer and length.
func (l *Loader) LoadList(elem *Ty, p, n uint64) (any, error) {
	if p%Align(elem) != 0 {
		return nil, trap("list pointer %d misaligned", p)
	}
	sz := Size(elem)
	if p+n*sz > uint64(len(l.Mem)) {
		return nil, trap("list %d+%d*%d outside memory", p, n, sz)
	}
	var out []any
	for i := uint64(0); i < n; i++ {
		v, err := l.Load(elem, p+i*sz)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

// LiftFlat lifts a value from core bits. Every slot is given as raw bits; a
// 32-bit use of a 64-bit slot takes its low half. It returns how many slots
// were consumed.
func (l *Loader) LiftFlat(t *Ty, bits []uint64) (any, int, error) {
	if scalarKind(t.K) {
		v, err := Scalar(t.K, bits[0])
		return v, 1, err
	}
	switch t.K {
	case Own, Borrow:
		v, err := l.Handle(t, uint32(bits[0]))
		return v, 1, err
	case String:
		v, err := l.LoadString(uint64(uint32(bits[0])), uint32(bits[1]))
		return v, 2, err
	case List:
		v, err := l.LoadList(t.Elem, uint64(uint32(bits[0])), uint64(uint32(bits[1])))
		return v, 2, err
	case Flags:
		m := map[string]any{}
		for i, lab := range t.Labels {
			m[lab] = bits[i/32]>>(i%32)&1 == 1
		}
		return m, (len(t.Labels) + 31) / 32, nil
	}
	if t.IsRecord() {
		m := map[string]any{}
		n := 0
		for _, f := range t.Fields() {
			v, k, err := l.LiftFlat(f.T, bits[n:])
			if err != nil {
				return nil, 0, err
			}
			m[f.Label] = v
			n += k
		}
		return m, n, nil
	}
	cs := t.Cases()
	d := uint32(bits[0])
	if uint64(d) >= uint64(len(cs)) {
		return nil, 0, trap("case %d of %d", d, len(cs))
	}
	total := len(Flatten(t))
	if cs[d].T == nil {
		return map[string]any{CaseLabel(cs, int(d)): nil}, total, nil
	}
	v, _, err := l.LiftFlat(cs[d].T, bits[1:])
	if err != nil {
		return nil, 0, err
	}
	return map[string]any{CaseLabel(cs, int(d)): v}, total, nil
}

// Storer writes canonical images into a memory of its own.
type Storer struct {
	Mem   []byte
	Enc   Enc
	Alloc func(size, align uint64) uint64 // must return a block inside Mem
	// Handle makes a handle number for own and borrow values.
	Handle func(t *Ty, rep uint32) uint32
	// Pointers collects the addresses where pointer/length pairs and
	// discriminants were written, for mutation.
	Spots []uint64
	// RawFloats keeps NaNs as they are.
	RawFloats bool
}

func (s *Storer) put(ptr, x, n uint64) {
	for i := uint64(0); i < n; i++ {
		s.Mem[ptr+i] = byte(x >> (8 * i))
	}
}

// Bits gives the raw bits of a scalar host value, as lowered to a core value.
func Bits(v any) uint64 {
	switch x := v.(type) {
	case bool:
		if x {
			return 1
		}
		return 0
	case uint8:
		return uint64(x)
	case int8:
		return uint64(uint32(int32(x)))
	case uint16:
		return uint64(x)
	case int16:
		return uint64(uint32(int32(x)))
	case uint32:
		return uint64(x)
	case int32:
		return uint64(uint32(x))
	case uint64:
		return x
	case int64:
		return uint64(x)
	case float32:
		return uint64(CanonBits32(x))
	case float64:
		return CanonBits64(x)
	}
	panic(fmt.Sprintf("bits of %T", v))
}

func (s *Storer) bits(v any) uint64 {
	if s.RawFloats {
		switch x := v.(type) {
		case float32:
			return uint64(math.Float32bits(x))
		case float64:
			return math.Float64bits(x)
		}
	}
	return Bits(v)
}

// Store writes v of type t at ptr.
func (s *Storer) Store(v any, t *Ty, ptr uint64) {
	if scalarKind(t.K) {
		s.put(ptr, s.bits(v), Size(t))
		if t.K == Char {
			s.Spots = append(s.Spots, ptr)
		}
		return
	}
	switch t.K {
	case Own, Borrow:
		s.put(ptr, uint64(s.Handle(t, v.(uint32))), 4)
		s.Spots = append(s.Spots, ptr)
		return
	case String, List:
		var p, n uint64
		if t.K == String {
			p, n = s.StoreString(v.(string))
		} else {
			p, n = s.StoreList(v.([]any), t.Elem)
		}
		s.put(ptr, p, 4)
		s.put(ptr+4, n, 4)
		s.Spots = append(s.Spots, ptr, ptr+4)
		return
	case Flags:
		m := v.(map[string]any)
		for i := uint64(0); i < Size(t); i++ {
			s.Mem[ptr+i] = 0
		}
		for i, l := range t.Labels {
			if m[l].(bool) {
				s.Mem[ptr+uint64(i/8)] |= 1 << (i % 8)
			}
		}
		return
	}
	if t.IsRecord() {
		off := ptr
		for _, f := range t.Fields() {
			off = up(off, Align(f.T))
			s.Store(v.(map[string]any)[f.Label], f.T, off)
			off += Size(f.T)
		}
		return
	}
	cs := t.Cases()
	for l, p := range v.(map[string]any) {
		i := MatchCase(cs, l)
		s.put(ptr, uint64(i), discSize(len(cs)))
		s.Spots = append(s.Spots, ptr)
		if cs[i].T != nil {
			s.Store(p, cs[i].T, ptr+PayloadOffset(t))
		}
	}
}

// StoreString writes the bytes of a string and gives pointer and tagged length.
func (s *Storer) StoreString(str string) (uint64, uint64) {
	b, n := EncodeString(str, s.Enc)
	p := s.Alloc(uint64(len(b)), StringAlign(s.Enc))
	copy(s.Mem[p:], b)
	return p, uint64(n)
}

// StoreList writes the elements of a list and gives pointer and length.
func (s *Storer) StoreList(vs []any, elem *Ty) (uint64, uint64) {
	sz := Size(elem)
	p := s.Alloc(uint64(len(vs))*sz, Align(elem))
	for i, v := range vs {
		s.Store(v, elem, p+uint64(i)*sz)
	}
	return p, uint64(len(vs))
}

// LowerFlat lowers v to raw slot bits, one per slot of Flatten(t).
func (s *Storer) LowerFlat(v any, t *Ty) []uint64 {
	if scalarKind(t.K) {
		return []uint64{s.bits(v)}
	}
	switch t.K {
	case Own, Borrow:
		return []uint64{uint64(s.Handle(t, v.(uint32)))}
	case String:
		p, n := s.StoreString(v.(string))
		return []uint64{p, n}
	case List:
		p, n := s.StoreList(v.([]any), t.Elem)
		return []uint64{p, n}
	case Flags:
		out := make([]uint64, (len(t.Labels)+31)/32)
		for i, l := range t.Labels {
			if v.(map[string]any)[l].(bool) {
				out[i/32] |= 1 << (i % 32)
			}
		}
		return out
	}
	var out []uint64
	if t.IsRecord() {
		for _, f := range t.Fields() {
			out = append(out, s.LowerFlat(v.(map[string]any)[f.Label], f.T)...)
		}
		return out
	}
	cs := t.Cases()
	total := len(Flatten(t))
	for l, p := range v.(map[string]any) {
		i := MatchCase(cs, l)
		out = append(out, uint64(i))
		if cs[i].T != nil {
			out = append(out, s.LowerFlat(p, cs[i].T)...)
		}
	}
	for len(out) < total {
		out = append(out, 0)
	}
	return out
}

// Block is an allocated block.
type Block struct{ Ptr, Size, Align uint64 }

// Checker verifies a memory image written by someone else against a value,
// and collects which bytes belong to the value and which blocks it needs.
type Checker struct {
	Mem    []byte
	Enc    Enc
	Handle func(t *Ty, h uint32, rep uint32) string
	Own    []bool       // per byte: belongs to a field of the value (top region)
	Mark   func(uint64) // instead of Own
	Blocks []Block      // blocks the value needs, in the order met
}

func (c *Checker) mark(i uint64) {
	if c.Mark != nil {
		c.Mark(i)
	} else {
		c.Own[i] = true
	}
}

func (c *Checker) get(ptr, n uint64) (uint64, string) {
	if ptr+n > uint64(len(c.Mem)) {
		return 0, fmt.Sprintf("address %d+%d outside memory", ptr, n)
	}
	var x uint64
	for i := uint64(0); i < n; i++ {
		x |= uint64(c.Mem[ptr+i]) << (8 * i)
		c.mark(ptr + i)
	}
	return x, ""
}

func mask(n uint64) uint64 {
	if n == 8 {
		return ^uint64(0)
	}
	return 1<<(8*n) - 1
}

// Image verifies the image of v at ptr.
func (c *Checker) Image(v any, t *Ty, ptr uint64, path string) string {
	if scalarKind(t.K) {
		n := Size(t)
		x, e := c.get(ptr, n)
		if e == "" && x != Bits(v)&mask(n) {
			e = fmt.Sprintf("bytes %0*x want %0*x", 2*n, x, 2*n, Bits(v)&mask(n))
		}
		return at(path, t, ptr, e)
	}
	switch t.K {
	case Own, Borrow:
		x, e := c.get(ptr, 4)
		if e == "" {
			e = c.Handle(t, uint32(x), v.(uint32))
		}
		return at(path, t, ptr, e)
	case String, List:
		p, e := c.get(ptr, 4)
		if e != "" {
			return at(path, t, ptr, e)
		}
		n, e := c.get(ptr+4, 4)
		if e != "" {
			return at(path, t, ptr, e)
		}
		if t.K == String {
			return at(path, t, ptr, c.Str(v.(string), p, n))
		}
		return at(path, t, ptr, c.List(v.([]any), t.Elem, p, n, path))
	case Flags:
		n := Size(t)
		want := make([]byte, n)
		for i, l := range t.Labels {
			if v.(map[string]any)[l].(bool) {
				want[i/8] |= 1 << (i % 8)
			}
		}
		if ptr+n > uint64(len(c.Mem)) {
			return at(path, t, ptr, "outside memory")
		}
		for i := uint64(0); i < n; i++ {
			c.mark(ptr + i)
			if c.Mem[ptr+i] != want[i] {
				return at(path, t, ptr, fmt.Sprintf("flag bytes % x want % x", c.Mem[ptr:ptr+n], want))
			}
		}
		return ""
	}
	if t.IsRecord() {
		off := ptr
		for _, f := range t.Fields() {
			off = up(off, Align(f.T))
			if e := c.Image(v.(map[string]any)[f.Label], f.T, off, path+"."+f.Label); e != "" {
				return e
			}
			off += Size(f.T)
		}
		return ""
	}
	cs := t.Cases()
	for l, p := range v.(map[string]any) {
		i := MatchCase(cs, l)
		d, e := c.get(ptr, discSize(len(cs)))
		if e == "" && d != uint64(i) {
			e = fmt.Sprintf("discriminant %d want %d", d, i)
		}
		if e != "" {
			return at(path, t, ptr, e)
		}
		if cs[i].T != nil {
			return c.Image(p, cs[i].T, ptr+PayloadOffset(t), path+"|"+cs[i].Label)
		}
	}
	return ""
}

func at(path string, t *Ty, ptr uint64, e string) string {
	if e == "" {
		return ""
	}
	return fmt.Sprintf("%s (%s at %d): %s", path, kindNames[t.K], ptr, e)
}

// Str verifies a stored string.
func (c *Checker) Str(s string, p, n uint64) string {
	want, tagged := EncodeString(s, c.Enc)
	if n != uint64(tagged) {
		return fmt.Sprintf("string length word %#x want %#x", n, tagged)
	}
	c.Blocks = append(c.Blocks, Block{p, uint64(len(want)), StringAlign(c.Enc)})
	if p+uint64(len(want)) > uint64(len(c.Mem)) {
		return "string outside memory"
	}
	if string(c.Mem[p:p+uint64(len(want))]) != string(want) {
		return fmt.Sprintf("string bytes %s want %s", clip(c.Mem[p:p+uint64(len(want))]), clip(want))
	}
	for i := range want {
		c.mark(p + uint64(i))
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("% x...(%d)", b[:64], len(b))
	}
	return fmt.Sprintf("% x", b)
}

// List verifies a stored list.
func (c *Checker) List(vs []any, elem *Ty, p, n uint64, path string) string {
	if n != uint64(len(vs)) {
		return fmt.Sprintf("list length %d want %d", n, len(vs))
	}
	sz := Size(elem)
	c.Blocks = append(c.Blocks, Block{p, n * sz, Align(elem)})
	for i, v := range vs {
		if e := c.Image(v, elem, p+uint64(i)*sz, fmt.Sprintf("%s[%d]", path, i)); e != "" {
			return e
		}
	}
	return ""
}

// Flat verifies lowered slot bits against a value; it returns how many slots it used.
func (c *Checker) Flat(v any, t *Ty, bits []uint64, path string) (int, string) {
	if need := len(Flatten(t)); len(bits) < need {
		return 0, fmt.Sprintf("%s: %d slots left, need %d", path, len(bits), need)
	}
	bad := func(i int, want uint64) string {
		return fmt.Sprintf("%s (%s) slot bits %#x want %#x", path, kindNames[t.K], bits[i], want)
	}
	if scalarKind(t.K) {
		if bits[0] != Bits(v) {
			return 0, bad(0, Bits(v))
		}
		return 1, ""
	}
	switch t.K {
	case Own, Borrow:
		if e := c.Handle(t, uint32(bits[0]), v.(uint32)); e != "" {
			return 0, path + ": " + e
		}
		return 1, ""
	case String:
		return 2, at(path, t, bits[0], c.Str(v.(string), bits[0], bits[1]))
	case List:
		return 2, at(path, t, bits[0], c.List(v.([]any), t.Elem, bits[0], bits[1], path))
	case Flags:
		want := make([]uint64, (len(t.Labels)+31)/32)
		for i, l := range t.Labels {
			if v.(map[string]any)[l].(bool) {
				want[i/32] |= 1 << (i % 32)
			}
		}
		for i := range want {
			if bits[i] != want[i] {
				return 0, bad(i, want[i])
			}
		}
		return len(want), ""
	}
	if t.IsRecord() {
		n := 0
		for _, f := range t.Fields() {
			k, e := c.Flat(v.(map[string]any)[f.Label], f.T, bits[n:], path+"."+f.Label)
			if e != "" {
				return 0, e
			}
			n += k
		}
		return n, ""
	}
	cs := t.Cases()
	total := len(Flatten(t))
	for l, p := range v.(map[string]any) {
		i := MatchCase(cs, l)
		if bits[0] != uint64(i) {
			return 0, bad(0, uint64(i))
		}
		n := 1
		if cs[i].T != nil {
			k, e := c.Flat(p, cs[i].T, bits[1:], path+"|"+cs[i].Label)
			if e != "" {
				return 0, e
			}
			n += k
		}
		for ; n < total; n++ {
			if bits[n] != 0 {
				return 0, bad(n, 0)
			}
		}
	}
	return total, ""
}

// Name is the name of a kind.
func (k Kind) Name() string { return kindNames[k] }
