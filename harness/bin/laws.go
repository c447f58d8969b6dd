package bin

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"

	"vharness/pbt"
	"vharness/stream"
)

func genTypes(t *pbt.T) []byte {
	n := t.Len(2, 12)
	if t.P(1, 40) {
		n = pbt.OneOf(t, 127, 128, 129, 300)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 0x7f - byte(t.Intn(4))
	}
	return b
}

func genName(t *pbt.T) string {
	n := t.Len(4, 14)
	if t.P(1, 20) {
		n = pbt.OneOf(t, 127, 128, 129, 255, 256, 1000)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch t.Weighted(6, 1, 1, 1) {
		case 0:
			sb.WriteByte(byte('a' + t.Intn(26)))
		case 1:
			sb.WriteRune(rune(t.Intn(0x80)))
		case 2:
			sb.WriteRune(rune(0x80 + t.Intn(0x780)))
		default:
			sb.WriteRune(pbt.OneOf(t, '\u20ac', '\ufeff', '\U0001f600', '\ufffd', '\uffff', '\U0010ffff', '\ud7ff', '\ue000'))
		}
	}
	return sb.String()
}

func genModule(t *pbt.T) *Module {
	m := &Module{}
	n := t.Len(2, 8)
	if t.P(1, 60) {
		n = pbt.OneOf(t, 127, 128, 200)
	}
	for i := 0; i < n; i++ {
		m.Types = append(m.Types, FuncT{genTypes(t), genTypes(t)})
	}
	n = t.Len(2, 6)
	if t.P(1, 60) {
		n = pbt.OneOf(t, 127, 128, 140)
	}
	for i := 0; i < n; i++ {
		f := Func{Type: uint32(t.Intn(len(m.Types) + 1))}
		if t.P(1, 8) {
			f.Type = t.U32()
		}
		k := t.Many(3, 20)
		for j := 0; j < k; j++ {
			if t.Bool() {
				f.Body = append(f.Body, Inst{opAdd, 0})
			} else {
				arg := uint32(t.Intn(4))
				if t.P(1, 4) {
					arg = t.U32()
				}
				f.Body = append(f.Body, Inst{opGet, arg})
			}
		}
		f.Body = append(f.Body, Inst{opEnd, 0})
		for j, k := 0, t.Many(1, 6); j < k; j++ {
			c := 0x7f - byte(t.Intn(4))
			r := t.Intn(5)
			if t.P(1, 20) {
				r = pbt.OneOf(t, 127, 128, 300, 700)
			}
			f.Locals = append(f.Locals, bytes.Repeat([]byte{c}, r)...)
		}
		m.Funcs = append(m.Funcs, f)
	}
	for i, k := 0, t.Many(2, 6); i < k; i++ {
		e := Export{Name: genName(t), Func: uint32(t.Intn(len(m.Funcs) + 1))}
		if t.P(1, 6) {
			e.Func = t.U32()
		}
		m.Exports = append(m.Exports, e)
	}
	return m
}

// mark is a place of interest in an encoding.
type mark struct {
	at, n int
	what  string
}

// enc writes modules with the freedom the format leaves.
type enc struct {
	t     *pbt.T
	b     []byte
	pad   bool // redundant integer encodings
	marks []mark
}

func (e *enc) leb(v uint32, what string) {
	width := 1
	if e.pad && e.t.P(1, 3) {
		width = 1 + e.t.Intn(5)
	}
	at := len(e.b)
	for n := 1; v >= 0x80 || n < width; n++ {
		e.b = append(e.b, byte(v)|0x80)
		v >>= 7
	}
	e.b = append(e.b, byte(v))
	e.marks = append(e.marks, mark{at, len(e.b) - at, what})
}

func (e *enc) byte(c byte, what string) {
	e.marks = append(e.marks, mark{len(e.b), 1, what})
	e.b = append(e.b, c)
}

func (e *enc) section(id byte, f func(*enc)) {
	in := &enc{t: e.t, pad: e.pad}
	f(in)
	e.byte(id, "section id")
	e.leb(uint32(len(in.b)), "section size")
	base := len(e.b)
	e.b = append(e.b, in.b...)
	for _, m := range in.marks {
		e.marks = append(e.marks, mark{m.at + base, m.n, m.what})
	}
	e.marks = append(e.marks, mark{len(e.b), 0, "section end"})
}

func (e *enc) types(ts []byte) {
	e.leb(uint32(len(ts)), "count")
	for _, c := range ts {
		e.byte(c, "value type")
	}
}

// filler writes sections that must not matter.
func (e *enc) filler(rank int) {
	for e.t.P(1, 6) {
		e.section(0, func(in *enc) {
			name := genName(e.t)
			in.leb(uint32(len(name)), "custom name size")
			in.b = append(in.b, name...)
			in.b = append(in.b, e.t.Bytes(e.t.Len(5, 300))...)
		})
	}
}

func (e *enc) other(id byte) {
	if e.t.P(1, 10) {
		e.section(id, func(in *enc) {
			if e.t.Bool() {
				in.b = append(in.b, 0)
			} else {
				in.b = append(in.b, e.t.Bytes(e.t.Len(8, 400))...)
			}
		})
	}
	e.filler(0)
}

// Encode writes the module; everything drawn from t is freedom of the format.
func Encode(t *pbt.T, m *Module, plain bool) ([]byte, []mark) {
	e := &enc{t: t}
	if !plain {
		e.pad = t.P(1, 3)
	}
	for _, c := range []byte{0, 'a', 's', 'm'} {
		e.byte(c, "magic")
	}
	for _, c := range []byte{1, 0, 0, 0} {
		e.byte(c, "version")
	}
	e.marks = append(e.marks, mark{len(e.b), 0, "section end"})
	other := func(ids ...byte) {
		if plain {
			return
		}
		for _, id := range ids {
			e.other(id)
		}
	}
	some := func(n int) bool { return n > 0 || (!plain && t.P(1, 4)) }
	if !plain {
		e.filler(0)
	}
	if some(len(m.Types)) {
		e.section(1, func(e *enc) {
			e.leb(uint32(len(m.Types)), "count")
			for _, ft := range m.Types {
				e.byte(0x60, "form")
				e.types(ft.Params)
				e.types(ft.Results)
			}
		})
	}
	other(2)
	if some(len(m.Funcs)) {
		e.section(3, func(e *enc) {
			e.leb(uint32(len(m.Funcs)), "count")
			for _, f := range m.Funcs {
				e.leb(f.Type, "index")
			}
		})
	}
	other(4, 5, 6)
	if some(len(m.Exports)) {
		e.section(7, func(e *enc) {
			e.leb(uint32(len(m.Exports)), "count")
			for _, x := range m.Exports {
				e.leb(uint32(len(x.Name)), "name size")
				if len(x.Name) > 0 {
					e.marks = append(e.marks, mark{len(e.b), len(x.Name), "name"})
				}
				e.b = append(e.b, x.Name...)
				e.byte(0, "export kind")
				e.leb(x.Func, "index")
			}
		})
	}
	other(8, 9, 12)
	if some(len(m.Funcs)) {
		e.section(10, func(e *enc) {
			e.leb(uint32(len(m.Funcs)), "count")
			for _, f := range m.Funcs {
				in := &enc{t: t, pad: e.pad}
				groups(t, in, f.Locals, plain)
				for _, i := range f.Body {
					in.byte(i.Op, "opcode")
					if i.Op == opGet {
						in.leb(i.Arg, "index")
					}
				}
				e.leb(uint32(len(in.b)), "body size")
				base := len(e.b)
				e.b = append(e.b, in.b...)
				for _, m := range in.marks {
					e.marks = append(e.marks, mark{m.at + base, m.n, m.what})
				}
			}
		})
	}
	other(11)
	return e.b, e.marks
}

// groups writes locals as groups; equal neighbours may be split and empty groups added.
func groups(t *pbt.T, e *enc, locals []byte, plain bool) {
	type group struct {
		n uint32
		c byte
	}
	var gs []group
	for i := 0; i < len(locals); {
		j := i + 1
		for j < len(locals) && locals[j] == locals[i] && !(!plain && t.P(1, 12)) {
			j++
		}
		gs = append(gs, group{uint32(j - i), locals[i]})
		i = j
		if !plain && t.P(1, 10) {
			gs = append(gs, group{0, 0x7f - byte(t.Intn(4))})
		}
	}
	e.leb(uint32(len(gs)), "count")
	for _, g := range gs {
		e.leb(g.n, "locals count")
		e.byte(g.c, "value type")
	}
}

func (m *Module) interesting() bool {
	return len(m.Funcs) > 0 || len(m.Exports) > 0 || len(m.Types) > 1
}

func read(t *pbt.T, s *stream.Reader) (doc *api.Document, err error) {
	t.NoPanic("reading the module", func() { doc, err = binary.Read(s) })
	return
}

func show(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("% x... (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("% x", b)
}

// decodes: the encoding of any module decodes to the module.
func decodes(t *pbt.T) {
	m := genModule(t)
	b, _ := Encode(t, m, false)
	s := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("module %+v encoded as %s; %v", *m, show(b), s) })
	if m.interesting() {
		t.NonTrivial(string(b))
	}
	if _, v, why, _ := Decode(b); v == bad {
		panic("harness: the reference rejects a generated module: " + why)
	}
	doc, err := read(t, s)
	t.Must(err, "reading a well-formed module")
	if d := Diff(doc, m); d != "" {
		t.Failf("%s", d)
	}
	if s.Taken != len(b) {
		t.Failf("the reader stopped after %d of %d bytes", s.Taken, len(b))
	}
}

// large: one list of a module is as long as a counter that is too small would not hold.
func large(t *pbt.T) {
	parts := []string{"types", "params", "results", "functions", "locals", "groups", "body", "exports", "name", "custom", "skipped"}
	what := parts[int(t.Index)%len(parts)]
	size := largeSizes[int(t.Index)/len(parts)]
	switch what {
	case "params", "results":
		size %= 1001
	case "locals":
		size %= 5001
	case "types", "functions", "exports":
		if size > 300000 {
			size = size%70001 + 200000
		}
	case "groups", "name":
		if size > 70000 {
			size %= 70001
		}
	}
	m := &Module{Types: []FuncT{{[]byte{0x7f}, nil}}}
	types := bytes.Repeat([]byte{0x7e}, size)
	if size > 0 {
		types[size-1] = 0x7d
	}
	f := Func{Body: []Inst{{opEnd, 0}}}
	fs := 1
	groups, custom, skipped := 0, -1, -1
	switch what {
	case "types":
		m.Types = make([]FuncT, size)
		if size > 0 {
			m.Types[size-1].Params = []byte{0x7d, 0x7c}
		}
	case "params":
		m.Types[0].Params = types
	case "results":
		m.Types[0].Results = types
	case "functions":
		fs = size
	case "locals":
		f.Locals = types
	case "groups":
		groups = size
	case "body":
		f.Body = append(bytes2insts(size), f.Body...)
	case "exports":
		for i := 0; i < size; i++ {
			m.Exports = append(m.Exports, Export{Name: string(rune('a' + i%26)), Func: uint32(i % 128)})
		}
	case "name":
		m.Exports = []Export{{Name: strings.Repeat("x", size)}}
	case "custom":
		custom = size
	case "skipped":
		skipped = size
	}
	for i := 0; i < fs; i++ {
		f.Type = uint32(i % 128)
		m.Funcs = append(m.Funcs, f)
	}
	m.Exports = append(m.Exports, Export{Name: "last"})
	e := &enc{t: t}
	e.b = []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	raw := func(id byte, n int) {
		if n >= 0 {
			e.section(id, func(in *enc) {
				in.b = make([]byte, 1+n)
			})
		}
	}
	plain, _ := Encode(t, m, true)
	at := 8
	for at < len(plain) {
		id, start := plain[at], at
		at++
		n, shift := 0, 0
		for ; plain[at] >= 0x80; at++ {
			n |= int(plain[at]&0x7f) << shift
			shift += 7
		}
		n |= int(plain[at]) << shift
		at += 1 + n
		switch {
		case id == 7:
			raw(6, skipped)
			raw(0, custom)
			fallthrough
		case id != 10 || groups == 0:
			e.b = append(e.b, plain[start:at]...)
		default:
			in := &enc{t: t}
			in.leb(uint32(groups), "count")
			for i := 0; i < groups; i++ {
				in.b = append(in.b, 0, 0x7f)
			}
			in.b = append(in.b, opEnd)
			e.section(10, func(out *enc) {
				out.b = append(out.b, 1)
				out.leb(uint32(len(in.b)), "body size")
				out.b = append(out.b, in.b...)
			})
		}
	}
	s := stream.New(t, e.b)
	t.Case(func() string { return fmt.Sprintf("a module with %d %s; %v", size, what, s) })
	t.NonTrivial(fmt.Sprintf("%s %d", what, size))
	t.Label("%s", what)
	if _, v, why, _ := Decode(e.b); v != good {
		panic("harness: the reference rejects a generated module: " + why)
	}
	doc, err := read(t, s)
	t.Must(err, fmt.Sprintf("reading a well-formed module with %d %s", size, what))
	if d := Diff(doc, m); d != "" {
		t.Failf("%d %s: %.300s", size, what, d)
	}
}

var largeSizes = []int{0, 1, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 5000, 8191, 8192, 8193,
	16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1, 1 << 21, 1<<21 + 1}

func bytes2insts(n int) []Inst {
	b := make([]Inst, n)
	for i := range b {
		b[i].Op = opAdd
	}
	return b
}

// two encodings of one module decode to equal documents.
func sameModule(t *pbt.T) {
	m := genModule(t)
	b1, _ := Encode(t, m, true)
	b2, _ := Encode(t, m, false)
	s1, s2 := stream.New(t, b1), stream.New(t, b2)
	t.Case(func() string { return fmt.Sprintf("module %+v encoded as %s and as %s", *m, show(b1), show(b2)) })
	if m.interesting() && !bytes.Equal(b1, b2) {
		t.NonTrivial(string(b2))
	}
	d1, err := read(t, s1)
	t.Must(err, "reading the plain encoding")
	d2, err := read(t, s2)
	t.Must(err, "reading the decorated encoding")
	for _, d := range []*api.Document{d1, d2} {
		if diff := Diff(d, m); diff != "" {
			t.Failf("%s", diff)
		}
	}
}

func judge(t *pbt.T, b []byte, s *stream.Reader) {
	m, v, why, _ := Decode(b)
	doc, err := read(t, s)
	switch v {
	case bad:
		t.Label("malformed")
		if err == nil {
			t.Failf("a malformed module is accepted (%s)", why)
		}
		if doc != nil {
			t.Failf("a document comes along with the error")
		}
	case good:
		t.Label("well-formed")
		t.Must(err, "reading a well-formed module")
		if d := Diff(doc, m); d != "" {
			t.Failf("%s", d)
		}
	default:
		t.Label("left open")
	}
}

// truncated: cut at any point.
func truncated(t *pbt.T) {
	m := genModule(t)
	b, marks := Encode(t, m, t.Bool())
	cut := t.Intn(len(b) + 1)
	if t.P(1, 2) && len(marks) > 0 {
		k := pbt.Pick(t, marks)
		cut = k.at + t.Intn(k.n+1)
	}
	b = b[:cut]
	s := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("cut at %d: %s; %v", cut, show(b), s) })
	if cut > 8 {
		t.NonTrivial(string(b))
	}
	judge(t, b, s)
}

// mutated: one structural field changed.
func mutated(t *pbt.T) {
	m := genModule(t)
	b, marks := Encode(t, m, t.P(2, 3))
	what := ""
	for i, n := 0, 1+t.Weighted(6, 1); i < n; i++ {
		b, what = mutate(t, b, marks, what)
		if len(what) > 200 {
			break
		}
		marks = nil
		if len(b) == 0 {
			break
		}
	}
	s := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("%s: %s; %v", what, show(b), s) })
	t.NonTrivial(string(b))
	judge(t, b, s)
}

func put(b []byte, at, n int, with []byte) []byte {
	out := append([]byte(nil), b[:at]...)
	out = append(out, with...)
	return append(out, b[at+n:]...)
}

func lebBytes(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func lebVal(b []byte) uint64 {
	var v uint64
	for i, c := range b {
		v |= uint64(c&0x7f) << (7 * i)
	}
	return v
}

func mutate(t *pbt.T, b []byte, marks []mark, was string) ([]byte, string) {
	if len(marks) == 0 || t.P(1, 8) {
		at := t.Intn(len(b))
		switch t.Intn(4) {
		case 0:
			return put(b, at, 1, []byte{byte(t.U64n(256))}), was + fmt.Sprintf(" byte %d replaced", at)
		case 1:
			return put(b, at, 0, t.Bytes(1+t.Intn(3))), was + fmt.Sprintf(" bytes inserted at %d", at)
		case 2:
			return put(b, at, 1, nil), was + fmt.Sprintf(" byte %d removed", at)
		default:
			return put(b, at, 1, []byte{b[at] ^ 1<<t.Intn(8)}), was + fmt.Sprintf(" bit of byte %d flipped", at)
		}
	}
	// prefer rare kinds of fields: choose the kind first
	var kinds []string
	seen := map[string]bool{}
	for _, k := range marks {
		if !seen[k.what] {
			seen[k.what] = true
			kinds = append(kinds, k.what)
		}
	}
	kind := pbt.Pick(t, kinds)
	var of []mark
	for _, k := range marks {
		if k.what == kind {
			of = append(of, k)
		}
	}
	k := pbt.Pick(t, of)
	note := was + " " + k.what + fmt.Sprintf(" at %d", k.at)
	switch k.what {
	case "section end":
		// a section repeated, moved or new
		type sec struct{ from, to int }
		var secs []sec
		prev := 8
		for _, m := range marks {
			if m.what == "section end" && m.at > prev {
				secs = append(secs, sec{prev, m.at})
				prev = m.at
			}
		}
		if len(secs) > 0 && t.P(3, 4) {
			s := pbt.Pick(t, secs)
			return put(b, k.at, 0, b[s.from:s.to]), note + ": section copied here"
		}
		id := byte(t.Intn(16))
		return put(b, k.at, 0, append([]byte{id}, 1, 0)), note + fmt.Sprintf(": section %d inserted", id)
	case "section id", "form", "value type", "opcode", "export kind", "magic", "version":
		var c byte
		switch t.Intn(3) {
		case 0:
			c = byte(t.U64n(256))
		case 1:
			c = b[k.at] ^ 1<<t.Intn(8)
		default:
			c = b[k.at] + byte(t.Intn(5)) - 2
		}
		return put(b, k.at, 1, []byte{c}), note + fmt.Sprintf(" becomes %#x", c)
	case "name":
		at := k.at + t.Intn(k.n)
		ill := pbt.OneOf(t, []byte{0xff}, []byte{0x80}, []byte{0xc0, 0x80}, []byte{0xed, 0xa0, 0x80}, []byte{0xf4, 0x90, 0x80, 0x80}, []byte{0xe2, 0x82}, []byte{0xc3})
		// overwrite in place so that sizes stay right
		n := copy(append([]byte(nil), ill...), ill)
		if at+n > k.at+k.n {
			n = k.at + k.n - at
		}
		return put(b, at, n, ill[:n]), note + " made ill-formed"
	default: // integers: counts, sizes, indices
		v := lebVal(b[k.at : k.at+k.n])
		switch t.Weighted(4, 2, 2, 2, 1) {
		case 0:
			n := v + uint64(t.Intn(7)) - 3
			if n > 0xffffffff {
				n = 0
			}
			return put(b, k.at, k.n, lebBytes(n)), note + fmt.Sprintf(": %d becomes %d", v, n)
		case 1:
			n := uint64(t.U32())
			return put(b, k.at, k.n, lebBytes(n)), note + fmt.Sprintf(": %d becomes %d", v, n)
		case 2: // more than five bytes, value unchanged
			w := append([]byte(nil), b[k.at:k.at+k.n]...)
			w[len(w)-1] |= 0x80
			for len(w) < 5 {
				w = append(w, 0x80)
			}
			w = append(w, 0)
			return put(b, k.at, k.n, w), note + " over-long"
		case 3: // a bit above the 32nd
			w := append([]byte(nil), b[k.at:k.at+k.n]...)
			w[len(w)-1] |= 0x80
			for len(w) < 4 {
				w = append(w, 0x80)
			}
			if len(w) == 5 {
				w[4] &= 0x7f
				w[4] |= 0x10 << t.Intn(3)
			} else {
				w = append(w, 0x10<<t.Intn(3))
			}
			return put(b, k.at, k.n, w), note + " overflowing"
		default:
			return put(b, k.at, k.n, nil), note + " removed"
		}
	}
}

// noise: bytes that are mostly not modules.
// preambles goes through the wrong and right beginnings of a document.
func preambles(t *pbt.T) {
	b := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	versions := []uint16{0, 1, 2, 3, 5, 9, 10, 11, 13, 14, 0x0100, 0x0a00, 0x0101, 0x010a, 0x8001, 0x800a, 0xffff}
	layers := []uint16{0, 1, 2, 3, 10, 0x0100, 0x0101, 0x8000, 0x8001, 0xffff}
	if i := int(t.Index); i < 32 {
		b[i/8] ^= 1 << (i % 8)
	} else {
		i -= 32
		v, l := versions[i/len(layers)], layers[i%len(layers)]
		b[4], b[5], b[6], b[7] = byte(v), byte(v>>8), byte(l), byte(l>>8)
	}
	if t.Bool() {
		b = append(b, 1, 4, 1, 0x60, 0, 0)
	}
	s := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("%s; %v", show(b), s) })
	t.NonTrivial(fmt.Sprintf("%x", b))
	judge(t, b, s)
}

func genNoise(t *pbt.T) []byte {
	b := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	switch t.Weighted(5, 1, 1) {
	case 1:
		b = nil
	case 2:
		b = b[:t.Intn(9)]
	}
	n := t.Len(6, 40)
	for i := 0; i < n; i++ {
		switch t.Weighted(2, 2, 2, 1, 1) {
		case 0:
			b = append(b, byte(t.Intn(13)))
		case 1:
			b = append(b, byte(t.U64n(256)))
		case 2:
			b = append(b, lebBytes(uint64(t.Intn(20)))...)
		case 3:
			b = append(b, lebBytes(uint64(t.U32()))...)
		default:
			b = append(b, pbt.OneOf[byte](t, 0x60, 0x7f, 0x7e, 0x0b, 0x20, 0x6a, 0x00, 0x01, 0x80, 0xff))
		}
	}
	return b
}

func noise(t *pbt.T) {
	b := genNoise(t)
	s := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("%s; %v", show(b), s) })
	if len(b) > 8 {
		t.NonTrivial(string(b))
	}
	judge(t, b, s)
}

// bounded: memory use follows the input, also when the input lies about sizes.
func bounded(t *pbt.T) {
	var b []byte
	what := "noise"
	switch t.Weighted(4, 2, 1) {
	case 0:
		m := genModule(t)
		var marks []mark
		b, marks = Encode(t, m, t.P(2, 3))
		var ints []mark
		for _, k := range marks {
			switch k.what {
			case "count", "section size", "body size", "name size", "locals count", "custom name size":
				ints = append(ints, k)
			}
		}
		if len(ints) == 0 {
			t.Discard()
		}
		n := 1 + t.Intn(2)
		for i := 0; i < n; i++ {
			j := t.Intn(len(ints))
			k := ints[j]
			v := pbt.OneOf[uint64](t, 1<<20, 1<<17, 1<<22, 1<<24, 1<<26, 1<<28, 1<<31-1, 1<<31, 0xffffffff, 1<<16, 0xfffffff)
			w := lebBytes(v)
			b = put(b, k.at, k.n, w)
			what = fmt.Sprintf("%s at %d claims %d", k.what, k.at, v)
			if i == 0 && n == 2 {
				what += " (and another one before)"
				ints = ints[:j]
				if len(ints) == 0 {
					break
				}
			}
		}
	case 1:
		b = genNoise(t)
	default:
		m := genModule(t)
		b, _ = Encode(t, m, false)
		what = "module"
	}
	if t.P(1, 4) {
		b = b[:t.Intn(len(b)+1)]
		what += ", cut"
	}
	s := stream.New(t, b)
	if t.P(1, 4) {
		s.End = stream.Failure(t)
	}
	t.Case(func() string { return fmt.Sprintf("%s: %s; %v", what, show(b), s) })
	if len(b) > 8 {
		t.NonTrivial(string(b))
	}
	t.Label("%s", strings.Split(what, " at ")[0])
	_, v, why, locals := Decode(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	doc, err := read(t, s)
	runtime.ReadMemStats(&m1)
	limit := uint64(400*len(b) + 100*locals + 256<<10)
	if used := m1.TotalAlloc - m0.TotalAlloc; used > limit {
		t.Failf("reading %d bytes allocated %d bytes", len(b), used)
	}
	if v == bad && err == nil {
		t.Failf("a malformed module is accepted (%s)", why)
	}
	if s.End != io.EOF && err == nil {
		t.Failf("the read error at the end of the stream is not reported")
	}
	if err == nil && doc == nil {
		t.Failf("neither a document nor an error")
	}
}

// Props lists the properties of this group.
func Props() []pbt.Prop {
	note := "oracle: a reference decoder written from the WebAssembly specification (harness/bin/model.go)"
	return []pbt.Prop{
		{ID: "B01", Quick: 500000, Thorough: 1000000,
			Rule:        "a case counts when the module has a function, an export or several types; distinct by bytes",
			Assumptions: []string{note, "up to 300 types and functions and 700 locals per group in drawn modules; lists of up to 70000 entries, bodies and sections of up to 2 MiB in the enumerated ones"},
			Laws: []pbt.Law{
				{Name: "large", Enum: 11 * len(largeSizes), Run: large},
				{Name: "decodes", Weight: 3, Run: decodes},
				{Name: "same-module", Weight: 1, Run: sameModule},
			}},
		{ID: "B02", Quick: 800000, Thorough: 2000000,
			Rule:        "a case counts when there are bytes after the preamble; distinct by bytes",
			Assumptions: []string{note, "left open: components, section ids the specification does not know, names of custom sections, more than 5000 locals"},
			Laws: []pbt.Law{
				{Name: "preambles", Enum: 32 + 17*10, Run: preambles},
				{Name: "mutated", Weight: 5, Run: mutated},
				{Name: "truncated", Weight: 2, Run: truncated},
				{Name: "noise", Weight: 2, Run: noise},
			}},
		{ID: "B03", Quick: 500000, Thorough: 1000000,
			Rule:        "a case counts when there are bytes after the preamble; distinct by bytes",
			Assumptions: []string{note, "allowed memory: 400 bytes per input byte, 100 per local declared in the bodies decoded, 256 KiB"},
			Laws: []pbt.Law{
				{Name: "bounded", Weight: 1, Run: bounded},
			}},
	}
}

// Source draws a module's bytes, sometimes damaged.
func Source(t *pbt.T) []byte {
	b, marks := Encode(t, genModule(t), false)
	if t.P(1, 3) {
		b, _ = mutate(t, b, marks, "")
	}
	return b
}
