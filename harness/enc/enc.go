// Package enc holds the laws of the character codecs.
package enc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/patrickhuber/go-wasm/encoding"
	"golang.org/x/text/encoding/unicode"

	"vharness/pbt"
	"vharness/stream"
)

// spec is what a codec has to be.
type spec struct {
	name   encoding.Encoding
	encode func([]rune) ([]byte, bool)
	align  int // of the text in memory
	unit   int // bytes of a code unit
}

func utf8Bytes(rs []rune) ([]byte, bool) {
	var b []byte
	for _, r := range rs {
		switch {
		case r < 0x80:
			b = append(b, byte(r))
		case r < 0x800:
			b = append(b, 0xc0|byte(r>>6), 0x80|byte(r&0x3f))
		case r < 0x10000:
			b = append(b, 0xe0|byte(r>>12), 0x80|byte(r>>6&0x3f), 0x80|byte(r&0x3f))
		default:
			b = append(b, 0xf0|byte(r>>18), 0x80|byte(r>>12&0x3f), 0x80|byte(r>>6&0x3f), 0x80|byte(r&0x3f))
		}
	}
	return b, true
}

func utf16Bytes(big bool) func([]rune) ([]byte, bool) {
	return func(rs []rune) ([]byte, bool) {
		var b []byte
		unit := func(u rune) {
			if big {
				b = append(b, byte(u>>8), byte(u))
			} else {
				b = append(b, byte(u), byte(u>>8))
			}
		}
		for _, r := range rs {
			if r < 0x10000 {
				unit(r)
			} else {
				unit(0xd800 + (r-0x10000)>>10)
				unit(0xdc00 + (r-0x10000)&0x3ff)
			}
		}
		return b, true
	}
}

func latin1Bytes(rs []rune) ([]byte, bool) {
	var b []byte
	for _, r := range rs {
		if r > 0xff {
			return nil, false
		}
		b = append(b, byte(r))
	}
	return b, true
}

var specs = []spec{
	{encoding.UTF8, utf8Bytes, 1, 1},
	{encoding.UTF16, utf16Bytes(false), 2, 2},
	{encoding.UTF16LE, utf16Bytes(false), 2, 2},
	{encoding.UTF16BE, utf16Bytes(true), 2, 2},
	{encoding.Latin1, latin1Bytes, 2, 1},
	{encoding.Latin1Utf16, latin1Bytes, 2, 1},
}

// makers are the constructors of the codecs, in the order of specs.
var makers = []func() encoding.Codec{
	encoding.NewUTF8,
	encoding.NewUTF16,
	func() encoding.Codec { return encoding.NewUTF16WithEndianess(unicode.LittleEndian) },
	func() encoding.Codec { return encoding.NewUTF16WithEndianess(unicode.BigEndian) },
	encoding.NewLatin1,
	encoding.NewLatin1Utf16,
}

func codecOf(t *pbt.T, i int, made bool) encoding.Codec {
	if made {
		return makers[i]()
	}
	f := encoding.DefaultFactory()
	c, err := f.Get(specs[i].name)
	t.Must(err, "getting codec "+string(specs[i].name))
	if c == nil {
		t.Failf("no codec and no error for %q", specs[i].name)
	}
	return c
}

func genRune(t *pbt.T, latin bool) rune {
	if latin {
		if t.P(1, 3) {
			return pbt.OneOf[rune](t, 0, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x81, 0x8d, 0xd7, 0xdf, 0xf7)
		}
		return rune(t.Intn(256))
	}
	switch t.Weighted(3, 2, 2, 2, 3) {
	case 0:
		return rune(t.Intn(0x80))
	case 1:
		return rune(t.Intn(0x800))
	case 2:
		r := rune(t.Intn(0x10000 - 0x800))
		if r >= 0xd800 {
			r += 0x800
		}
		return r
	case 3:
		return 0x10000 + rune(t.Intn(0x100000))
	default:
		return pbt.OneOf[rune](t, 0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffe, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x10ffff, 0x1f600, 0xbbef)
	}
}

func genString(t *pbt.T) []rune {
	latin := t.P(1, 3)
	n := t.Len(6, 40)
	var rs []rune
	if t.P(1, 30) {
		// long enough to cross the buffers of a streaming implementation
		k := pbt.OneOf(t, 1023, 1365, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32768, 512, 127, 255)
		k += t.Intn(5) - 2
		unit := make([]rune, 1+t.Intn(3))
		for i := range unit {
			unit[i] = genRune(t, latin)
		}
		for len(rs) < k {
			rs = append(rs, unit[len(rs)%len(unit)])
		}
	}
	for i := 0; i < n; i++ {
		rs = append(rs, genRune(t, latin))
	}
	if latin && t.P(1, 4) && len(rs) > 0 {
		rs[t.Intn(len(rs))] = genRune(t, false)
	}
	return rs
}

func brief(rs []rune) string {
	if len(rs) > 60 {
		return fmt.Sprintf("%+q... (%d characters)", string(rs[:60]), len(rs))
	}
	return fmt.Sprintf("%+q", string(rs))
}

func roundTrip(t *pbt.T) {
	i := t.Intn(len(specs))
	made := t.P(1, 3)
	rs := genString(t)
	src, _ := utf8Bytes(rs)
	check(t, i, made, rs, src)
}

func check(t *pbt.T, i int, made bool, rs []rune, src []byte) {
	want, can := specs[i].encode(rs)
	in := stream.New(t, src)
	t.Case(func() string { return fmt.Sprintf("%s of %s; %v", specs[i].name, brief(rs), in) })
	t.Label("%s", specs[i].name)
	if len(rs) > 0 {
		t.NonTrivial(string(specs[i].name) + string(src))
	}
	var c encoding.Codec
	t.NoPanic("getting the codec", func() { c = codecOf(t, i, made) })
	if c.Encoding() != specs[i].name {
		t.Failf("codec %q calls itself %q", specs[i].name, c.Encoding())
	}
	var out bytes.Buffer
	var err error
	whole := t.Bool()
	t.NoPanic("encoding", func() {
		if whole {
			var b []byte
			b, err = encoding.EncodeString(c, string(src))
			out.Write(b)
		} else {
			err = c.Encode(&out, in)
		}
	})
	if !can {
		t.Label("not representable")
		if err == nil {
			t.Failf("a string the encoding cannot represent is encoded as % x", out.Bytes())
		}
		return
	}
	t.Must(err, "encoding")
	if !bytes.Equal(out.Bytes(), want) {
		t.Failf("encoded as %s, standard bytes are %s", cut(out.Bytes()), cut(want))
	}
	back := stream.New(t, want)
	var got string
	t.NoPanic("decoding", func() {
		if whole {
			got, err = encoding.DecodeString(c, back)
		} else {
			var sb strings.Builder
			err = c.Decode(&sb, back)
			got = sb.String()
		}
	})
	t.Must(err, "decoding")
	if got != string(src) {
		t.Failf("decoded to %s (%v)", brief([]rune(got)), back)
	}
}

func cut(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("% x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("% x", b)
}

// genBytes draws bytes that are often almost a text of the encoding.
func genBytes(t *pbt.T, i int) []byte {
	if t.P(1, 4) {
		b := make([]byte, t.Many(6, 60))
		for k := range b {
			b[k] = byte(t.Intn(256))
		}
		return b
	}
	b, ok := specs[i].encode(genString(t))
	if !ok {
		b = nil
	}
	for n := t.Intn(3); n >= 0; n-- {
		k := t.Intn(len(b) + 1)
		switch t.Intn(4) {
		case 0: // cut
			b = b[:k]
		case 1: // a byte or unit less
			b = append(append([]byte{}, b[:k]...), b[min(len(b), k+1+t.Intn(2)):]...)
		default:
			in := pbt.OneOf(t, "\xff", "\x80", "\xc0", "\xc3", "\xe2", "\xe2\x82", "\xf0\x9f", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80",
				"\x00\xd8", "\xd8\x00", "\x00\xdc", "\xdc\x00", "\xff\xdb", "\xfe")
			b = append(append(append([]byte{}, b[:k]...), in...), b[k:]...)
		}
	}
	return b
}

// collapse writes runs of replacement characters as one.
func collapse(s string) string {
	var out []rune
	for _, r := range s {
		if r == 0xfffd && len(out) > 0 && out[len(out)-1] == r {
			continue
		}
		out = append(out, r)
	}
	return string(out)
}

// decodeBytes decodes with a replacement character for everything ill-formed.
func decodeBytes(i int, b []byte) string {
	var rs []rune
	switch name := specs[i].name; name {
	case encoding.UTF8:
		for len(b) > 0 {
			r, n := utf8.DecodeRune(b)
			rs = append(rs, r)
			b = b[n:]
		}
	case encoding.Latin1, encoding.Latin1Utf16:
		for _, c := range b {
			rs = append(rs, rune(c))
		}
	default:
		unit := func(k int) int {
			if k+1 >= len(b) {
				return -1
			}
			if name == encoding.UTF16BE {
				return int(b[k])<<8 | int(b[k+1])
			}
			return int(b[k+1])<<8 | int(b[k])
		}
		for k := 0; k < len(b); k += 2 {
			switch u, v := unit(k), unit(k+2); {
			case u >= 0xd800 && u < 0xdc00 && v >= 0xdc00 && v < 0xe000:
				rs = append(rs, rune(0x10000+(u-0xd800)<<10+(v-0xdc00)))
				k += 2
			case u < 0 || u >= 0xd800 && u < 0xe000:
				rs = append(rs, 0xfffd)
			default:
				rs = append(rs, rune(u))
			}
		}
	}
	return string(rs)
}

// illFormed: what is not well-formed is an error or replaced, but not dropped.
func illFormed(t *pbt.T) {
	i := t.Intn(len(specs))
	if t.Bool() {
		b := genBytes(t, i)
		in := stream.New(t, b)
		t.Case(func() string { return fmt.Sprintf("%s from %s; %v", specs[i].name, cut(b), in) })
		t.NonTrivial(string(specs[i].name) + "<" + string(b))
		var got strings.Builder
		var err error
		t.NoPanic("decoding", func() { err = codecOf(t, i, false).Decode(&got, in) })
		want := decodeBytes(i, b)
		if err != nil {
			t.Label("decoding fails")
			if !strings.ContainsRune(want, 0xfffd) {
				t.Failf("well-formed bytes are refused: %v", err)
			}
			return
		}
		t.Label("decoded")
		if collapse(got.String()) != collapse(want) {
			t.Failf("decoded to %s instead of %s", brief([]rune(got.String())), brief([]rune(want)))
		}
		return
	}
	b := genBytes(t, 0)
	in := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("text %s to %s; %v", cut(b), specs[i].name, in) })
	t.NonTrivial(string(specs[i].name) + ">" + string(b))
	var out bytes.Buffer
	var err error
	t.NoPanic("encoding", func() { err = codecOf(t, i, false).Encode(&out, in) })
	rs := []rune(decodeBytes(0, b))
	_, can := specs[i].encode(rs)
	if err != nil {
		t.Label("encoding fails")
		if can && utf8.Valid(b) {
			t.Failf("a text is refused: %v", err)
		}
		return
	}
	t.Label("encoded")
	if !can {
		t.Failf("a text the encoding cannot represent is encoded as %s", cut(out.Bytes()))
	}
	if got := decodeBytes(i, out.Bytes()); collapse(got) != collapse(string(rs)) {
		t.Failf("encoded as %s, that is %s", cut(out.Bytes()), brief([]rune(got)))
	}
}

// sink takes some bytes and then fails.
type sink struct{ left int }

func (s *sink) Write(p []byte) (int, error) {
	if len(p) > s.left {
		n := s.left
		s.left = 0
		return n, stream.ErrBroken
	}
	s.left -= len(p)
	return len(p), nil
}

// broken: a source or a sink that fails is reported.
func broken(t *pbt.T) {
	i := t.Intn(len(specs))
	rs := genString(t)
	if len(rs) > 0 && t.P(1, 200) { // a long text
		for n := 1 << t.Range(10, 17); len(rs) < n; {
			rs = append(rs, rs...)
		}
	}
	b, ok := specs[i].encode(rs)
	if !ok {
		t.Discard()
	}
	text := []byte(string(rs))
	decode := t.Bool()
	from, to := text, b
	if decode {
		from, to = b, text
	}
	in := stream.New(t, from)
	var w io.Writer = &bytes.Buffer{}
	at := -1
	if t.Bool() && len(to) > 0 {
		at = t.Intn(len(to))
		w = &sink{at}
	} else {
		in.Data = from[:t.Intn(len(from)+1)]
		in.End = stream.Failure(t)
	}
	t.Case(func() string {
		return fmt.Sprintf("%s of %s, decoding %v, source %v, sink full after %d", specs[i].name, brief(rs), decode, in, at)
	})
	t.NonTrivial(fmt.Sprint(specs[i].name, decode, at, len(in.Data), string(text)))
	var err error
	t.NoPanic("converting", func() {
		c := codecOf(t, i, false)
		if decode {
			err = c.Decode(w, in)
		} else {
			err = c.Encode(w, in)
		}
	})
	if err == nil {
		t.Failf("the failure is not reported")
	}
}

// every character by itself, 64 at a time
const block = 64

func everyRune(t *pbt.T) {
	i := int(t.Index) % len(specs)
	base := rune(int(t.Index) / len(specs) * block)
	var rs []rune
	for r := base; r < base+block && r <= 0x10ffff; r++ {
		if r < 0xd800 || r > 0xdfff {
			rs = append(rs, r)
		}
	}
	if len(rs) == 0 {
		t.Discard()
	}
	src, _ := utf8Bytes(rs)
	check(t, i, false, rs, src)
}

// long: texts beyond the sizes that are likely to be drawn.
var longSizes = []int{65535, 65536, 65537, 100003, 1<<17 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 3, 1<<22 + 1}
var longUnits = []string{"x", "é", "aé", "€", "a\U0001f600", "\U0001f600"}

func long(t *pbt.T) {
	n := int(t.Index)
	i := n % len(specs)
	n /= len(specs)
	unit := []rune(longUnits[n%len(longUnits)])
	size := longSizes[n/len(longUnits)]
	rs := make([]rune, 0, size+1)
	for len(rs) < size {
		rs = append(rs, unit[len(rs)%len(unit)])
	}
	rs = append(rs, 'é')
	src, _ := utf8Bytes(rs)
	check(t, i, t.Bool(), rs, src)
}

// lookup: known names give their codec, any other name is an error.
func lookup(t *pbt.T) {
	var name encoding.Encoding
	known := -1
	switch t.Intn(3) {
	case 0:
		name = specs[t.Intn(len(specs))].name
	case 1:
		b := []byte(specs[t.Intn(len(specs))].name)
		k := t.Intn(len(b))
		switch t.Intn(5) {
		case 0:
			b = append(b[:k], b[k+1:]...)
		case 1:
			b[k] ^= 0x20
		case 2:
			b = append(b, pbt.OneOf[byte](t, ' ', '-', 'x', 0))
		case 3:
			b = append([]byte{' '}, b...)
		default:
			b[k] = byte(' ' + t.Intn(95))
		}
		name = encoding.Encoding(b)
	default:
		name = pbt.OneOf[encoding.Encoding](t, "", "utf8", "UTF-8", "utf16", "utf-16le", "latin-1", "iso-8859-1", "utf-32", "ascii", "latin1+utf-16", "utf-16 le")
	}
	for i := range specs {
		if specs[i].name == name {
			known = i
		}
	}
	// a factory made of some of the codecs knows exactly those
	subset := t.P(1, 2)
	has := known >= 0
	f := encoding.DefaultFactory()
	if subset {
		var cs []encoding.Codec
		has = false
		for i := range specs {
			if t.Bool() {
				cs = append(cs, makers[i]())
				if i == known {
					has = true
				}
			}
		}
		f = encoding.NewFactory(cs...)
	}
	t.Case(func() string { return fmt.Sprintf("encoding named %q, own factory %v", name, subset) })
	t.NonTrivial(fmt.Sprint(name, subset, has))
	var c, c2 encoding.Codec
	var ok bool
	var err error
	t.NoPanic("looking up a codec", func() {
		c, ok = f.Lookup(name)
		c2, err = f.Get(name)
	})
	if ok != has || (err == nil) != has {
		t.Failf("lookup says %v and get says %v for a name that is known: %v", ok, err, has)
	}
	if has && (c == nil || c2 == nil || c.Encoding() != name || c2.Encoding() != name) {
		t.Failf("the wrong codec is found")
	}
	if has {
		if c.Alignment() != specs[known].align || c.RuneSize() != specs[known].unit {
			t.Failf("alignment %d and unit %d of %s", c.Alignment(), c.RuneSize(), name)
		}
	}
	if !has && !errors.Is(err, encoding.ErrNotExist) {
		t.Failf("the error for an unknown encoding is %v", err)
	}
}

// Props lists the properties of this group.
func Props() []pbt.Prop {
	return []pbt.Prop{{
		ID: "E01", Quick: 1500000, Thorough: 15000000,
		Rule:        "a case counts when the string is not empty, is damaged, a stream fails or a name is looked up; distinct by codec and string",
		Assumptions: []string{"oracle: the encodings computed from their definition", "strings up to four million characters; every Unicode character is encoded and decoded once by every codec"},
		Laws: []pbt.Law{
			{Name: "every-character", Enum: len(specs) * (0x110000 / block), Run: everyRune},
			{Name: "long", Enum: len(specs) * len(longUnits) * len(longSizes), Run: long},
			{Name: "round-trip", Weight: 6, Run: roundTrip},
			{Name: "lookup", Weight: 1, Run: lookup},
			{Name: "ill-formed", Weight: 3, Run: illFormed},
			{Name: "broken", Weight: 1, Run: broken},
		},
	}}
}
