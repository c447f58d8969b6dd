// Package leb holds the LEB128 laws.
package leb

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"github.com/patrickhuber/go-wasm/leb128"

	"vharness/pbt"
	"vharness/stream"
)

// encode is the reference encoder: shortest form, padded to at least width bytes.
func encode(v uint32, width int) []byte {
	var b []byte
	for v >= 0x80 || len(b)+1 < width {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// decode is the reference decoder over arbitrary precision arithmetic on at most five bytes.
func decode(b []byte) (v uint32, n int, ok bool) {
	var x uint64
	for i, c := range b {
		if i == 5 {
			return 0, 0, false
		}
		x |= uint64(c&0x7f) << (7 * i)
		if c&0x80 == 0 {
			if x > 0xffffffff {
				return 0, 0, false
			}
			return uint32(x), i + 1, true
		}
	}
	return 0, 0, false
}

func genValue(t *pbt.T) uint32 {
	switch t.Weighted(2, 3, 2, 2) {
	case 0:
		return t.U32()
	case 1: // around the group boundaries
		k := 7 * t.Intn(5)
		return uint32(uint64(1)<<k + t.U64n(5) - 2)
	case 2: // a single group set
		return uint32(t.U64n(128)) << (7 * t.Intn(5))
	default: // any size of number
		return uint32(t.U64n(1<<32) >> t.Intn(32))
	}
}

// roundTrip: every number is written in the shortest form and read back.
func roundTrip(t *pbt.T) { roundTripOf(t, genValue(t)) }

// boundaries goes through all numbers near powers of two.
func boundaries(t *pbt.T) {
	bit, d := t.Index/9, int64(t.Index%9)-4
	roundTripOf(t, uint32(int64(1)<<bit+d))
}

func roundTripOf(t *pbt.T, v uint32) {
	tail := t.Bytes(t.Len(4, 20))
	src := stream.New(t, nil)
	bufSize := pbt.OneOf(t, 16, 17, 64, 4096)
	t.Case(func() string { return fmt.Sprintf("value %d followed by % x; %v; buffer %d", v, tail, src, bufSize) })
	if v >= 0x80 {
		t.NonTrivial(fmt.Sprint(v))
	}
	t.Label("%d bytes", len(encode(v, 1)))

	var out bytes.Buffer
	// fill the buffer a little so that the integer may straddle its end
	w := bufio.NewWriterSize(&out, 16)
	lead := t.Intn(17)
	w.Write(make([]byte, lead))
	n, err := leb128.Encode(w, v)
	t.Must(err, "Encode")
	t.Must(w.Flush(), "Flush")
	want := encode(v, 1)
	got := out.Bytes()[lead:]
	if !bytes.Equal(got, want) || n != len(want) {
		t.Failf("encoded as % x with count %d, want % x", got, n, want)
	}
	src.Data = append(append([]byte(nil), want...), tail...)
	decodeAll(t, src, bufSize, v, len(want), true)
}

// padded: redundant zero groups are accepted up to five bytes.
func padded(t *pbt.T) {
	v := genValue(t)
	b := encode(v, 1+t.Intn(5))
	tail := t.Bytes(t.Len(4, 20))
	src := stream.New(t, append(append([]byte(nil), b...), tail...))
	bufSize := pbt.OneOf(t, 16, 17, 64, 4096)
	t.Case(func() string { return fmt.Sprintf("% x followed by % x; %v; buffer %d", b, tail, src, bufSize) })
	t.NonTrivial(fmt.Sprintf("%x %x", b, tail))
	decodeAll(t, src, bufSize, v, len(b), true)
}

// arbitrary: any bytes at all, the three decoders against the reference.
func arbitrary(t *pbt.T) {
	n := t.Intn(9)
	b := make([]byte, n)
	for i := range b {
		switch t.Weighted(3, 2, 1, 1, 1) {
		case 0:
			b[i] = byte(t.U64n(256))
		case 1:
			b[i] = byte(t.U64n(128)) | 0x80
		case 2:
			b[i] = 0x80
		case 3:
			b[i] = byte(t.U64n(32))
		default:
			b[i] = byte(1) << t.Intn(8)
		}
	}
	src := stream.New(t, b)
	bufSize := pbt.OneOf(t, 16, 17, 64, 4096)
	t.Case(func() string { return fmt.Sprintf("% x; %v; buffer %d", b, src, bufSize) })
	v, k, ok := decode(b)
	if !ok {
		switch {
		case n >= 5:
			t.Label("too large or too long")
		default:
			t.Label("cut short")
		}
	} else {
		t.Label("well-formed")
	}
	t.NonTrivial(fmt.Sprintf("%x", b))
	decodeAll(t, src, bufSize, v, k, ok)
}

// long: what follows the integer may be long.
func long(t *pbt.T) {
	i := int(t.Index)
	tail := longTails[i%len(longTails)]
	i /= len(longTails)
	b := encode([]uint32{0, 127, 128, 1 << 14, 1 << 21, 1<<28 - 1, 1 << 28, 1<<32 - 1}[i%8], 1)
	fill := byte(i/8) * 0x7f // the bytes behind are 0 or look like integers that go on
	b = append(b, bytes.Repeat([]byte{fill | fill<<1}, tail)...)
	src := &stream.Reader{Data: b, End: io.EOF}
	t.Case(func() string { return fmt.Sprintf("% x... with %d bytes behind the integer", b[:min(8, len(b))], tail) })
	t.NonTrivial(fmt.Sprint(t.Index))
	v, k, ok := decode(b)
	decodeAll(t, src, 4096, v, k, ok)
}

var longTails = []int{251, 256, 4091, 4096, 65531, 65535, 65536, 65537, 1 << 20, 1<<24 + 1}

// longBroken: malformed integers with much behind them.
func longBroken(t *pbt.T) {
	i := int(t.Index)
	tail := longTails[i%len(longTails)]
	b := [][]byte{{0x80, 0x80, 0x80, 0x80, 0x10}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x80, 0x80, 0x80, 0x80}, {0xff, 0xff, 0xff, 0xff, 0xff}}[i/len(longTails)]
	b = append(append([]byte{}, b...), make([]byte, tail)...)
	src := &stream.Reader{Data: b, End: io.EOF}
	t.Case(func() string { return fmt.Sprintf("% x with %d bytes behind", b[:5], tail) })
	t.NonTrivial(fmt.Sprint(t.Index))
	v, k, ok := decode(b)
	decodeAll(t, src, 4096, v, k, ok)
}

// sweep: a block of 65536 consecutive integers, every one of them in the
// thorough tier and one of eight in the quick one.
func sweep(t *pbt.T) {
	base, first, step := uint32(t.Index)<<16, 0, 1
	if !t.Thorough {
		first, step = t.Intn(8), 8
	}
	t.Case(func() string {
		return fmt.Sprintf("the integers %#x to %#x from %d in steps of %d", base, base|0xffff, first, step)
	})
	t.NonTrivial(fmt.Sprint(t.Index))
	buf, want := sweepBuf, make([]byte, 0, 5<<16/step)
	buf.Reset()
	w := bufio.NewWriterSize(buf, 4096)
	for i := first; i < 1<<16; i += step {
		v := base | uint32(i)
		was := len(want)
		for r := v; ; r >>= 7 {
			if r < 0x80 {
				want = append(want, byte(r))
				break
			}
			want = append(want, byte(r)|0x80)
		}
		if n, err := leb128.Encode(w, v); err != nil || n != len(want)-was {
			t.Failf("Encode of %d counts %d bytes, want %d: %v", v, n, len(want)-was, err)
		}
	}
	t.Must(w.Flush(), "flushing")
	if got := buf.Bytes(); !bytes.Equal(got, want) {
		at := 0
		for at < len(got) && at < len(want) && got[at] == want[at] {
			at++
		}
		t.Failf("the encodings differ at byte %d of %d: % x, want % x", at, len(want), got[at:min(at+8, len(got))], want[at:min(at+8, len(want))])
	}
	br, rd, at := bufio.NewReaderSize(bytes.NewReader(want), 4096), bytes.NewReader(want), 0
	for i := first; i < 1<<16; i += step {
		v := base | uint32(i)
		g1, n1, e1 := leb128.DecodeSlice(want[at:])
		g2, n2, e2 := leb128.Decode(br)
		g3, n3, e3 := v, n1, error(nil)
		if i&7 == first { // slower
			rd.Seek(int64(at), io.SeekStart)
			g3, n3, e3 = leb128.DecodeReader(rd)
		}
		if e1 != nil || e2 != nil || e3 != nil || g1 != v || g2 != v || g3 != v || n1 < 1 || n1 > 5 || n2 != n1 || n3 != n1 {
			t.Failf("%d is decoded as %d (%d bytes, %v), %d (%d bytes, %v), %d (%d bytes, %v)", v, g1, n1, e1, g2, n2, e2, g3, n3, e3)
		}
		at += n1
	}
	if at != len(want) {
		t.Failf("the integers are counted as %d bytes, they have %d", at, len(want))
	}
}

var sweepBuf = &bytes.Buffer{}

// shapes enumerates all patterns of continuation bits with extreme payloads.
func shapes(t *pbt.T) {
	i := int(t.Index)
	n := i % 8
	i /= 8
	cont := i % 128
	i /= 128
	last := []byte{0, 1, 7, 8, 0x0f, 0x10, 0x1f, 0x20, 0x40, 0x70, 0x7f}[i%11]
	i /= 11
	fill := []byte{0, 0x7f, 0x01, 0x40}[i%4]
	b := make([]byte, n)
	for j := range b {
		b[j] = fill
		if j == 4 || j == n-1 {
			b[j] = last
		}
		if cont>>j&1 == 1 {
			b[j] |= 0x80
		}
	}
	src := stream.New(t, b)
	t.Case(func() string { return fmt.Sprintf("% x; %v", b, src) })
	t.NonTrivial(fmt.Sprintf("%x", b))
	v, k, ok := decode(b)
	decodeAll(t, src, 16, v, k, ok)
}

// broken: a stream that fails inside an integer is reported.
func broken(t *pbt.T) {
	v := genValue(t)
	b := encode(v, 1+t.Intn(5))
	cut := t.Intn(len(b))
	src := stream.New(t, b[:cut])
	src.End = stream.Failure(t)
	t.Case(func() string { return fmt.Sprintf("% x cut to %d bytes by a read error; %v", b, cut, src) })
	t.NonTrivial(fmt.Sprintf("%x %d", b, cut))
	s2 := *src
	if _, _, err := leb128.DecodeReader(src); err == nil {
		t.Failf("DecodeReader accepts a stream that fails inside the integer")
	}
	if _, _, err := leb128.Decode(bufio.NewReaderSize(&s2, 16)); err == nil {
		t.Failf("Decode accepts a stream that fails inside the integer")
	}
}

type full struct{ room int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.room {
		n := f.room
		f.room = 0
		return n, stream.ErrBroken
	}
	f.room -= len(p)
	return len(p), nil
}

// fullSink: a sink that cannot take the integer is reported, by the call or by the flush.
func fullSink(t *pbt.T) {
	v := genValue(t)
	lead := t.Intn(40)
	want := lead + len(encode(v, 1))
	room := t.Intn(want)
	t.Case(func() string {
		return fmt.Sprintf("value %d after %d bytes into a sink with room for %d", v, lead, room)
	})
	t.NonTrivial(fmt.Sprint(v, lead, room))
	w := bufio.NewWriterSize(&full{room: room}, 16)
	_, failed := w.Write(make([]byte, lead))
	_, err := leb128.Encode(w, v)
	if failed != nil && err == nil {
		t.Failf("Encode reports success on a writer that has already failed")
	}
	if err == nil && w.Flush() == nil {
		t.Failf("neither Encode nor the flush reports that the sink is full")
	}
}

func decodeAll(t *pbt.T, src *stream.Reader, bufSize int, v uint32, n int, ok bool) {
	data := append([]byte(nil), src.Data...)
	judge := func(name string, gv uint32, gn int, err error) {
		switch {
		case ok && err != nil:
			t.Failf("%s rejects a legal integer: %v", name, err)
		case !ok && err == nil:
			t.Failf("%s accepts a malformed integer as %d with count %d", name, gv, gn)
		case ok && gv != v:
			t.Failf("%s gives %d want %d", name, gv, v)
		case ok && gn != n:
			t.Failf("%s counts %d bytes want %d", name, gn, n)
		}
	}
	slice := append([]byte(nil), data...)
	gv, gn, err := leb128.DecodeSlice(slice)
	judge("DecodeSlice", gv, gn, err)
	if !bytes.Equal(slice, data) {
		t.Failf("DecodeSlice modified its input")
	}

	s1, s2 := *src, *src
	gv, gn, err = leb128.DecodeReader(&s1)
	judge("DecodeReader", gv, gn, err)
	if !ok && s1.Taken > 0 && err == io.EOF {
		t.Failf("DecodeReader reports a regular end of the stream inside of an integer")
	}
	if ok && s1.Taken != n {
		t.Failf("DecodeReader took %d bytes from the stream, the integer has %d", s1.Taken, n)
	}

	br := bufio.NewReaderSize(&s2, bufSize)
	gv, gn, err = leb128.Decode(br)
	judge("Decode", gv, gn, err)
	if ok {
		rest, err := io.ReadAll(br)
		t.Must(err, "reading what follows the integer")
		if !bytes.Equal(rest, data[n:]) {
			t.Failf("Decode leaves % x unread, want % x", rest, data[n:])
		}
	}
}

// Props lists the properties of this group.
func Props() []pbt.Prop {
	return []pbt.Prop{
		{ID: "L01", Quick: 1500000, Thorough: 8000000,
			Rule:        "a case counts when the integer needs at least two bytes; distinct by integer",
			Assumptions: []string{"readers obey the io.Reader contract"},
			Laws: []pbt.Law{
				{Name: "boundaries", Enum: 33 * 9, Run: boundaries},
				{Name: "long", Enum: 10 * 8 * 2, Run: long},
				{Name: "sweep", Enum: 1 << 16, Run: sweep},
				{Name: "round-trip", Weight: 6, Run: roundTrip},
				{Name: "full-sink", Weight: 1, Run: fullSink},
			}},
		{ID: "L02", Quick: 1500000, Thorough: 8000000,
			Rule:        "every case counts; distinct by bytes",
			Assumptions: []string{"readers obey the io.Reader contract"},
			Laws: []pbt.Law{
				{Name: "shapes", Enum: 8 * 128 * 11 * 4, Run: shapes},
				{Name: "long", Enum: 10 * 4, Run: longBroken},
				{Name: "arbitrary", Weight: 5, Run: arbitrary},
				{Name: "padded", Weight: 2, Run: padded},
				{Name: "broken", Weight: 1, Run: broken},
			}},
	}
}
