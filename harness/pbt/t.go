// Package pbt is a small property-based testing engine.
//
// A case is a finite sequence of choices. In exploration the choices come
// from a generator seeded by (VERIF_SEED, property, law, case number); in
// shrinking and replay they come from a recorded sequence. Every generator
// maps a smaller choice to a simpler value, so that shrinking the sequence
// shrinks the case.
package pbt

import (
	"fmt"
	"hash/fnv"
	"math/bits"
)

// T is the handle a law uses to draw a case and to report on it.
type T struct {
	rng     uint64
	replay  []uint64
	replays bool
	pos     int
	rec     []uint64

	Index    uint64 // number of the case; the enumeration index in enumerated laws
	Thorough bool
	big      bool // the case already has one long list

	labels     []string
	nontrivial bool
	key        uint64
	desc       func() string
	deferred   []func()
	units      int
}

// Failure is what a law panics with when the property does not hold.
type Failure struct {
	Sig string
	Msg string
}

type discard struct{}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Hash64 hashes a string.
func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (t *T) next() uint64 {
	t.rng += 0x9e3779b97f4a7c15
	x := t.rng
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// U64n draws a number in [0,n); n == 0 means the whole 64-bit range.
func (t *T) U64n(n uint64) uint64 {
	var v uint64
	if t.replays {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
		}
		if n != 0 && v >= n {
			v = v % n
		}
	} else {
		v = t.next()
		if n != 0 {
			hi, _ := bits.Mul64(v, n)
			v = hi
		}
	}
	t.pos++
	t.rec = append(t.rec, v)
	if len(t.rec) > 1<<21 {
		panic(discard{})
	}
	return v
}

// Intn draws a number in [0,n).
func (t *T) Intn(n int) int {
	if n <= 0 {
		panic("Intn")
	}
	return int(t.U64n(uint64(n)))
}

// Range draws a number in [lo,hi].
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }

// Bool draws a boolean; false is simpler.
func (t *T) Bool() bool { return t.U64n(2) == 1 }

// P is true num times out of den; false is simpler.
func (t *T) P(num, den int) bool { return int(t.U64n(uint64(den))) >= den-num }

// Weighted draws an index with the given weights; index 0 is simplest.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.Intn(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Pick draws an element; earlier is simpler.
func Pick[E any](t *T, xs []E) E { return xs[t.Intn(len(xs))] }

// OneOf picks one of the listed values.
func OneOf[E any](t *T, xs ...E) E { return xs[t.Intn(len(xs))] }

// Len draws a length with mean around avg, never above max.
func (t *T) Len(avg, max int) int {
	n := 0
	for n < max && t.Intn(avg+1) != 0 {
		n++
	}
	return n
}

// Many draws a length like Len, and once in a while, at most once per case, a
// far larger one.
func (t *T) Many(avg, max int) int {
	if !t.big && t.P(1, 250) {
		t.big = true
		return bigLens[t.Intn(len(bigLens))]
	}
	return t.Len(avg, max)
}

var bigLens = []int{20, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}

// Bytes draws n bytes.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := t.U64n(0)
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

// U32 draws a 32-bit number biased to boundaries.
func (t *T) U32() uint32 {
	switch t.Weighted(3, 2, 2, 2, 1) {
	case 0:
		return uint32(t.Intn(20))
	case 1:
		return Edge32[t.Intn(len(Edge32))]
	case 2:
		return uint32(t.U64n(1 << 32))
	case 3:
		return uint32(t.U64n(1<<32)) >> t.Intn(32)
	default:
		return uint32(1)<<t.Intn(32) + uint32(t.Intn(5)) - 2
	}
}

// U64 draws a 64-bit number biased to boundaries.
func (t *T) U64() uint64 {
	switch t.Weighted(3, 2, 2, 2, 1) {
	case 0:
		return t.U64n(20)
	case 1:
		return Edge64[t.Intn(len(Edge64))]
	case 2:
		return t.U64n(0)
	case 3:
		return t.U64n(0) >> t.Intn(64)
	default:
		return uint64(1)<<t.Intn(64) + t.U64n(5) - 2
	}
}

// Edge32 and Edge64 are boundary numbers.
var Edge32 = []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff, 0x10000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff}
var Edge64 = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1ffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffff00000000, 0xfffffffffffffffe, 0xffffffffffffffff}

// Label counts the case in a class.
func (t *T) Label(format string, a ...any) {
	if len(a) == 0 {
		t.labels = append(t.labels, format)
		return
	}
	t.labels = append(t.labels, fmt.Sprintf(format, a...))
}

// NonTrivial marks the case as non-trivial; key identifies it for counting
// distinct cases.
func (t *T) NonTrivial(key string) {
	t.nontrivial = true
	t.key = Hash64(key)
}

// NonTrivialH is NonTrivial with a hash already computed.
func (t *T) NonTrivialH(h uint64) {
	t.nontrivial = true
	t.key = h
}

// Case sets the human readable description of the case.
func (t *T) Case(f func() string) { t.desc = f }

// Discard abandons the case without counting it.
func (t *T) Discard() { panic(discard{}) }

// Failf reports that the property does not hold.
func (t *T) Failf(format string, a ...any) { panic(Failure{Msg: fmt.Sprintf(format, a...)}) }

// FailSig reports that the property does not hold with a signature that the
// known-findings file may refer to.
func (t *T) FailSig(sig, format string, a ...any) {
	panic(Failure{Sig: sig, Msg: fmt.Sprintf(format, a...)})
}

// Must fails when err is set.
func (t *T) Must(err error, what string) {
	if err != nil {
		t.Failf("%s: unexpected error: %v", what, err)
	}
}

// NoPanic runs f and fails the case with the given description when it panics.
func (t *T) NoPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, discard:
				panic(r)
			}
			t.FailSig("panic", "%s panicked: %v", what, r)
		}
	}()
	f()
}
