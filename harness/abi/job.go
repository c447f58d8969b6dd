package abi

import (
	"bytes"
	"fmt"

	abiio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"vharness/pbt"
	"vharness/ref"
)

// Modified is among the results of a job that changed what it only had to read.
const Modified = "the guest memory or the core values that were to be read have changed"

// only adds to the results of reading whether memory changed.
func (e *Env) only(out []any) []any {
	if !bytes.Equal(e.Before, e.Mem.Bytes()) {
		out = append(out, Modified)
	}
	return out
}

// Job draws a conversion that can be run any number of times, each time in a
// guest of its own, with the type and the value shared by all runs.
func Job(t *pbt.T) (desc string, run func() []any, inputs func() []any) {
	ty := GenTy(t, TyOpts{Depth: 3})
	v := GenVal(t, ty)
	enc := drawEnc(t)
	mode := t.Intn(4)
	fill := t.U64n(1 << 16)
	bits := make([]uint64, len(ref.Flatten(ty)))
	for i := range bits {
		bits[i] = t.U64n(300)
	}
	size := ref.Size(ty)
	lib := makeEnv(enc, 0, 0, 0, 0, 0).Lib(ty)
	desc = clip(fmt.Sprintf("conversion %d of type %s value %s encoding %s", mode, ty, ref.Show(v), enc))
	inputs = func() []any { return []any{v, lib} }
	run = func() []any {
		e := makeEnv(enc, size, size+64, fill, 1, 100)
		switch mode {
		case 0:
			err := abiio.Store(e.Cx, v, lib, 0)
			if err != nil {
				return []any{err}
			}
			got, err := abiio.Load(e.NewCx(), lib, 0)
			return []any{got, err, e.Mem.Bytes()}
		case 1:
			flat, err := abiio.LowerFlat(e.Cx, v, lib)
			if err != nil {
				return []any{err}
			}
			got, err := abiio.LiftFlat(e.NewCx(), values.NewIterator(flat...), lib)
			return []any{flat, got, err, e.Mem.Bytes()}
		case 2: // whatever is in memory
			got, err := abiio.Load(e.NewCx(), lib, 0)
			return e.only([]any{got, err})
		default:
			got, err := abiio.LiftFlat(e.NewCx(), values.NewIterator(coreValues(bits, ref.Flatten(ty))...), lib)
			n, err1 := abiio.Size(lib)
			a, err2 := abiio.Alignment(lib)
			f, err3 := abiio.FlattenType(lib)
			return e.only([]any{got, err, n, err1, a, err2, f, err3})
		}
	}
	return
}

// CallJob draws a call that can be made any number of times, each time in a
// guest of its own, with the function type, the arguments and the results
// shared by all runs.
func CallJob(t *pbt.T) (desc string, run func() []any, inputs func() []any) {
	c := &callCase{maxP: pbt.OneOf(t, 16, 16, 0, 2), maxR: pbt.OneOf(t, 1, 1, 0, 3)}
	c.ps, c.rs = drawFunc(t, TyOpts{Depth: 2}, 6)
	for _, p := range append(append([]*ref.Ty{}, c.ps...), c.rs...) {
		p.Settle()
	}
	for _, p := range c.ps {
		c.args = append(c.args, GenVal(t, p))
	}
	for _, r := range c.rs {
		c.res = append(c.res, GenVal(t, r))
	}
	enc := drawEnc(t)
	lower := t.Bool()
	fill := t.U64n(1 << 16)
	ft := makeEnv(enc, 0, 0, 0, 0, 0).libFunc(c.ps, c.rs)
	rSpill := len(ref.FlattenAll(c.rs)) > c.maxR
	desc = clip(fmt.Sprintf("call (lowered %v) of func %v -> %v limits %d %d; args %s; results %s encoding %s", lower, c.ps, c.rs, c.maxP, c.maxR, ref.Show(c.args), ref.Show(c.res), enc))
	inputs = func() []any { return []any{c.args, c.res, ft} }
	run = func() []any {
		e := makeEnv(enc, 0, 64, fill, 1, 100)
		if !lower {
			var seen, back, was []any
			got, post, err := abiio.CanonLift(e.Opts, e.Inst, func(x any) (any, error) {
				xs, _ := x.([]any)
				seen = append(seen, xs...)
				back = e.writeValues(c.res, c.rs, rSpill)
				was = append(was, back...)
				e.Before = append(e.Before[:0], e.Mem.Bytes()...)
				return back, nil
			}, ft, c.args, c.maxP, c.maxR)
			if err == nil && post != nil {
				post()
			}
			out := []any{seen, got, err, append([]byte(nil), e.Mem.Bytes()...)}
			if err == nil {
				out = e.only(out)
			}
			return sameCore(out, back, was)
		}
		flat := e.writeValues(c.args, c.ps, len(ref.FlattenAll(c.ps)) > c.maxP)
		if rSpill {
			tup := ref.TupleOf(c.rs)
			flat = append(flat, values.U32(e.Alloc(ref.Size(tup), ref.Align(tup))))
		}
		was := append([]any(nil), flat...)
		e.Before = append(e.Before[:0], e.Mem.Bytes()...)
		var out []any
		got, err := abiio.CanonLower(e.Opts, e.Inst, func(args []any) ([]any, types.PostReturnFunc, error) {
			out = e.only(append(out, args...))
			return c.res, func() {}, nil
		}, true, ft, flat, c.maxP, c.maxR)
		return sameCore(append(out, got, err, append([]byte(nil), e.Mem.Bytes()...)), flat, was)
	}
	return
}

func sameCore(out, now, was []any) []any {
	for i := range was {
		if ref.Show(now[i]) != ref.Show(was[i]) {
			return append(out, Modified)
		}
	}
	return out
}
