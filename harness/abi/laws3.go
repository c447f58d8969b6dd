package abi

import (
	"fmt"
	"sort"

	abiio "github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"

	"vharness/pbt"
	"vharness/ref"
)

// calls

type callCase struct {
	ps, rs     []*ref.Ty
	args, res  []any
	maxP, maxR int
}

func drawCall(t *pbt.T, own bool) *callCase {
	c := &callCase{maxP: 16, maxR: 1}
	c.ps, c.rs = drawFunc(t, TyOpts{Depth: 2, Own: own}, 12)
	for _, p := range c.ps {
		c.args = append(c.args, GenVal(t, p))
	}
	for _, r := range c.rs {
		c.res = append(c.res, GenVal(t, r))
	}
	c.limits(t)
	return c
}

// wideCalls: functions with many parameters and results.
var wideSizes = []int{17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 500, 512, 513, 1000, 1001, 1024, 1025, 2048, 4097}

func lawCallWide(t *pbt.T) {
	i := int(t.Index)
	n := wideSizes[i/6]
	c := &callCase{maxP: 16, maxR: 1}
	scalar := func(j int) *ref.Ty { return &ref.Ty{K: scalars[(i+j*5+j*j)%len(scalars)]} }
	for j := 0; j < n; j++ {
		c.ps = append(c.ps, scalar(j))
		c.args = append(c.args, GenVal(t, c.ps[j]))
	}
	for j := 0; j < []int{0, 1, n}[t.Intn(3)]; j++ {
		c.rs = append(c.rs, scalar(j))
		c.res = append(c.res, GenVal(t, c.rs[j]))
	}
	if i%6 >= 3 { // many results of few parameters
		c.ps, c.rs, c.args, c.res = c.rs, c.ps, c.res, c.args
	}
	c.limits(t)
	switch i % 3 {
	case 0:
		c.lift(t)
	case 1:
		c.lower(t)
	default:
		c.chain(t)
	}
}

func (c *callCase) limits(t *pbt.T) {
	np, nr := len(ref.FlattenAll(c.ps)), len(ref.FlattenAll(c.rs))
	switch t.Intn(4) {
	case 1:
		c.maxP, c.maxR = t.Intn(20), t.Intn(5)
	case 2:
		c.maxP, c.maxR = max(0, np-t.Intn(2)), max(0, nr-t.Intn(2))
	case 3:
		c.maxP, c.maxR = pbt.OneOf(t, 0, 1000), pbt.OneOf(t, 0, 1000)
	}
	t.Case(func() string {
		return clip(fmt.Sprintf("func %v -> %v limits %d %d; args %s; results %s", c.ps, c.rs, c.maxP, c.maxR, ref.Show(c.args), ref.Show(c.res)))
	})
	t.Label("params spilled %v", np > c.maxP)
	t.Label("results spilled %v", nr > c.maxR)
	if len(c.ps)+len(c.rs) > 0 {
		t.NonTrivial(fmt.Sprint(c.ps, c.rs, ref.Show(c.args), ref.Show(c.res), c.maxP, c.maxR))
	}
}

// readTuple reads values the library passed to a guest, as core values.
func (e *Env) readValues(t *pbt.T, what string, core []values.Value, ts []*ref.Ty, spilled bool) []any {
	want := ref.FlattenAll(ts)
	if spilled {
		want = []ref.CK{ref.I32}
	}
	bits, d := bitsOf(core, want)
	if d != "" {
		t.Failf("%s: %s", what, d)
	}
	ld := e.Loader(t)
	var out []any
	if spilled {
		tup := ref.TupleOf(ts)
		if bits[0]%ref.Align(tup) != 0 || bits[0]+ref.Size(tup) > uint64(e.Mem.Len()) {
			t.Failf("%s: passed in memory at bad address %d", what, bits[0])
		}
		m, err := ld.Load(tup, bits[0])
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		for i := range ts {
			out = append(out, m.(map[string]any)[fmt.Sprint(i)])
		}
		return out
	}
	n := 0
	for _, ty := range ts {
		v, k, err := ld.LiftFlat(ty, bits[n:])
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
		out = append(out, v)
		n += k
	}
	return out
}

// writeValues lets the model lower values into the guest.
func (e *Env) writeValues(vs []any, ts []*ref.Ty, spilled bool) []any {
	s := e.Storer()
	if spilled {
		tup := ref.TupleOf(ts)
		p := s.Alloc(ref.Size(tup), ref.Align(tup))
		m := map[string]any{}
		for i, v := range vs {
			m[fmt.Sprint(i)] = v
		}
		s.Store(m, tup, p)
		return []any{values.U32(p)}
	}
	var out []any
	for i, v := range vs {
		bits := s.LowerFlat(v, ts[i])
		out = append(out, anys(coreValues(bits, ref.Flatten(ts[i])))...)
	}
	return out
}

func diffAll(t *pbt.T, what string, got, want []any, ts []*ref.Ty) {
	if len(got) != len(want) {
		t.Failf("%s: %d values arrived, %d were sent", what, len(got), len(want))
	}
	for i := range want {
		if d := ref.Diff(got[i], ref.Norm(want[i], ts[i]), fmt.Sprintf("%s[%d]", what, i)); d != "" {
			t.Failf("%s", d)
		}
	}
}

// guestFunc is the body of a guest function reached through a lifted call.
func (c *callCase) guestFunc(t *pbt.T, e *Env, ran *int) func(any) (any, error) {
	return func(a any) (any, error) {
		*ran++
		xs, ok := a.([]any)
		if !ok {
			t.Failf("the guest function was given a %T", a)
		}
		core, d := coreOf(xs)
		if d != "" {
			t.Failf("arguments: %s", d)
		}
		got := e.readValues(t, "arguments", core, c.ps, len(ref.FlattenAll(c.ps)) > c.maxP)
		diffAll(t, "argument", got, c.args, c.ps)
		return e.writeValues(c.res, c.rs, len(ref.FlattenAll(c.rs)) > c.maxR), nil
	}
}

func lawCallLift(t *pbt.T) { drawCall(t, true).lift(t) }

func (c *callCase) lift(t *pbt.T) {
	e := NewEnv(t, drawEnc(t), 0)
	ft := e.libFunc(c.ps, c.rs)
	posts, ran := 0, 0
	e.Opts.PostReturn = func() { posts++ }
	if t.P(1, 4) {
		e.Opts.PostReturn = nil
	}
	got, post, err := abiio.CanonLift(e.Opts, e.Inst, c.guestFunc(t, e, &ran), ft, c.args, c.maxP, c.maxR)
	t.Must(err, "CanonLift")
	if ran != 1 {
		t.Failf("the guest function ran %d times", ran)
	}
	diffAll(t, "result", got, c.res, c.rs)
	if posts != 0 {
		t.Failf("post-return ran before the caller asked for it")
	}
	if post == nil {
		t.Failf("no post-return function returned")
	}
	post()
	if e.Opts.PostReturn != nil && posts != 1 {
		t.Failf("post-return ran %d times", posts)
	}
}

// lowerCall runs the import side: a guest calls out through a lowered function.
func (c *callCase) lowerCall(t *pbt.T, e *Env, callee func([]any) ([]any, types.PostReturnFunc, error), atPost *func(), callingImport bool) {
	ft := e.libFunc(c.ps, c.rs)
	pSpill, rSpill := len(ref.FlattenAll(c.ps)) > c.maxP, len(ref.FlattenAll(c.rs)) > c.maxR
	flat := e.writeValues(c.args, c.ps, pSpill)
	tup := ref.TupleOf(c.rs)
	var out uint64
	if rSpill {
		out = e.Alloc(ref.Size(tup), ref.Align(tup))
		flat = append(flat, values.U32(out))
	}
	e.Blocks = nil
	e.Before = append(e.Before[:0], e.Mem.Bytes()...)
	results := map[string]any{}
	for i, v := range c.res {
		results[fmt.Sprint(i)] = v
	}
	spilledOK := func(when string) *ref.Checker {
		ch := e.Checker()
		if d := ch.Image(results, tup, out, "results"); d != "" {
			t.Failf("%s: %s", when, d)
		}
		return ch
	}
	*atPost = func() {
		if rSpill {
			spilledOK("results in memory when post-return runs")
		}
	}
	got, err := abiio.CanonLower(e.Opts, e.Inst, callee, callingImport, ft, flat, c.maxP, c.maxR)
	t.Must(err, "CanonLower")
	core, d := coreOf(got)
	if d != "" {
		t.Failf("results: %s", d)
	}
	if rSpill {
		if len(core) != 0 {
			t.Failf("the core signature has no results but %d core values were returned", len(core))
		}
		ch := spilledOK("results in memory")
		if d := SameBlocks(e.Blocks, ch.Blocks); d != "" {
			t.Failf("%s", d)
		}
		if d := e.Stray(ch.Own); d != "" {
			t.Failf("%s", d)
		}
		return
	}
	bits, d := bitsOf(core, ref.FlattenAll(c.rs))
	if d != "" {
		t.Failf("results: %s", d)
	}
	ch := e.Checker()
	n := 0
	for i, r := range c.rs {
		k, d := ch.Flat(c.res[i], r, bits[n:], fmt.Sprintf("result[%d]", i))
		if d != "" {
			t.Failf("%s", d)
		}
		n += k
	}
}

func lawCallLower(t *pbt.T) { drawCall(t, true).lower(t) }

func (c *callCase) lower(t *pbt.T) {
	e := NewEnv(t, drawEnc(t), 0)
	posts, ran := 0, 0
	var atPost func()
	allocs := -1
	withPost := !t.P(1, 6)
	callee := func(args []any) ([]any, types.PostReturnFunc, error) {
		ran++
		diffAll(t, "argument", args, c.args, c.ps)
		if !withPost {
			return c.res, nil, nil
		}
		return c.res, func() { posts++; allocs = len(e.Blocks); atPost() }, nil
	}
	c.lowerCall(t, e, callee, &atPost, t.Bool())
	if ran != 1 {
		t.Failf("the callee ran %d times", ran)
	}
	if withPost && posts != 1 {
		t.Failf("post-return ran %d times", posts)
	}
	if withPost && allocs != len(e.Blocks) {
		t.Failf("results were still being lowered after post-return")
	}
}

// guest to guest
func lawCallChain(t *pbt.T) { drawCall(t, true).chain(t) }

func (c *callCase) chain(t *pbt.T) {
	a, b := NewEnv(t, drawEnc(t), 0), NewEnv(t, drawEnc(t), 0)
	b.RT = a.RT
	a.Other = b.Inst
	posts, ran := 0, 0
	b.Opts.PostReturn = func() { posts++ }
	ft := b.libFunc(c.ps, c.rs)
	inner := c.guestFunc(t, b, &ran)
	t.Label("%s calls %s", a.Enc, b.Enc)
	var atPost func()
	callee := func(args []any) ([]any, types.PostReturnFunc, error) {
		diffAll(t, "argument on the way", args, c.args, c.ps)
		return abiio.CanonLift(b.Opts, b.Inst, inner, ft, args, c.maxP, c.maxR)
	}
	rounds := 1 + t.Intn(2)
	for i := 0; i < rounds; i++ {
		posts, ran = 0, 0
		c.lowerCall(t, a, callee, &atPost, true)
		if ran != 1 || posts != 1 {
			t.Failf("call %d: the function ran %d times, post-return %d times", i, ran, posts)
		}
	}
}

// A failing callee fails the call.
func lawCallError(t *pbt.T) {
	c := drawCall(t, false)
	e := NewEnv(t, drawEnc(t), 0)
	boom := fmt.Errorf("boom")
	ft := e.libFunc(c.ps, c.rs)
	if t.Bool() {
		_, _, err := abiio.CanonLift(e.Opts, e.Inst, func(any) (any, error) { return nil, boom }, ft, c.args, c.maxP, c.maxR)
		if err == nil {
			t.Failf("the guest function failed and the call reported success")
		}
		return
	}
	flat := e.writeValues(c.args, c.ps, len(ref.FlattenAll(c.ps)) > c.maxP)
	if len(ref.FlattenAll(c.rs)) > c.maxR {
		tup := ref.TupleOf(c.rs)
		flat = append(flat, values.U32(e.Alloc(ref.Size(tup), ref.Align(tup))))
	}
	if _, err := abiio.CanonLower(e.Opts, e.Inst, func([]any) ([]any, types.PostReturnFunc, error) { return nil, nil, boom }, t.Bool(), ft, flat, c.maxP, c.maxR); err == nil {
		t.Failf("the callee failed and the call reported success")
	}
}

// liftAll lets the model read what a guest passes.
func (e *Env) liftAll(t *pbt.T, bits []uint64, ts []*ref.Ty, spilled bool) (out []any, err error) {
	ld := e.Loader(t)
	if !spilled {
		for _, ty := range ts {
			v, k, err := ld.LiftFlat(ty, bits)
			if err != nil {
				return nil, err
			}
			out, bits = append(out, v), bits[k:]
		}
		return out, nil
	}
	tup := ref.TupleOf(ts)
	if bits[0]%ref.Align(tup) != 0 || bits[0]+ref.Size(tup) > uint64(e.Mem.Len()) {
		return nil, fmt.Errorf("bad address %d", bits[0])
	}
	m, err := ld.Load(tup, bits[0])
	if err != nil {
		return nil, err
	}
	for i := range ts {
		out = append(out, m.(map[string]any)[fmt.Sprint(i)])
	}
	return out, nil
}

// garble lets a guest pass something else than the core values it should:
// other bits, other memory, too few, of other kinds or no core values at all.
// It returns what must arrive, or an error when the call must fail.
func (e *Env) garble(t *pbt.T, core []any, ts []*ref.Ty, spilled bool) (sent, want []any, err error, what string) {
	ks := ref.FlattenAll(ts)
	if spilled {
		ks = []ref.CK{ref.I32}
	}
	vs, _ := coreOf(core)
	bits, _ := bitsOf(vs, ks)
	bits = append([]uint64{}, bits...)
	mode := t.Weighted(6, 2, 2, 2)
	if len(ks) == 0 {
		mode = 0
	}
	switch mode {
	case 1:
		n := t.Intn(len(core))
		return core[:n], nil, fmt.Errorf("%d of %d core values", n, len(core)), "too few core values"
	case 2:
		i := t.Intn(len(ks))
		other := append([]ref.CK{}, ks...)
		other[i] = (ks[i] + 1 + ref.CK(t.Intn(3))) % 4
		return anys(coreValues(bits, other)), nil, fmt.Errorf("core value %d is of another kind", i), "a core value of another kind"
	case 3:
		sent = append([]any{}, core...)
		i := t.Intn(len(sent))
		sent[i] = pbt.OneOf[any](t, nil, uint32(bits[i]), bits[i], "x", []any{}, core)
		return sent, nil, fmt.Errorf("core value %d is none", i), "not a core value"
	}
	mem := e.Mem.Bytes()
	for i, n := 0, t.Intn(4); i < n; i++ {
		switch t.Intn(4) {
		case 0:
			if len(bits) > 0 {
				disturb(t, bits, t.Intn(len(bits)))
			}
		case 1:
			if len(bits) > 0 {
				bits[t.Intn(len(bits))] = uint64(hostile(t, uint64(len(mem)), uint64(t.Intn(9))))
			}
		default:
			if len(e.Blocks) == 0 {
				continue
			}
			b := pbt.Pick(t, e.Blocks)
			if b.Size == 0 || b.Ptr+b.Size > uint64(len(mem)) {
				continue
			}
			if at := b.Ptr + t.U64n(b.Size); t.Bool() {
				mem[at] = byte(t.U32())
			} else {
				mem[at] ^= 1 << t.Intn(8)
			}
		}
	}
	for i, k := range ks {
		if k == ref.I32 || k == ref.CF32 {
			bits[i] &= 0xffffffff
		}
	}
	want, err = e.liftAll(t, bits, ts, spilled)
	return anys(coreValues(bits, ks)), want, err, "other contents"
}

// Whatever a guest passes, the other side gets the values it denotes or is
// not run, and the call fails.
func lawCallGarbled(t *pbt.T) {
	c := drawCall(t, true)
	e := NewEnv(t, drawEnc(t), 0)
	ft := e.libFunc(c.ps, c.rs)
	pSpill, rSpill := len(ref.FlattenAll(c.ps)) > c.maxP, len(ref.FlattenAll(c.rs)) > c.maxR
	if t.Bool() {
		var want []any
		var werr error
		var what string
		posts := 0
		e.Opts.PostReturn = func() { posts++ }
		got, post, err := abiio.CanonLift(e.Opts, e.Inst, func(any) (any, error) {
			e.Blocks = nil
			core := e.writeValues(c.res, c.rs, rSpill)
			if len(core) > 0 && t.P(1, 8) {
				werr, what = fmt.Errorf("no list"), "no list of results"
				return pbt.OneOf[any](t, nil, core[0], uint32(1), "x"), nil
			}
			if t.P(1, 8) {
				werr, what = fmt.Errorf("failed"), "results and an error"
				return core, werr
			}
			core, want, werr, what = e.garble(t, core, c.rs, rSpill)
			return core, nil
		}, ft, c.args, c.maxP, c.maxR)
		t.Label("results: %s", what)
		switch {
		case werr != nil && err == nil:
			t.Failf("the guest returned %s (%v) and the call succeeded with %s", what, werr, clip(ref.Show(got)))
		case werr != nil:
			if posts != 0 {
				t.Failf("post-return ran after a failed call")
			}
			return
		case err != nil:
			t.Failf("the results denote %s but the call failed: %v", clip(ref.Show(want)), err)
		}
		diffAll(t, "result", got, want, c.rs)
		post()
		if posts != 1 {
			t.Failf("post-return ran %d times", posts)
		}
		return
	}
	core := e.writeValues(c.args, c.ps, pSpill)
	tup := ref.TupleOf(c.rs)
	var out uint64
	if rSpill {
		out = e.Alloc(ref.Size(tup), ref.Align(tup))
	}
	flat, want, werr, what := e.garble(t, core, c.ps, pSpill)
	t.Label("arguments: %s", what)
	badOut := false
	if rSpill && what != "too few core values" {
		var p any = values.U32(out)
		switch t.Intn(6) {
		case 0:
			x := uint64(hostile(t, uint64(e.Mem.Len()), 1))
			if badOut = x+ref.Size(tup) > uint64(e.Mem.Len()) || x%ref.Align(tup) != 0; badOut {
				p = values.U32(x)
			}
		case 1:
			badOut = true
			p = pbt.OneOf[any](t, nil, values.U64(out), out, "x")
		case 2:
			badOut = true
		}
		if p != any(values.U32(out)) || !badOut {
			flat = append(flat, p)
		}
	}
	ran := 0
	var got []any
	res, err := abiio.CanonLower(e.Opts, e.Inst, func(args []any) ([]any, types.PostReturnFunc, error) {
		ran++
		got = args
		return c.res, func() {}, nil
	}, t.Bool(), ft, flat, c.maxP, c.maxR)
	switch {
	case werr != nil && ran != 0:
		t.Failf("the guest passed %s (%v) and the callee ran with %s", what, werr, clip(ref.Show(got)))
	case (werr != nil || badOut) && err == nil:
		t.Failf("the guest passed %s (%v), bad result address %v, and the call succeeded with %v", what, werr, badOut, res)
	case werr != nil || badOut && ran == 0:
		return
	case !badOut && err != nil:
		t.Failf("the arguments denote %s but the call failed: %v", clip(ref.Show(want)), err)
	case ran != 1:
		t.Failf("the callee ran %d times", ran)
	}
	diffAll(t, "argument", got, want, c.ps)
}

// Results of the wrong number or type are refused.
func lawBadResults(t *pbt.T) {
	c := drawCall(t, false)
	e := NewEnv(t, drawEnc(t), 0)
	ft := e.libFunc(c.ps, c.rs)
	flat := e.writeValues(c.args, c.ps, len(ref.FlattenAll(c.ps)) > c.maxP)
	if len(ref.FlattenAll(c.rs)) > c.maxR {
		tup := ref.TupleOf(c.rs)
		flat = append(flat, values.U32(e.Alloc(ref.Size(tup), ref.Align(tup))))
	}
	bad := append([]any{}, c.res...)
	what := ""
	switch k := t.Intn(3); {
	case k == 0 && len(bad) > 0:
		bad = bad[:t.Intn(len(bad))]
		what = "too few results"
	case k == 1 && len(bad) > 0:
		i := t.Intn(len(bad))
		x, b := breakValue(t, c.rs[i], bad[i])
		if b.numeric {
			t.Discard()
		}
		bad[i] = x
		what = "result " + b.what
	default:
		bad = append(bad, uint32(1))
		what = "too many results"
	}
	t.Case(func() string {
		return clip(fmt.Sprintf("func %v -> %v limits %d %d; results given %s (%s)", c.ps, c.rs, c.maxP, c.maxR, ref.Show(bad), what))
	})
	t.NonTrivial(fmt.Sprint(c.rs, ref.Show(bad), c.maxR))
	var err error
	t.NoPanic("call", func() {
		_, err = abiio.CanonLower(e.Opts, e.Inst, func([]any) ([]any, types.PostReturnFunc, error) { return bad, func() {}, nil }, t.Bool(), ft, flat, c.maxP, c.maxR)
	})
	if err == nil {
		t.Failf("accepted: %s", what)
	}
}

// handle tables

func lawHandleTable(t *pbt.T) {
	nt := 1 + t.Intn(3)
	if t.P(1, 5) {
		nt += t.Many(6, 20)
	}
	hs := &types.HandleTables{}
	if t.P(3, 4) {
		hs.ResourceTypeToTable = map[types.ResourceType]*types.HandleTable{}
	}
	inst := newInstance()
	var rts []types.ResourceType
	for i := 0; i < nt; i++ {
		rts = append(rts, types.NewResourceType(nil, inst))
	}
	live := make([]map[uint32]*types.HandleElem, nt)
	freed := make([]map[uint32]bool, nt)
	for i := range live {
		live[i], freed[i] = map[uint32]*types.HandleElem{}, map[uint32]bool{}
	}
	scopes := []*types.CallContext{{}, {}} // calls that borrows belong to
	scoped := make([]int, len(scopes))
	lender := &types.CallContext{}
	lent := map[*types.HandleElem]bool{}
	n := 2 + t.Len(20, 80)
	log := ""
	t.Case(func() string { return log })
	rep := uint32(1000)
	adds, removes := 0, 0
	bulk := 0 // many handles at first
	if t.P(1, 100) {
		bulk = pbt.Pick(t, []int{255, 256, 257, 1000})
		if t.P(1, 50) {
			bulk = 65537
		}
	}
	for i := 0; i < bulk; i++ {
		rep++
		el := &types.HandleElem{Rep: rep, Own: true}
		h, err := hs.Add(rts[0], el)
		t.Must(err, "Add")
		if live[0][h] != nil {
			t.Failf("number %d of type 0 given out twice", h)
		}
		live[0][h] = el
	}
	fill := t.P(1, 2) // fill first, then churn
	for i := 0; i < n; i++ {
		r := t.Intn(nt)
		op := t.Weighted(4, 4, 2, 1, 1, 1)
		if fill && i < n/3 {
			op = 0
		}
		switch op {
		case 0:
			rep++
			el := &types.HandleElem{Rep: drawRep(t, rep), Own: t.Bool()}
			kind := "add"
			if !el.Own && t.P(2, 3) {
				k := t.Intn(len(scopes))
				el.Scope = scopes[k]
				scoped[k]++
				kind = fmt.Sprintf("borrow%d", k)
			}
			h, err := hs.Add(rts[r], el)
			log += fmt.Sprintf("%s(t%d)=%d ", kind, r, h)
			t.Must(err, "Add")
			if live[r][h] != nil {
				t.Failf("number %d of type %d given out twice", h, r)
			}
			if len(freed[r]) > 0 && !freed[r][h] {
				t.Failf("new number %d of type %d although %v are free", h, r, keys(freed[r]))
			}
			delete(freed[r], h)
			live[r][h] = el
			adds++
		case 1: // remove a live one
			ks := keys2(live[r])
			if len(ks) == 0 {
				continue
			}
			h := pbt.Pick(t, ks)
			if t.P(1, 3) {
				h = ks[len(ks)-1]
			}
			log += fmt.Sprintf("remove(t%d,%d) ", r, h)
			el, err := hs.Remove(rts[r], h)
			if lent[live[r][h]] {
				if err == nil || !isTrap(err) {
					t.Failf("removing lent handle %d of type %d: %v", h, r, err)
				}
				break
			}
			t.Must(err, "Remove")
			if el != live[r][h] {
				t.Failf("removing %d of type %d gave rep %d, want %d", h, r, el.Rep, live[r][h].Rep)
			}
			for k := range scopes {
				if el.Scope == scopes[k] {
					scoped[k]--
				}
			}
			delete(live[r], h)
			freed[r][h] = true
			removes++
		case 2: // remove or get anything
			h := drawHandle(t, live, freed)
			_, ok := live[r][h]
			log += fmt.Sprintf("tryremove(t%d,%d) ", r, h)
			if ok {
				continue
			}
			if _, err := hs.Remove(rts[r], h); err == nil || !isTrap(err) {
				t.Failf("removing unused number %d of type %d: %v", h, r, err)
			}
		case 3:
			h := drawHandle(t, live, freed)
			log += fmt.Sprintf("get(t%d,%d) ", r, h)
			el, err := hs.Get(rts[r], h)
			if want := live[r][h]; want == nil {
				if err == nil || !isTrap(err) {
					t.Failf("looking up unused number %d of type %d: %v", h, r, err)
				}
			} else if err != nil || el != want {
				t.Failf("looking up %d of type %d: %v %v", h, r, el, err)
			}
		case 4: // lend a live one
			ks := keys2(live[r])
			if len(ks) == 0 {
				continue
			}
			h := pbt.Pick(t, ks)
			log += fmt.Sprintf("lend(t%d,%d) ", r, h)
			lender.LiftBorrowFrom(live[r][h])
			lent[live[r][h]] = true
		case 5: // everything lent comes back
			log += "return "
			t.Must(lender.ExitCall(), "ExitCall")
			lender = &types.CallContext{}
			lent = map[*types.HandleElem]bool{}
		}
		for k, cx := range scopes {
			if cx.BorrowCount != scoped[k] {
				t.Failf("call %d counts %d borrows, %d are live", k, cx.BorrowCount, scoped[k])
			}
		}
		if bulk > 0 && i < n-1 {
			continue
		}
		for r := range live {
			for h, want := range live[r] {
				el, err := hs.Get(rts[r], h)
				if err != nil || el != want || el.Rep != want.Rep {
					t.Failf("live handle %d of type %d no longer designates rep %d (%v, %v)", h, r, want.Rep, el, err)
				}
			}
			for h := range freed[r] {
				if _, err := hs.Get(rts[r], h); err == nil {
					t.Failf("freed handle %d of type %d still resolves", h, r)
				}
			}
		}
	}
	if adds > 1 && removes > 0 {
		t.NonTrivial(log)
	}
}

// drawRep draws a representation: a fresh one, or one that looks special.
func drawRep(t *pbt.T, fresh uint32) uint32 {
	switch t.Weighted(6, 1, 1, 1, 1) {
	case 1:
		return 0
	case 2:
		return fresh | 1<<31
	case 3:
		return ^fresh
	case 4:
		return 1<<32 - 1
	}
	return fresh
}

var bulkSizes = []int{2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 10000, 65535, 65536, 65537}

// lawHandleBulk: many handles are added, many of them removed, and many added again.
func lawHandleBulk(t *pbt.T) {
	n, order := bulkSizes[int(t.Index)/8], int(t.Index)%8
	t.Case(func() string {
		return fmt.Sprintf("%d handles are added, removed in order %d, and added again", n, order)
	})
	t.NonTrivial(fmt.Sprint(n, order))
	inst := newInstance()
	rts := []types.ResourceType{types.NewResourceType(nil, inst), types.NewResourceType(nil, inst)}
	many := map[types.ResourceType]uint32{} // one handle each of many other types
	if order == 3 {
		for i := 0; i < n && i < 5000; i++ {
			rt := types.NewResourceType(nil, inst)
			x, err := abiio.CanonResourceNew(inst, rt, uint32(i)+9)
			t.Must(err, "resource.new")
			many[rt] = x.(uint32)
			rts = append(rts, rt)
		}
	}
	live := map[uint32]uint32{}
	add := func(rep uint32, free map[uint32]bool) {
		x, err := abiio.CanonResourceNew(inst, rts[0], rep)
		t.Must(err, "resource.new")
		h := x.(uint32)
		if _, dup := live[h]; dup {
			t.Failf("number %d given out twice", h)
		}
		if len(free) > 0 && !free[h] {
			t.Failf("new number %d although %d are free", h, len(free))
		}
		delete(free, h)
		live[h] = rep
	}
	other, err := abiio.CanonResourceNew(inst, rts[1], 77)
	t.Must(err, "resource.new")
	for i := 0; i < n; i++ {
		add(uint32(i)*0x9e3779b1, nil)
	}
	hs := keys2(live)
	var out []uint32
	for i := range hs {
		j := i
		if order&1 != 0 {
			j = len(hs) - 1 - i
		}
		if order&2 != 0 && j%2 == 0 || order&4 != 0 && j%3 == 0 {
			continue
		}
		out = append(out, hs[j])
	}
	free := map[uint32]bool{}
	for round := 0; round < 2; round++ {
		for _, h := range out {
			t.Must(abiio.CanonResourceDrop(inst, rts[0], h), "resource.drop")
			delete(live, h)
			free[h] = true
		}
		for h := range free {
			if _, err := abiio.CanonResourceRep(inst, rts[0], h); err == nil || !isTrap(err) {
				t.Failf("freed number %d: %v", h, err)
			}
		}
		for i := range out {
			add(uint32(i)*0x9e3779b1+uint32(round)+1, free)
		}
	}
	add(5, free)
	for h, rep := range live {
		if got, err := abiio.CanonResourceRep(inst, rts[0], h); err != nil || got != rep {
			t.Failf("handle %d designates %d, want %d: %v", h, got, rep, err)
		}
	}
	if got, err := abiio.CanonResourceRep(inst, rts[1], other.(uint32)); err != nil || got != 77 {
		t.Failf("the handle of another type changed: %d, %v", got, err)
	}
	for i, rt := range rts[2:] {
		if got, err := abiio.CanonResourceRep(inst, rt, many[rt]); err != nil || got != uint32(i)+9 {
			t.Failf("the handle of one of %d other types changed: %d, %v", len(many), got, err)
		}
	}
}

// drawHandle draws a number biased to interesting ones of any type.
func drawHandle(t *pbt.T, live []map[uint32]*types.HandleElem, freed []map[uint32]bool) uint32 {
	var all []uint32
	for r := range live {
		all = append(all, keys2(live[r])...)
		all = append(all, keys(freed[r])...)
	}
	if len(all) == 0 || t.P(1, 4) {
		return t.U32()
	}
	return pbt.Pick(t, all) + uint32(t.Intn(2))
}

func keys(m map[uint32]bool) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func keys2[V any](m map[uint32]V) []uint32 {
	var out []uint32
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// The same through the canonical built-ins and value conversion.
func lawHandleBuiltins(t *pbt.T) {
	e := NewEnv(t, ref.UTF8, 16)
	live := make([]map[uint32]uint32, 3)
	freed := make([]map[uint32]bool, 3)
	for i := range live {
		live[i], freed[i] = map[uint32]uint32{}, map[uint32]bool{}
	}
	log := ""
	t.Case(func() string { return log })
	fresh := uint32(50)
	n := 3 + t.Len(15, 60)
	adds, removes := 0, 0
	for i := 0; i < n; i++ {
		r := t.Intn(3)
		own := types.NewOwn(e.RT[r])
		switch t.Intn(6) {
		case 0, 1, 2:
			fresh++
			rep := drawRep(t, fresh)
			var h uint32
			switch t.Intn(3) {
			case 0:
				x, err := abiio.CanonResourceNew(e.Inst, e.RT[r], rep)
				t.Must(err, "resource.new")
				h = x.(uint32)
			case 1:
				f, err := abiio.LowerFlat(e.Cx, rep, own)
				t.Must(err, "LowerFlat own")
				bits, d := bitsOf(f, []ref.CK{ref.I32})
				if d != "" {
					t.Failf("%s", d)
				}
				h = uint32(bits[0])
			case 2:
				t.Must(abiio.Store(e.Cx, rep, own, 8), "Store own")
				b := e.Mem.Bytes()[8:12]
				h = uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
			}
			log += fmt.Sprintf("new(t%d)=%d ", r, h)
			if _, dup := live[r][h]; dup {
				t.Failf("number %d of type %d given out twice", h, r)
			}
			if len(freed[r]) > 0 && !freed[r][h] {
				t.Failf("new number %d of type %d although %v are free", h, r, keys(freed[r]))
			}
			delete(freed[r], h)
			live[r][h] = rep
			adds++
		case 3, 4:
			var h uint32
			ks := keys2(live[r])
			if len(ks) > 0 && t.P(3, 4) {
				h = pbt.Pick(t, ks)
			} else {
				h = t.U32()
			}
			want, ok := live[r][h]
			var err error
			got := want
			how := t.Intn(3)
			log += fmt.Sprintf("take%d(t%d,%d) ", how, r, h)
			switch how {
			case 0:
				err = abiio.CanonResourceDrop(e.Inst, e.RT[r], h)
			case 1:
				var v any
				if v, err = abiio.LiftFlat(e.NewCx(), values.NewIterator(values.U32(h)), own); err == nil {
					got = v.(uint32)
				}
			case 2:
				b := e.Mem.Bytes()
				b[0], b[1], b[2], b[3] = byte(h), byte(h>>8), byte(h>>16), byte(h>>24)
				var v any
				if v, err = abiio.Load(e.NewCx(), own, 0); err == nil {
					got = v.(uint32)
				}
			}
			if ok != (err == nil) || (err != nil && !isTrap(err)) {
				t.Failf("taking %d of type %d, live %v: %v", h, r, ok, err)
			}
			if got != want {
				t.Failf("handle %d of type %d designates %d, want %d", h, r, got, want)
			}
			if ok {
				delete(live[r], h)
				freed[r][h] = true
				removes++
			}
		case 5:
			h := t.U32()
			if ks := keys2(live[r]); len(ks) > 0 && t.Bool() {
				h = pbt.Pick(t, ks)
			}
			_, ok := live[r][h]
			_, err := abiio.CanonResourceRep(e.Inst, e.RT[r], h)
			if ok != (err == nil) {
				t.Failf("rep of %d of type %d, live %v: %v", h, r, ok, err)
			}
		}
		for r := range live {
			for h, want := range live[r] {
				got, err := abiio.CanonResourceRep(e.Inst, e.RT[r], h)
				if err != nil || got != want {
					t.Failf("live handle %d of type %d no longer designates %d (%d, %v)", h, r, want, got, err)
				}
			}
		}
	}
	if adds > 1 && removes > 0 {
		t.NonTrivial(log)
	}
}

// ownership

type lend struct {
	inst, r int
	h       uint32
}

type openCall struct {
	from, to int
	cxFrom   *types.CallContext
	cxTo     *types.CallContext
	lends    []lend // borrowed from the caller
	got      []lend // borrow handles in the callee
}

type mHandle struct {
	rep   uint32
	own   bool
	lends int
	call  *openCall // borrow handles: the call they belong to
}

func lawOwnership(t *pbt.T) {
	const ni, nr = 3, 3
	var insts []*types.ComponentInstance
	for i := 0; i < ni; i++ {
		insts = append(insts, newInstance())
	}
	var dtor []string
	var rts []types.ResourceType
	impl := []int{0, 1, 0}
	host := t.P(1, 4) // the last resource is the host's, no instance implements it
	if host {
		impl[2] = -1
	}
	for r := 0; r < nr; r++ {
		r := r
		var d types.DTorFunc = func(rep uint32) { dtor = append(dtor, fmt.Sprintf("t%d:%d", r, rep)) }
		var home *types.ComponentInstance
		if impl[r] >= 0 {
			home = insts[impl[r]]
		}
		rts = append(rts, types.NewResourceType(d, home))
	}
	tables := make([][]map[uint32]*mHandle, ni)
	for i := range tables {
		tables[i] = make([]map[uint32]*mHandle, nr)
		for r := range tables[i] {
			tables[i][r] = map[uint32]*mHandle{}
		}
	}
	opts := &types.CanonicalOptions{}
	var calls []*openCall
	log := ""
	t.Case(func() string { return log })
	fresh := uint32(10)
	moves, borrows, refused := 0, 0, 0
	pick := func(i, r int) uint32 {
		ks := keys2(tables[i][r])
		if len(ks) == 0 || t.P(1, 8) {
			return uint32(t.Intn(6))
		}
		return pbt.Pick(t, ks)
	}
	put := func(i, r int, h uint32, m *mHandle) {
		if tables[i][r][h] != nil {
			t.Failf("handle %d of type %d in instance %d given out twice", h, r, i)
		}
		tables[i][r][h] = m
	}
	n := 4 + t.Len(20, 80)
	for step := 0; step < n; step++ {
		i, r := t.Intn(ni), t.Intn(nr)
		if t.P(2, 3) { // concentrate
			i, r = t.Intn(2), 0
			if host {
				r = 2
			}
		}
		before := len(dtor)
		switch t.Weighted(3, 3, 3, 4, 3) {
		case 0: // new
			fresh++
			rep := drawRep(t, fresh)
			if impl[r] >= 0 {
				i = impl[r]
			}
			x, err := abiio.CanonResourceNew(insts[i], rts[r], rep)
			t.Must(err, "resource.new")
			log += fmt.Sprintf("new(i%d,t%d,rep%d)=%v ", i, r, rep, x)
			put(i, r, x.(uint32), &mHandle{rep: rep, own: true})
		case 1: // drop
			h := pick(i, r)
			m := tables[i][r][h]
			log += fmt.Sprintf("drop(i%d,t%d,%d) ", i, r, h)
			err := abiio.CanonResourceDrop(insts[i], rts[r], h)
			ok := m != nil && m.lends == 0
			if ok != (err == nil) {
				t.Failf("drop of handle %d (live %v, lent %v): %v", h, m != nil, m != nil && m.lends > 0, err)
			}
			if !ok {
				refused++
				break
			}
			if m.own {
				if len(dtor) != before+1 || dtor[before] != fmt.Sprintf("t%d:%d", r, m.rep) {
					t.Failf("dropping the owned handle of t%d:%d ran destructors %v", r, m.rep, dtor[before:])
				}
				before++
			} else {
				m.call.got = without(m.call.got, lend{i, r, h})
			}
			delete(tables[i][r], h)
		case 2: // move an owned handle to another instance
			j := (i + 1 + t.Intn(ni-1)) % ni
			h := pick(i, r)
			m := tables[i][r][h]
			log += fmt.Sprintf("move(i%d->i%d,t%d,%d) ", i, j, r, h)
			own := types.NewOwn(rts[r])
			v, err := abiio.LiftFlat(&types.CallContext{Options: opts, Instance: insts[i]}, values.NewIterator(values.U32(h)), own)
			ok := m != nil && m.own && m.lends == 0
			if ok != (err == nil) {
				t.Failf("passing handle %d as owned (live %v, owned %v, lent %v): %v", h, m != nil, m != nil && m.own, m != nil && m.lends > 0, err)
			}
			if !ok {
				refused++
				if m != nil { // refused before anything happened
					if _, gerr := insts[i].Handles.Get(rts[r], h); m.lends > 0 && gerr != nil {
						t.Failf("handle %d is lent, passing it as owned was refused, and yet it is gone", h)
					}
					if !m.own && m.lends == 0 { // the call traps; whether the borrow survives is not stated
						if _, gerr := insts[i].Handles.Get(rts[r], h); gerr != nil {
							t.Discard()
						}
					}
				}
				break
			}
			moves++
			if v != any(m.rep) {
				t.Failf("handle %d carries %v, want representation %d", h, v, m.rep)
			}
			delete(tables[i][r], h)
			f, err := abiio.LowerFlat(&types.CallContext{Options: opts, Instance: insts[j]}, v, own)
			t.Must(err, "LowerFlat own")
			put(j, r, f[0].Value().(uint32), &mHandle{rep: m.rep, own: true})
		case 3: // a call passes borrows
			j := (i + 1 + t.Intn(ni-1)) % ni
			c := &openCall{from: i, to: j,
				cxFrom: &types.CallContext{Options: opts, Instance: insts[i]},
				cxTo:   &types.CallContext{Options: opts, Instance: insts[j]}}
			log += fmt.Sprintf("call(i%d->i%d", i, j)
			for k, m := 0, 1+t.Intn(3); k < m; k++ {
				rr := r
				h := pick(i, rr)
				m := tables[i][rr][h]
				bt := types.NewBorrow(rts[rr])
				log += fmt.Sprintf(" borrow t%d,%d", rr, h)
				v, err := abiio.LiftFlat(c.cxFrom, values.NewIterator(values.U32(h)), bt)
				if (m != nil) != (err == nil) {
					t.Failf("lending handle %d (live %v): %v", h, m != nil, err)
				}
				if m == nil {
					refused++
					continue
				}
				borrows++
				if v != any(m.rep) {
					t.Failf("handle %d carries %v, want representation %d", h, v, m.rep)
				}
				m.lends++
				c.lends = append(c.lends, lend{i, rr, h})
				f, err := abiio.LowerFlat(c.cxTo, v, bt)
				t.Must(err, "LowerFlat borrow")
				bh := f[0].Value().(uint32)
				if impl[rr] == j {
					if bh != m.rep {
						t.Failf("the resource's own instance got %d for a borrow of representation %d", bh, m.rep)
					}
					continue
				}
				put(j, rr, bh, &mHandle{rep: m.rep, call: c})
				c.got = append(c.got, lend{j, rr, bh})
			}
			log += ") "
			calls = append(calls, c)
		case 4: // a call ends, the latest or some other
			if len(calls) == 0 {
				continue
			}
			k := len(calls) - 1
			if t.P(1, 3) {
				k = t.Intn(len(calls))
			}
			c := calls[k]
			log += fmt.Sprintf("return(call %d) ", k)
			err := c.cxTo.ExitCall()
			if (len(c.got) == 0) != (err == nil) {
				t.Failf("a call with %d borrows left in a table ended with: %v", len(c.got), err)
			}
			if err != nil {
				refused++
				break
			}
			t.Must(c.cxFrom.ExitCall(), "caller's side of the return")
			for _, l := range c.lends {
				if m := tables[l.inst][l.r][l.h]; m != nil {
					m.lends--
				}
			}
			calls = append(calls[:k], calls[k+1:]...)
		}
		if len(dtor) != before {
			t.Failf("destructors ran unexpectedly: %v", dtor[before:])
		}
		for i := range tables {
			for r := range tables[i] {
				for h, m := range tables[i][r] {
					got, err := abiio.CanonResourceRep(insts[i], rts[r], h)
					if err != nil || got != m.rep {
						t.Failf("handle %d of type %d in instance %d no longer designates %d: %d, %v", h, r, i, m.rep, got, err)
					}
				}
			}
		}
	}
	t.Label("moves %v borrows %v", moves > 0, borrows > 0)
	if moves+borrows > 0 && refused > 0 {
		t.NonTrivial(log)
	}
}

func without(ls []lend, l lend) []lend {
	for i := range ls {
		if ls[i] == l {
			return append(append([]lend{}, ls[:i]...), ls[i+1:]...)
		}
	}
	return ls
}

// The same rules through complete calls between two instances.
func lawOwnershipCalls(t *pbt.T) {
	a, b := NewEnv(t, drawEnc(t), 0), NewEnv(t, drawEnc(t), 0)
	var dtor []uint32
	home := newInstance()
	rt := types.NewResourceType(func(rep uint32) { dtor = append(dtor, rep) }, home)
	n := 1 + t.Intn(4)
	var hs, reps []uint32
	for i := 0; i < n; i++ {
		reps = append(reps, drawRep(t, uint32(100+i)))
		x, err := abiio.CanonResourceNew(a.Inst, rt, reps[i])
		t.Must(err, "resource.new")
		hs = append(hs, x.(uint32))
	}
	// each argument passes one handle, as owned or borrowed
	k := 1 + t.Intn(4)
	var params []types.Parameter
	var flat []any
	var use []int
	var asOwn []bool
	ok := true
	lent, gone := map[int]bool{}, map[int]bool{}
	for i := 0; i < k; i++ {
		u, own := t.Intn(n), t.Bool()
		use, asOwn = append(use, u), append(asOwn, own)
		var ty types.ValType = types.NewBorrow(rt)
		if own {
			ty = types.NewOwn(rt)
		}
		params = append(params, types.Parameter{Name: fmt.Sprint("p", i), Type: ty})
		flat = append(flat, values.U32(hs[u]))
		if gone[u] || (own && lent[u]) {
			ok = false
		}
		if own {
			gone[u] = true
		} else {
			lent[u] = true
		}
	}
	keep := t.P(1, 4) // the callee forgets to drop a borrow
	lateDrop := t.Bool()
	dropOwn := t.Bool()
	dropLent := t.Bool()
	log := fmt.Sprintf("handles of %v; arguments use %v owned %v; callee keeps a borrow %v, drops in post-return %v, drops what it owns %v; import drops lent handle meanwhile %v", reps, use, asOwn, keep, lateDrop, dropOwn, dropLent)
	t.Case(func() string { return log })
	t.NonTrivial(log)
	ft := types.NewFuncType(params, nil)
	ran := 0
	var borrowed []uint32
	kept := false
	drop := func() {
		for i, h := range borrowed {
			if keep && i == 0 {
				kept = true
				continue
			}
			t.Must(abiio.CanonResourceDrop(b.Inst, rt, h), "callee drops its borrow")
		}
		borrowed = nil
	}
	b.Opts.PostReturn = func() {
		if lateDrop {
			drop()
		}
	}
	callee := func(args []any) ([]any, types.PostReturnFunc, error) {
		for i := range args {
			if args[i] != any(reps[use[i]]) {
				t.Failf("argument %d is %v, want representation %d", i, args[i], reps[use[i]])
			}
		}
		return abiio.CanonLift(b.Opts, b.Inst, func(x any) (any, error) {
			ran++
			for i, cv := range x.([]any) {
				h := cv.(values.Value).Value().(uint32)
				rep, err := abiio.CanonResourceRep(b.Inst, rt, h)
				t.Must(err, "callee looks at its handle")
				if rep != reps[use[i]] {
					t.Failf("callee's handle %d designates %d, want %d", i, rep, reps[use[i]])
				}
				if asOwn[i] {
					if _, err := a.Inst.Handles.Get(rt, hs[use[i]]); err == nil {
						t.Failf("the giver still has handle %d it gave away", hs[use[i]])
					}
					if dropOwn {
						before := len(dtor)
						t.Must(abiio.CanonResourceDrop(b.Inst, rt, h), "callee drops what it owns")
						if len(dtor) != before+1 || dtor[before] != rep {
							t.Failf("destructor calls %v", dtor[before:])
						}
					}
				} else {
					borrowed = append(borrowed, h)
					if dropLent {
						if err := abiio.CanonResourceDrop(a.Inst, rt, hs[use[i]]); err == nil {
							t.Failf("the giver dropped handle %d while it is lent", hs[use[i]])
						}
					}
				}
			}
			if !lateDrop {
				drop()
			}
			return []any{}, nil
		}, ft, args, 16, 1)
	}
	before := len(dtor)
	_, err := abiio.CanonLower(a.Opts, a.Inst, callee, true, ft, flat, 16, 1)
	if !ok {
		if err == nil {
			t.Failf("the call succeeded although a handle is passed twice")
		}
		if ran != 0 {
			t.Failf("the callee ran although a handle is passed twice")
		}
		return
	}
	if kept {
		if err == nil {
			t.FailSig("borrow-kept-by-lifted-callee", "the call ended although the callee still has a borrow in its table")
		}
		return
	}
	t.Must(err, "the call")
	if ran != 1 {
		t.Failf("callee ran %d times", ran)
	}
	if !dropOwn && len(dtor) != before {
		t.Failf("destructors ran: %v", dtor)
	}
	// after the call nothing is lent any more
	for i, h := range hs {
		if gone[i] {
			continue
		}
		before := len(dtor)
		if err := abiio.CanonResourceDrop(a.Inst, rt, h); err != nil {
			t.Failf("handle %d cannot be dropped after the call: %v", h, err)
		}
		if len(dtor) != before+1 || dtor[before] != reps[i] {
			t.Failf("destructor calls %v", dtor[before:])
		}
	}
}

var lendSizes = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 65537}

// lawLendBulk: one call borrows many handles, or one handle many times.
func lawLendBulk(t *pbt.T) {
	n, same, keep := lendSizes[int(t.Index)/6], t.Index%2 == 1, int(t.Index)/2%3
	t.Case(func() string {
		return fmt.Sprintf("%d borrows in one call, all of one handle: %v, the callee keeps %s", n, same, []string{"none", "the first", "the last"}[keep])
	})
	t.NonTrivial(fmt.Sprint(n, same, keep))
	from, to := newInstance(), newInstance()
	ran := map[uint32]int{}
	rt := types.NewResourceType(func(rep uint32) { ran[rep]++ }, from)
	bt := types.NewBorrow(rt)
	opts := &types.CanonicalOptions{}
	cxFrom, cxTo := &types.CallContext{Options: opts, Instance: from}, &types.CallContext{Options: opts, Instance: to}
	var hs, got []uint32
	for i := 0; i < n; i++ {
		if i == 0 || !same {
			x, err := abiio.CanonResourceNew(from, rt, uint32(i))
			t.Must(err, "resource.new")
			hs = append(hs, x.(uint32))
		}
		v, err := abiio.LiftFlat(cxFrom, values.NewIterator(values.U32(hs[len(hs)-1])), bt)
		t.Must(err, "lending")
		if v != any(uint32(len(hs)-1)) {
			t.Failf("handle %d carries %v", i, v)
		}
		f, err := abiio.LowerFlat(cxTo, v, bt)
		t.Must(err, "borrowing")
		got = append(got, f[0].Value().(uint32))
	}
	for i, h := range hs {
		if err := abiio.CanonResourceDrop(from, rt, h); err == nil {
			t.Failf("handle %d of %d was dropped while it is lent", i, n)
		}
		if _, err := abiio.LiftFlat(cxFrom, values.NewIterator(values.U32(h)), types.NewOwn(rt)); err == nil {
			t.Failf("handle %d of %d was given away while it is lent", i, n)
		}
	}
	kept := -1
	for i, h := range got {
		if keep == 1 && i == 0 || keep == 2 && i == n-1 {
			kept = i
			continue
		}
		if i == n/2 {
			if err := cxTo.ExitCall(); err == nil {
				t.Failf("the call ended although %d borrows are left", n-i)
			}
		}
		t.Must(abiio.CanonResourceDrop(to, rt, h), "dropping a borrow")
	}
	if kept >= 0 {
		if err := cxTo.ExitCall(); err == nil {
			t.Failf("the call ended although borrow %d of %d is left", kept, n)
		}
		t.Must(abiio.CanonResourceDrop(to, rt, got[kept]), "dropping a borrow")
	}
	t.Must(cxTo.ExitCall(), "the callee's end of the call")
	if len(ran) != 0 {
		t.Failf("destructors ran for borrows: %d", len(ran))
	}
	t.Must(cxFrom.ExitCall(), "the caller's end of the call")
	for i, h := range hs {
		t.Must(abiio.CanonResourceDrop(from, rt, h), "dropping a handle after the call")
		if ran[uint32(i)] != 1 {
			t.Failf("the destructor of %d ran %d times", i, ran[uint32(i)])
		}
	}
}

// lawBorrowResult: a call cannot end by handing a borrow to the caller.
func lawBorrowResult(t *pbt.T) {
	a := NewEnv(t, drawEnc(t), 256)
	home, outside := a.Inst, t.P(3, 4)
	if outside {
		home = a.Other
	}
	rt := types.NewResourceType(nil, home)
	rep := t.U32()
	var ty types.ValType = types.NewBorrow(rt)
	var v any = rep
	text := "borrow"
	for i, n := 0, t.Intn(3); i < n; i++ {
		switch t.Intn(3) {
		case 0:
			ty, v, text = types.NewOption(ty), map[string]any{"some": v}, "option<"+text+">"
		case 1:
			ty, v, text = types.NewTuple(ty, types.NewU8()), map[string]any{"0": v, "1": uint8(1)}, "tuple<"+text+", u8>"
		default:
			ty, v, text = types.NewList(ty), []any{v}, "list<"+text+">"
		}
	}
	maxR := pbt.OneOf(t, 0, 1, 4)
	t.Case(func() string {
		return fmt.Sprintf("import returns %s given %s, implemented by the caller %v, limit %d", text, ref.Show(v), !outside, maxR)
	})
	t.NonTrivial(fmt.Sprint(text, ref.Show(v), outside, maxR))
	ft := types.NewFuncType(nil, []types.Parameter{{Name: "r", Type: ty}})
	ks, err := abiio.FlattenType(ty)
	t.Must(err, "flattening")
	var flat []any
	if len(ks) > maxR {
		flat = append(flat, values.U32(64))
	}
	ended := 0
	_, err = abiio.CanonLower(a.Opts, a.Inst, func([]any) ([]any, types.PostReturnFunc, error) {
		return []any{v}, func() { ended++ }, nil
	}, t.Bool(), ft, flat, 16, maxR)
	if outside && err == nil {
		t.Failf("the call ended although the borrow it handed out is still in the caller's table")
	}
	if !outside {
		t.Must(err, "the call")
		if ended != 1 {
			t.Failf("post-return ran %d times", ended)
		}
	}
}

// guards

func lawGuards(t *pbt.T) {
	c := drawCall(t, false)
	e := NewEnv(t, drawEnc(t), 0)
	ft := e.libFunc(c.ps, c.rs)
	enter, leave := !t.P(1, 3), !t.P(1, 3)
	lower := t.Bool()
	imp := t.Bool()
	desc := fmt.Sprintf("lower %v, may enter %v, may leave %v, calling import %v; func %v -> %v limits %d %d", lower, enter, leave, imp, c.ps, c.rs, c.maxP, c.maxR)
	t.Case(func() string { return clip(desc) })
	t.NonTrivial(desc + ref.Show(c.args) + ref.Show(c.res))
	t.Label("lower %v enter %v leave %v", lower, enter, leave)
	noop := types.NewFuncType(nil, nil)
	// attempts made while something must not happen
	tryLeave := func(when string) {
		ran := false
		_, err := abiio.CanonLower(e.Opts, e.Inst, func([]any) ([]any, types.PostReturnFunc, error) { ran = true; return nil, func() {}, nil }, true, noop, nil, 16, 1)
		if err == nil || ran {
			t.Failf("%s the instance could call out (ran %v, error %v)", when, ran, err)
		}
	}
	tryEnter := func(when string) {
		ran := false
		_, _, err := abiio.CanonLift(e.Opts, e.Inst, func(any) (any, error) { ran = true; return []any{}, nil }, noop, nil, 16, 1)
		if err == nil || ran {
			t.Failf("%s the instance could be entered (ran %v, error %v)", when, ran, err)
		}
	}
	phase := "before"
	inner := e.Opts.Realloc
	e.Opts.Realloc = func(a, b, cc, d uint32) (uint32, error) {
		if e.Inst.MayLeave {
			t.Failf("the instance may be left while values are lowered into it")
		}
		if t.Bool() {
			tryLeave("while values are lowered into it")
			if e.Inst.MayLeave {
				t.Failf("a refused call made the instance leavable")
			}
		}
		return inner(a, b, cc, d)
	}
	pSpill, rSpill := len(ref.FlattenAll(c.ps)) > c.maxP, len(ref.FlattenAll(c.rs)) > c.maxR
	ran, posts := 0, 0
	if !lower {
		e.Opts.PostReturn = func() {
			posts++
		}
		e.Inst.MayEnter, e.Inst.MayLeave = enter, leave
		body := func(a any) (any, error) {
			ran++
			if !e.Inst.MayLeave {
				t.Failf("a running function may not call out")
			}
			if t.Bool() { // call out for real
				r2 := false
				_, err := abiio.CanonLower(e.Opts, e.Inst, func([]any) ([]any, types.PostReturnFunc, error) {
					r2 = true
					if e.Inst.MayEnter {
						t.Failf("the instance may be entered while it calls an import")
					}
					tryEnter("while it calls an import")
					return nil, func() {}, nil
				}, true, noop, nil, 16, 1)
				if err != nil || !r2 {
					t.Failf("a running function could not call out: %v", err)
				}
				if !e.Inst.MayEnter || !e.Inst.MayLeave {
					t.Failf("after an import call: may enter %v, may leave %v", e.Inst.MayEnter, e.Inst.MayLeave)
				}
			}
			phase = "body"
			saved := e.Opts.Realloc
			e.Opts.Realloc = inner
			out := e.writeValues(c.res, c.rs, rSpill)
			e.Opts.Realloc = saved
			return out, nil
		}
		got, post, err := abiio.CanonLift(e.Opts, e.Inst, body, ft, c.args, c.maxP, c.maxR)
		if !enter || !leave {
			if err == nil || ran != 0 {
				t.Failf("call into an instance with may enter %v, may leave %v: ran %d, error %v", enter, leave, ran, err)
			}
			if !enter && !isTrap(err) {
				t.Failf("not a trap: %v", err)
			}
			if len(e.Blocks) != 0 {
				t.Failf("arguments were lowered into the refused instance")
			}
			return
		}
		t.Must(err, "CanonLift")
		diffAll(t, "result", got, c.res, c.rs)
		post()
		if posts != 1 || ran != 1 {
			t.Failf("ran %d, post-return %d", ran, posts)
		}
		if !e.Inst.MayEnter || !e.Inst.MayLeave {
			t.Failf("after the call: may enter %v, may leave %v", e.Inst.MayEnter, e.Inst.MayLeave)
		}
		return
	}
	flat := e.writeValues(c.args, c.ps, pSpill)
	if rSpill {
		tup := ref.TupleOf(c.rs)
		flat = append(flat, values.U32(e.Alloc(ref.Size(tup), ref.Align(tup))))
	}
	e.Blocks = nil
	e.Inst.MayEnter, e.Inst.MayLeave = enter, leave
	callee := func([]any) ([]any, types.PostReturnFunc, error) {
		ran++
		if imp {
			if e.Inst.MayEnter {
				t.Failf("the instance may be entered while it calls an import")
			}
			tryEnter("while it calls an import")
			if e.Inst.MayEnter {
				t.Failf("a refused call made the instance enterable")
			}
		}
		return c.res, func() {
			posts++
			if imp && e.Inst.MayEnter {
				t.Failf("the instance may be entered before the import call is over")
			}
			if !e.Inst.MayLeave {
				t.Failf("the instance may not be left during post-return")
			}
		}, nil
	}
	_, err := abiio.CanonLower(e.Opts, e.Inst, callee, imp, ft, flat, c.maxP, c.maxR)
	if !leave || !enter {
		if !leave && !isTrap(err) {
			t.Failf("calling out of an instance that may not be left: %v", err)
		}
		if err == nil || ran != 0 {
			t.Failf("call out of an instance with may enter %v, may leave %v: ran %d, error %v", enter, leave, ran, err)
		}
		return
	}
	t.Must(err, "CanonLower")
	if ran != 1 || posts != 1 {
		t.Failf("ran %d, post-return %d", ran, posts)
	}
	if !e.Inst.MayEnter || !e.Inst.MayLeave {
		t.Failf("after the call: may enter %v, may leave %v", e.Inst.MayEnter, e.Inst.MayLeave)
	}
	_ = phase
}

// Random nests of calls among a few instances.
func lawGuardNest(t *pbt.T) {
	const ni = 3
	var insts []*types.ComponentInstance
	for i := 0; i < ni; i++ {
		insts = append(insts, newInstance())
	}
	opts := &types.CanonicalOptions{}
	ft := types.NewFuncType(nil, nil)
	log := ""
	t.Case(func() string { return log })
	budget := 12
	depthMax := 0
	refused := 0
	busy := make([]bool, ni) // calling an import
	var enter func(i, depth int)
	enter = func(i, depth int) {
		depthMax = max(depthMax, depth)
		log += fmt.Sprintf("enter %d{ ", i)
		ran := false
		_, post, err := abiio.CanonLift(opts, insts[i], func(any) (any, error) {
			ran = true
			for budget > 0 && !t.P(1, 3) {
				budget--
				j := t.Intn(ni)
				if busy[i] {
					t.Failf("instance %d runs while it calls an import", i)
				}
				// i imports a function of j
				log += fmt.Sprintf("import %d->%d ", i, j)
				busy[i] = true
				called := false
				_, err := abiio.CanonLower(opts, insts[i], func([]any) ([]any, types.PostReturnFunc, error) {
					called = true
					enter(j, depth+1)
					return nil, func() {}, nil
				}, true, ft, nil, 16, 1)
				busy[i] = false
				if err != nil || !called {
					t.Failf("running instance %d could not call out: %v", i, err)
				}
				if !insts[i].MayEnter || !insts[i].MayLeave {
					t.Failf("instance %d after an import: may enter %v, may leave %v", i, insts[i].MayEnter, insts[i].MayLeave)
				}
			}
			return []any{}, nil
		}, ft, nil, 16, 1)
		log += "} "
		if busy[i] {
			refused++
			if err == nil || ran {
				t.Failf("instance %d was entered while it calls an import", i)
			}
			return
		}
		if err != nil || !ran {
			t.Failf("instance %d could not be entered: %v", i, err)
		}
		post()
	}
	for k, n := 0, 1+t.Intn(2); k < n; k++ {
		enter(t.Intn(ni), 0)
	}
	if depthMax > 0 {
		t.NonTrivial(log)
	}
	t.Label("refused %v", refused > 0)
}

// A resource whose instance may not be entered cannot have its destructor run.
func lawGuardDrop(t *pbt.T) {
	inst, other := newInstance(), newInstance()
	self := t.P(1, 3)
	impl := other
	if self {
		impl = inst
	}
	ran := 0
	rt := types.NewResourceType(func(uint32) { ran++ }, impl)
	own := t.P(3, 4)
	h, err := inst.Handles.Add(rt, &types.HandleElem{Rep: 5, Own: own})
	t.Must(err, "Add")
	impl.MayEnter = t.Bool()
	log := fmt.Sprintf("own %v, implemented by the dropping instance %v, may enter %v, filler %d", own, self, impl.MayEnter, t.Intn(50))
	t.Case(func() string { return log })
	t.NonTrivial(log)
	err = abiio.CanonResourceDrop(inst, rt, h)
	bad := own && !self && !impl.MayEnter
	if bad != (err != nil) {
		t.Failf("error %v", err)
	}
	want := 0
	if own && !bad {
		want = 1
	}
	if ran != want {
		t.Failf("destructor ran %d times, want %d", ran, want)
	}
}
