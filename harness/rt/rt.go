// Package rt holds the laws of instantiation.
package rt

import (
	"fmt"
	"reflect"

	"github.com/patrickhuber/go-wasm/address"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/instance"
	"github.com/patrickhuber/go-wasm/runtime"

	"vharness/pbt"
)

type inst struct {
	m       *runtime.ModuleInstance
	mod     *api.Module
	names   []string
	store   int
	addrs   []address.Function
	exports []address.Function
}

func genModule(t *pbt.T) *api.Module {
	m := &api.Module{}
	for i, n := 0, t.Many(2, 5); i < n; i++ {
		ft := &api.FuncType{}
		for j, k := 0, t.Intn(3); j < k; j++ {
			ft.Parameters.Types = append(ft.Parameters.Types, pbt.OneOf[api.ValType](t, api.I32Type, api.I64Type, api.F32Type, api.F64Type))
		}
		for j, k := 0, t.Intn(3); j < k; j++ {
			ft.Returns.Types = append(ft.Returns.Types, pbt.OneOf[api.ValType](t, api.I32Type, api.I64Type, api.F32Type, api.F64Type))
		}
		m.Types = append(m.Types, ft)
	}
	n := t.Len(3, 8)
	if t.P(1, 30) {
		n = 100 + t.Intn(200)
	}
	for i := 0; i < n; i++ {
		// functions look alike so that only identity tells them apart
		m.Funcs = append(m.Funcs, &api.Func{Type: api.TypeIndex(t.Intn(2)), Body: &api.Expression{Instructions: []api.Instruction{api.End{}}}})
	}
	if t.P(1, 3) {
		// locals and bodies of other lengths
		for _, f := range m.Funcs {
			for i, k := 0, t.Many(2, 8); i < k; i++ {
				f.Locals = append(f.Locals, pbt.OneOf[api.ValType](t, api.I32Type, api.I64Type, api.F32Type, api.F64Type))
			}
			for i, k := 0, t.Many(2, 8); i < k; i++ {
				f.Body.Instructions = append(f.Body.Instructions, api.End{})
			}
		}
	}
	if t.P(1, 3) {
		// parts of the other kinds
		m.Tables = make([]api.Table, t.Many(2, 8))
		m.Mems = make([]api.Mem, t.Many(2, 8))
		m.Globals = make([]api.Global, t.Many(2, 8))
		m.Elems = make([]api.Elem, t.Many(2, 8))
		m.Datas = make([]api.Data, t.Many(2, 8))
	}
	if n > 1 && t.P(1, 6) {
		// the same function value listed twice is still two functions
		m.Funcs[n-1] = m.Funcs[0]
	}
	if n > 0 {
		seen := map[string]bool{}
		for i, k := 0, t.Many(2, 8); i < k; i++ {
			name := pbt.OneOf(t, "a", "b", "A", "", "ab", "a ", " a", "f\x00", "f", "add", "äé", "ä", "run", "_start")
			if i > 14 {
				name = fmt.Sprint("f", i)
			}
			if seen[name] {
				continue
			}
			seen[name] = true
			m.Exports = append(m.Exports, api.Export{Name: name, Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(t.Intn(n))}})
		}
	}
	return m
}

var probes = []string{"a", "b", "A", "", "ab", "a ", " a", "f\x00", "f", "add", "äé", "ä", "run", "_start", "B", "nope", "c"}

func history(t *pbt.T) {
	stores := make([]*runtime.Store, 1+t.Weighted(3, 1, 1))
	var model [][]*api.Func = make([][]*api.Func, len(stores))
	for i := range stores {
		stores[i] = &runtime.Store{}
		if t.P(1, 4) {
			// what a host put there
			stores[i].Mems = make([]instance.Memory, t.Many(2, 8))
			stores[i].Globals = make([]instance.Global, t.Many(2, 8))
			stores[i].Datas = make([]instance.Data, t.Many(2, 8))
		}
	}
	var mods []*api.Module
	var done []inst
	log := ""
	key := ""
	funcs := 0
	steps := 1 + t.Many(4, 12)
	for s := 0; s < steps; s++ {
		w := t.Intn(len(stores))
		var mod *api.Module
		if len(mods) > 0 && t.P(1, 4) {
			mod = pbt.Pick(t, mods) // instantiate a module again
		} else {
			mod = genModule(t)
			mods = append(mods, mod)
		}
		bad := false
		run := mod
		if len(mod.Funcs) > 0 && t.P(1, 10) {
			// a module that cannot be instantiated
			c := *mod
			c.Exports = append(append([]api.Export{}, mod.Exports...), api.Export{Name: "bad", Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(len(mod.Funcs) + t.Intn(3))}})
			run, bad = &c, true
		}
		log += fmt.Sprintf("store %d: module with %d functions and %d exports (bad %v); ", w, len(run.Funcs), len(run.Exports), bad)
		key += fmt.Sprint(w, len(run.Funcs), bad, len(run.Exports), ";")
		l := log
		t.Case(func() string { return l })
		before := snapshot(run)
		var m *runtime.ModuleInstance
		var err error
		t.NoPanic("instantiating", func() { m, err = runtime.NewModuleInstance(stores[w], run) })
		if d := before(run); d != "" {
			t.Failf("instantiating changed the module: %s", d)
		}
		if bad {
			if err == nil {
				t.Failf("a module that exports a function it does not have is instantiated")
			}
			// whether the store has grown is left open; what is there must stay
			for len(model[w]) < len(stores[w].Funcs) {
				f, _ := stores[w].Funcs[len(model[w])].(*api.Func)
				model[w] = append(model[w], f)
			}
		} else {
			t.Must(err, "instantiating")
			if m == nil {
				t.Failf("no instance and no error")
			}
			in := inst{m: m, mod: run, store: w, addrs: append([]address.Function{}, m.FunctionAddresses...)}
			model[w] = append(model[w], run.Funcs...)
			funcs += len(run.Funcs)
			if len(in.addrs) != len(run.Funcs) {
				t.Failf("%d addresses for %d functions", len(in.addrs), len(run.Funcs))
			}
			fresh := map[address.Function]bool{}
			for _, o := range done {
				if o.store == w {
					for _, a := range o.addrs {
						fresh[a] = true
					}
				}
			}
			for i, a := range in.addrs {
				if fresh[a] {
					t.Failf("function %d gets address %d that is already taken", i, a)
				}
				fresh[a] = true
			}
			done = append(done, in)
		}
		for i, o := range done {
			checkInst(t, i, o, stores[o.store])
		}
		for i := range stores {
			if len(stores[i].Funcs) != len(model[i]) {
				t.Failf("store %d has %d functions, %d were instantiated", i, len(stores[i].Funcs), len(model[i]))
			}
		}
	}
	if funcs > 0 && len(done) > 1 {
		t.NonTrivial(key)
	}
}

var sizes = []int{127, 128, 255, 256, 257, 1000, 1024, 4096, 10000, 16384, 32768, 65535, 65536, 65537, 70000}

// large: modules with many functions, exports or types, or many modules, between two small ones.
func large(t *pbt.T) {
	n := sizes[int(t.Index)/4]
	what := []string{"functions", "exports", "types", "modules"}[t.Index%4]
	if what == "modules" && n > 5000 {
		n = 5000 + n%5000
	}
	t.Case(func() string { return fmt.Sprintf("%d %s between two small modules", n, what) })
	t.NonTrivial(fmt.Sprint(what, n))
	small := func() *api.Module {
		return &api.Module{Types: []*api.FuncType{{}}, Funcs: []*api.Func{{}, {}},
			Exports: []api.Export{{Name: "a", Description: &api.FuncExportDescription{FuncIdx: 1}}, {Name: "b", Description: &api.FuncExportDescription{FuncIdx: 0}}}}
	}
	mods := []*api.Module{small()}
	m := small()
	switch what {
	case "functions":
		for len(m.Funcs) < n {
			m.Funcs = append(m.Funcs, &api.Func{})
		}
		m.Exports = append(m.Exports, api.Export{Name: "c", Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(n - 1)}})
	case "exports":
		for i := len(m.Exports); i < n; i++ {
			m.Exports = append(m.Exports, api.Export{Name: fmt.Sprint("e", i), Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(i % 2)}})
		}
		m.Exports[n-1].Name = "nope"
	case "types":
		for i := 1; i < n; i++ {
			m.Types = append(m.Types, &api.FuncType{Parameters: api.ResultType{Types: []api.ValType{[]api.ValType{api.I32Type, api.I64Type, api.F32Type}[i%3]}}})
		}
	case "modules":
		for i := 2; i < n; i++ {
			mods = append(mods, small())
		}
	}
	mods = append(mods, m, small())
	s := &runtime.Store{}
	var done []inst
	taken := map[address.Function]bool{}
	for i, mod := range mods {
		var in *runtime.ModuleInstance
		var err error
		t.NoPanic("instantiating", func() { in, err = runtime.NewModuleInstance(s, mod) })
		t.Must(err, "instantiating")
		if len(in.FunctionAddresses) != len(mod.Funcs) {
			t.Failf("%d addresses for %d functions", len(in.FunctionAddresses), len(mod.Funcs))
		}
		for j, a := range in.FunctionAddresses {
			if taken[a] {
				t.Failf("function %d of module %d gets address %d that is already taken", j, i, a)
			}
			taken[a] = true
		}
		done = append(done, inst{m: in, mod: mod, addrs: append([]address.Function{}, in.FunctionAddresses...)})
	}
	for i, o := range done {
		checkInst(t, i, o, s)
	}
	if len(s.Funcs) != len(taken) {
		t.Failf("the store has %d functions, %d were instantiated", len(s.Funcs), len(taken))
	}
}

// snapshot returns a function that tells what changed in the module.
func snapshot(m *api.Module) func(*api.Module) string {
	types := append([]*api.FuncType{}, m.Types...)
	funcs := append([]*api.Func{}, m.Funcs...)
	exports := append([]api.Export{}, m.Exports...)
	code := map[*api.Func][3]int{}
	size := func(f *api.Func) [3]int {
		if f.Body == nil {
			return [3]int{int(f.Type), len(f.Locals)}
		}
		return [3]int{int(f.Type), len(f.Locals), len(f.Body.Instructions)}
	}
	for _, f := range funcs {
		code[f] = size(f)
	}
	return func(m *api.Module) string {
		if len(types) != len(m.Types) || len(funcs) != len(m.Funcs) || len(exports) != len(m.Exports) {
			return "a part was added or removed"
		}
		for i := range types {
			if types[i] != m.Types[i] {
				return "types"
			}
		}
		for i := range funcs {
			if funcs[i] != m.Funcs[i] {
				return "functions"
			}
			if code[funcs[i]] != size(m.Funcs[i]) {
				return "the code of a function"
			}
		}
		for i := range exports {
			if exports[i].Name != m.Exports[i].Name || exports[i].Description != m.Exports[i].Description {
				return "exports"
			}
		}
		return ""
	}
}

func checkInst(t *pbt.T, i int, o inst, s *runtime.Store) {
	if !reflect.DeepEqual(append([]address.Function{}, o.m.FunctionAddresses...), o.addrs) {
		t.Failf("the addresses of instance %d changed from %v to %v", i, o.addrs, o.m.FunctionAddresses)
	}
	if len(o.m.Types) != len(o.mod.Types) {
		t.Failf("instance %d has %d types, its module %d", i, len(o.m.Types), len(o.mod.Types))
	}
	for j, ty := range o.mod.Types {
		if !reflect.DeepEqual(o.m.Types[j], *ty) {
			t.Failf("type %d of instance %d is %v, want %v", j, i, o.m.Types[j], *ty)
		}
	}
	for j, a := range o.addrs {
		if int(a) < 0 || int(a) >= len(s.Funcs) {
			t.Failf("address %d of function %d of instance %d is outside of the store", a, j, i)
		}
		if f, ok := s.Funcs[a].(*api.Func); ok {
			if f != o.mod.Funcs[j] {
				t.Failf("address %d does not designate function %d of instance %d", a, j, i)
			}
		} else if s.Funcs[a] == nil {
			t.Failf("address %d designates nothing", a)
		}
	}
	for _, name := range probes {
		var e runtime.ExportInstance
		var ok bool
		t.NoPanic("looking up an export", func() { e, ok = o.m.GetExport(name) })
		want := -1
		for _, x := range o.mod.Exports {
			if x.Name == name {
				want = int(x.Description.(*api.FuncExportDescription).FuncIdx)
				break
			}
		}
		if ok != (want >= 0) {
			t.Failf("export %q of instance %d found: %v", name, i, ok)
		}
		if ok && (e.Name != name || e.Value != address.ExternalValue(o.addrs[want])) {
			t.Failf("export %q of instance %d is %+v, want address %d", name, i, e, o.addrs[want])
		}
	}
}

// Props lists the properties of this group.
func Props() []pbt.Prop {
	return []pbt.Prop{{
		ID: "T01", Quick: 150000, Thorough: 600000,
		Rule:        "a case counts when at least two modules were instantiated and at least one had a function; distinct by the shape of the history",
		Assumptions: []string{"up to 301 instantiations on up to 3 stores, up to 10000 on one, up to 70000 functions, exports or types per module, exports are functions"},
		Laws:        []pbt.Law{{Name: "large", Enum: 4 * len(sizes), Run: large}, {Name: "history", Weight: 1, Run: history}},
	}}
}
