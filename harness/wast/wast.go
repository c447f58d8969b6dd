// Package wast holds the laws about scripts.
package wast

import (
	"fmt"
	"math"
	"strings"

	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wast/parse"
	watast "github.com/patrickhuber/go-wasm/wat/ast"

	"vharness/pbt"
	"vharness/wat"
)

func fromQuoteWat(q ast.QuoteWat) (*wat.Wat, error) {
	switch q := q.(type) {
	case *ast.QuoteModule:
		return &wat.Wat{Quoted: true, Quote: q.Quote}, nil
	case *ast.QuoteComponent:
		return &wat.Wat{Quoted: true, Component: true, Quote: q.Quote}, nil
	case *ast.Wat:
		if c, ok := q.Wat.(*watast.Component); ok && c != nil {
			return &wat.Wat{Component: true}, nil
		}
		m, err := wat.FromAST(q.Wat)
		if err != nil {
			return nil, err
		}
		return &wat.Wat{Module: m}, nil
	}
	return nil, fmt.Errorf("module of type %T", q)
}

func fromConst(c any) (*wat.Inst, error) {
	switch c := c.(type) {
	case ast.I32Const:
		return &wat.Inst{Op: "i32.const", Bits: uint64(uint32(c.Value))}, nil
	case ast.I64Const:
		return &wat.Inst{Op: "i64.const", Bits: uint64(c.Value)}, nil
	case ast.F32Const:
		return &wat.Inst{Op: "f32.const", Bits: uint64(math.Float32bits(c.Value))}, nil
	case ast.F64Const:
		return &wat.Inst{Op: "f64.const", Bits: math.Float64bits(c.Value)}, nil
	}
	return nil, fmt.Errorf("constant of type %T", c)
}

func fromAction(a ast.Action) (*wat.Invoke, error) {
	i, ok := a.(ast.Invoke)
	if !ok {
		return nil, fmt.Errorf("action of type %T", a)
	}
	r := &wat.Invoke{Name: i.String}
	if i.Name != nil {
		if s, ok := i.Name.Deconstruct(); ok {
			r.ID = s
		}
	}
	for _, c := range i.Const {
		k, err := fromConst(c)
		if err != nil {
			return nil, err
		}
		r.Args = append(r.Args, k)
	}
	return r, nil
}

func fromDirective(d ast.Directive) (r *wat.Directive, err error) {
	r = &wat.Directive{}
	switch d := d.(type) {
	case ast.WatDirective:
		r.Kind = "module"
		r.Wat, err = fromQuoteWat(d.Wat)
		if err == nil && r.Wat.Component {
			r.Kind = "component"
		}
	case ast.AssertReturn:
		r.Kind = "assert_return"
		if r.Action, err = fromAction(d.Action); err != nil {
			return nil, err
		}
		for _, c := range d.Results {
			k, err := fromConst(c)
			if err != nil {
				return nil, err
			}
			r.Results = append(r.Results, k)
		}
	case ast.AssertTrap:
		r.Kind, r.Failure = "assert_trap", d.Failure
		r.Action, err = fromAction(d.Action)
	case ast.AssertInvalid:
		r.Kind, r.Failure = "assert_invalid", d.Failure
		r.Wat, err = fromQuoteWat(d.Module)
	case ast.AssertMalformed:
		r.Kind, r.Failure = "assert_malformed", d.Failure
		r.Wat, err = fromQuoteWat(d.Module)
	default:
		err = fmt.Errorf("directive of type %T", d)
	}
	return r, err
}

// compare checks the tree of the library against a script.
func compare(t *pbt.T, w *ast.Wast, want []*wat.Directive) {
	var got []*wat.Directive
	for i, d := range w.Directives {
		r, err := fromDirective(d)
		if err != nil {
			t.Failf("directive %d: %v", i, err)
		}
		if i < len(want) {
			// a NaN pattern stands for any quiet NaN
			for j, c := range r.Results {
				if j < len(want[i].Results) && want[i].Results[j].Quiet && quiet(c) {
					c.Quiet = true
				}
			}
		}
		got = append(got, r)
	}
	if len(got) != len(want) {
		t.Failf("%d directives expected, got %d", len(want), len(got))
	}
	for i := range got {
		if g, w := got[i].String(), want[i].String(); g != w {
			t.Failf("directive %d differs: expected\n%s\ngot\n%s", i, w, g)
		}
	}
}

func quiet(c *wat.Inst) bool {
	if c.Op == "f32.const" {
		return c.Bits&0x7fc00000 == 0x7fc00000
	}
	return c.Bits&0x7ff8000000000000 == 0x7ff8000000000000
}

func libParse(t *pbt.T, src string) (w *ast.Wast, err error) {
	t.NoPanic("parsing", func() { w, err = parse.Parse(src) })
	if err == nil && w == nil {
		t.Failf("neither a result nor an error")
	}
	return
}

func scripts(t *pbt.T) {
	ds := wat.GenScript(t, 3)
	p := &wat.Printer{T: t}
	p.Script(ds)
	src := wat.Layout(t, p.Toks)
	t.Case(func() string { return src })
	if len(ds) > 0 {
		t.NonTrivial(src)
	}
	for _, d := range ds {
		t.Label(d.Kind)
		if d.Wat != nil && d.Wat.Quoted {
			t.Label("quoted")
		}
	}
	if r, v, why := wat.ParseScript(src); v != wat.Good || wat.ScriptString(r) != wat.ScriptString(ds) {
		panic(fmt.Sprintf("the reference parser disagrees with the generator: %v %s\n%s", v, why, src))
	}
	w, err := libParse(t, src)
	t.Must(err, "parsing a script")
	compare(t, w, ds)
}

// joined: a script made of two is read as the directives of one and then the other.
func joined(t *pbt.T) {
	p := &wat.Printer{T: t}
	one := wat.GenScript(t, 2)
	p.Script(one)
	a := wat.Layout(t, p.Toks)
	p.Toks = nil
	two := wat.GenScript(t, 2)
	p.Script(two)
	b := wat.Layout(t, p.Toks)
	src := a + pbt.OneOf(t, "\n", "\n\n;; x\n", "\n(; x ;)") + b
	t.Case(func() string { return src })
	if len(one) > 0 && len(two) > 0 {
		t.NonTrivial(src)
	}
	w, err := libParse(t, src)
	t.Must(err, "parsing a script")
	compare(t, w, append(one, two...))
}

var largeParts = []string{
	`⟨(module (memory #))⟩`,
	`⟨(module quote "#")(component quote "#")│ ⟩`,
	`⟨(assert_return (invoke "f#" (i32.const #)) (i32.const #))│
⟩`,
	`⟨(assert_trap (invoke $m "f" (f32.const #)) "t#")⟩`,
	`⟨(assert_invalid (module (func)) "#")(assert_malformed (module quote "(") "x")⟩`,
	`(assert_return (invoke "f" ⟨(i64.const #)⟩) (f64.const 1))`,
	`(assert_return (invoke "f" (i32.const 1)) ⟨(f32.const #)⟩)`,
	`(assert_return (invoke "f" ⟨(f64.const #) (i32.const -1)⟩) ⟨⟩)`,
	`(assert_trap (invoke "f" ⟨(i64.const #)⟩) "x")`,
	`(assert_trap (invoke "⟨f⟩") "x")`,
	`(assert_trap (invoke "f") "⟨x⟩")`,
	`(assert_return (invoke $⟨m⟩ "f"))`,
	`(module quote "⟨(func)⟩")`,
	`(assert_malformed (module quote "⟨\n⟩") "y")`,
	`⟨;; x
⟩(module)`,
	`⟨
⟩(assert_return (invoke "a"))⟨⟩`,
}

// large: one part of a script comes very often, or is very long.
func large(t *pbt.T) {
	n := pbt.Sizes[int(t.Index)/len(largeParts)]
	tm := largeParts[int(t.Index)%len(largeParts)]
	src := pbt.Repeat(strings.ReplaceAll(tm, "⟨⟩", ""), n)
	t.Case(func() string { return fmt.Sprintf("%s, %d times", tm, n) })
	t.NonTrivial(fmt.Sprint(t.Index))
	ds, v, why := wat.ParseScript(src)
	if v != wat.Good {
		panic("harness: the reference does not accept " + tm + ": " + why)
	}
	w, err := libParse(t, src)
	t.Must(err, "parsing a large script")
	compare(t, w, ds)
}

var pool = append(strings.Fields(`assert_return assert_trap assert_invalid assert_malformed assert_bogus invoke get quote register nan:canonical
	ref.null ref.extern bogus.const v128.const "m" (invoke (module module component assert_exhaustion (assert_return`), wat.Pool...)

func judge(t *pbt.T, src string) {
	ds, v, why := wat.ParseScript(src)
	w, err := libParse(t, src)
	switch v {
	case wat.Good:
		t.Label("well formed")
		t.Must(err, "parsing a script")
		compare(t, w, ds)
	case wat.Bad:
		t.Label("malformed")
		t.NonTrivial(src)
		if err == nil {
			t.Failf("accepted although: %s", why)
		}
	default:
		t.Label("open")
	}
}

func edits(t *pbt.T) {
	p := &wat.Printer{T: t}
	p.Script(wat.GenScript(t, 2))
	toks := p.Toks
	for i, n := 0, t.Weighted(6, 2, 1)+1; i < n && len(toks) > 0; i++ {
		toks = wat.Edit(t, toks, pool)
	}
	src := wat.Layout(t, toks)
	t.Case(func() string { return src })
	judge(t, src)
}

var partHeads = []string{"assert_return", "assert_return (invoke \"f\")", "assert_return (invoke \"f\" (i32.const 1))", "assert_trap", "assert_trap (invoke \"f\")", "assert_trap (module)",
	"assert_invalid", "assert_invalid (module)", "assert_malformed", "assert_malformed (module quote \"\")", "module", "module quote", "module $m", "component", "component quote", "invoke", "assert_exhaustion", "assert_foo",
	"assert_return (invoke", "assert_return (invoke \"f\"", "assert_trap (invoke \"f\"", "assert_return (invoke \"f\" (i32.const", "assert_return (invoke \"f\") (f32.const", "assert_invalid (module quote", "assert_malformed (module"}
var partItems = []string{"(module)", "(module (func))", "(module quote \"a\")", "(module $m)", "(component)", "(component quote \"a\")", "(invoke \"f\")", "(invoke $m \"f\")", "(invoke \"f\" (i32.const 1) (f64.const 1))", "(invoke)", "(get \"g\")",
	"(i32.const 1)", "(i64.const -1)", "(f32.const nan:canonical)", "(f64.const nan:arithmetic)", "(f64.const 0x1p3)", "(i32.const)", "(i32.const 1 2)", "(i32.add)", "(func)", "()", "\"m\"", "\"\"", "\"m\" \"n\"", "$m", "1", "-1", "1.5", "nan", "i32.const", "quote", "foo"}

// parts: short lists of groups and words after every keyword.
func parts(t *pbt.T) {
	var sb strings.Builder
	for k, m := 0, t.Weighted(3, 1)+1; k < m; k++ {
		s := "(" + pbt.Pick(t, partHeads)
		for i, n := 0, t.Intn(4); i < n; i++ {
			s += pbt.OneOf(t, " ", " ", " ", "\n", "  ", " (;;)") + pbt.Pick(t, partItems)
		}
		for open := strings.Count(s, "(") - strings.Count(s, ")"); open > 0; open-- {
			s += ")"
			if t.P(1, 4) {
				s += pbt.OneOf(t, " ", "\n") + pbt.Pick(t, partItems)
			}
		}
		sb.WriteString(s)
	}
	src := sb.String()
	t.Case(func() string { return src })
	judge(t, src)
}

// pieces: text that is quoted in several strings is refused, or all of it is there.
func pieces(t *pbt.T) {
	kind := pbt.OneOf(t, "module", "component")
	toks, n := []string{"(", kind, "quote"}, t.Range(2, 5)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, wat.GenName(t))
		toks = append(toks, wat.SpellString(t, parts[i]))
	}
	toks = append(toks, ")")
	wrapped := t.Bool()
	if wrapped {
		toks = append(append([]string{"(", pbt.OneOf(t, "assert_malformed", "assert_invalid")}, toks...), `"x"`, ")")
	}
	src := wat.Layout(t, toks)
	t.Case(func() string { return src })
	t.NonTrivial(src)
	w, err := libParse(t, src)
	if err != nil {
		t.Label("refused")
		return
	}
	if len(w.Directives) != 1 {
		t.Failf("%d directives instead of one", len(w.Directives))
	}
	d, err := fromDirective(w.Directives[0])
	t.Must(err, "the tree")
	rest := d.Wat.Quote
	for i, p := range parts {
		at := strings.Index(rest, p)
		if at < 0 {
			t.Failf("string %d of those quoted, %q, is not in the tree: %q", i, p, d.Wat.Quote)
		}
		rest = rest[at+len(p):]
	}
}

func truncations(t *pbt.T) {
	p := &wat.Printer{T: t}
	p.Script(wat.GenScript(t, 2))
	src := wat.Layout(t, p.Toks)
	full, cut := src, t.Intn(len(src)+1)
	src = src[:cut]
	t.Case(func() string { return fmt.Sprintf("%s cut short to %d: %q", full, cut, src) })
	judge(t, src)
}

func characters(t *pbt.T) {
	p := &wat.Printer{T: t}
	p.Script(wat.GenScript(t, 2))
	src := wat.Layout(t, p.Toks)
	for i, n := 0, t.Range(1, 2); i < n; i++ {
		src = wat.NearMiss(t, src)
	}
	if t.P(1, 20) { // in front of everything, or behind
		odd := pbt.OneOf(t, "\ufeff", "\x00", "\x1a", "\x04", "\x7f", "\ufffe", "#!")
		if t.Bool() {
			src = odd + src
		} else {
			src += odd
		}
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	judge(t, src)
}

func soup(t *pbt.T) {
	var src string
	switch t.Weighted(4, 2, 1) {
	case 0:
		var toks []string
		for i, n := 0, t.Len(12, 60); i < n; i++ {
			toks = append(toks, pbt.Pick(t, pool))
		}
		src = wat.Layout(t, toks)
		if t.P(2, 3) {
			src = pbt.OneOf(t, "(module) ", "(assert_return ", "(assert_return (invoke \"f\" ", "(assert_trap (invoke \"f\")", "(assert_invalid (module ", "(assert_malformed (module quote ") + src
		}
	case 1:
		src = string(t.Bytes(t.Len(20, 200)))
	default:
		n := t.Range(1, 2000)
		src = strings.Repeat(pbt.OneOf(t, "(", "(module", "(assert_return ", "(assert_invalid (module ", "(module)", "(component)"), n) + strings.Repeat(")", t.Range(0, n))
	}
	t.Case(func() string { return fmt.Sprintf("%q", src) })
	judge(t, src)
}

// Props lists the properties of this package.
func Props() []pbt.Prop {
	return []pbt.Prop{
		{ID: "S01", Quick: 150000, Thorough: 1500000,
			Rule:        "scripts of at least one directive",
			Assumptions: []string{"nan:canonical and nan:arithmetic stand for any quiet NaN"},
			Laws:        []pbt.Law{{Name: "scripts", Weight: 4, Run: scripts}, {Name: "joined", Weight: 1, Run: joined}, {Name: "large", Run: large, Enum: len(largeParts) * len(pbt.Sizes)}}},
		{ID: "S02", Quick: 300000, Thorough: 3000000,
			Rule:        "texts the reference parser rejects",
			Assumptions: []string{"directives outside of the supported ones may be accepted or rejected", "nesting up to 2000 levels"},
			Laws: []pbt.Law{{Name: "edits", Weight: 5, Run: edits}, {Name: "pieces", Weight: 1, Run: pieces}, {Name: "parts", Weight: 3, Run: parts}, {Name: "truncations", Weight: 2, Run: truncations},
				{Name: "characters", Weight: 2, Run: characters}, {Name: "soup", Weight: 2, Run: soup}}},
	}
}
