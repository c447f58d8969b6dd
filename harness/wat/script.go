package wat

import (
	"fmt"
	"strings"

	"vharness/pbt"
)

// Directive is one directive of a script.
type Directive struct {
	Kind    string // module, component, assert_return, assert_trap, assert_invalid, assert_malformed
	Wat     *Wat
	Action  *Invoke
	Results []*Inst
	Failure string
}

// Wat is a module or component, possibly quoted.
type Wat struct {
	Component bool
	Quoted    bool
	Quote     string
	Module    *Module
}

// Invoke is the call of an exported function.
type Invoke struct {
	ID   string
	Name string
	Args []*Inst
}

func (w *Wat) String() string {
	switch {
	case w == nil:
		return "no module"
	case w.Quoted:
		return fmt.Sprintf("quoted component=%v %q", w.Component, w.Quote)
	case w.Component:
		return "component"
	}
	return w.Module.String()
}

func (d *Directive) String() string {
	var sb strings.Builder
	sb.WriteString(d.Kind)
	if d.Wat != nil {
		sb.WriteString(" " + d.Wat.String())
	}
	if d.Action != nil {
		fmt.Fprintf(&sb, "\n invoke id=%q name=%q", d.Action.ID, d.Action.Name)
		writeInsts(&sb, d.Action.Args, 2)
		sb.WriteString("\n results")
		writeInsts(&sb, d.Results, 2)
	}
	fmt.Fprintf(&sb, "\n failure %q", d.Failure)
	return sb.String()
}

// ScriptString describes a script.
func ScriptString(ds []*Directive) string {
	var sb strings.Builder
	for _, d := range ds {
		sb.WriteString(d.String())
		sb.WriteByte('\n')
	}
	return sb.String()
}

// genBytes draws the value of a string that need not be a name.
func genBytes(t *pbt.T) string {
	if t.P(1, 4) {
		return string(t.Bytes(t.Many(4, 20)))
	}
	return GenName(t)
}

func genWat(t *pbt.T) *Wat {
	switch t.Weighted(4, 2, 1, 1) {
	case 0:
		return &Wat{Module: GenModule(t, 8)}
	case 1:
		return &Wat{Quoted: true, Quote: genBytes(t)}
	case 2:
		return &Wat{Quoted: true, Component: true, Quote: genBytes(t)}
	default:
		return &Wat{Component: true}
	}
}

// GenScript draws a script.
func GenScript(t *pbt.T, avg int) (ds []*Directive) {
	for i, n := 0, t.Many(avg, 10); i < n; i++ {
		d := &Directive{}
		switch t.Weighted(3, 4, 2, 2, 2) {
		case 0:
			d.Wat = genWat(t)
			d.Kind = "module"
			if d.Wat.Component {
				d.Kind = "component"
			}
		case 1, 2:
			d.Kind = "assert_return"
			d.Action = &Invoke{ID: optID(t), Name: GenName(t)}
			for j, k := 0, t.Many(2, 6); j < k; j++ {
				d.Action.Args = append(d.Action.Args, GenConst(t))
			}
			if t.P(1, 3) {
				d.Kind = "assert_trap"
				d.Failure = genBytes(t)
				break
			}
			for j, k := 0, t.Many(1, 4); j < k; j++ {
				c := GenConst(t)
				if c.Op[0] == 'f' && t.P(1, 4) {
					c.Quiet, c.Bits = true, 0
				}
				d.Results = append(d.Results, c)
			}
		default:
			d.Kind = pbt.OneOf(t, "assert_invalid", "assert_malformed")
			d.Wat = genWat(t)
			d.Failure = genBytes(t)
		}
		ds = append(ds, d)
	}
	return
}

func (p *Printer) wat(w *Wat) {
	switch {
	case w.Quoted && w.Component:
		p.put("(", "component", "quote", SpellString(p.T, w.Quote), ")")
	case w.Quoted:
		p.put("(", "module", "quote", SpellString(p.T, w.Quote), ")")
	case w.Component:
		p.put("(", "component", ")")
	default:
		p.Module(w.Module)
	}
}

func (p *Printer) consts(is []*Inst) {
	for _, i := range is {
		p.put("(", i.Op)
		if i.Quiet {
			p.put(pbt.OneOf(p.T, "nan:canonical", "nan:arithmetic"))
		} else {
			p.put(Literal(p.T, i.Op, i.Bits))
		}
		p.put(")")
	}
}

// Script puts a script.
func (p *Printer) Script(ds []*Directive) {
	for _, d := range ds {
		switch d.Kind {
		case "module", "component":
			p.wat(d.Wat)
		case "assert_return", "assert_trap":
			p.put("(", d.Kind, "(", "invoke")
			p.id(d.Action.ID)
			p.put(SpellString(p.T, d.Action.Name))
			p.consts(d.Action.Args)
			p.put(")")
			if d.Kind == "assert_trap" {
				p.put(SpellString(p.T, d.Failure))
			} else {
				p.consts(d.Results)
			}
			p.put(")")
		default:
			p.put("(", d.Kind)
			p.wat(d.Wat)
			p.put(SpellString(p.T, d.Failure), ")")
		}
	}
}

// ParseScript is the reference parser of scripts.
func ParseScript(src string) (ds []*Directive, v Verdict, why string) {
	p := &refParser{src: src}
	v, why = p.run(func() {
		for p.peek().Kind != EOF {
			ds = append(ds, p.directive())
		}
	})
	if v != Good {
		return nil, v, why
	}
	return
}

func (p *refParser) directive() *Directive {
	kw, ok := p.group()
	if !ok {
		p.bad("directive expected")
	}
	d := &Directive{Kind: kw}
	switch kw {
	case "module", "component":
		d.Wat = p.quoteWat()
		return d
	case "assert_return", "assert_trap":
		p.enter()
		act, ok := p.group()
		if !ok {
			p.bad("action expected")
		}
		switch act {
		case "invoke":
		case "get":
			p.either("get")
		case "module":
			p.either("instantiation")
		default:
			p.bad("unknown action")
		}
		p.enter()
		d.Action = &Invoke{ID: p.id(), Name: p.str(), Args: p.constants(false)}
		p.close()
		if kw == "assert_trap" {
			d.Failure = p.text()
		} else {
			d.Results = p.constants(true)
		}
		p.close()
	case "assert_invalid", "assert_malformed":
		p.enter()
		d.Wat = p.quoteWat()
		d.Failure = p.text()
		p.close()
	case "invoke", "get", "register", "assert_exhaustion", "assert_unlinkable", "assert_exception", "script", "input", "output", "thread", "wait", "assert_malformed_custom", "assert_invalid_custom", "assert_return_canonical_nan", "assert_return_arithmetic_nan",
		// a script may also be the fields of one module
		"func", "type", "table", "global", "memory", "import", "export", "start", "elem", "data", "rec", "tag":
		p.either("other directive")
	default:
		p.bad("unknown directive")
	}
	return d
}

func (p *refParser) quoteWat() *Wat {
	start := p.pos
	p.open()
	tok := p.next()
	if tok.Kind != Keyword || tok.Text != "module" && tok.Text != "component" {
		p.bad("module expected")
	}
	w := &Wat{Component: tok.Text == "component"}
	if tok := p.peek(); tok.Kind == ID {
		p.either("name of the module")
	} else if tok.Kind == Keyword && tok.Text == "quote" {
		p.next()
		w.Quoted = true
		if p.peek().Kind == Close {
			p.either("nothing quoted")
		}
		w.Quote = p.text()
		if p.peek().Kind == String {
			p.either("several strings quoted")
		}
		p.close()
		return w
	}
	if w.Component {
		if p.peek().Kind != Close {
			p.either("the contents of a component")
		}
		p.close()
		return w
	}
	p.pos = start
	p.open()
	w.Module = p.module()
	return w
}

func (p *refParser) constants(results bool) (r []*Inst) {
	for p.peek().Kind == Open {
		p.open()
		tok := p.next()
		if tok.Kind != Keyword {
			p.bad("constant expected")
		}
		i := &Inst{Op: tok.Text}
		switch tok.Text {
		case "i32.const", "i64.const":
			lit := p.next()
			if lit.Kind != Integer {
				p.bad("integer expected")
			}
			var ok bool
			if i.Bits, ok = IntBits(lit.Text, uint(consts[i.Op])); !ok {
				p.bad("integer out of range")
			}
		case "f32.const", "f64.const":
			lit := p.next()
			if lit.Kind != Integer && lit.Kind != Float {
				p.bad("float expected")
			}
			var v Verdict
			i.Bits, v = FloatBits(lit.Text, consts[i.Op])
			switch {
			case v == Bad:
				p.bad("float out of range")
			case v == Either && !results:
				p.either("nan pattern")
			case v == Either:
				i.Quiet = true
			}
		case "ref.null", "ref.extern", "ref.func", "ref.host", "v128.const", "either", "ref.i31", "ref.struct", "ref.array", "ref.any", "ref.eq":
			p.either("other constant")
		default:
			p.bad("unknown constant")
		}
		p.close()
		r = append(r, i)
	}
	return
}
