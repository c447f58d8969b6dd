package wat

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	"vharness/pbt"
)

const idChars = "abcxyzABCXYZ0189!#$%&'*+-./:<=>?@\\^_`|~"

// words have a meaning of their own in modules or scripts.
var words = strings.Fields(`param i32 i64 f32 f64 module component result then else func type table global memory mut export import elem local funcref externref
	if block loop end drop select call br br_table i32.const f64.const i32.add start data offset=4 align=1 nan inf 0 1 -1 0x1 1.5
	invoke quote binary get register assert_return assert_trap assert_invalid assert_malformed nan:canonical nan:arithmetic`)

// GenID draws an identifier.
func GenID(t *pbt.T) string {
	switch t.Weighted(4, 3, 1) {
	case 0:
		if t.P(1, 3) {
			return "$" + pbt.Pick(t, words)
		}
		return pbt.OneOf(t, "$a", "$b", "$f", "$x", "$0")
	case 1:
		var sb strings.Builder
		sb.WriteByte('$')
		for i, n := 0, t.Range(1, 8); i < n; i++ {
			sb.WriteByte(idChars[t.Intn(len(idChars))])
		}
		return sb.String()
	default:
		return "$" + strings.Repeat(pbt.OneOf(t, "n", "$", "ab.", "0x"), 1+t.Many(10, 40))
	}
}

func optID(t *pbt.T) string {
	if t.P(1, 2) {
		return GenID(t)
	}
	return ""
}

// GenName draws the value of a string.
func GenName(t *pbt.T) string {
	switch t.Weighted(3, 3, 1, 1) {
	case 0:
		return pbt.OneOf(t, "", "a", "main", "memory", "(module)", ";; x", "(;", "a b", "\"", "\\", "\n", "\x00", "é", "\U0001f600")
	case 1:
		var sb strings.Builder
		for i, n := 0, t.Many(5, 30); i < n; i++ {
			switch t.Weighted(5, 2, 2, 1) {
			case 0:
				sb.WriteByte(byte(t.Range(0x20, 0x7e)))
			case 1:
				sb.WriteString(pbt.OneOf(t, "\"", "\\", "'", "\t", "\n", "\r", ";", "(", ")", "$"))
			case 2:
				sb.WriteRune(pbt.OneOf(t, rune(0), 0x1f, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x85, 0xa0, 0x2028, 0x10000, 0x10ffff, 0x4e2d))
			default:
				r := rune(t.Intn(0x10ffff + 1))
				if r >= 0xd800 && r < 0xe000 {
					r -= 0x800
				}
				sb.WriteRune(r)
			}
		}
		return sb.String()
	case 2:
		return strings.Repeat(pbt.OneOf(t, "x", "é", "\\", "\""), 1+t.Many(15, 60))
	default:
		return fmt.Sprint(t.Intn(100))
	}
}

// SpellString spells a string literal.
func SpellString(t *pbt.T, s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	escape := t.Weighted(4, 2, 1) // as needed, often, always
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		chunk := s[i : i+n]
		i += n
		need := r < 0x20 || r == 0x7f || r == '"' || r == '\\' || r == utf8.RuneError && n == 1
		if !need && (escape == 0 || escape == 1 && !t.P(1, 3)) {
			sb.WriteString(chunk)
			continue
		}
		named := map[rune]string{'\t': `\t`, '\n': `\n`, '\r': `\r`, '"': `\"`, '\'': `\'`, '\\': `\\`}[r]
		switch k := t.Intn(3); {
		case k == 0 && named != "":
			sb.WriteString(named)
		case k == 1 && !(r == utf8.RuneError && n == 1):
			h := hexCase(t, fmt.Sprintf("%x", r))
			if t.P(1, 4) {
				h = strings.Repeat("0", t.Range(1, 4)) + h
			}
			sb.WriteString(`\u{` + underscores(t, h) + `}`)
		default:
			for j := 0; j < len(chunk); j++ {
				sb.WriteString(`\` + hexCase(t, fmt.Sprintf("%02x", chunk[j])))
			}
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func genValType(t *pbt.T) string { return pbt.OneOf(t, "i32", "i64", "f32", "f64") }

func genParams(t *pbt.T) (ps []Param) {
	for i, n := 0, t.Many(1, 5); i < n; i++ {
		p := Param{}
		if t.Bool() {
			p.ID = GenID(t)
			p.Types = []string{genValType(t)}
		} else {
			for j, m := 0, t.Many(2, 6); j < m; j++ {
				p.Types = append(p.Types, genValType(t))
			}
		}
		ps = append(ps, p)
	}
	return
}

func genResults(t *pbt.T, many bool) (rs [][]string) {
	n := t.Many(1, 3)
	for i := 0; i < n; i++ {
		m := 1
		if many {
			m = t.Many(1, 4)
		}
		var r []string
		for j := 0; j < m; j++ {
			r = append(r, genValType(t))
		}
		rs = append(rs, r)
	}
	return
}

func genLimits(t *pbt.T) Limits {
	l := Limits{Min: t.U32()}
	if t.Bool() {
		l.HasMax, l.Max = true, t.U32()
	}
	return l
}

func genIndex(t *pbt.T) *Index {
	if t.Bool() {
		return &Index{ID: GenID(t)}
	}
	return &Index{Num: t.U32()}
}

// GenConst draws a constant.
func GenConst(t *pbt.T) *Inst {
	switch t.Intn(4) {
	case 0:
		return &Inst{Op: "i32.const", Bits: uint64(t.U32())}
	case 1:
		return &Inst{Op: "i64.const", Bits: t.U64()}
	case 2:
		b := t.U32()
		if t.P(1, 2) {
			b = math.Float32bits(pbt.OneOf(t, 0, 1, -1, 1.5, 0.1, 3.4028235e38, 1e-45, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), 16777216))
		}
		return &Inst{Op: "f32.const", Bits: uint64(b)}
	default:
		b := t.U64()
		if t.P(1, 2) {
			b = math.Float64bits(pbt.OneOf(t, 0, 1, -1, 1.5, 0.1, math.MaxFloat64, 5e-324, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), 1<<53))
		}
		return &Inst{Op: "f64.const", Bits: b}
	}
}

type genState struct{ left int }

func (g *genState) insts(t *pbt.T, avg, depth int) (r []*Inst) {
	for i, n := 0, t.Many(avg, 8); i < n && g.left > 0; i++ {
		r = append(r, g.inst(t, depth))
	}
	return
}

// inst draws an instruction; operands only in places where it is folded.
func (g *genState) inst(t *pbt.T, depth int) *Inst {
	g.left--
	var i *Inst
	k := t.Weighted(4, 3, 3, 1, 1, 1, 1)
	if depth > 6 && k >= 3 && k <= 5 {
		k = 0
	}
	switch k {
	case 0:
		i = &Inst{Op: pbt.Pick(t, Simple)}
	case 1:
		i = &Inst{Op: pbt.Pick(t, Indexed), Index: genIndex(t)}
	case 2:
		i = GenConst(t)
	case 3, 4:
		i = &Inst{Op: pbt.OneOf(t, "block", "loop"), Label: optID(t), Results: genResults(t, true), Body: g.insts(t, 2, depth+1)}
		return i
	case 5:
		i = &Inst{Op: "if", Label: optID(t), Results: genResults(t, false), Clause: g.insts(t, 1, depth+1), Body: g.insts(t, 2, depth+1)}
		if t.Bool() {
			i.HasElse, i.Else = true, g.insts(t, 2, depth+1)
		}
		return i
	default:
		i = &Inst{Op: "call_indirect", Type: GenID(t)}
	}
	if depth <= 6 && t.P(1, 3) {
		i.Args = g.insts(t, 2, depth+1)
	}
	return i
}

// GenModule draws a module.
func GenModule(t *pbt.T, size int) *Module {
	m := &Module{}
	g := &genState{left: size}
	for i, n := 0, t.Many(2, 5); i < n; i++ {
		f := &Func{ID: optID(t)}
		for j, k := 0, t.Many(1, 3); j < k; j++ {
			f.Exports = append(f.Exports, GenName(t))
		}
		if t.P(1, 4) {
			for j, k := 0, t.Many(1, 2); j < k; j++ {
				f.Imports = append(f.Imports, [2]string{GenName(t), GenName(t)})
			}
		}
		f.Params = genParams(t)
		f.Results = genResults(t, false)
		for j, k := 0, t.Many(1, 6); j < k; j++ {
			f.Locals = append(f.Locals, genValType(t))
		}
		f.Body = g.insts(t, 5, 0)
		m.Funcs = append(m.Funcs, f)
	}
	for i, n := 0, t.Many(1, 3); i < n; i++ {
		m.Types = append(m.Types, &Type{ID: optID(t), Params: genParams(t), Results: genResults(t, false)})
	}
	for i, n := 0, t.Many(1, 3); i < n; i++ {
		x := &Table{ID: optID(t), Ref: pbt.OneOf(t, "funcref", "externref")}
		if t.Bool() {
			x.HasLimits, x.Limits = true, genLimits(t)
		} else {
			for j, k := 0, 1+t.Many(1, 3); j < k; j++ {
				x.Elems = append(x.Elems, GenID(t))
			}
		}
		m.Tables = append(m.Tables, x)
	}
	for i, n := 0, t.Many(1, 3); i < n; i++ {
		m.Globals = append(m.Globals, &Global{ID: optID(t), Mutable: t.Bool(), Type: genValType(t), Init: g.insts(t, 2, 2)})
	}
	for i, n := 0, t.Many(1, 2); i < n; i++ {
		m.Mems = append(m.Mems, &Mem{ID: optID(t), Limits: genLimits(t)})
	}
	return m
}

// Printer collects the tokens of a text.
type Printer struct {
	T    *pbt.T
	Toks []string
}

func (p *Printer) put(s ...string) { p.Toks = append(p.Toks, s...) }

// Put appends tokens.
func (p *Printer) Put(s ...string) { p.put(s...) }

func (p *Printer) id(s string) {
	if s != "" {
		p.put(s)
	}
}

func (p *Printer) params(ps []Param) {
	for _, x := range ps {
		p.put("(", "param")
		p.id(x.ID)
		p.put(x.Types...)
		p.put(")")
	}
}

func (p *Printer) results(rs [][]string) {
	for _, x := range rs {
		p.put("(", "result")
		p.put(x...)
		p.put(")")
	}
}

func (p *Printer) u32(v uint32) { p.put(SpellUint(p.T, new(big.Int).SetUint64(uint64(v)))) }

func (p *Printer) limits(l Limits) {
	p.u32(l.Min)
	if l.HasMax {
		p.u32(l.Max)
	}
}

// Literal spells a constant.
func Literal(t *pbt.T, op string, bits uint64) string {
	switch op {
	case "i32.const":
		return SpellInt(t, bits, 32)
	case "i64.const":
		return SpellInt(t, bits, 64)
	}
	width, mant := 32, 23
	if op == "f64.const" {
		width, mant = 64, 52
	}
	neg := bits>>(width-1) != 0
	abs := bits &^ (1 << (width - 1))
	sg := ""
	if neg {
		sg = "-"
	} else if t.P(1, 8) {
		sg = "+"
	}
	inf := uint64(0xff) << 23
	if width == 64 {
		inf = 0x7ff << 52
	}
	switch {
	case abs == inf:
		return sg + "inf"
	case abs > inf:
		if abs == inf|1<<(mant-1) && t.Bool() {
			return sg + "nan"
		}
		return sg + "nan:0x" + underscores(t, zeros(t)+hexCase(t, fmt.Sprintf("%x", abs-inf)))
	}
	var f float64
	if width == 32 {
		f = float64(math.Float32frombits(uint32(abs)))
	} else {
		f = math.Float64frombits(abs)
	}
	switch t.Intn(4) {
	case 0:
		if width == 32 {
			return sg + fmt.Sprint(float32(f))
		}
		return sg + fmt.Sprint(f)
	case 1:
		return sg + hexCaseFloat(t, fmt.Sprintf("%x", f))
	case 2:
		return sg + fmt.Sprintf("%.20e", f)
	default:
		if f == math.Trunc(f) && f < 1e20 {
			return sg + fmt.Sprintf("%.0f", f) + pbt.OneOf(t, "", ".", ".0", "e0", "E+0", "e-0")
		}
		return sg + fmt.Sprintf("%.17g", f)
	}
}

func hexCaseFloat(t *pbt.T, s string) string {
	if t.P(1, 4) {
		return "0x" + strings.ToUpper(s[2:])
	}
	return s
}

func (p *Printer) index(i *Index) {
	if i.ID != "" {
		p.put(i.ID)
	} else {
		p.u32(i.Num)
	}
}

func (p *Printer) folded(is []*Inst) {
	for _, i := range is {
		p.inst(i, false)
	}
}

// head puts the instruction with its immediates, without parentheses.
func (p *Printer) head(i *Inst) {
	p.put(i.Op)
	switch {
	case i.Index != nil:
		p.index(i.Index)
	case consts[i.Op] != 0:
		p.put(Literal(p.T, i.Op, i.Bits))
	case i.Op == "call_indirect":
		p.put("(", "type", i.Type, ")")
	case i.Op == "block" || i.Op == "loop":
		p.id(i.Label)
		p.results(i.Results)
		p.folded(i.Body)
	case i.Op == "if":
		p.id(i.Label)
		p.results(i.Results)
		p.folded(i.Clause)
		p.put("(", "then")
		p.folded(i.Body)
		p.put(")")
		if i.HasElse {
			p.put("(", "else")
			p.folded(i.Else)
			p.put(")")
		}
	}
}

func (p *Printer) inst(i *Inst, plain bool) {
	structured := i.Op == "block" || i.Op == "loop" || i.Op == "if"
	if plain && !structured && len(i.Args) == 0 {
		p.head(i)
		return
	}
	p.put("(")
	p.head(i)
	p.folded(i.Args)
	p.put(")")
}

// Module puts a module; the order of the kinds of sections is drawn.
func (p *Printer) Module(m *Module) {
	p.put("(", "module")
	n := []int{len(m.Types), len(m.Funcs), len(m.Tables), len(m.Globals), len(m.Mems)}
	at := make([]int, 5)
	for {
		var open []int
		for k := range n {
			if at[k] < n[k] {
				open = append(open, k)
			}
		}
		if len(open) == 0 {
			break
		}
		k := pbt.Pick(p.T, open)
		p.put("(")
		switch i := at[k]; k {
		case 0:
			x := m.Types[i]
			p.put("type")
			p.id(x.ID)
			p.put("(", "func")
			p.params(x.Params)
			p.results(x.Results)
			p.put(")")
		case 1:
			p.fn(m.Funcs[i])
		case 2:
			x := m.Tables[i]
			p.put("table")
			p.id(x.ID)
			if x.HasLimits {
				p.limits(x.Limits)
			}
			p.put(x.Ref)
			for _, e := range x.Elems {
				p.put("(", "elem", e, ")")
			}
		case 3:
			x := m.Globals[i]
			p.put("global")
			p.id(x.ID)
			if x.Mutable {
				p.put("(", "mut", x.Type, ")")
			} else {
				p.put(x.Type)
			}
			p.folded(x.Init)
		case 4:
			x := m.Mems[i]
			p.put("memory")
			p.id(x.ID)
			p.limits(x.Limits)
		}
		p.put(")")
		at[k]++
	}
	p.put(")")
}

func (p *Printer) fn(f *Func) {
	p.put("func")
	p.id(f.ID)
	for _, e := range f.Exports {
		p.put("(", "export", SpellString(p.T, e), ")")
	}
	for _, i := range f.Imports {
		p.put("(", "import", SpellString(p.T, i[0]), SpellString(p.T, i[1]), ")")
	}
	p.params(f.Params)
	p.results(f.Results)
	for _, l := range f.Locals {
		p.put("(", "local", l, ")")
	}
	style := p.T.Intn(3) // folded, plain, mixed
	for _, i := range f.Body {
		p.inst(i, style == 1 || style == 2 && p.T.Bool())
	}
}

// Layout joins tokens to a text with drawn white space and comments.
func Layout(t *pbt.T, toks []string) string {
	style := t.Weighted(3, 3, 2, 1) // one blank, as little as possible, anything, line by line
	var sb strings.Builder
	if t.P(1, 4000) { // far down or far to the right
		sb.WriteString(strings.Repeat(pbt.OneOf(t, "\n", " ", "\r\n"), pbt.OneOf(t, 255, 65536, 70001)))
	}
	prev := ""
	for i, tok := range toks {
		need := i > 0 && wordy(prev[len(prev)-1]) && wordy(tok[0])
		switch style {
		case 0:
			if i > 0 {
				sb.WriteByte(' ')
			}
		case 1:
			if need {
				sb.WriteByte(' ')
			}
		case 2:
			if need || t.P(1, 3) {
				g := gap(t)
				if prev == "(" && g[0] == ';' {
					g = " " + g // not a block comment
				}
				sb.WriteString(g)
			}
		default:
			if i > 0 {
				sb.WriteString(pbt.OneOf(t, "\n", "\r\n", "\n\n"))
			}
		}
		sb.WriteString(tok)
		prev = tok
	}
	if style == 2 && t.Bool() {
		sb.WriteString(gap(t))
		if t.P(1, 4) {
			sb.WriteString(";; the end")
		}
	}
	return sb.String()
}

func wordy(c byte) bool { return c != '(' && c != ')' }

// gap draws white space and comments, at least one character.
func gap(t *pbt.T) string {
	var sb strings.Builder
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		switch t.Weighted(4, 2, 2) {
		case 0:
			sb.WriteString(pbt.OneOf(t, " ", "\n", "\t", "\r\n", "   ", "\n\n\t"))
		case 1:
			sb.WriteString(";;" + commentText(t, false) + "\n")
		default:
			sb.WriteString(blockComment(t, 0))
		}
	}
	return sb.String()
}

// anyText draws printable text.
func anyText(t *pbt.T) string {
	var sb strings.Builder
	for i, n := 0, t.Many(4, 40); i < n; i++ {
		if t.P(1, 8) {
			sb.WriteString(pbt.OneOf(t, "\t", "é", "\u00a0", "\u0a0d", "\u2028", "\ufeff", "\U0001f600"))
		} else {
			sb.WriteByte(byte(t.Range(0x20, 0x7e)))
		}
	}
	return sb.String()
}

func commentText(t *pbt.T, block bool) string {
	var s string
	if t.P(1, 3) {
		s = anyText(t)
	} else {
		s = pbt.OneOf(t, "", " note ", "é", "\"", ";", ";;;", "(", ")", "()", "$x 1.5", "*", "\\", "\"unclosed", "\U0001f600")
	}
	if !block {
		s += pbt.OneOf(t, "", "(;", ";)", "(; x ;)")
	} else {
		s += pbt.OneOf(t, "", "\n", ";; x\n", "\n\n", " ")
		// neither the text nor its edges may form a delimiter
		for strings.Contains(s, "(;") || strings.Contains(s, ";)") {
			s = strings.ReplaceAll(strings.ReplaceAll(s, "(;", "( ;"), ";)", "; )")
		}
		if strings.HasSuffix(s, ";") || strings.HasSuffix(s, "(") {
			s += " "
		}
		if strings.HasPrefix(s, ")") || strings.HasPrefix(s, ";") {
			s = " " + s
		}
	}
	return s
}

func blockComment(t *pbt.T, depth int) string {
	s := "(;" + commentText(t, true)
	for depth < 5 && t.P(1, 3) {
		s += blockComment(t, depth+1) + commentText(t, true)
	}
	s += ";)"
	if depth == 0 && t.P(1, 20) {
		n := t.Many(3, 12)
		s = strings.Repeat("(;", n) + s + strings.Repeat(";)", n)
	}
	return s
}
