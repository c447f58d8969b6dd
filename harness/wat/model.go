package wat

import (
	"fmt"
	"strings"
)

// Module is a module of the supported text format. Sections of one kind are
// in order; the kinds are kept apart, as in the tree of the library.
type Module struct {
	Funcs   []*Func
	Types   []*Type
	Tables  []*Table
	Globals []*Global
	Mems    []*Mem
}

type Func struct {
	ID      string // "" means none; otherwise with the dollar sign
	Exports []string
	Imports [][2]string
	Params  []Param
	Results [][]string
	Locals  []string
	Body    []*Inst
}

type Param struct {
	ID    string
	Types []string
}

type Type struct {
	ID      string
	Params  []Param
	Results [][]string
}

type Limits struct {
	Min    uint32
	Max    uint32
	HasMax bool
}

type Table struct {
	ID        string
	HasLimits bool
	Limits    Limits
	Ref       string
	Elems     []string
}

type Global struct {
	ID      string
	Mutable bool
	Type    string
	Init    []*Inst
}

type Mem struct {
	ID     string
	Limits Limits
}

// Index is a symbolic or numeric reference.
type Index struct {
	ID  string
	Num uint32
}

type Inst struct {
	Op      string
	Index   *Index     // br, call, local.get, ...
	Bits    uint64     // constants
	Quiet   bool       // a constant that is any quiet NaN (scripts only)
	Label   string     // block, loop, if
	Results [][]string // block, loop, if
	Clause  []*Inst    // if
	Body    []*Inst    // block, loop, then branch
	Else    []*Inst
	HasElse bool
	Type    string // call_indirect
	Args    []*Inst
}

// Simple lists the instructions without immediates.
var Simple = strings.Fields(`return drop select memory.grow i32.load i32.store
	f32.add f32.sub f32.mul f32.div f32.sqrt f32.min f32.max f32.ceil f32.floor f32.trunc f32.nearest
	i32.add i32.sub i32.mul i32.div_s i32.div_u i32.rem_s i32.rem_u i32.and i32.or i32.xor
	i32.shl i32.shr_s i32.shr_u i32.rotl i32.rotr i32.clz i32.ctz i32.popcnt i32.extend8_s i32.extend16_s
	i32.eqz i32.eq i32.ne i32.lt_s i32.lt_u i32.le_s i32.le_u i32.gt_s i32.gt_u i32.ge_s i32.ge_u`)

// Indexed lists the instructions with one index.
var Indexed = strings.Fields(`br br_if br_table call local.get local.set local.tee global.get global.set`)

var (
	simple  = set(Simple)
	indexed = set(Indexed)
	valType = set([]string{"i32", "i64", "f32", "f64"})
	consts  = map[string]int{"i32.const": 32, "i64.const": 64, "f32.const": 32, "f64.const": 64}
)

func set(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// String gives the canonical description, which is compared.
func (m *Module) String() string {
	var sb strings.Builder
	sb.WriteString("module")
	for _, x := range m.Types {
		fmt.Fprintf(&sb, "\n type id=%q params=%s results=%s", x.ID, paramsString(x.Params), fmt.Sprint(x.Results))
	}
	for _, f := range m.Funcs {
		fmt.Fprintf(&sb, "\n func id=%q exports=%q imports=%q params=%s results=%v locals=%v", f.ID, f.Exports, f.Imports, paramsString(f.Params), f.Results, f.Locals)
		writeInsts(&sb, f.Body, 2)
	}
	for _, x := range m.Tables {
		fmt.Fprintf(&sb, "\n table id=%q limits=%v ref=%s elems=%q", x.ID, x.Limits, x.Ref, x.Elems)
	}
	for _, x := range m.Globals {
		fmt.Fprintf(&sb, "\n global id=%q mutable=%v type=%s", x.ID, x.Mutable, x.Type)
		writeInsts(&sb, x.Init, 2)
	}
	for _, x := range m.Mems {
		fmt.Fprintf(&sb, "\n memory id=%q limits=%v", x.ID, x.Limits)
	}
	return sb.String()
}

func (l Limits) String() string {
	if l.HasMax {
		return fmt.Sprintf("%d..%d", l.Min, l.Max)
	}
	return fmt.Sprintf("%d..", l.Min)
}

func paramsString(ps []Param) string {
	var sb strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&sb, "{%q %v}", p.ID, p.Types)
	}
	return sb.String()
}

func writeInsts(sb *strings.Builder, is []*Inst, depth int) {
	for _, i := range is {
		i.write(sb, depth)
	}
}

func (i *Inst) write(sb *strings.Builder, depth int) {
	if depth > 60 {
		// the indentation of deep trees would be quadratic
		fmt.Fprintf(sb, "\n%d:%s", depth, i.Op)
	} else {
		sb.WriteByte('\n')
		sb.WriteString(strings.Repeat(" ", depth))
		sb.WriteString(i.Op)
	}
	switch {
	case i.Index != nil:
		if i.Index.ID != "" {
			fmt.Fprintf(sb, " %q", i.Index.ID)
		} else {
			fmt.Fprintf(sb, " %d", i.Index.Num)
		}
	case consts[i.Op] != 0:
		if i.Quiet {
			sb.WriteString(" any quiet nan")
		} else {
			fmt.Fprintf(sb, " %#x", i.Bits)
		}
	case i.Op == "call_indirect":
		fmt.Fprintf(sb, " type=%q", i.Type)
	case i.Op == "block" || i.Op == "loop" || i.Op == "if":
		fmt.Fprintf(sb, " label=%q results=%v", i.Label, i.Results)
		if i.Op == "if" {
			writeInsts(sb, i.Clause, depth+2)
			fmt.Fprintf(sb, " then")
			writeInsts(sb, i.Body, depth+1)
			if i.HasElse {
				fmt.Fprintf(sb, " else")
				writeInsts(sb, i.Else, depth+1)
			}
		} else {
			writeInsts(sb, i.Body, depth+1)
		}
	}
	if len(i.Args) > 0 {
		sb.WriteString(" operands")
		writeInsts(sb, i.Args, depth+1)
	}
	sb.WriteString(" .")
}
