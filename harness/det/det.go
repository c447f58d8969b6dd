// Package det holds the law that runs neither affect each other nor their
// inputs.
package det

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/encoding"
	"github.com/patrickhuber/go-wasm/leb128"
	"github.com/patrickhuber/go-wasm/wast/parse"
	watlex "github.com/patrickhuber/go-wasm/wat/lex"
	watparse "github.com/patrickhuber/go-wasm/wat/parse"
	wattoken "github.com/patrickhuber/go-wasm/wat/token"
	witlex "github.com/patrickhuber/go-wasm/wit/lex"
	witparse "github.com/patrickhuber/go-wasm/wit/parse"
	wittoken "github.com/patrickhuber/go-wasm/wit/token"

	"vharness/abi"
	"vharness/bin"
	"vharness/pbt"
	"vharness/wat"
	"vharness/wit"
)

// job is something to run. Its inputs are shared by all runs.
type job struct {
	kind   string
	desc   string
	run    func() []any
	inputs func() []any
}

func text(src string) func() []any { return func() []any { return []any{src} } }

// source takes a new text, or an earlier one with a character changed.
func source(t *pbt.T, past *[]string, fresh func(*pbt.T) string) (src string) {
	if len(*past) > 0 && t.P(1, 3) {
		src = sibling(t, pbt.Pick(t, *past))
	} else {
		src = fresh(t)
	}
	*past = append(*past, src)
	return
}

func sibling(t *pbt.T, src string) string {
	if src == "" {
		return src
	}
	b := []byte(src)
	at := t.Intn(len(b))
	for n := 0; n < 30 && at < len(b)-1 && !(b[at]|32 >= 'a' && b[at]|32 <= 'z' || b[at] >= '0' && b[at] <= '9'); n++ {
		at++
	}
	switch c := b[at]; {
	case c >= '0' && c <= '9':
		b[at] = '0' + byte(t.Intn(10))
	case c|32 >= 'a' && c|32 <= 'z':
		b[at] = c&32 | 64 | byte(1+t.Intn(26))
	default:
		b = append(b[:at], b[at+1:]...)
	}
	return string(b)
}

func script(t *pbt.T) string {
	p := &wat.Printer{T: t}
	p.Script(wat.GenScript(t, 2))
	src := wat.Layout(t, p.Toks)
	if t.P(1, 4) {
		src = wat.NearMiss(t, src)
	}
	return src
}

// kinds is the number of kinds of job.
const kinds = 9

// pasts are the texts of a case so far.
type pasts struct{ wat, wast, wit []string }

func genJob(t *pbt.T, kind int, past *pasts) job {
	switch kind {
	case 0:
		src := source(t, &past.wat, wat.Source)
		return job{"module lexer", fmt.Sprintf("%q", src), func() (out []any) {
			l := watlex.New(src)
			for {
				if len(out)%3 == 1 {
					l.Peek()
				}
				k, err := l.Next()
				if err != nil {
					return append(out, err)
				}
				out = append(out, *k)
				if k.Type == wattoken.EndOfStream {
					return out
				}
			}
		}, text(src)}
	case 1:
		src := source(t, &past.wat, wat.Source)
		return job{"module parser", src, func() []any {
			d, err := watparse.Parse(watlex.New(src))
			return []any{d, err}
		}, text(src)}
	case 2:
		src := source(t, &past.wast, script)
		return job{"script parser", src, func() []any {
			d, err := parse.Parse(src)
			return []any{d, err}
		}, text(src)}
	case 3:
		src := source(t, &past.wit, wit.Source)
		return job{"interface lexer", fmt.Sprintf("%q", src), func() (out []any) {
			l := witlex.New(src)
			for {
				if len(out)%3 == 1 {
					l.Peek()
				}
				k, err := l.Next()
				if err != nil {
					return append(out, err)
				}
				out = append(out, *k)
				if k.Type == wittoken.EndOfStream {
					return out
				}
			}
		}, text(src)}
	case 4:
		src := source(t, &past.wit, wit.Source)
		return job{"interface parser", src, func() []any {
			d, err := witparse.Parse(src)
			return []any{d, err}
		}, text(src)}
	case 5:
		b := bin.Source(t)
		return job{"binary reader", fmt.Sprintf("% x", b), func() []any {
			d, err := binary.Read(bytes.NewReader(b))
			return []any{d, err}
		}, func() []any { return []any{b} }}
	case 6:
		name := pbt.OneOf(t, encoding.UTF8, encoding.UTF16, encoding.UTF16BE, encoding.UTF16LE, encoding.Latin1, encoding.Latin1Utf16)
		s := abi.GenString(t, true)
		if t.Bool() {
			v := t.U32()
			b := t.Bytes(t.Intn(8))
			return job{"integers", fmt.Sprintf("%d % x", v, b), func() []any {
				var w bytes.Buffer
				bw := bufio.NewWriter(&w)
				n, err := leb128.Encode(bw, v)
				bw.Flush()
				x, k, err2 := leb128.DecodeSlice(b)
				return []any{n, err, w.Bytes(), x, k, err2}
			}, func() []any { return []any{b} }}
		}
		// the codec is shared by all runs
		c, err := encoding.DefaultFactory().Get(name)
		t.Must(err, "getting a codec")
		return job{"codec", fmt.Sprintf("%s of %.100q (%d bytes)", name, s, len(s)), func() []any {
			b, err := encoding.EncodeString(c, s)
			if err != nil {
				return []any{err}
			}
			back, err := encoding.DecodeString(c, bytes.NewReader(b))
			return []any{b, back, err}
		}, text(s)}
	case 7:
		desc, run, inputs := abi.CallJob(t)
		return job{"call", desc, run, inputs}
	default:
		desc, run, inputs := abi.Job(t)
		return job{"conversion", desc, run, inputs}
	}
}

var address = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// do runs a job and keeps what it returns; a panic is one of the results.
func do(j job) (out []any) {
	defer func() {
		if r := recover(); r != nil {
			out = []any{"panic", fmt.Sprint(r)}
		}
	}()
	return j.run()
}

// show writes a value out completely.
func show(xs []any) string {
	var sb strings.Builder
	for _, x := range xs {
		if e, ok := x.(error); ok && e != nil {
			sb.WriteString("error " + address.ReplaceAllString(e.Error(), "0x?") + "\n")
			continue
		}
		dump(&sb, reflect.ValueOf(x), 0)
		sb.WriteByte('\n')
	}
	return sb.String()
}

func dump(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 5000 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String() + ":")
		}
		dump(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(v.Type().Field(i).Name + "=")
			dump(sb, v.Field(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			sb.WriteString(strconv.Itoa(v.Len()) + ":")
			sb.Write(v.Bytes())
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(sb, v.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Map:
		var rows []string
		for it := v.MapRange(); it.Next(); {
			var row strings.Builder
			dump(&row, it.Key(), depth+1)
			row.WriteByte('=')
			dump(&row, it.Value(), depth+1)
			rows = append(rows, row.String())
		}
		sort.Strings(rows)
		sb.WriteString("{" + strings.Join(rows, " ") + "}")
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.String:
		sb.WriteString(strconv.Itoa(v.Len()) + ":")
		sb.WriteString(v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Kind().String())
	default:
		fmt.Fprintf(sb, "%s(%v)", v.Type(), v)
	}
}

func genJobs(t *pbt.T, max int) (js []job) {
	only, past := t.Intn(16), &pasts{} // half of the cases are of one kind
	for i, n := 0, t.Range(1, max); i < n; i++ {
		if len(js) > 0 && t.P(1, 5) {
			js = append(js, pbt.Pick(t, js)) // the same work several times
			continue
		}
		kind := only
		if only >= kinds {
			kind = t.Intn(kinds)
		}
		js = append(js, genJob(t, kind, past))
	}
	t.Case(func() string {
		s := ""
		for i, j := range js {
			s += fmt.Sprintf("%d %s: %s\n", i, j.kind, j.desc)
		}
		return s
	})
	key := ""
	for _, j := range js {
		t.Label("%s", j.kind)
		key += j.kind + j.desc
	}
	if len(js) > 1 {
		t.NonTrivial(key)
	}
	return
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from := max(0, i-40)
		return s[from:min(len(s), i+80)]
	}
	return fmt.Sprintf("%q and %q", cut(a), cut(b))
}

// baseline runs every job alone, in order.
func baseline(js []job) (ins, outs []string, held [][]any) {
	for _, j := range js {
		ins = append(ins, show(j.inputs()))
	}
	for _, j := range js {
		r := do(j)
		held = append(held, r)
		outs = append(outs, show(r))
	}
	return
}

func unchanged(t *pbt.T, js []job, ins, outs []string, held [][]any) {
	for i, j := range js {
		if now := show(j.inputs()); now != ins[i] {
			t.Failf("the input of %s %d changed: %s", j.kind, i, diff(ins[i], now))
		}
		for _, x := range held[i] {
			if x == abi.Modified {
				t.Failf("%s %d: %s", j.kind, i, x)
			}
		}
		if now := show(held[i]); now != outs[i] {
			t.Failf("the result of %s %d changed after it was returned: %s", j.kind, i, diff(outs[i], now))
		}
	}
}

// repeated: in any order, any number of times.
func repeated(t *pbt.T) {
	js := genJobs(t, 5)
	order := make([]int, t.Range(1, 10))
	for i := range order {
		order[i] = t.Intn(len(js))
	}
	ins, outs, held := baseline(js)
	for _, i := range order {
		if got := show(do(js[i])); got != outs[i] {
			t.Failf("%s %d differs when run again: %s", js[i].kind, i, diff(outs[i], got))
		}
	}
	unchanged(t, js, ins, outs, held)
}

// concurrent: all at once, each several times.
func concurrent(t *pbt.T) {
	js := genJobs(t, 6)
	times := t.Range(1, 3)
	var ins, outs []string
	var held [][]any
	cold := t.Bool() // whether the jobs meet before any of them ran alone
	if cold {
		for _, j := range js {
			ins = append(ins, show(j.inputs()))
		}
	} else {
		ins, outs, held = baseline(js)
	}
	got := make([][]string, len(js))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range js {
		got[i] = make([]string, times)
		for k := 0; k < times; k++ {
			wg.Add(1)
			go func(i, k int) {
				defer wg.Done()
				<-start
				if k > 0 {
					runtime.Gosched()
				}
				got[i][k] = show(do(js[i]))
			}(i, k)
		}
	}
	close(start)
	wg.Wait()
	if cold {
		var now []string
		now, outs, held = baseline(js)
		for i, j := range js {
			if now[i] != ins[i] {
				t.Failf("the input of %s %d changed: %s", j.kind, i, diff(ins[i], now[i]))
			}
		}
	}
	for i := range js {
		for k := range got[i] {
			if got[i][k] != outs[i] {
				t.Failf("%s %d differs when run among others: %s", js[i].kind, i, diff(outs[i], got[i][k]))
			}
		}
	}
	unchanged(t, js, ins, outs, held)
}

// Props lists the properties of this package.
func Props() []pbt.Prop {
	return []pbt.Prop{{ID: "D01", Quick: 20000, Thorough: 300000,
		Rule: "at least two jobs",
		Assumptions: []string{"built with the race detector where the toolchain allows it, so that unsynchronised sharing is seen whatever the schedule",
			"codecs, types and values are shared by the runs; lexers, readers, memories and instances are not",
			"addresses in error messages are not compared"},
		Laws: []pbt.Law{{Name: "repeated", Weight: 1, Run: repeated}, {Name: "concurrent", Weight: 1, Run: concurrent}}}}
}
