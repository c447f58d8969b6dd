package pbt

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Law is one executable statement of a property.
type Law struct {
	Name   string
	Weight int // share of the random cases
	Enum   int // when set, the law runs once per index in [0,Enum) instead
	Run    func(t *T)
}

// Prop is a property with its laws and budgets.
type Prop struct {
	ID          string
	Quick       int // random cases in the quick tier
	Thorough    int
	Rule        string
	Assumptions []string
	Laws        []Law
}

type result struct {
	Evaluations int
	Discarded   int
	Labels      map[string]int
	Laws        map[string]int
	Known       map[string]int
	Samples     []string
	Failure     *failureRec
}

type failureRec struct {
	Property string   `json:"property"`
	Law      string   `json:"law"`
	Seed     uint64   `json:"seed"`
	Index    uint64   `json:"index"`
	Choices  []uint64 `json:"choices"`
	HasCh    bool     `json:"has_choices"`
	Sig      string   `json:"signature,omitempty"`
	Msg      string   `json:"message"`
	Case     string   `json:"case"`
	Shrunk   bool     `json:"shrunk"`
}

// Main is the entry point of every harness binary.
func Main(props []Prop) {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: check ID | replay FILE | worker ...")
		os.Exit(2)
	}
	find := func(id string) *Prop {
		for i := range props {
			if props[i].ID == id {
				return &props[i]
			}
		}
		fmt.Fprintf(os.Stderr, "no property %s in this binary\n", id)
		os.Exit(2)
		return nil
	}
	switch os.Args[1] {
	case "check":
		os.Exit(parent(find(os.Args[2])))
	case "worker":
		shard, _ := strconv.Atoi(os.Args[3])
		workers, _ := strconv.Atoi(os.Args[4])
		seed, _ := strconv.ParseUint(os.Args[5], 10, 64)
		os.Exit(worker(find(os.Args[2]), shard, workers, seed, os.Args[6] == "thorough", os.Args[7]))
	case "replay":
		data, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rec failureRec
		if err := json.Unmarshal(data, &rec); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(replay(find(rec.Property), &rec))
	}
	os.Exit(2)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func known(id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, "known: property="+id+" sig=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+id+" sig=")
		sig, what, _ := strings.Cut(rest, " ")
		m[sig] = what
	}
	return m
}

func caseSeed(seed uint64, id, law string, idx uint64) uint64 {
	return mix(mix(seed^Hash64(id+"/"+law)) + idx*0xd1342543de82ef95)
}

type outcome struct {
	fail    *Failure
	discard bool
	rec     []uint64
	t       *T
}

func runOne(law *Law, t *T) (o outcome) {
	o.t = t
	defer func() {
		o.rec = t.rec
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Failure:
				o.fail = &x
			case discard:
				o.discard = true
			default:
				o.fail = &Failure{Sig: "panic", Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack())}
			}
		}
		for i := len(t.deferred) - 1; i >= 0; i-- {
			t.deferred[i]()
		}
	}()
	law.Run(t)
	return
}

func trimStack() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-wasm/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func describe(t *T) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("(no description: %v)", r)
		}
	}()
	if t == nil || t.desc == nil {
		return ""
	}
	s = t.desc()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func lawFor(p *Prop, seed, i uint64) *Law {
	sum := 0
	for _, l := range p.Laws {
		sum += l.Weight
	}
	v := int(mix(mix(seed^Hash64(p.ID))+i) % uint64(sum))
	for k := range p.Laws {
		if v < p.Laws[k].Weight {
			return &p.Laws[k]
		}
		v -= p.Laws[k].Weight
	}
	return &p.Laws[0]
}

type job struct {
	law *Law
	idx uint64
}

func worker(p *Prop, shard, workers int, seed uint64, thorough bool, dir string) int {
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	n := p.Quick
	if thorough {
		n = p.Thorough
	}
	if s := envInt("VERIF_CASES", 0); s > 0 {
		n = s
	}
	if s := envInt("VERIF_SCALE", 0); s > 0 {
		n = (n + s - 1) / s
	}
	kn := known(p.ID)
	res := &result{Labels: map[string]int{}, Laws: map[string]int{}, Known: map[string]int{}}
	var keys []uint64
	var cur atomic.Uint64
	var curLaw atomic.Pointer[Law]
	var best atomic.Pointer[failureRec]
	finish := func() {
		data, _ := json.Marshal(res)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("res-%d.json", shard)), data, 0o644)
		kb := make([]byte, 8*len(keys))
		for i, k := range keys {
			binary.LittleEndian.PutUint64(kb[8*i:], k)
		}
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("keys-%d.bin", shard)), kb, 0o644)
	}
	slot, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("cur-%d", shard)), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return 2
	}
	slot.Truncate(4096)
	mem, err := syscall.Mmap(int(slot.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return 2
	}
	var serial atomic.Uint64
	go watchdog(&serial, func(why string) {
		rec := best.Load()
		if rec == nil {
			law := curLaw.Load()
			rec = &failureRec{Property: p.ID, Law: law.Name, Seed: seed, Index: cur.Load(), Msg: why}
		}
		r := &result{Labels: map[string]int{}, Laws: map[string]int{}, Known: map[string]int{}, Evaluations: int(serial.Load()), Failure: rec}
		data, _ := json.Marshal(r)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("res-%d.json", shard)), data, 0o644)
		os.Exit(3)
	})
	next := jobs(p, n, seed, shard, workers)
	// for work on the harness: a file for the cases that take long
	var slow *os.File
	if f := os.Getenv("VERIF_SLOW"); f != "" {
		slow, _ = os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	}
	sampleEvery := 1
	for {
		jb, ok := next()
		if !ok {
			break
		}
		binary.LittleEndian.PutUint64(mem, jb.idx+1)
		m := copy(mem[9:], jb.law.Name)
		mem[8] = byte(m)
		cur.Store(jb.idx)
		curLaw.Store(jb.law)
		serial.Add(1)
		t := &T{rng: caseSeed(seed, p.ID, jb.law.Name, jb.idx), Index: jb.idx, Thorough: thorough}
		var c0 time.Duration
		if slow != nil {
			c0 = cpuTime()
		}
		o := runOne(jb.law, t)
		if slow != nil {
			if d := cpuTime() - c0; d > time.Second {
				fmt.Fprintf(slow, "%s %s seed %d case %d: %v\n", p.ID, jb.law.Name, seed, jb.idx, d)
			}
		}
		if o.discard {
			res.Discarded++
			continue
		}
		res.Evaluations++
		res.Laws[jb.law.Name]++
		for _, l := range t.labels {
			res.Labels[l]++
		}
		if t.nontrivial {
			keys = append(keys, t.key)
			if len(res.Samples) < 3 && len(keys)%sampleEvery == 0 {
				if d := describe(t); d != "" {
					if len(d) > 600 {
						d = d[:600] + "..."
					}
					res.Samples = append(res.Samples, jb.law.Name+": "+d)
					sampleEvery *= 7
				}
			}
		}
		if o.fail != nil {
			if _, ok := kn[o.fail.Sig]; ok && o.fail.Sig != "" {
				res.Known[o.fail.Sig]++
				continue
			}
			rec := &failureRec{Property: p.ID, Law: jb.law.Name, Seed: seed, Index: jb.idx, Choices: o.rec, HasCh: true, Sig: o.fail.Sig, Msg: o.fail.Msg, Case: describe(t)}
			best.Store(rec)
			res.Failure = shrink(jb.law, rec, thorough, kn, &best, &serial)
			finish()
			return 3
		}
	}
	finish()
	return 0
}

func jobs(p *Prop, n int, seed uint64, shard, workers int) func() (job, bool) {
	var enums []*Law
	random := 0
	for i := range p.Laws {
		if p.Laws[i].Enum > 0 {
			enums = append(enums, &p.Laws[i])
		}
		random += p.Laws[i].Weight
	}
	ei, ej := 0, shard
	i := uint64(shard)
	return func() (job, bool) {
		for ei < len(enums) {
			if ej < enums[ei].Enum {
				j := job{enums[ei], uint64(ej)}
				ej += workers
				return j, true
			}
			ej -= enums[ei].Enum
			ej %= workers
			ei++
		}
		if random == 0 || i >= uint64(n) {
			return job{}, false
		}
		j := job{lawFor(p, seed, i), i}
		i += uint64(workers)
		return j, true
	}
}

func watchdog(serial *atomic.Uint64, give func(string)) {
	const cpuLimit = 60 * time.Second
	const heapLimit = 2 << 30
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var last uint64
	var cpu0 time.Duration
	for {
		time.Sleep(100 * time.Millisecond)
		s := serial.Load()
		c := cpuTime()
		if s != last {
			last, cpu0 = s, c
		} else if c-cpu0 > cpuLimit {
			give(fmt.Sprintf("the case did not finish within %v of CPU time (cases normally take milliseconds)", cpuLimit))
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > heapLimit {
			give("the case drove the heap above 2 GiB")
		}
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func shrink(law *Law, rec *failureRec, thorough bool, kn map[string]string, best *atomic.Pointer[failureRec], serial *atomic.Uint64) *failureRec {
	deadline := time.Now().Add(time.Duration(envInt("VERIF_SHRINK_S", 12)) * time.Second)
	evals := 0
	cur := rec
	try := func(ch []uint64) bool {
		if evals > 20000 || time.Now().After(deadline) {
			return false
		}
		evals++
		serial.Add(1)
		t := &T{replay: ch, replays: true, Index: rec.Index, Thorough: thorough}
		o := runOne(law, t)
		if o.fail == nil || o.discard || o.fail.Sig != rec.Sig {
			return false
		}
		if !less(o.rec, cur.Choices) {
			return false
		}
		n := *cur
		n.Choices, n.Msg, n.Case, n.Shrunk = o.rec, o.fail.Msg, describe(t), true
		cur = &n
		best.Store(cur)
		return true
	}
	del := func(ch []uint64, i, k int) []uint64 {
		out := make([]uint64, 0, len(ch))
		out = append(out, ch[:i]...)
		return append(out, ch[i+k:]...)
	}
	for improved := true; improved && evals <= 20000 && time.Now().Before(deadline); {
		improved = false
		for k := 256; k >= 1; k /= 2 {
			for i := len(cur.Choices) - k; i >= 0; i-- {
				if i+k <= len(cur.Choices) && try(del(cur.Choices, i, k)) {
					improved = true
					i -= k - 1
				}
			}
		}
		for k := 64; k >= 2; k /= 2 {
			for i := 0; i+k <= len(cur.Choices); i += k {
				zero := true
				for _, v := range cur.Choices[i : i+k] {
					if v != 0 {
						zero = false
					}
				}
				if zero {
					continue
				}
				c := append([]uint64(nil), cur.Choices...)
				for j := i; j < i+k; j++ {
					c[j] = 0
				}
				if try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(cur.Choices); i++ {
			set := func(v uint64) bool {
				if i >= len(cur.Choices) {
					return false
				}
				c := append([]uint64(nil), cur.Choices...)
				c[i] = v
				return try(c)
			}
			if i < len(cur.Choices) && cur.Choices[i] != 0 {
				if set(0) {
					improved = true
					continue
				}
				lo := uint64(0)
				for i < len(cur.Choices) && cur.Choices[i]-lo > 1 {
					mid := lo + (cur.Choices[i]-lo)/2
					if set(mid) {
						improved = true
					} else {
						lo = mid
					}
				}
				// a smaller count together with dropping what it counted
				for k := 1; k <= 8 && i < len(cur.Choices) && cur.Choices[i] > 0 && i+1+k <= len(cur.Choices); k++ {
					c := append([]uint64(nil), cur.Choices...)
					c[i]--
					if try(del(c, i+1, k)) {
						improved = true
						k = 0
					}
				}
			}
		}
	}
	return cur
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func replay(p *Prop, rec *failureRec) int {
	var law *Law
	for i := range p.Laws {
		if p.Laws[i].Name == rec.Law {
			law = &p.Laws[i]
		}
	}
	if law == nil {
		fmt.Fprintln(os.Stderr, "no such law:", rec.Law)
		return 2
	}
	t := &T{Index: rec.Index}
	if rec.HasCh {
		t.replays, t.replay = true, rec.Choices
	} else {
		t.rng = caseSeed(rec.Seed, p.ID, law.Name, rec.Index)
	}
	o := runOne(law, t)
	fmt.Println("case:", describe(t))
	if o.fail != nil {
		fmt.Println("fails:", o.fail.Msg)
		return 1
	}
	fmt.Println("holds")
	return 0
}

func parent(p *Prop) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seedInt, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seedInt = 1
	}
	seed := uint64(seedInt)
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	dir, err := os.MkdirTemp(filepath.Join(verifDir(), "out"), "run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	type wk struct {
		cmd *exec.Cmd
		err bytes.Buffer
	}
	ws := make([]*wk, workers)
	for i := range ws {
		w := &wk{}
		w.cmd = exec.Command(os.Args[0], "worker", p.ID, strconv.Itoa(i), strconv.Itoa(workers), strconv.FormatUint(seed, 10), tier, dir)
		w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		w.cmd.Stderr = &w.err
		w.cmd.Stdout = &w.err
		w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := w.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ws[i] = w
	}
	broken := false
	total := &result{Labels: map[string]int{}, Laws: map[string]int{}, Known: map[string]int{}}
	keys := map[uint64]struct{}{}
	var samples []string
	var fail *failureRec
	for i, w := range ws {
		err := w.cmd.Wait()
		code := w.cmd.ProcessState.ExitCode()
		if err != nil && code != 3 {
			se := w.err.String()
			fatal := ""
			switch {
			case strings.Contains(se, "stack exceeds"):
				fatal = "unbounded recursion: stack overflow"
			case strings.Contains(se, "WARNING: DATA RACE") && strings.Contains(se, "go-wasm"):
				fatal = "data race"
			case strings.Contains(se, "concurrent map"):
				fatal = "concurrent map access"
			default:
				// One huge request is the fault of the case; running out in small steps is not.
				if m := hugeBlock.FindStringSubmatch(se); m != nil {
					if n, err := strconv.ParseUint(m[1], 10, 64); err != nil || n >= 1<<30 {
						fatal = "a single allocation of " + m[1] + " bytes"
					}
				}
			}
			if fatal == "" {
				fmt.Fprintf(os.Stderr, "worker %d of %s died (%v):\n%s\n", i, p.ID, err, tail(se, 3000))
				broken = true
				continue
			}
			cur, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("cur-%d", i)))
			if len(cur) > 9 {
				n := int(cur[8])
				fail = pickFailure(fail, &failureRec{Property: p.ID, Law: string(cur[9 : 9+n]), Seed: seed, Index: binary.LittleEndian.Uint64(cur) - 1, Msg: fatal + "\n" + tail(se, 2000)})
			}
			continue
		}
		var r result
		data, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res-%d.json", i)))
		if err != nil || json.Unmarshal(data, &r) != nil {
			fmt.Fprintf(os.Stderr, "worker %d of %s left no result\n", i, p.ID)
			broken = true
			continue
		}
		total.Evaluations += r.Evaluations
		total.Discarded += r.Discarded
		for k, v := range r.Labels {
			total.Labels[k] += v
		}
		for k, v := range r.Laws {
			total.Laws[k] += v
		}
		for k, v := range r.Known {
			total.Known[k] += v
		}
		samples = append(samples, r.Samples...)
		if r.Failure != nil {
			fail = pickFailure(fail, r.Failure)
		}
		kb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("keys-%d.bin", i)))
		for j := 0; j+8 <= len(kb); j += 8 {
			keys[binary.LittleEndian.Uint64(kb[j:])] = struct{}{}
		}
	}
	if broken && fail == nil {
		return 2
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seedInt, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total.Evaluations, "distinct_nontrivial": len(keys), "rule": p.Rule,
			"samples": samples, "classes": sorted(total.Labels), "laws": sorted(total.Laws), "discarded": total.Discarded,
			"known_findings_met": total.Known,
		},
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	kn := known(p.ID)
	for sig, n := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times)\n", p.ID, kn[sig], n)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs\n", p.ID, tier, seedInt, total.Evaluations, len(keys), total.Discarded, time.Since(start).Seconds())
	if fail == nil {
		if len(keys) < 100 && envInt("VERIF_CASES", 0) == 0 {
			fmt.Fprintf(os.Stderr, "only %d non-trivial cases: the check is not conclusive\n", len(keys))
			return 2
		}
		return 0
	}
	rdir := filepath.Join(verifDir(), "out", "replays")
	os.MkdirAll(rdir, 0o755)
	path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", p.ID, tier, seedInt))
	data, _ = json.MarshalIndent(fail, "", " ")
	if err := os.WriteFile(path, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("law: %s\ncase: %s\nfails: %s\n", fail.Law, fail.Case, fail.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

var hugeBlock = regexp.MustCompile(`cannot allocate (\d+)-byte block`)

func pickFailure(a, b *failureRec) *failureRec {
	if a == nil || (b.Shrunk && !a.Shrunk) || (a.Shrunk == b.Shrunk && len(b.Choices) < len(a.Choices)) {
		return b
	}
	return a
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

func sorted(m map[string]int) map[string]int {
	if len(m) <= 200 {
		return m
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	out := map[string]int{}
	for _, k := range ks[:200] {
		out[k] = m[k]
	}
	return out
}
