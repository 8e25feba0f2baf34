// Package zzverif is the verification harness: a stateless explicit
// enumeration engine ("choice tree" exploration) plus the reference models.
// It is overlaid into the module at build time and uses only the exported API
// of the repository and the command line entry point.
package zzverif

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// C is one execution of the nondeterministic program that describes a property:
// every call of N is a nondeterministic choice, and the engine enumerates all of
// them depth first.
type C struct {
	eng   *engine
	pre   []int32 // choices to follow
	vals  []int32
	lims  []int32
	key   string
	note  []string
	fam   string
	cut   bool
	force func(n int) int // choices made by a rule instead of being explored
}

// Split assigns the whole subtree below the choices made so far to one shard,
// so that the other shards need not walk it.
func (c *C) Split() {
	e := c.eng
	if c.cut || e.replay {
		c.cut = true
		return
	}
	c.cut = true
	h := uint64(1469598103934665603)
	for _, v := range c.vals {
		h = (h ^ uint64(v+1)) * 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 29
	if h%uint64(e.shards) != uint64(e.shard) {
		panic(skipT{})
	}
}

type skipT struct{}

// N chooses a number in [0,n).
func (c *C) N(n int) int {
	if n <= 0 {
		panic("zzverif: empty choice")
	}
	if c.force != nil {
		return c.force(n)
	}
	i := len(c.vals)
	v := int32(0)
	if i < len(c.pre) {
		v = c.pre[i]
		if v >= int32(n) {
			if c.eng.replay {
				c.eng.fatal("replay does not fit the choice tree")
			}
			panic(fmt.Sprintf("zzverif: nondeterministic choice tree (%d >= %d at %d)", v, n, i))
		}
	}
	c.vals = append(c.vals, v)
	c.lims = append(c.lims, int32(n))
	return int(v)
}

func (c *C) Bool() bool { return c.N(2) == 1 }

func Pick[T any](c *C, xs ...T) T { return xs[c.N(len(xs))] }

// Perm chooses a permutation of 0..n-1.
func (c *C) Perm(n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	out := make([]int, 0, n)
	for len(rest) > 0 {
		i := c.N(len(rest))
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return out
}

// Subset chooses a subset of 0..n-1 with at most max elements, in increasing order.
func (c *C) Subset(n, max int) []int {
	var out []int
	for i := 0; i < n && len(out) < max; i++ {
		if c.Bool() {
			out = append(out, i)
		}
	}
	return out
}

// Seq chooses a sequence of length 0..max over 0..n-1.
func (c *C) Seq(n, max int) []int {
	l := c.N(max + 1)
	return c.SeqN(n, l)
}

func (c *C) SeqN(n, l int) []int {
	out := make([]int, l)
	for i := range out {
		out[i] = c.N(n)
	}
	return out
}

// Skip abandons this execution (it is outside the bounded space).
func (c *C) Skip() { panic(skipT{}) }

// Leaf fixes the input of this execution. key must determine the input: equal
// keys are executed once. Executions of other shards are abandoned here.
func (c *C) Leaf(key string) {
	c.key = key
	h := fnv.New64a()
	io.WriteString(h, c.fam)
	h.Write([]byte{0})
	io.WriteString(h, key)
	s := h.Sum64()
	// finalise: FNV's low bits are weak
	s ^= s >> 33
	s *= 0xff51afd7ed558ccd
	s ^= s >> 33
	e := c.eng
	if e.replay {
		e.begin(c)
		return
	}
	if !c.cut && s%uint64(e.shards) != uint64(e.shard) {
		panic(skipT{})
	}
	if _, ok := e.seen[s]; ok {
		if !c.resumed() {
			e.Dups++
			panic(skipT{})
		}
	} else {
		e.seen[s] = struct{}{}
		e.States++
		if e.States%e.sampleEvery == 1 && len(e.Samples) < 6 {
			e.Samples = append(e.Samples, c.fam+": "+clip(key, 600))
		}
		if e.States > 64*e.sampleEvery {
			e.sampleEvery *= 8
		}
	}
	e.begin(c)
}

// resumed reports whether choices exist beyond this point (same leaf, next schedule).
func (c *C) resumed() bool { return len(c.pre) > len(c.vals) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *C) Thorough() bool { return c.eng.thorough }

// Q picks a bound by tier.
func (c *C) Q(quick, thorough int) int {
	if c.eng.thorough {
		return thorough
	}
	return quick
}

func (c *C) Nontrivial()             { c.eng.Nontrivial++ }
func (c *C) Count(class string)      { c.eng.Classes[class]++ }
func (c *C) Note(f string, a ...any) { c.note = append(c.note, fmt.Sprintf(f, a...)) }
func (c *C) AddStates(n int64)       { c.eng.ExtraStates += n }
func (c *C) AddTransitions(n int64)  { c.eng.ExtraTransitions += n }
func (c *C) AddTraces(n int64)       { c.eng.ExtraTraces += n }

type failT struct{ msg string }

// Fail reports a violation of the property and ends the execution.
func (c *C) Fail(f string, a ...any) { panic(failT{fmt.Sprintf(f, a...)}) }

type Violation struct {
	Prop    string   `json:"property"`
	Choices []int32  `json:"choices"`
	Family  string   `json:"family"`
	Key     string   `json:"input"`
	Msg     string   `json:"message"`
	Kind    string   `json:"kind"`
	Notes   []string `json:"notes,omitempty"`
}

type Stats struct {
	Prop             string           `json:"property"`
	States           int64            `json:"states"`
	ExtraStates      int64            `json:"extra_states"`
	ExtraTransitions int64            `json:"extra_transitions"`
	ExtraTraces      int64            `json:"extra_traces"`
	Dups             int64            `json:"dups"`
	Executions       int64            `json:"executions"`
	Nodes            int64            `json:"choice_nodes"`
	Nontrivial       int64            `json:"nontrivial"`
	Classes          map[string]int64 `json:"classes"`
	Families         map[string]int64 `json:"families"`
	Samples          []string         `json:"samples"`
	Violations       []Violation      `json:"violations"`
	Complete         bool             `json:"complete"`
	Wall             float64          `json:"wall_s"`
}

type engine struct {
	Stats
	prop        string
	thorough    bool
	shard       int
	shards      int
	replay      bool
	seen        map[uint64]struct{}
	sampleEvery int64
	deadline    time.Time
	cur         []byte // shared memory: current case
	started     atomic.Int64
	scratch     string
	maxViol     int
	out         string
}

func (e *engine) fatal(msg string) {
	fmt.Fprintln(os.Stderr, "zzverif: "+msg)
	os.Exit(4)
}

// begin publishes the current case so that a crash or hang can be attributed.
func (e *engine) begin(c *C) {
	e.started.Store(time.Now().UnixNano())
	if e.cur == nil {
		return
	}
	n := len(c.vals)
	if n > 4000 {
		n = 4000
	}
	key := c.fam + ": " + c.key
	if len(key) > 8000 {
		key = key[:8000]
	}
	binary.LittleEndian.PutUint32(e.cur[0:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(e.cur[8+4*i:], uint32(c.vals[i]))
	}
	binary.LittleEndian.PutUint32(e.cur[4:], uint32(len(key)))
	copy(e.cur[8+4*4000:], key)
}

func (e *engine) end() { e.started.Store(0) }

type Prop struct {
	ID       string
	Families []Family
}

// Family is one part of the bounded space of a property.
type Family struct {
	Name     string
	Run      func(c *C)
	Thorough bool // only in the thorough tier
}

var props = map[string]*Prop{}

func register(id string, fams ...Family) {
	p := props[id]
	if p == nil {
		p = &Prop{ID: id}
		props[id] = p
	}
	p.Families = append(p.Families, fams...)
}

// runOne executes the program once, following c.pre.
func (e *engine) runOne(f Family, c *C) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case skipT:
				e.end()
				return
			case failT:
				v = &Violation{Msg: x.msg, Kind: "oracle"}
			default:
				v = &Violation{Msg: fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 4000)), Kind: "panic"}
			}
			v.Prop, v.Family, v.Key, v.Notes = e.prop, c.fam, c.key, c.note
			v.Choices = append([]int32(nil), c.vals...)
			e.Executions++
			e.end()
		}
	}()
	if n, _ := strayErr.Seek(0, io.SeekCurrent); n > 1<<20 {
		takeStray(strayErr)
	}
	f.Run(c)
	e.end()
	e.Executions++
	return nil
}

func (e *engine) explore(f Family) bool {
	var pre []int32
	cnt := 0
	start := e.Executions
	defer func() { e.Families[f.Name] += e.Executions - start }()
	for {
		c := &C{eng: e, pre: pre, fam: f.Name}
		v := e.runOne(f, c)
		if len(c.vals) < len(pre) {
			if v == nil || v.Kind == "oracle" {
				// replayed prefix was not consumed: the program is not deterministic
				v = &Violation{Prop: e.prop, Family: f.Name, Key: c.key, Choices: pre, Kind: "panic",
					Msg: "zzverif: nondeterministic choice tree (short)"}
			}
		}
		if v != nil {
			e.Violations = append(e.Violations, *v)
			if len(e.Violations) >= e.maxViol {
				return false
			}
		}
		common := len(pre)
		if common > 0 {
			common--
		}
		if len(c.vals) > common {
			e.Nodes += int64(len(c.vals) - common)
		}
		// backtrack
		i := len(c.vals) - 1
		for i >= 0 && c.vals[i]+1 >= c.lims[i] {
			i--
		}
		if i < 0 {
			return true
		}
		pre = append(pre[:0:0], c.vals[:i+1]...)
		pre[i]++
		cnt++
		if cnt&63 == 0 && time.Now().After(e.deadline) {
			return false
		}
	}
}

func shm() string {
	for _, d := range []string{"/dev/shm", "/tmp"} {
		if f, err := os.MkdirTemp(d, ".vt"); err == nil {
			os.Remove(f)
			return d
		}
	}
	return os.TempDir()
}

var runCLI func(args []string, stdout, stderr io.Writer) int
var theEngine *engine

// Main runs one worker. Environment:
// VERIF_WORKER=<property>, VERIF_SHARD=i/n, VERIF_OUT=<file>, VERIF_TIER, VERIF_DEADLINE_S,
// VERIF_REPLAY=<file with a Violation>, VERIF_FAMILY=<only this family>.
func Main(run func(args []string, stdout, stderr io.Writer) int) {
	runCLI = run
	id := os.Getenv("VERIF_WORKER")
	if strings.HasPrefix(id, "child:") {
		childMain(strings.TrimPrefix(id, "child:"))
		os.Exit(0)
	}
	e := &engine{prop: id, seen: map[uint64]struct{}{}, sampleEvery: 1, maxViol: 3, shards: 1}
	e.Prop = id
	if os.Getenv("VERIF_FIRST") != "" {
		e.maxViol = 1
	}
	e.Classes = map[string]int64{}
	e.Families = map[string]int64{}
	e.thorough = os.Getenv("VERIF_TIER") == "thorough"
	e.out = os.Getenv("VERIF_OUT")
	theEngine = e
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		a, b, _ := strings.Cut(s, "/")
		e.shard, _ = strconv.Atoi(a)
		e.shards, _ = strconv.Atoi(b)
	}
	secs := 3600.0
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	t0 := time.Now()
	e.deadline = t0.Add(time.Duration(secs * float64(time.Second)))
	// a soft limit makes the collector work harder rather than the machine run out
	debug.SetMemoryLimit(3 << 30)
	debug.SetGCPercent(400)

	if f, err := os.OpenFile(e.out+".cur", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644); err == nil {
		_ = f.Truncate(32768)
		if m, err := syscall.Mmap(int(f.Fd()), 0, 32768, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			e.cur = m
		}
		f.Close()
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = shm()
	}
	dir, err := os.MkdirTemp(base, "w")
	if err != nil {
		e.fatal(err.Error())
	}
	e.scratch, _ = filepath.EvalSymlinks(dir)
	setupIO()
	hang := 60 * time.Second
	if s := os.Getenv("VERIF_HANG_S"); s != "" {
		n, _ := strconv.Atoi(s)
		hang = time.Duration(n) * time.Second
	}
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			if s := e.started.Load(); s != 0 && time.Since(time.Unix(0, s)) > hang {
				os.WriteFile(e.out+".hang", []byte("hang\n"), 0o644)
				os.Exit(7)
			}
		}
	}()

	selfCheckRanks()
	p := props[id]
	if p == nil {
		e.fatal("unknown property " + id)
	}
	code := 0
	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		var v Violation
		b, err := os.ReadFile(rf)
		if err != nil || json.Unmarshal(b, &v) != nil {
			e.fatal("bad replay file")
		}
		e.replay = true
		for _, f := range p.Families {
			if f.Name == v.Family {
				c := &C{eng: e, pre: v.Choices, fam: f.Name}
				if got := e.runOne(f, c); got != nil {
					e.Violations = append(e.Violations, *got)
				}
			}
		}
	} else {
		e.Complete = true
		only := os.Getenv("VERIF_FAMILY")
		for _, f := range p.Families {
			if f.Thorough && !e.thorough || only != "" && only != f.Name {
				continue
			}
			if !e.explore(f) {
				e.Complete = false
				break
			}
		}
	}
	_ = os.Chdir("/")
	_ = os.RemoveAll(e.scratch)
	e.Wall = time.Since(t0).Seconds()
	b, _ := json.Marshal(e.Stats)
	if err := os.WriteFile(e.out, b, 0o644); err != nil {
		e.fatal(err.Error())
	}
	os.Exit(code)
}

func childMain(arg string) {
	f := children[arg]
	if f == nil {
		os.Exit(5)
	}
	f()
}

// children are the entry points of helper processes.
var children = map[string]func(){}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
