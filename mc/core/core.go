// Package core is a small stateless model checker for sequential Go code: it enumerates, completely, all
// sequences of choices that a harness body can make (inputs, operations, environment answers), runs the real code
// for each of them, and records what was covered.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is handed to a harness body: one execution.
type Ctx struct {
	forced   []int32
	choices  []int32
	arity    []int32
	probe    bool
	w        *worker
	space    *Space
	Replay   bool // set when replaying a recorded execution
	outcome  uint64
	hasOut   bool
	describe func() string
}

type failure struct{ msg string }
type probeStop struct{ n int }
type skip struct{}

// Choose returns a value in [0,n); the explorer runs the body for every value.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d)", n))
	}
	i := len(c.choices)
	v := int32(0)
	if i < len(c.forced) {
		v = c.forced[i]
		if int(v) >= n {
			panic(fmt.Sprintf("mc: divergence while replaying: choice %d is %d of %d", i, v, n))
		}
	} else if c.probe {
		panic(probeStop{n})
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, int32(n))
	return int(v)
}

// Bool chooses false, then true.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Chosen says that this execution makes no more choices, so that finding them all need not run it in full.
func (c *Ctx) Chosen() {
	if c.probe {
		panic(probeStop{0})
	}
}

// Prune abandons this execution: it is not part of the space (e.g. a duplicate of another).
func (c *Ctx) Prune() { panic(skip{}) }

// Failf reports that the property does not hold in this execution.
func (c *Ctx) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Describe sets a lazily evaluated description of the execution (input, operations).
func (c *Ctx) Describe(f func() string) { c.describe = f }

// Step records one transition of the system under test and the state it leads to.
func (c *Ctx) Step(state uint64) {
	c.w.transitions++
	c.w.addState(state ^ c.space.seed)
}

// Trans records n transitions which lead to states that are not recorded individually.
func (c *Ctx) Trans(n int) { c.w.transitions += int64(n) }

// Outcome records the observable outcome of this execution, to count distinct outcomes.
func (c *Ctx) Outcome(h uint64) { c.outcome = h; c.hasOut = true }

// Space is one exploration: a body, and the bounds it was explored in.
type Space struct {
	Name        string  `json:"name"`
	Bound       string  `json:"bound"`
	Executions  int64   `json:"executions"`
	Transitions int64   `json:"transitions"`
	Outcomes    int64   `json:"distinct_outcomes"`
	MaxDepth    int     `json:"max_choice_depth"`
	Exhaustive  bool    `json:"exhaustive"`
	WallS       float64 `json:"wall_s"`
	seed        uint64
	body        func(*Ctx)
}

type worker struct {
	run         *Run
	transitions int64
	execs       int64
	maxDepth    int
	start       atomic.Int64
	cur         atomic.Pointer[Ctx]
	states      []uint64
	outs        []uint64
}

const nshard = 256

type hashset struct {
	mu [nshard]sync.Mutex
	m  [nshard]map[uint64]struct{}
	n  atomic.Int64
}

const maxSet = 24_000_000

func (s *hashset) addAll(hs []uint64) {
	for _, h := range hs {
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
		i := h % nshard
		s.mu[i].Lock()
		if s.m[i] == nil {
			s.m[i] = map[uint64]struct{}{}
		}
		if _, ok := s.m[i][h]; !ok && s.n.Load() < maxSet {
			s.m[i][h] = struct{}{}
			s.n.Add(1)
		}
		s.mu[i].Unlock()
	}
}

func (w *worker) addState(h uint64) {
	w.states = append(w.states, h)
	if len(w.states) >= 4096 {
		w.flush()
	}
}
func (w *worker) flush() {
	w.run.states.addAll(w.states)
	w.states = w.states[:0]
	w.run.outcomes.addAll(w.outs)
	w.outs = w.outs[:0]
}

// Violation is a failing execution.
type Violation struct {
	Property string  `json:"property"`
	Space    string  `json:"space"`
	Tier     string  `json:"tier"`
	Choices  []int32 `json:"choices"`
	What     string  `json:"what"`
	Input    string  `json:"input"`
	Replayed string  `json:"replayed"`
}

// Run is one run of one property's check.
type Run struct {
	Prop, Tier  string
	Seed        int
	Root        string
	spaces      []*Space
	states      hashset
	outcomes    hashset
	samples     []string
	smu         sync.Mutex
	viol        *Violation
	vmu         sync.Mutex
	stop        atomic.Bool
	start       time.Time
	deadline    time.Time
	only        string // when replaying: only this space
	forced      []int32
	workers     []*worker
	wmu         sync.Mutex
	Assumptions []string
	Extra       map[string]interface{}
	timedOut    bool
	known       []string
	knownSeen   map[string]bool
	hangLimit   time.Duration
	replayMode  bool
	finished    atomic.Bool
	serial      bool // one execution at a time
	// Concurrent: several executions at a time are part of what is checked
	Concurrent bool
}

// Thorough tells whether the thorough tier runs.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// PickInts returns q in the quick tier and t in the thorough tier.
func (r *Run) PickInts(q, t []int) []int {
	if r.Thorough() {
		return t
	}
	return q
}

// Depth returns the largest n, at least min, with k^n <= budget (which is 12 times as large in the thorough tier).
func (r *Run) Depth(k, budget, min int) int {
	if r.Thorough() {
		budget *= 12
	}
	n, x := 0, 1
	for x*k <= budget {
		x *= k
		n++
	}
	if n < min {
		n = min
	}
	return n
}

// Main runs the check of one property and exits.
func Main(props map[string]func(*Run)) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check <property>|replay <file>")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	r := &Run{Root: root, Tier: os.Getenv("VERIF_TIER"), Extra: map[string]interface{}{}, hangLimit: 60 * time.Second}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &r.Seed)
	if os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.Prop, r.Tier, r.only, r.forced, r.replayMode = v.Property, v.Tier, v.Space, v.Choices, true
	} else {
		r.Prop = os.Args[1]
	}
	f := props[r.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") == "" {
		supervise(r)
	}
	r.serial = os.Getenv("MC_SERIAL") != ""
	debug.SetGCPercent(400)
	r.start = time.Now()
	limit := 420 * time.Second
	if r.serial {
		limit = 340 * time.Second
	}
	if r.Thorough() {
		limit = 4 * time.Hour
	}
	r.deadline = r.start.Add(limit)
	r.loadKnown()
	go r.watchdog()
	f(r)
	r.finish()
}

// Fingerprint of a string, for state hashing.
func Hash(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
		h ^= h >> 31
	}
	return h
}

// HashInt mixes integers into a hash.
func HashInt(h uint64, xs ...int) uint64 {
	for _, x := range xs {
		h ^= uint64(x) + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

// HashStr mixes a string into a hash.
func HashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	return h ^ h>>31
}

// one runs the body once. It returns whether the execution counts.
func (r *Run) one(w *worker, c *Ctx) (msg string, counted bool, probe int) {
	w.start.Store(time.Now().UnixNano())
	w.cur.Store(c)
	defer w.start.Store(0)
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case failure:
				msg = v.msg
				counted = true
			case probeStop:
				probe = v.n
			case skip:
			default:
				st := string(debug.Stack())
				if s, ok := x.(string); ok && strings.HasPrefix(s, "mc: ") {
					fmt.Fprintf(os.Stderr, "%s\n%s", s, st)
					os.Exit(2)
				}
				msg = fmt.Sprintf("panic: %v\n%s", x, trimStack(st))
				counted = true
			}
		}
	}()
	c.space.body(c)
	return "", true, 0
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "clipperhouse") || strings.Contains(l, "/repo") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func (r *Run) newWorker() *worker {
	w := &worker{run: r}
	r.wmu.Lock()
	r.workers = append(r.workers, w)
	r.wmu.Unlock()
	return w
}

func cloneInt(x []int32) []int32 { return append([]int32(nil), x...) }

func desc(c *Ctx) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprint("(describe: ", x, ")")
		}
	}()
	if c.describe == nil {
		return ""
	}
	return c.describe()
}

func (r *Run) fail(sp *Space, c *Ctx, msg string, serialSpace bool) {
	choices, input := cloneInt(c.choices), desc(c)
	r.vmu.Lock()
	defer r.vmu.Unlock()
	if r.viol != nil {
		return
	}
	r.stop.Store(true)
	// Run it again, to know whether it fails every time.
	n := 0
	const times = 10
	t0 := time.Now()
	for i := 0; i < times && time.Since(t0) < 30*time.Second; i++ {
		w := &worker{run: r}
		c2 := &Ctx{forced: choices, w: w, space: sp, Replay: true}
		m, _, _ := r.one(w, c2)
		if m != "" {
			n++
		}
	}
	r.viol = &Violation{Property: r.Prop, Space: sp.Name, Tier: r.Tier, Choices: choices, What: msg, Input: input,
		Replayed: fmt.Sprintf("failed in %d of %d replays", n, times)}
	if n == 0 && !r.serial && !r.Concurrent && !serialSpace {
		// It fails only next to other executions, which is not what this property is about: decide it without them.
		fmt.Fprintf(os.Stderr, "%s %s: not reproducible: %s: %s\n", r.Prop, sp.Name, input, msg)
		os.Exit(exitAgain)
	}
}

// Explore enumerates all executions of body.
func (r *Run) Explore(name, bound string, body func(*Ctx)) { r.explore(name, bound, false, body) }

// ExploreSerial enumerates all executions of body, one at a time.
func (r *Run) ExploreSerial(name, bound string, body func(*Ctx)) { r.explore(name, bound, true, body) }

func (r *Run) explore(name, bound string, serial bool, body func(*Ctx)) {
	if r.stop.Load() {
		return
	}
	sp := &Space{Name: name, Bound: bound, body: body, seed: Hash(name)}
	if r.replayMode {
		if name != r.only {
			return
		}
		w := r.newWorker()
		c := &Ctx{forced: r.forced, w: w, space: sp, Replay: true}
		msg, _, _ := r.one(w, c)
		fmt.Printf("replay %s/%s: %s\n", r.Prop, name, desc(c))
		if msg != "" {
			fmt.Println("FAILS:", msg)
			os.Exit(1)
		}
		fmt.Println("passes")
		os.Exit(0)
	}
	t0 := time.Now()
	r.spaces = append(r.spaces, sp)
	// Split into subtrees.
	var leaves [][]int32
	queue := [][]int32{nil}
	pw := r.newWorker()
	for len(queue) > 0 && len(queue)+len(leaves) < 2000 {
		p := queue[0]
		queue = queue[1:]
		c := &Ctx{forced: p, probe: true, w: pw, space: sp}
		_, _, n := r.one(pw, c)
		if n == 0 { // no further choice (or failed / pruned before one): execute it as a leaf
			leaves = append(leaves, p)
			continue
		}
		for i := 0; i < n; i++ {
			queue = append(queue, append(cloneInt(p), int32(i)))
		}
	}
	pw.transitions, pw.execs = 0, 0
	pw.states, pw.outs = nil, nil
	work := append(leaves, queue...)
	sort.Slice(work, func(i, j int) bool { return lessInt(work[i], work[j]) })
	outBefore := r.outcomes.n.Load()
	var next atomic.Int64
	var wg sync.WaitGroup
	nw := runtime.GOMAXPROCS(0)
	if r.serial || serial {
		nw = 1
	}
	var ws []*worker
	var complete, slow atomic.Bool
	complete.Store(true)
	for i := 0; i < nw; i++ {
		w := r.newWorker()
		ws = append(ws, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.flush()
			for {
				k := next.Add(1) - 1
				if k >= int64(len(work)) {
					return
				}
				prefix := work[k]
				forced := cloneInt(prefix)
				for {
					if r.stop.Load() {
						complete.Store(false)
						return
					}
					c := &Ctx{forced: forced, w: w, space: sp}
					if !slow.Load() && w.execs&15 == 15 && time.Since(t0) > 16*time.Millisecond*time.Duration(w.execs) {
						slow.Store(true)
					}
					msg, counted, _ := r.one(w, c)
					if counted {
						w.execs++
						if len(c.choices) > w.maxDepth {
							w.maxDepth = len(c.choices)
						}
						if c.hasOut {
							w.outs = append(w.outs, c.outcome^sp.seed)
						}
						if w.execs&(w.execs-1) == 0 && c.describe != nil {
							r.sample(sp, c)
						}
					}
					if msg != "" {
						complete.Store(false)
						r.fail(sp, c, msg, serial)
						return
					}
					if (w.execs&255 == 0 || slow.Load()) && time.Now().After(r.deadline) {
						complete.Store(false)
						r.timedOut = true
						return
					}
					// Odometer
					i := len(c.choices) - 1
					for i >= len(prefix) && c.choices[i]+1 >= c.arity[i] {
						i--
					}
					if i < len(prefix) {
						break
					}
					forced = append(forced[:0], c.choices[:i+1]...)
					forced[i]++
				}
			}
		}()
	}
	wg.Wait()
	for _, w := range ws {
		sp.Executions += w.execs
		sp.Transitions += w.transitions
		if w.maxDepth > sp.MaxDepth {
			sp.MaxDepth = w.maxDepth
		}
	}
	sp.Outcomes = r.outcomes.n.Load() - outBefore
	sp.Exhaustive = complete.Load()
	sp.WallS = time.Since(t0).Seconds()
	fmt.Fprintf(os.Stderr, "%s %s: executions=%d transitions=%d outcomes=%d exhaustive=%v %.1fs\n", r.Prop, name, sp.Executions, sp.Transitions, sp.Outcomes, sp.Exhaustive, sp.WallS)
}

func lessInt(a, b []int32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (r *Run) sample(sp *Space, c *Ctx) {
	r.smu.Lock()
	defer r.smu.Unlock()
	n := 0
	for _, s := range r.samples {
		if strings.HasPrefix(s, sp.Name+": ") {
			n++
		}
	}
	if n < 4 {
		d := desc(c)
		if len(d) > 300 {
			d = d[:300] + "..."
		}
		r.samples = append(r.samples, sp.Name+": "+d)
	}
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, rss int64
	fmt.Sscanf(string(b), "%d %d", &a, &rss)
	return rss * int64(os.Getpagesize())
}

// watchdog turns a hang or unbounded memory growth of a single execution into a violation.
func (r *Run) watchdog() {
	const memLimit = 14 << 30
	var lastTick = time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now()
		if now.Sub(lastTick) > 5*time.Second { // the whole process was stopped; forget it
			r.wmu.Lock()
			for _, w := range r.workers {
				if w.start.Load() != 0 {
					w.start.Store(now.UnixNano())
				}
			}
			r.wmu.Unlock()
		}
		lastTick = now
		if r.finished.Load() {
			return
		}
		var worst *worker
		var age time.Duration
		r.wmu.Lock()
		for _, w := range r.workers {
			if s := w.start.Load(); s != 0 {
				if a := now.Sub(time.Unix(0, s)); worst == nil || a > age {
					worst, age = w, a
				}
			}
		}
		r.wmu.Unlock()
		if worst == nil {
			continue
		}
		mem := rssBytes() > memLimit && age > 2*time.Second
		if age > r.hangLimit || mem {
			c := worst.cur.Load()
			what := fmt.Sprintf("the execution does not finish (running for %.0f s, alone it takes far less than a second)", age.Seconds())
			if mem {
				what = "the execution uses memory without bound"
			}
			if r.replayMode {
				fmt.Println("FAILS:", what)
				os.Exit(1)
			}
			r.vmu.Lock()
			if r.viol == nil {
				r.viol = &Violation{Property: r.Prop, Space: c.space.Name, Tier: r.Tier, Choices: cloneInt(c.choices), What: what, Input: desc(c)}
			}
			r.vmu.Unlock()
			r.finish()
		}
	}
}

// Violate reports a violation found outside Explore.
func (r *Run) Violate(space, input, what string) {
	r.vmu.Lock()
	if r.viol == nil {
		r.viol = &Violation{Property: r.Prop, Space: space, Tier: r.Tier, What: what, Input: input}
	}
	r.vmu.Unlock()
	r.stop.Store(true)
}

// ViolateAt reports a violation found by another explorer, with what it needs to replay it.
func (r *Run) ViolateAt(space, input, what string, choices []int32, replayed string) {
	r.vmu.Lock()
	if r.viol == nil {
		r.viol = &Violation{Property: r.Prop, Space: space, Tier: r.Tier, What: what, Input: input, Choices: choices, Replayed: replayed}
	}
	r.vmu.Unlock()
	r.stop.Store(true)
}

// Add records a space explored by another explorer.
func (r *Run) Add(sp *Space, states, outcomes []uint64, samples []string) {
	r.spaces = append(r.spaces, sp)
	seed := Hash(sp.Name)
	for i := range states {
		states[i] ^= seed
	}
	for i := range outcomes {
		outcomes[i] ^= seed
	}
	r.states.addAll(states)
	n := r.outcomes.n.Load()
	r.outcomes.addAll(outcomes)
	sp.Outcomes = r.outcomes.n.Load() - n
	for _, s := range samples {
		r.samples = append(r.samples, sp.Name+": "+s)
	}
	fmt.Fprintf(os.Stderr, "%s %s: executions=%d transitions=%d outcomes=%d exhaustive=%v %.1fs\n", r.Prop, sp.Name, sp.Executions, sp.Transitions, sp.Outcomes, sp.Exhaustive, sp.WallS)
}

// Replaying returns the recorded violation that is being replayed, if any.
func (r *Run) Replaying() (space string, choices []int32, ok bool) {
	return r.only, r.forced, r.replayMode
}

// Deadline is when the exploration has to come to an end.
func (r *Run) Deadline() time.Time { return r.deadline }

// Stopped tells whether a violation was found.
func (r *Run) Stopped() bool { return r.stop.Load() }

func (r *Run) loadKnown() {
	r.knownSeen = map[string]bool{}
	b, err := os.ReadFile(filepath.Join(r.Root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+r.Prop+" ") {
			r.known = append(r.known, l)
		}
	}
}

// Known tells whether the failure described by what (input and observed result) is listed as a known finding.
func (r *Run) Known(what string) bool {
	line := "KNOWN-FINDING: property=" + r.Prop + " " + what
	for _, k := range r.known {
		if k == line {
			r.smu.Lock()
			r.knownSeen[k] = true
			r.smu.Unlock()
			return true
		}
	}
	return false
}

func (r *Run) finish() {
	if r.finished.Swap(true) {
		select {}
	}
	if r.replayMode {
		fmt.Println("replay: no such space", r.only)
		os.Exit(2)
	}
	var execs, trans int64
	exhaustive := !r.timedOut
	for _, s := range r.spaces {
		execs += s.Executions
		trans += s.Transitions
		exhaustive = exhaustive && s.Exhaustive
	}
	sort.Strings(r.samples)
	nv := 0
	if r.viol != nil {
		nv = 1
	}
	samples := []interface{}{}
	for _, s := range r.samples {
		samples = append(samples, s)
	}
	cov := map[string]interface{}{
		"states": r.states.n.Load(), "transitions": trans, "traces_validated_against_impl": execs,
		"distinct_outcomes": r.outcomes.n.Load(), "samples": samples, "spaces": r.spaces, "exhaustive": exhaustive,
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": time.Since(r.start).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Root, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ks []string
	for k := range r.knownSeen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
	if r.viol != nil {
		dir := filepath.Join(r.Root, "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, r.Prop+".json")
		b, _ := json.MarshalIndent(r.viol, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("space %s\ninput %s\n%s\n%s\n", r.viol.Space, r.viol.Input, r.viol.What, r.viol.Replayed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s executions=%d states=%d transitions=%d outcomes=%d exhaustive=%v %.1fs\n",
		r.Prop, r.Tier, execs, r.states.n.Load(), trans, r.outcomes.n.Load(), exhaustive, time.Since(r.start).Seconds())
	os.Exit(0)
}
