// Command conc checks that filters can be shared by goroutines (C11). It is built with the race detector, from copies of
// the library packages in which every statement is a scheduling point (see cmd/instrument): it runs the threads of a
// scenario one at a time and explores all schedules up to a number of preemptions; in each it compares what every thread
// gets with what it gets alone, and has the race detector look for accesses that nothing orders.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/vsched"
)

// body of a thread: it returns what it saw.
type body func() string

// scenario is some threads which share something.
type scenario struct {
	name    string
	pre     int // preemptions
	threads int
	make    func() []body
	process bool // every execution in a new process: first use of package state
}

func see(s *jargon.TokenStream) string {
	var b strings.Builder
	n := 0
	for {
		t, err := s.Next()
		if err != nil {
			b.WriteString("error: " + err.Error())
			return b.String()
		}
		if t == nil {
			return b.String()
		}
		fmt.Fprintf(&b, "%q %v %v %v\n", t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma())
		if n++; n > 1000 {
			return b.String() + "no end"
		}
	}
}

func text(f jargon.Filter, s string) body {
	return func() string { return see(f(jargon.TokenizeString(s))) }
}

func toks(ss ...string) []*jargon.Token {
	var out []*jargon.Token
	for _, s := range ss {
		out = append(out, jargon.NewToken(s, false))
	}
	return out
}

// list applies a filter to tokens.
func list(f jargon.Filter, ts []*jargon.Token) body {
	return func() string { return see(f(h.StreamOf(ts))) }
}

// inputs are pairs of token lists for two threads: one pair that is short, for the deeper exploration, and more that
// take other paths through the filter.
var inputs = map[string][][2][]string{
	"ascii":         {{{"café", "b"}, {"x", "ÀÉ"}}, {{"\u0300", "Ⓐ"}, {"x", "中é"}}},
	"contractions":  {{{"don't"}, {"WE’LL", "x"}}, {{"Gonna", "x"}, {"it's", "'"}}},
	"stackoverflow": {{{"ruby", " ", "on", " ", "rails"}, {"node", " ", "js"}}, {{"ruby", " ", "x"}, {"asp", ".", "net", "-"}}},
	"handles":       {{{"@", "user", "x"}, {" ", "@", "ab"}}, {{"@", "é", "@"}, {"@", " ", "@", "@"}}, {{"x", "@", "y"}, {"@"}}},
	"hashtags":      {{{"#", "tag", "x"}, {"#", "é", "#"}}, {{"#", "1"}, {"#", " ", "#", "#"}}, {{"x", "#", "y"}, {"#"}}},
	"stem":          {{{"running", "x"}, {"managers", "."}}, {{"Houses", " "}, {"y's", "1"}}},
	"nfc":           {{{"e\u0301", "x"}, {"o\u0308", "b"}}, {{"\u0301", "é"}, {" ", "."}}},
	"stop":          {{{"the", "x", "b"}, {"B", "y"}}, {{"THE", " "}, {".", "b"}}},
	"words":         {{{"a", " ", "."}, {".", "b"}}},
	"lemmas":        {{{"a", "b"}, {"c"}}},
	"distinct":      {{{"a", "a", "b"}, {"b", "a", "b"}}},
	"synonyms":      {{{"a", " ", "b", "x"}, {"@user", "b", "."}}, {{"a", " ", "x"}, {"A", "."}}},
	"nba":           {{{"lebron", " ", "james"}, {"stephen", " ", "curry"}}, {{"LeBron", " ", "x"}, {"76ers"}}},
	"lower":         {{{"A", "b"}, {"c", "DE"}}},
	"sigil":         {{{"$", "ab"}, {"x", "$", "cd"}}, {{"$", "é", "$"}, {"$", "1", "$"}}, {{"x", "$", "y"}, {"$", " ", "$"}}},
}

func scenarios(thorough bool) []scenario {
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var out []scenario
	out = append(out, scenario{name: "synonyms, first use", pre: pick(2, 3), threads: 2, make: func() []body {
		f := synonyms.NewFilter(map[string]string{"a b": "X"}, true, []rune{' '})
		return []body{list(f, toks("a", " ", "B")), list(f, toks("x", "ab"))}
	}})
	out = append(out, scenario{name: "synonyms, first use, two terms", pre: pick(1, 2), threads: 2, make: func() []body {
		f := synonyms.NewFilter(map[string]string{"a b": "X", "c d": "Y"}, false, nil)
		return []body{list(f, toks("a", " ", "b", ".")), list(f, toks("c", " ", "d"))}
	}})
	out = append(out, scenario{name: "synonyms, first use, three threads", pre: pick(1, 2), threads: 3, make: func() []body {
		f := synonyms.NewFilter(map[string]string{"a": "X"}, true, nil)
		return []body{list(f, toks("a")), list(f, toks("A")), list(f, toks("b"))}
	}})
	out = append(out, scenario{name: "synonyms, later use", pre: pick(2, 3), threads: 2, make: func() []body {
		f := synonyms.NewFilter(map[string]string{"a b": "X", "c": "", "a": "Y"}, true, []rune{' '})
		f(jargon.TokenizeString("a")).ToSlice()
		return []body{list(f, toks("a", " ", "b")), list(f, toks("c", "A"))}
	}})
	over := strings.Repeat("w", 70000)
	out = append(out, scenario{name: "synonyms, failing", pre: pick(2, 3), threads: 2, make: func() []body {
		f := synonyms.NewFilter(map[string]string{over: "X"}, true, nil)
		return []body{list(f, toks("a")), list(f, toks("b"))}
	}})
	out = append(out, scenario{name: "synonyms, failing, three threads", pre: pick(1, 2), threads: 3, make: func() []body {
		f := synonyms.NewFilter(map[string]string{over: "X"}, true, nil)
		return []body{list(f, toks("a")), list(f, toks("b")), list(f, toks("c"))}
	}})
	out = append(out, scenario{name: "synonyms, two streams each", pre: pick(1, 2), threads: 2, make: func() []body {
		f := synonyms.NewFilter(map[string]string{"a": "X"}, true, nil)
		one := func(a, b string) body {
			return func() string {
				s, t := f(h.StreamOf(toks(a))), f(h.StreamOf(toks(b)))
				return see(t) + see(s)
			}
		}
		return []body{one("a", "x"), one("y", "A")}
	}})
	for _, f := range h.Filters() {
		ins, ok := inputs[f.Name]
		if !ok {
			continue
		}
		in := ins[0]
		f := f
		heavy := f.Kind == "synonyms"
		out = append(out, scenario{name: f.Name + ", own tokens", pre: pick(2, 3), threads: 2, make: func() []body {
			g := f.New()
			if heavy {
				g(h.StreamOf(nil))
			}
			return []body{list(g, toks(in[0]...)), list(g, toks(in[1]...))}
		}})
		out = append(out, scenario{name: f.Name + ", the same tokens", pre: pick(1, 2), threads: 3, make: func() []body {
			g := f.New()
			ts := append(toks(in[0]...), jargon.NewToken("a", true))
			if heavy {
				g(h.StreamOf(nil))
			}
			return []body{list(g, ts), list(g, ts), list(g, ts)}
		}})
		for i, in := range ins[1:] {
			in := in
			out = append(out, scenario{name: fmt.Sprintf("%s, own tokens, %d", f.Name, i+2), pre: pick(1, 2), threads: 2, make: func() []body {
				g := f.New()
				if heavy {
					g(h.StreamOf(nil))
				}
				return []body{list(g, toks(in[0]...)), list(g, toks(in[1]...))}
			}})
		}
		if f.Name == "synonyms" || f.Name == "lower" || f.Name == "stop" || f.Name == "sigil" {
			continue
		}
		pre := 1
		if heavy {
			pre = 0
		}
		out = append(out, scenario{name: f.Name + ", first use", pre: pre, threads: 2, process: true, make: func() []body {
			g := f.New()
			return []body{list(g, toks(in[0]...)), list(g, toks(in[1]...))}
		}})
	}
	for _, l := range []string{"french", "russian", "spanish", "swedish", "norwegian", "nfd", "nfkc", "nfkd", "stopcs"} {
		f := h.Filter(l)
		mk := func() []body {
			g := f.New()
			return []body{list(g, toks("chevaux", "ﬁn", "бегающий", "B")), list(g, toks("é", " ", "красивые", "the"))}
		}
		out = append(out, scenario{name: l, pre: pick(1, 2), threads: 2, make: mk})
		out = append(out, scenario{name: l + ", first use", pre: 0, threads: 2, process: true, make: mk})
	}
	// Different filters at the same time, made before or by the threads
	syn := func(m map[string]string, ic bool, ignore ...rune) func() jargon.Filter {
		return func() jargon.Filter { return synonyms.NewFilter(m, ic, ignore) }
	}
	type use struct {
		mk func() jargon.Filter
		in []string
	}
	of := func(name string, in ...string) use { return use{h.Filter(name).New, in} }
	pairs := []struct {
		name string
		a, b use
		pre  int
	}{
		{"two synonyms filters", use{syn(map[string]string{"a b": "X"}, true, ' '), []string{"a", " ", "B"}}, use{syn(map[string]string{"a": "Y", "b": "Z"}, false), []string{"a", "A", "b"}}, 1},
		{"two stop word filters", use{func() jargon.Filter { return stopwords.NewFilter([]string{"a"}, true) }, []string{"a", "A", "b"}}, use{func() jargon.Filter { return stopwords.NewFilter([]string{"b"}, false) }, []string{"a", "b", "B"}}, 2},
		{"two sigils", use{func() jargon.Filter { return sigil.NewFilter("$", h.LegalLetters) }, []string{"$", "x", "@", "y"}}, use{func() jargon.Filter { return sigil.NewFilter("@", func(string) bool { return true }) }, []string{"@", "1", "$", "x"}}, 1},
		{"two mapping filters", use{func() jargon.Filter {
			return mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+"1", true) })
		}, []string{"a", "b"}}, use{func() jargon.Filter {
			return mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return jargon.NewToken("2"+t.String(), false) }, func(t *jargon.Token) *jargon.Token { return t })
		}, []string{"a", "c"}}, 2},
		{"handles and hashtags", of("handles", "@", "user", "#", "tag"), of("hashtags", "#", "tag", "@", "user"), 1},
		{"two normal forms", of("nfc", "e\u0301", "é"), of("nfd", "é", "e\u0301"), 2},
		{"two compatibility forms", of("nfkc", "ﬁ", "e\u0301"), of("nfkd", "é", "ﬁ"), 1},
		{"two languages", of("stem", "running", "houses"), of("french", "chevaux", "running"), 1},
		{"contractions and stop words", of("contractions", "don't", "CAN'T"), of("stop", "the", "x", "B"), 1},
		{"folding and normalizing", of("ascii", "é", "x"), of("nfc", "e\u0301", "é"), 1},
		{"distinct and words", of("distinct", "a", "a", "."), of("words", "a", ".", "a"), 1},
		{"synonyms and handles", use{syn(map[string]string{"a b": "X"}, true, ' '), []string{"a", " ", "B"}}, of("handles", "@", "user", "x"), 1},
	}
	for _, p := range pairs {
		p := p
		out = append(out, scenario{name: p.name, pre: p.pre, threads: 2, make: func() []body {
			return []body{list(p.a.mk(), toks(p.a.in...)), list(p.b.mk(), toks(p.b.in...))}
		}})
		out = append(out, scenario{name: p.name + ", made by the threads", pre: pick(1, 2), threads: 2, make: func() []body {
			x, y := toks(p.a.in...), toks(p.b.in...)
			return []body{func() string { return see(p.a.mk()(h.StreamOf(x))) }, func() string { return see(p.b.mk()(h.StreamOf(y))) }}
		}})
	}
	// Longer streams
	for _, f := range h.Filters() {
		f := f
		ins, ok := inputs[f.Name]
		if !ok {
			continue
		}
		long := func(threads, n int) func() []body {
			return func() []body {
				g := f.New()
				if f.Kind == "synonyms" {
					g(h.StreamOf(nil))
				}
				var bs []body
				for i := 0; i < threads; i++ {
					var in []string
					for k := 0; k < n; k++ {
						in = append(in, ins[(k+i)%len(ins)][(k/2+i)%2]...)
					}
					bs = append(bs, list(g, toks(in...)))
				}
				return bs
			}
		}
		out = append(out, scenario{name: f.Name + ", longer", pre: 1, threads: 2, make: long(2, pick(8, 12))})
		out = append(out, scenario{name: f.Name + ", much longer", pre: 0, threads: 3, make: long(3, 100)})
	}
	none := func(s *jargon.TokenStream) *jargon.TokenStream { return s }
	out = append(out, scenario{name: "tokenizing", pre: pick(2, 3), threads: 2, make: func() []body {
		return []body{text(none, "a, b"), func() string { return see(jargon.Tokenize(strings.NewReader("x y."))) }}
	}})
	out = append(out, scenario{name: "tokenizing html", pre: pick(2, 2), threads: 2, make: func() []body {
		g := func(s string) body { return func() string { return see(jargon.TokenizeHTML(strings.NewReader(s))) } }
		return []body{g("<b>a</b>"), g("x<script>y</script>")}
	}})
	out = append(out, scenario{name: "tokenizing, first use", pre: 1, threads: 2, process: true, make: func() []body {
		return []body{text(none, "a "), func() string { return see(jargon.TokenizeHTML(strings.NewReader("<b>.x"))) }}
	}})
	out = append(out, scenario{name: "creating tokens", pre: pick(2, 3), threads: 3, make: func() []body {
		g := func(ss ...string) body {
			return func() string {
				var b strings.Builder
				for i, s := range ss {
					t := jargon.NewToken(s, i%2 == 1)
					fmt.Fprintf(&b, "%q %v %v %v\n", t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma())
				}
				return b.String()
			}
		}
		return []body{g(" ", ".", "x"), g(".", " "), g("x", "\n")}
	}})
	out = append(out, scenario{name: "a chain, first use", pre: pick(1, 2), threads: 2, make: func() []body {
		fs := []jargon.Filter{
			synonyms.NewFilter(map[string]string{"a b": "X"}, true, []rune{' '}), stopwords.NewFilter([]string{"the"}, true),
			mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return t }), sigil.NewFilter("$", h.LegalLetters),
		}
		g := func(ss ...string) body {
			return func() string { return see(h.StreamOf(toks(ss...)).Filter(fs...)) }
		}
		return []body{g("a", " ", "b", "the"), g("$", "ab")}
	}})
	return out
}

// ---- One execution

type outcome struct {
	trace vsched.Trace
	got   []string
	what  string // not empty: failed
}

func execute(sc *scenario, want []string, s vsched.Schedule) outcome {
	bs := sc.make()
	got := make([]string, len(bs))
	var fs []func()
	for i, b := range bs {
		i, b := i, b
		fs = append(fs, func() {
			defer func() {
				if x := recover(); x != nil {
					got[i] = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
				}
			}()
			got[i] = b()
		})
	}
	before := raceErrors()
	o := outcome{trace: vsched.Run(fs, s)}
	if o.trace.Deadlock {
		o.what = "deadlock: no thread can go on"
		return o
	}
	if o.trace.Endless {
		o.what = "a thread does not finish"
		return o
	}
	o.got = got
	for i := range got {
		if want != nil && got[i] != want[i] {
			o.what = fmt.Sprintf("thread %d gets\n%s\nalone it gets\n%s", i, got[i], want[i])
		}
	}
	if n := raceErrors(); o.what == "" && n > before {
		o.what = "data race (see the report on standard error)"
	}
	return o
}

// alone runs each thread without the others.
func alone(sc *scenario) []string {
	n := len(sc.make())
	out := make([]string, n)
	for i := range out {
		out[i] = sc.make()[i]()
	}
	return out
}

func orders(n int) [][vsched.MaxThreads]int {
	var out [][vsched.MaxThreads]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			var o [vsched.MaxThreads]int
			copy(o[:], p)
			out = append(out, o)
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, x := range p {
				if x == i {
					continue next
				}
			}
			rec(append(append([]int(nil), p...), i))
		}
	}
	rec(nil)
	return out
}

func encode(s vsched.Schedule, n int) []int32 {
	var out []int32
	for i := 0; i < n; i++ {
		out = append(out, int32(s.Order[i]))
	}
	for i := 0; i < s.N; i++ {
		out = append(out, int32(s.At[i]), int32(s.To[i]))
	}
	return out
}

func decode(c []int32, n int) vsched.Schedule {
	var s vsched.Schedule
	for i := 0; i < n; i++ {
		s.Order[i] = int(c[i])
	}
	for i := n; i+1 < len(c); i += 2 {
		s.At[s.N], s.To[s.N] = int(c[i]), int(c[i+1])
		s.N++
	}
	return s
}

func describe(s vsched.Schedule, n int) string {
	x := fmt.Sprintf("threads in order %v", s.Order[:n])
	for i := 0; i < s.N; i++ {
		x += fmt.Sprintf(", at point %d to thread %d", s.At[i], s.To[i])
	}
	return x
}

// ---- A shard: a process that explores a part of the schedules

type report struct {
	Scenario    string
	Executions  int64
	Transitions int64
	States      []uint64
	Outcomes    []uint64
	Samples     []string
	Complete    bool
	WallS       float64
	MaxPoints   int
	What        string
	Choices     []int32
	Input       string
	Replayed    string
}

// single is what a process for one execution reports.
type single struct {
	Points int
	Missed bool
	Cur    []byte
	Got    []string
	What   string
	Hashes []uint64
}

func runSingle(sc *scenario, s vsched.Schedule) single {
	o := execute(sc, nil, s)
	r := single{Points: o.trace.Points, Missed: o.trace.Missed, Got: o.got, What: o.what}
	if r.Points < 100000 {
		r.Cur = append([]byte(nil), vsched.Cur[:o.trace.Points]...)
	}
	r.Hashes = append(r.Hashes, o.trace.Hashes[:o.trace.NHash]...)
	return r
}

func spawnSingle(sc *scenario, s vsched.Schedule, tier string) (single, error) {
	var errs bytes.Buffer
	b, _ := json.Marshal(encode(s, sc.threads))
	cmd := exec.Command(os.Args[0], "C11")
	cmd.Env = append(os.Environ(), "MC_SINGLE="+sc.name, "MC_SCHEDULE="+string(b), "VERIF_TIER="+tier)
	cmd.Stderr = &errs
	out, err := cmd.Output()
	var r single
	if e := json.Unmarshal(out, &r); e != nil {
		if strings.Contains(errs.String(), "fatal error") || strings.Contains(errs.String(), "panic:") {
			r.What = "the process crashes: " + errs.String()
			return r, nil
		}
		return r, fmt.Errorf("%v: %s", err, errs.String())
	}
	if strings.Contains(r.What, "data race") {
		r.What += "\n" + errs.String()
	}
	return r, nil
}

func explore(sc *scenario, shard, shards int, tier string, deadline time.Time) (rep report) {
	t0 := time.Now()
	rep.Scenario, rep.Complete = sc.name, true
	states, outs := map[uint64]bool{}, map[uint64]bool{}
	want := alone(sc)
	stop := false
	run := func(s vsched.Schedule, mine bool) (points int, missed bool, cur []byte) {
		var got []string
		var hs []uint64
		what := ""
		if sc.process {
			r, err := spawnSingle(sc, s, tier)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			points, missed, cur, got, what, hs = r.Points, r.Missed, r.Cur, r.Got, r.What, r.Hashes
			for i := range got {
				if what == "" && got[i] != want[i] {
					what = fmt.Sprintf("thread %d gets\n%s\nalone it gets\n%s", i, got[i], want[i])
				}
			}
		} else {
			o := execute(sc, want, s)
			points, missed, got, what = o.trace.Points, o.trace.Missed, o.got, o.what
			hs = o.trace.Hashes[:o.trace.NHash]
		}
		if what != "" {
			stop = true
			rep.What, rep.Choices, rep.Input = what, encode(s, sc.threads), describe(s, sc.threads)
			return
		}
		if mine && !missed {
			rep.Executions++
			rep.Transitions += int64(points)
			for _, x := range hs {
				states[x] = true
			}
			outs[core.Hash(got...)] = true
			if points > rep.MaxPoints {
				rep.MaxPoints = points
			}
			if rep.Executions&(rep.Executions-1) == 0 && len(rep.Samples) < 3 {
				rep.Samples = append(rep.Samples, fmt.Sprintf("%s (%d points)", describe(s, sc.threads), points))
			}
		}
		return
	}
	var rec func(s vsched.Schedule, mine bool)
	rec = func(s vsched.Schedule, mine bool) {
		if stop {
			return
		}
		if time.Now().After(deadline) {
			rep.Complete = false
			stop = true
			return
		}
		points, missed, cur := run(s, mine)
		if stop || missed || s.N >= sc.pre {
			return
		}
		if cur == nil {
			cur = append([]byte(nil), vsched.Cur[:points]...)
		}
		first := 0
		if s.N > 0 {
			first = s.At[s.N-1] + 1
		}
		for p := first; p < points; p++ {
			own := mine
			if s.N == 0 {
				own = p%shards == shard
			}
			if !own {
				continue
			}
			for to := 0; to < sc.threads; to++ {
				if int(cur[p]) == to {
					continue
				}
				n := s
				n.At[n.N], n.To[n.N] = p, to
				n.N++
				rec(n, true)
				if stop {
					return
				}
			}
		}
	}
	for _, o := range orders(sc.threads) {
		var s vsched.Schedule
		s.Order = o
		rec(s, shard == 0)
	}
	for k := range states {
		rep.States = append(rep.States, k)
	}
	for k := range outs {
		rep.Outcomes = append(rep.Outcomes, k)
	}
	rep.WallS = time.Since(t0).Seconds()
	return rep
}

func find(scs []scenario, name string) *scenario {
	for i := range scs {
		if scs[i].name == name {
			return &scs[i]
		}
	}
	fmt.Fprintln(os.Stderr, "no scenario", name)
	os.Exit(2)
	return nil
}

func main() {
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if n := os.Getenv("MC_SINGLE"); n != "" {
		runtime.GOMAXPROCS(1)
		var c []int32
		json.Unmarshal([]byte(os.Getenv("MC_SCHEDULE")), &c)
		sc := find(scenarios(thorough), n)
		b, _ := json.Marshal(runSingle(sc, decode(c, sc.threads)))
		os.Stdout.Write(b)
		os.Exit(0)
	}
	if sh := os.Getenv("MC_SHARD"); sh != "" {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(400)
		var shard, shards int
		fmt.Sscanf(sh, "%d/%d", &shard, &shards)
		end, _ := strconv.ParseInt(os.Getenv("MC_DEADLINE"), 10, 64)
		tier := os.Getenv("VERIF_TIER")
		enc := json.NewEncoder(os.Stdout)
		for _, sc := range scenarios(thorough) {
			if o := os.Getenv("MC_ONLY"); o != "" && !strings.Contains(sc.name, o) {
				continue
			}
			sc := sc
			rep := explore(&sc, shard, shards, tier, time.Unix(end, 0))
			enc.Encode(rep)
			if rep.What != "" {
				break
			}
		}
		os.Exit(0)
	}
	core.Main(map[string]func(*core.Run){"C11": c11})
}

func c11(r *core.Run) {
	r.Concurrent = true
	r.Extra["race_detector"] = withRace
	scs := scenarios(r.Thorough())
	if name, choices, ok := r.Replaying(); ok {
		runtime.GOMAXPROCS(1)
		sc := find(scs, name)
		s := decode(choices, sc.threads)
		fmt.Println("replay:", name, "-", describe(s, sc.threads))
		what := ""
		if sc.process {
			one, err := spawnSingle(sc, s, r.Tier)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			what = one.What
			if what == "" {
				for i, g := range one.Got {
					fmt.Printf("thread %d gets\n%s", i, g)
				}
			}
		} else {
			what = execute(sc, alone(sc), s).what
		}
		if what != "" {
			fmt.Println("FAILS:", what)
			os.Exit(1)
		}
		fmt.Println("passes")
		os.Exit(0)
	}
	if b, err := os.ReadFile(filepath.Join(r.Root, "build", "ov", "odd.txt")); err == nil && len(b) > 0 || os.Getenv("MC_FREE") != "" {
		r.Extra["not_controlled"] = string(b)
		free(r, scs)
		return
	}
	shards := runtime.NumCPU()
	end := r.Deadline().Add(-20 * time.Second)
	type res struct {
		reps []report
		err  error
		errs string
	}
	all := make([]res, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "C11")
			cmd.Env = append(os.Environ(), fmt.Sprintf("MC_SHARD=%d/%d", i, shards), fmt.Sprintf("MC_DEADLINE=%d", end.Unix()),
				"GORACE=atexit_sleep_ms=0 history_size=3")
			var errs bytes.Buffer
			cmd.Stderr = &errs
			out, err := cmd.Output()
			all[i].err, all[i].errs = err, errs.String()
			dec := json.NewDecoder(bytes.NewReader(out))
			for {
				var rep report
				if dec.Decode(&rep) != nil {
					break
				}
				all[i].reps = append(all[i].reps, rep)
			}
		}(i)
	}
	wg.Wait()
	byName := map[string]*core.Space{}
	for _, sc := range scs {
		sp := &core.Space{Name: sc.name, Exhaustive: true, Bound: fmt.Sprintf("%d threads, all schedules with at most %d preemptions, between any two statements", sc.threads, sc.pre)}
		if sc.process {
			sp.Bound += ", each in a new process"
		}
		var st, ou []uint64
		var sa []string
		found := false
		for i := range all {
			for _, rep := range all[i].reps {
				if rep.Scenario != sc.name {
					continue
				}
				found = true
				sp.Executions += rep.Executions
				sp.Transitions += rep.Transitions
				st, ou = append(st, rep.States...), append(ou, rep.Outcomes...)
				if len(sa) < 2 {
					sa = append(sa, rep.Samples...)
				}
				sp.Exhaustive = sp.Exhaustive && rep.Complete
				if rep.WallS > sp.WallS {
					sp.WallS = rep.WallS
				}
				if rep.MaxPoints > sp.MaxDepth {
					sp.MaxDepth = rep.MaxPoints
				}
				if rep.What != "" {
					what := rep.What
					if strings.Contains(what, "data race") && !sc.process {
						what += "\n" + all[i].errs
					}
					r.ViolateAt(sc.name, rep.Input, what, rep.Choices, "")
				}
			}
		}
		if found {
			byName[sc.name] = sp
			r.Add(sp, st, ou, sa)
		}
	}
	if r.Stopped() {
		return
	}
	for i := range all {
		if all[i].err != nil || len(byName) == 0 {
			if strings.Contains(all[i].errs, "fatal error: ") || strings.Contains(all[i].errs, "panic: ") {
				r.Violate("crash", fmt.Sprint("shard ", i), "the process crashes: "+clip(all[i].errs))
				return
			}
			fmt.Fprintf(os.Stderr, "shard %d: %v %s\n", i, all[i].err, clip(all[i].errs))
			os.Exit(2)
		}
	}
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000]
	}
	return s
}

// free is used when the code under test has constructs which the scheduler does not control (goroutines and channels of
// its own): the threads of each scenario then run freely, several times, under the race detector only.
func free(r *core.Run, scs []scenario) {
	sort.SliceStable(scs, func(i, j int) bool { return scs[i].name < scs[j].name })
	for _, sc := range scs {
		sc := sc
		r.ExploreSerial(sc.name, "all threads at once, without control of the schedule, 50 times", func(c *core.Ctx) {
			k := c.Choose(50)
			c.Describe(func() string { return fmt.Sprintf("%s, round %d", sc.name, k) })
			want := alone(&sc)
			before := raceErrors()
			bs := sc.make()
			got := make([]string, len(bs))
			var wg sync.WaitGroup
			for i := range bs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							got[i] = fmt.Sprint("panic: ", x)
						}
					}()
					got[i] = bs[i]()
				}(i)
			}
			wg.Wait()
			c.Trans(len(bs))
			c.Outcome(core.Hash(got...))
			for i := range got {
				if got[i] != want[i] {
					c.Failf("thread %d gets\n%s\nalone it gets\n%s", i, got[i], want[i])
				}
			}
			if raceErrors() > before {
				c.Failf("data race")
			}
		})
	}
}
