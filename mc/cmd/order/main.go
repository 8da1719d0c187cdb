// Command order checks that output is determined by configuration and input alone (C30). It is built, like the programs it
// runs, with a runtime in which the environment variable JARGON_MC_ORDER decides where the iteration over a map starts (see
// cmd/maporder). Eight processes, one for each start within a map of up to eight entries, go through the same cases, each in
// its own order and environment, and have to agree; so do, in each process, the cases that are equal up to the order in which
// the entries were put into the caller's map.
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

const workers = 8

// environment of worker k
func environment(k int) []string {
	tz := []string{"UTC", "Asia/Tokyo", "America/New_York", ""}
	lang := []string{"C", "tr_TR.UTF-8", "de_DE.UTF-8", "el_GR", "", "lt_LT.UTF-8", "en_US.UTF-8", "ja_JP.SJIS"}
	env := []string{"JARGON_MC_ORDER=" + strconv.Itoa(k), "TZ=" + tz[k%4], "LANG=" + lang[k], "LC_ALL=" + lang[k], "GOMAXPROCS=" + strconv.Itoa(k%3+1), "PATH=/usr/bin:/bin"}
	// Variables that the code seems to know
	for _, s := range core.GetNovel().Strings {
		if variable.MatchString(s) && k > 0 && s != "PATH" && s != "PORT" && !strings.HasPrefix(s, "GO") {
			env = append(env, s+"="+[]string{"", "1", "0", "/tmp", "french", "a=b", "-1", "x"}[k])
		}
	}
	return env
}

var variable = regexp.MustCompile("^[A-Z][A-Z0-9_]{2,}$")

// tcase is a case: all its outcomes have to be equal, and the same in every process.
type tcase struct {
	name string
	run  func() []string
}

type space struct {
	name, bound string
	each        func(thorough bool, yield func(tcase))
}

func outcome(s *jargon.TokenStream) string {
	var b strings.Builder
	n := 0
	for s.Scan() && n < 200000 {
		t := s.Token()
		fmt.Fprintf(&b, "%q", t.String())
		if t.IsLemma() {
			b.WriteByte('L')
		}
		if t.IsPunct() {
			b.WriteByte('p')
		}
		if t.IsSpace() {
			b.WriteByte('s')
		}
		b.WriteByte(' ')
		n++
	}
	if s.Err() != nil {
		b.WriteString("error")
	}
	return b.String()
}

func safely(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("panic: ", e)
		}
	}()
	return f()
}

// subsets calls f with all subsets of at most max of n.
func subsets(n, max int, f func([]int)) {
	var rec func(from int, have []int)
	rec = func(from int, have []int) {
		if len(have) > 0 {
			f(append([]int(nil), have...))
		}
		if len(have) == max {
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(have, i))
		}
	}
	rec(0, nil)
}

// permutations calls f with all permutations of xs.
func permutations(xs []int, f func([]int)) {
	var rec func(k int)
	rec = func(k int) {
		if k == len(xs) {
			f(append([]int(nil), xs...))
			return
		}
		for i := k; i < len(xs); i++ {
			xs[k], xs[i] = xs[i], xs[k]
			rec(k + 1)
			xs[k], xs[i] = xs[i], xs[k]
		}
	}
	rec(0)
}

var texts = []string{
	"Don't résumé Ruby on Rails; rails café, isn't running the the #1 manager's Node.js and nodejs, @user Änderung C# & managers don’t I'll we've he'd y'all ain't it's can't won't shan't",
	"LeBron James and lebron james, Anthony Davis; ASP.NET asp.net mvc 5, visual c++ .net core; vc++.net the user THE USER a b A-B ab Ab",
	"#golang ## #go #GO @a @ab @_ x@y #1 #1a ＃x $usd $$ $x1 ﬁ ½ Å Å İ ı ſ K ß ẞ running runs ran courons cabalgando",
	"<p class=\"c\">Don't &amp; isn't <b>rails</b><script>if (a < b) {}</script><!-- c --><style>p{}</style></p>",
	"a\xffb \xe2\x80 don't\x00 \u0301 e\u0301 \r\n\r\n\t--- ... don'T DON'T Don’t",
}

func spaces() []space {
	dict := func(name, bound string, pool func() []string, max func(bool) int) space {
		return space{name, bound, func(thorough bool, yield func(tcase)) {
			terms := pool()
			text := strings.Join(terms, " . ") + " , " + strings.Join(terms, " ")
			for _, ic := range []bool{true, false} {
				for _, ig := range [][]rune{nil, {'-'}, {' ', '-'}, {' ', '-', '.', '/'}} {
					subsets(len(terms), max(thorough), func(set []int) {
						for _, values := range []func(int) string{func(i int) string { return "v" + strconv.Itoa(i) }, func(i int) string { return "w" + strconv.Itoa(i%2) }, func(i int) string { return terms[(i+1)%len(terms)] }} {
							values := values
							yield(tcase{fmt.Sprintf("terms %q, ignore case %v, ignore %q", pick(terms, set), ic, ig), func() (out []string) {
								permutations(append([]int(nil), set...), func(p []int) {
									m := map[string]string{}
									for _, i := range p {
										m[terms[i]] = values(i)
									}
									f := synonyms.NewFilter(m, ic, ig)
									out = append(out, safely(func() string { return outcome(jargon.TokenizeString(text).Filter(f)) }))
								})
								return
							}})
						}
					})
				}
			}
		}}
	}
	all := func() []h.F { return h.Filters() }
	return []space{
		dict("mappings", "all sets of up to 4 (5) of the terms, some equal but for case or ignored characters, times 2 case settings times 4 sets of ignored characters times 3 ways of giving values, put into the map in every order, iterated from every start",
			func() []string {
				return core.Atoms([]string{"a b", "A b", "a-b", "ab", "A B", "a", "A", "b", "a b c", "-", "k", "\u212a"}, 3)
			},
			func(th bool) int {
				if th {
					return 5
				}
				return 4
			}),
		dict("mappings: lists", "all sets of up to 4 (5) lists of terms that have terms in common, times the same",
			func() []string {
				return core.Atoms([]string{"a, b", "b, c", "A, c", "c,a", "B", "a b, a", "a/b", ",", " a", "a "}, 3)
			},
			func(th bool) int {
				if th {
					return 5
				}
				return 4
			}),
		{"larger mappings", "mappings of 5 to 40 terms which are equal to each other in groups of 2 to 8, put into the map forwards, backwards and from the middle", func(th bool, yield func(tcase)) {
			for n := 5; n <= 40; n++ {
				for g := 2; g <= 8; g++ {
					n, g := n, g
					yield(tcase{fmt.Sprintf("%d terms in groups of %d", n, g), func() (out []string) {
						for way := 0; way < 3; way++ {
							m := map[string]string{}
							var text strings.Builder
							for i := 0; i < n; i++ {
								j := i
								if way == 1 {
									j = n - 1 - i
								} else if way == 2 {
									j = (i + n/2) % n
								}
								m["word"+strconv.Itoa(j/g)+strings.Repeat("-", j%g)] = "v" + strconv.Itoa(j)
								fmt.Fprintf(&text, "word%d ", i)
							}
							f := synonyms.NewFilter(m, true, []rune{'-'})
							out = append(out, safely(func() string { return outcome(jargon.TokenizeString(text.String()).Filter(f)) }))
						}
						return
					}})
				}
			}
		}},
		{"filters", "every bundled filter, built anew where there is a builder, and every pair of them, on " + strconv.Itoa(len(texts)) + " texts and novel words, as plain text and HTML", func(th bool, yield func(tcase)) {
			fs := all()
			ts := core.Atoms(texts, 6)
			for _, t := range ts {
				for _, html := range []bool{false, true} {
					for i := -1; i < len(fs); i++ {
						for j := -1; j < len(fs); j++ {
							if i < 0 && j >= 0 {
								continue
							}
							t, html, i, j := t, html, i, j
							name := "text " + h.Clip(t)
							if i >= 0 {
								name += " " + fs[i].Name
							}
							if j >= 0 {
								name += " " + fs[j].Name
							}
							yield(tcase{name, func() []string {
								var out []string
								for n := 0; n < 2; n++ {
									out = append(out, safely(func() string {
										s := jargon.TokenizeString(t)
										if html {
											s = jargon.TokenizeHTML(strings.NewReader(t))
										}
										if i >= 0 {
											s = s.Filter(fs[i].New())
										}
										if j >= 0 {
											s = s.Filter(fs[j].New())
										}
										return outcome(s)
									}))
								}
								return out
							}})
						}
					}
				}
			}
		}},
		{"words", "every term of the contractions, stack and nba dictionaries, every word and pair of words of it, and every word of the texts, through every bundled filter", func(th bool, yield func(tcase)) {
			var words []string
			seen := map[string]bool{}
			add := func(s string) {
				if !seen[s] && s != "" {
					seen[s] = true
					words = append(words, s)
				}
			}
			for _, t := range texts {
				for _, w := range strings.Fields(t) {
					add(w)
				}
			}
			for _, w := range ref.ContractionWords() {
				add(w)
				add(strings.ToUpper(w))
				add(strings.Replace(w, "'", "’", -1))
			}
			for _, w := range ref.ContractionWords() {
				for i := 1; i < len(w); i++ {
					add(w[:i] + strings.ToUpper(w[i:]))
				}
			}
			for _, w := range ref.Terms() {
				add(w)
			}
			for _, w := range ref.Terms() {
				parts := strings.FieldsFunc(w, func(r rune) bool { return strings.ContainsRune(" ,-./'", r) })
				for i, p := range parts {
					add(p)
					if i > 0 {
						add(parts[i-1] + " " + p)
					}
				}
			}
			for _, f := range all() {
				for i := 0; i < len(words); i += 40 {
					f := f
					part := words[i:]
					if len(part) > 40 {
						part = part[:40]
					}
					yield(tcase{f.Name + " " + h.Clip(strings.Join(part, " ")), func() []string {
						return []string{safely(func() string { return outcome(jargon.TokenizeString(strings.Join(part, " ; ")).Filter(f.New())) })}
					}})
				}
			}
		}},
		{"stop words", "all sets of up to 4 (5) stop words, some equal but for case, in every order, times 2 case settings", func(th bool, yield func(tcase)) {
			pool := core.Atoms([]string{"a", "A", "b", "ß", "SS", "k", "\u212a", " ", "."}, 3)
			max := 4
			if th {
				max = 5
			}
			text := strings.Join(pool, " , ") + " c. C"
			for _, ic := range []bool{true, false} {
				ic := ic
				subsets(len(pool), max, func(set []int) {
					yield(tcase{fmt.Sprintf("stop words %q, ignore case %v", pick(pool, set), ic), func() (out []string) {
						permutations(append([]int(nil), set...), func(p []int) {
							f := stopwords.NewFilter(pick(pool, p), ic)
							out = append(out, safely(func() string { return outcome(jargon.TokenizeString(text).Filter(f)) }))
						})
						return
					}})
				})
			}
		}},
	}
}

func pick(xs []string, is []int) (out []string) {
	for _, i := range is {
		out = append(out, xs[i])
	}
	return
}

// ---- A worker

const block = 256

func digest(out []string) uint64 {
	for _, o := range out[1:] {
		if o != out[0] {
			return 1 // differs within the process
		}
	}
	return core.Hash(out[0]) | 2
}

func worker(args []string) {
	k, _ := strconv.Atoi(args[0])
	which, _ := strconv.Atoi(args[1])
	thorough := args[2] == "thorough"
	sp := spaces()[which]
	if len(args) > 3 {
		show, _ := strconv.Atoi(args[3])
		n := 0
		sp.each(thorough, func(t tcase) {
			if n == show {
				fmt.Printf("%s\n", t.name)
				for _, o := range t.run() {
					fmt.Printf("%s\n", o)
				}
			}
			n++
		})
		return
	}
	w := bufio.NewWriterSize(os.Stdout, 8*block)
	var cases []tcase
	flush := func() {
		sums := make([]byte, 8*len(cases))
		for i := range cases {
			j := i
			if k%2 == 1 {
				j = len(cases) - 1 - i
			} else if k%4 == 2 {
				j = (i + len(cases)/2) % len(cases)
			}
			binary.LittleEndian.PutUint64(sums[8*j:], digest(cases[j].run()))
		}
		w.Write(sums)
		w.Flush()
		cases = cases[:0]
	}
	sp.each(thorough, func(t tcase) {
		cases = append(cases, t)
		if len(cases) == block {
			flush()
		}
	})
	flush()
}

// ---- The check

type proc struct {
	cmd  *exec.Cmd
	out  *bufio.Reader
	errs strings.Builder
}

func startWorker(r *core.Run, k, which int, more ...string) *proc {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p := &proc{cmd: exec.Command(self, append([]string{"worker", strconv.Itoa(k), strconv.Itoa(which), r.Tier}, more...)...)}
	p.cmd.Env = append(environment(k), "VERIF_ROOT="+os.Getenv("VERIF_ROOT"), "VERIF_REPO="+os.Getenv("VERIF_REPO"))
	p.cmd.Dir = r.Tmp()
	if x := os.Getenv("MC_NOVEL"); x != "" {
		p.cmd.Env = append(p.cmd.Env, "MC_NOVEL="+x)
	}
	p.cmd.Stderr = &p.errs
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(o, 8*block)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	r.Note(p.cmd.Process.Pid)
	return p
}

// show runs one case in every process; what is a difference, or empty.
func show(r *core.Run, which, i int) (name, what string) {
	first, from := "", 0
	for k := 0; k < workers; k++ {
		p := startWorker(r, k, which, strconv.Itoa(i))
		t := time.AfterFunc(60*time.Second, func() { p.cmd.Process.Kill() })
		b, _ := io.ReadAll(p.out)
		err := p.cmd.Wait()
		t.Stop()
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if err != nil || len(lines) < 2 {
			return name, fmt.Sprintf("process %d: %v %s", k, err, h.Clip(p.errs.String()))
		}
		name = lines[0]
		for n, l := range lines[1:] {
			if first == "" {
				first = l
			}
			if l != first && what == "" {
				j := 0
				for j < len(l) && j < len(first) && l[j] == first[j] {
					j++
				}
				if j > 40 {
					j -= 40
				} else {
					j = 0
				}
				what = fmt.Sprintf("process %d, order %d: ...%s, but process %d: ...%s", k, n, clip(l[j:]), from, clip(first[j:]))
			}
		}
	}
	return name, what
}

func clip(s string) string {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func compare(r *core.Run, which int, sp space) {
	if r.Stopped() {
		return
	}
	t0 := time.Now()
	var ps []*proc
	for k := 0; k < workers; k++ {
		ps = append(ps, startWorker(r, k, which))
	}
	defer func() {
		for _, p := range ps {
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}()
	cs := &core.Space{Name: sp.name, Bound: sp.bound, Exhaustive: true}
	var states, outcomes []uint64
	var samples []string
	progress := time.AfterFunc(120*time.Second, func() {
		for _, p := range ps {
			p.cmd.Process.Kill()
		}
	})
	defer progress.Stop()
	n, bad := 0, -1
	i := 0
	fatal := ""
	sp.each(r.Thorough(), func(t tcase) {
		if bad >= 0 || fatal != "" {
			return
		}
		if n&1023 == 0 {
			if time.Now().After(r.Deadline()) {
				cs.Exhaustive = false
				return
			}
			progress.Reset(120 * time.Second)
		}
		if !cs.Exhaustive {
			return
		}
		i = n
		n++
		var first uint64
		for k, p := range ps {
			var b [8]byte
			if _, err := io.ReadFull(p.out, b[:]); err != nil {
				p.cmd.Process.Kill()
				p.cmd.Wait()
				fatal = fmt.Sprintf("process %d ends near case %q: %s", k, t.name, h.Clip(p.errs.String()))
				return
			}
			x := binary.LittleEndian.Uint64(b[:])
			if k == 0 {
				first = x
			}
			if x == 1 || x != first {
				bad = i
			}
		}
		cs.Executions += workers
		cs.Transitions += workers
		states = append(states, core.HashInt(core.Hash(t.name), n))
		outcomes = append(outcomes, first)
		if n&(n-1) == 0 && len(samples) < 4 {
			samples = append(samples, h.Clip(t.name))
		}
	})
	cs.MaxDepth = 1
	cs.WallS = time.Since(t0).Seconds()
	if bad >= 0 {
		name, what := show(r, which, bad)
		rep := "again in 1 of 1 replays"
		if what == "" {
			what, rep = "the processes disagree", "not in a replay of the case alone"
		}
		r.ViolateAt(sp.name, name, what, []int32{int32(bad)}, rep)
	} else if fatal != "" {
		if strings.Contains(fatal, "fatal error: ") || strings.Contains(fatal, "goroutine ") {
			r.Violate(sp.name, "", fatal)
		} else {
			fmt.Fprintln(os.Stderr, fatal)
			os.Exit(2)
		}
	}
	r.Add(cs, states, outcomes, samples)
}

func c30(r *core.Run) {
	r.Assumptions = []string{
		"the iteration over a map of up to 8 entries is enumerated completely: every start, and for the mappings given by the caller every order of insertion; over larger maps, eight starts per process",
		"the random choice of the select statement is not controlled (the library does not use it)",
	}
	r.Concurrent = true
	if space, choices, ok := r.Replaying(); ok {
		for i, sp := range spaces() {
			if sp.name == space && len(choices) == 1 {
				name, what := show(r, i, int(choices[0]))
				fmt.Printf("replay C30/%s: %s\n", space, name)
				if what != "" {
					fmt.Println("FAILS:", what)
					os.Exit(1)
				}
				fmt.Println("passes")
				os.Exit(0)
			}
		}
	}
	for i, sp := range spaces() {
		compare(r, i, sp)
	}
	programs(r)
	services(r)
}

func main() {
	if len(os.Args) > 4 && os.Args[1] == "worker" {
		worker(os.Args[2:])
		return
	}
	core.Main(map[string]func(*core.Run){"C30": c30})
}
