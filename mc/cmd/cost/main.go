// Command cost checks that work grows in proportion to the input (C33), by counting the statements that copies of the
// packages execute, the bytes they allocate, and the time of the processor.
package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/vcount"
)

func main() {
	core.Main(map[string]func(*core.Run){"C33": c33})
}

type cost struct {
	steps, bytes int64
	time         time.Duration
}

func now(mem bool) (x cost) {
	if mem {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		x.bytes = int64(m.TotalAlloc)
	}
	x.steps = vcount.Count()
	var u syscall.Rusage
	syscall.Getrusage(1, &u) // RUSAGE_THREAD
	x.time = time.Duration(u.Utime.Nano() + u.Stime.Nano())
	return x
}

func (a cost) minus(b cost) cost { return cost{a.steps - b.steps, a.bytes - b.bytes, a.time - b.time} }

func measure(f func()) cost {
	a := now(true)
	f()
	return now(true).minus(a)
}

const (
	units      = 256     // to start with
	enough     = 1 << 20 // bytes of text that show how it goes on
	slackSteps = 4000
	slackBytes = 100000
)

// proportional checks the cost of n units, given what makes and does them; size is the length of n units.
func proportional(c *core.Ctx, mk func(n int) (do func(), size int)) {
	at := func(n int) (cost, int) {
		do, size := mk(n)
		return measure(do), size
	}
	n := units
	a, _ := at(n)
	b, size := at(4 * n)
	c.Trans(5 * n)
	c.Outcome(core.HashInt(7, int(b.steps>>6), int(b.bytes>>10)))
	c.Step(core.HashInt(5, int(a.steps), int(b.steps)))
	what := excess(a, b)
	history := []string{fmt.Sprintf("%d: %d statements, %d bytes", n, a.steps, a.bytes), fmt.Sprintf("%d: %d statements, %d bytes", 4*n, b.steps, b.bytes)}
	for what != "" && size < enough {
		n *= 4
		t0 := time.Now()
		a = b
		b, size = at(4 * n)
		history = append(history, fmt.Sprintf("%d: %d statements, %d bytes", 4*n, b.steps, b.bytes))
		what = excess(a, b)
		if time.Since(t0) > 8*time.Second {
			break
		}
	}
	if what != "" {
		c.Failf("four times the input needs %s: %s", what, strings.Join(history, "; "))
	}
}

func excess(a, b cost) string {
	if b.steps > 6*a.steps+slackSteps {
		return fmt.Sprintf("%.1f times the statements", float64(b.steps)/float64(a.steps+1))
	}
	if b.bytes > 6*a.bytes+slackBytes {
		return fmt.Sprintf("%.1f times the memory", float64(b.bytes)/float64(a.bytes+1))
	}
	return ""
}

var consumers = []struct {
	name string
	do   func(*jargon.TokenStream)
}{
	{"Next", func(s *jargon.TokenStream) {
		for {
			if t, err := s.Next(); t == nil || err != nil {
				return
			}
		}
	}},
	{"Scan", func(s *jargon.TokenStream) {
		for s.Scan() {
			s.Token()
		}
		s.Err()
	}},
	{"ToSlice", func(s *jargon.TokenStream) { s.ToSlice() }},
	{"String", func(s *jargon.TokenStream) { s.String() }},
	{"Count", func(s *jargon.TokenStream) { s.Count() }},
	{"WriteTo", func(s *jargon.TokenStream) { s.WriteTo(io.Discard) }},
	{"WriteTo a buffer", func(s *jargon.TokenStream) { s.WriteTo(&bytes.Buffer{}) }},
	{"Where", func(s *jargon.TokenStream) {
		s.Where(func(t *jargon.Token) bool { return !t.IsSpace() }).Count()
	}},
	{"Words, ToSlice", func(s *jargon.TokenStream) { s.Words().ToSlice() }},
	{"Distinct, Lemmas, Count", func(s *jargon.TokenStream) { s.Distinct().Lemmas().Count() }},
	{"collected twice", func(s *jargon.TokenStream) { s.ToSlice(); s.ToSlice() }},
	{"Next after the end", func(s *jargon.TokenStream) {
		for i := 0; ; i++ {
			if t, err := s.Next(); t == nil || err != nil {
				for ; i >= 0; i-- {
					s.Next()
				}
				return
			}
		}
	}},
}

// repeated makes a text of n units; each with a number of its own if distinct.
func repeated(n int, unit string, distinct bool) string {
	if !distinct {
		return strings.Repeat(unit, n)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if k := strings.LastIndexAny(unit, " \n.,>"); k > 0 {
			b.WriteString(unit[:k])
			fmt.Fprint(&b, i, unit[k:])
		} else {
			b.WriteString(unit)
			fmt.Fprint(&b, i, " ")
		}
	}
	return b.String()
}

func c33(r *core.Run) {
	debug.SetGCPercent(400)
	vcount.Start()
	counting := vcount.Count()
	jargon.TokenizeString("a").Count()
	r.Extra["statements_counted"] = vcount.Count() > counting
	fs := h.Filters()
	alphabet := []h.Pair{h.P("a", false), h.P("B", false), h.P(" ", false), h.P(".", false), h.P("@", false), h.P("$", false), h.P("user", false), h.P("the", false), h.P("don't", false), h.P("dOn’t", false), h.P("Café", false), h.P("running", false), h.P("ruby", false), h.P("on", false), h.P("-", false), h.P("b", true), h.P("\n", false), h.P("c", false), h.P("Node", false), h.P("js", false), h.P("\u00a0", false)}
	prime := func(f jargon.Filter) {
		ts, _ := h.Split(alphabet)
		f(h.StreamOf(ts)).Count()
	}
	stream := func(ts []*jargon.Token) *jargon.TokenStream {
		i := 0
		return jargon.NewTokenStream(func() (*jargon.Token, error) {
			if i >= len(ts) {
				return nil, nil
			}
			i++
			return ts[i-1], nil
		})
	}
	tokens := func(n int, unit []h.Pair, distinct bool) (ts []*jargon.Token) {
		us, _ := h.Split(unit)
		for i := 0; i < n; i++ {
			ts = append(ts, us...)
			if distinct {
				ts = append(ts, jargon.NewToken(fmt.Sprint("w", i), i%2 == 0))
			}
		}
		return ts
	}
	deep := r.Pick(2, 3)
	r.ExploreSerial("tokens", fmt.Sprintf("%d filters on all sequences of 1 to %d of %d tokens, repeated %d and %d times (further, if that is more than proportional), also with a new token in between, or all but the last only once", len(fs), deep, len(alphabet), units, 4*units), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		distinct := c.Bool()
		unit := h.Seq(c, 1+c.Choose(deep), alphabet)
		var front []h.Pair
		if k := len(unit); k > 1 && !distinct && c.Bool() {
			front, unit = unit[:k-1], unit[k-1:]
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s on %v and repetitions of %v, distinct %v", f.Name, front, unit, distinct)
		})
		c.Chosen()
		g := f.New()
		prime(g)
		proportional(c, func(n int) (func(), int) {
			ts := append(tokens(1, front, false), tokens(n, unit, distinct)...)
			return func() { consumers[0].do(g(stream(ts))) }, 4 * len(ts)
		})
	})
	r.ExploreSerial("pairs of filters", fmt.Sprintf("all pairs of %d filters on one pattern of tokens", len(fs)), func(c *core.Ctx) {
		f, g := fs[c.Choose(len(fs))], fs[c.Choose(len(fs))]
		c.Describe(func() string { return fmt.Sprintf("%s, %s", f.Name, g.Name) })
		c.Chosen()
		a, b := f.New(), g.New()
		prime(a)
		prime(b)
		proportional(c, func(n int) (func(), int) {
			ts := tokens(n/4, alphabet, true)
			return func() { consumers[0].do(stream(ts).Filter(a, b)) }, 4 * len(ts)
		})
	})
	some := append(h.Some("ascii", "contractions", "synonyms", "handles", "stem", "stop", "distinct", "words"), h.F{Name: "none", New: func() jargon.Filter { return func(s *jargon.TokenStream) *jargon.TokenStream { return s } }})
	r.ExploreSerial("consumers", fmt.Sprintf("%d ways of consuming × %d filters × %d tokens and all of them", len(consumers), len(some), len(alphabet)), func(c *core.Ctx) {
		how := consumers[c.Choose(len(consumers))]
		f := some[c.Choose(len(some))]
		distinct := c.Bool()
		k := c.Choose(len(alphabet) + 1)
		unit := alphabet
		if k < len(alphabet) {
			unit = alphabet[k : k+1]
		}
		c.Describe(func() string { return fmt.Sprintf("%s, %s of %v, distinct %v", f.Name, how.name, unit, distinct) })
		c.Chosen()
		g := f.New()
		prime(g)
		proportional(c, func(n int) (func(), int) {
			ts := tokens(n, unit, distinct)
			return func() { how.do(g(stream(ts))) }, 4 * len(ts)
		})
	})
	// Texts
	readers := []struct {
		name string
		mk   func(s string) *jargon.TokenStream
	}{
		{"TokenizeString", jargon.TokenizeString},
		{"Tokenize in pieces of 7", func(s string) *jargon.TokenStream { return jargon.Tokenize(&pieces{s, 7}) }},
		{"TokenizeHTML", func(s string) *jargon.TokenStream { return jargon.TokenizeHTML(strings.NewReader(s)) }},
		{"TokenizeHTML in pieces of 7", func(s string) *jargon.TokenStream { return jargon.TokenizeHTML(&pieces{s, 7}) }},
	}
	atoms := core.Atoms([]string{"a ", "word, ", "a.b ", "3,4 ", "don't ", "é ", "e\u0301 ", "\u0301", "'", ".", " ", "\n", "\r\n", "日本", "カタ", "👩\u200d", "🇫🇷", "\u200d", "_", "@", "\xff", "\x00", "x", "ab-cd "}, 6)
	r.ExploreSerial("texts", fmt.Sprintf("%d readers on all texts of 1 or 2 of %d atoms, repeated, also with numbers", len(readers), len(atoms)), func(c *core.Ctx) {
		rd := readers[c.Choose(len(readers))]
		distinct := c.Bool()
		unit := h.Text(c, 1+c.Choose(2), atoms)
		c.Describe(func() string { return fmt.Sprintf("%s of %q, distinct %v", rd.name, unit, distinct) })
		c.Chosen()
		proportional(c, func(n int) (func(), int) {
			text := repeated(n, unit, distinct)
			return func() { consumers[0].do(rd.mk(text)) }, len(text)
		})
	})
	tags := core.Atoms([]string{"<b>", "</b>", "<br/>", "<", "</", "<!", "<!-- x -->", "<!--", "-->", "-", "<?", "<![CDATA[", "]]>", "<script>", "</script>", "</scrip", "<style>", "<title>", "<textarea>", "</textarea>", "<plaintext>", "<a href='x'>", "x=1 ", "x ", "'", "\"", "=", ">", "/", "&amp;", "&", "&#", "<p ", "text ", "\n", "é", "<svg>"}, 4)
	fronts := []string{"", "<p ", "<p x='", "<!--", "<script>", "<title>", "</", "<"}
	r.ExploreSerial("documents", fmt.Sprintf("HTML: all texts of 1 or 2 of %d fragments, repeated, after one of %d beginnings", len(tags), len(fronts)), func(c *core.Ctx) {
		rd := readers[2+c.Choose(2)]
		front := fronts[c.Choose(len(fronts))]
		unit := h.Text(c, 1+c.Choose(2), tags)
		c.Describe(func() string { return fmt.Sprintf("%s of %q and repetitions of %q", rd.name, front, unit) })
		c.Chosen()
		proportional(c, func(n int) (func(), int) {
			text := front + strings.Repeat(unit, n)
			return func() { consumers[0].do(rd.mk(text)) }, len(text)
		})
	})
	// Uses of a filter
	r.ExploreSerial("uses", fmt.Sprintf("%d filters: what 16 uses cost after 16, 1,000 and 5,000 others", len(fs)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		how := c.Choose(3)
		c.Describe(func() string {
			return fmt.Sprintf("%s, %s", f.Name, []string{"read out", "abandoned", "new tokens"}[how])
		})
		c.Chosen()
		g := f.New()
		k := 0
		uses := func(n int) {
			for i := 0; i < n; i++ {
				k++
				ts, _ := h.Split(alphabet)
				if how == 2 {
					ts = append(ts, jargon.NewToken(fmt.Sprint("w", k), false))
				}
				s := g(stream(ts))
				if how == 1 {
					s.Next()
					s.Next()
				} else {
					s.Count()
				}
			}
		}
		uses(16)
		a := measure(func() { uses(16) })
		uses(1000)
		b := measure(func() { uses(16) })
		uses(4000)
		d := measure(func() { uses(16) })
		c.Trans(5048)
		c.Outcome(core.HashInt(11, int(d.steps>>4)))
		if b.steps > 2*a.steps+slackSteps && d.steps > 2*b.steps || b.bytes > 2*a.bytes+slackBytes && d.bytes > 2*b.bytes {
			c.Failf("16 uses need %d statements and %d bytes, after 1000 others %d and %d, after 5000 %d and %d", a.steps, a.bytes, b.steps, b.bytes, d.steps, d.bytes)
		}
	})
	// Long tokens
	letters := core.Atoms([]string{"a", "é", "B", "'", ".", " ", "ﬁ", "e\u0301", "日", "ing", "\xff", "a-", "1", "\U0001d7d8", "\u0301\u0323", "e\u0323\u0301", "한", "ᄀ", "ᅡ", "\u0f71\u0f72", "Æ", "ни", "y", "s's", "\t"}, 4)
	r.ExploreSerial("long tokens", fmt.Sprintf("%d filters, and the creation, of single tokens that repeat one of %d strings, with another token before or not", len(fs), len(letters)), func(c *core.Ctx) {
		k := c.Choose(len(fs) + 1)
		unit := letters[c.Choose(len(letters))]
		before := c.Bool()
		name, g := "creation", jargon.Filter(nil)
		if k < len(fs) {
			name = fs[k].Name
		}
		c.Describe(func() string { return fmt.Sprintf("%s of %q repeated, another before %v", name, unit, before) })
		c.Chosen()
		if k < len(fs) {
			g = fs[k].New()
			prime(g)
		}
		proportional(c, func(n int) (func(), int) {
			long := strings.Repeat(unit, 4*n)
			if g == nil {
				return func() { jargon.NewToken(long, before) }, len(long)
			}
			ts := []*jargon.Token{jargon.NewToken("@", false), jargon.NewToken(long, false), jargon.NewToken("a", false)}
			if !before {
				ts = ts[1:]
			}
			return func() { consumers[0].do(g(stream(ts))) }, len(long)
		})
	})
	// Building filters
	r.ExploreSerial("building", "filters of stop words, synonyms (in one entry or many, as one term of many words, or alike at the beginning) and functions, built and used once", func(c *core.Ctx) {
		kind := c.Choose(len(kinds))
		ic := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("%s, ignore case %v", kinds[kind], ic) })
		c.Chosen()
		proportional(c, func(n int) (func(), int) {
			build := configured(kind, n, ic)
			return func() { build()(jargon.TokenizeString("word1 a common word0")).Count() }, 60 * n
		})
	})
	r.ExploreSerial("size of the configuration", "what using such filters costs, once built, on token sequences that match or not, with 256, 4,096 and 65,536 entries", func(c *core.Ctx) {
		kind := oneByOne[c.Choose(len(oneByOne))]
		ic := c.Bool()
		text := used[c.Choose(len(used))]
		how := c.Choose(2)
		c.Describe(func() string {
			return fmt.Sprintf("%s, ignore case %v, on %q, %s", kinds[kind], ic, text, []string{"at once", "in many uses"}[how])
		})
		c.Chosen()
		at := func(n int) cost {
			f := configured(kind, n, ic)()
			f(jargon.TokenizeString("a word0")).Count()
			return measure(func() { useOften(f, text, how) })
		}
		x := []cost{at(256), at(4096)}
		c.Trans(2)
		c.Outcome(core.HashInt(13, int(x[1].steps>>6)))
		if !dearer(x[0], x[1]) {
			return
		}
		if x = append(x, at(65536)); dearer(x[1], x[2]) {
			c.Failf("the same use costs %d statements and %d bytes with 256 entries, %d and %d with 4096, %d and %d with 65536", x[0].steps, x[0].bytes, x[1].steps, x[1].bytes, x[2].steps, x[2].bytes)
		}
	})
	vcount.Stop()
	timeSpaces(r, fs, alphabet, letters)
	programSpaces(r)
}

// Configurations of n entries

var kinds = []string{"stop words", "entries of synonyms", "synonyms of one entry", "a term of many words", "synonyms that begin alike", "functions"}
var oneByOne = []int{0, 1, 2, 4} // those whose size should not matter
var used = []string{"word1 ", "word255 a ", "word word ", "nothing, ", "a common beginning of word7 ", "a common beginning ", "X WORD3 "}

func configured(kind, n int, ic bool) (build func() jargon.Filter) {
	var words []string
	m := map[string]string{}
	for i := 0; i < n; i++ {
		words = append(words, fmt.Sprint("word", i))
	}
	switch kind {
	case 1:
		for _, w := range words {
			m[w+", x "+w] = w
		}
	case 2:
		m[strings.Join(words, ", ")] = "w"
	case 3:
		m[strings.Join(words, " ")] = "w"
	case 4:
		for _, w := range words {
			m["a common beginning of "+w] = w
		}
	}
	fns := make([]func(*jargon.Token) *jargon.Token, n)
	for i := range fns {
		fns[i] = func(t *jargon.Token) *jargon.Token { return t }
	}
	return func() jargon.Filter {
		switch kind {
		case 0:
			return stopwords.NewFilter(words, ic)
		case 5:
			return mapper.NewFilter(fns...)
		}
		return synonyms.NewFilter(m, ic, []rune{' ', '-'})
	}
}

func useOften(f jargon.Filter, text string, how int) {
	if how == 0 {
		f(jargon.TokenizeString(strings.Repeat(text, 300))).Count()
		return
	}
	for i := 0; i < 30; i++ {
		f(jargon.TokenizeString(text + text)).Count()
	}
}

func dearer(a, b cost) bool {
	return b.steps > 3*a.steps+slackSteps || b.bytes > 3*a.bytes+slackBytes
}

// pieces delivers a few bytes at a time.
type pieces struct {
	s string
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.s) {
		n = len(p.s)
	}
	n = copy(b, p.s[:n])
	p.s = p.s[n:]
	return n, nil
}

// spent is the processor time of this thread that f takes.
func spent(f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	a := now(false)
	f()
	return now(false).minus(a).time
}

// process runs a program and says how much processor time it took.
func process(name string, stdin io.Reader, args ...string) time.Duration {
	cmd := exec.Command(name, args...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Dir(name)}
	cmd.Stdin = stdin
	if err := cmd.Run(); err != nil {
		panic(fmt.Sprintf("mc: %s %v: %v", name, args, err))
	}
	return cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
}

// serve starts the server, sends a request some times, ends it, and says how much processor time it took.
func serve(name, path, body string, times int) time.Duration {
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("mc: " + err.Error())
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		cmd := exec.Command(name)
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + filepath.Dir(name), fmt.Sprint("PORT=", port)}
		if err := cmd.Start(); err != nil {
			panic("mc: " + err.Error())
		}
		ok := false
		for i := 0; i < 200 && !ok; i++ {
			time.Sleep(20 * time.Millisecond)
			if c, err := net.DialTimeout("tcp", fmt.Sprint("127.0.0.1:", port), time.Second); err == nil {
				c.Close()
				ok = true
			}
		}
		if ok {
			for i := 0; i < times && ok; i++ {
				res, err := http.Post(fmt.Sprintf("http://127.0.0.1:%d%s", port, path), "text/plain", strings.NewReader(body))
				if ok = err == nil; ok {
					io.Copy(io.Discard, res.Body)
					res.Body.Close()
				}
			}
		}
		cmd.Process.Kill()
		cmd.Wait()
		if ok {
			return cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		}
	}
	panic("mc: cannot use " + name)
}

func programSpaces(r *core.Run) {
	bin := filepath.Join(r.Root, "build")
	options := [][]string{nil, {"-count"}, {"-lines"}, {"-distinct"}, {"-stack"}, {"-contractions", "-ascii"}, {"-stem"}, {"-html"}, {"-stack", "-lemmas"}, {"-stack", "-distinct", "-lines"}, {"-html", "-stem", "-count"}, {"-out"}}
	texts := []string{"a ", "don't, Ruby on Rails.\n", "\n", "x-", "<b>é</b> <p "}
	grow := func(c *core.Ctx, text string, first int, distinct bool, spent func(text string) time.Duration) {
		at := func(size int) time.Duration {
			n := size / len(text)
			if distinct {
				n = size / (len(text) + 4)
			}
			return spent(repeated(n, text, distinct))
		}
		hopeless := false // no need to wait even longer
		bad := func(size int) bool {
			a, b := at(size), at(8*size)
			for i := 0; i < 2 && b > 16*a+200*time.Millisecond && b < 8*time.Second; i++ {
				if x := at(size); x < a {
					a = x
				}
				if x := at(8 * size); x < b {
					b = x
				}
			}
			if b > 16*a+200*time.Millisecond {
				c.Describe(func() string {
					return fmt.Sprintf("repetitions of %q: %d bytes take %v, %d bytes %v", text, size, a, 8*size, b)
				})
				hopeless = b > 8*time.Second
				return true
			}
			return false
		}
		c.Trans(2)
		if bad(first) && (hopeless || bad(2*first)) {
			c.Failf("time grows faster than the text")
		}
	}
	r.Explore("time of the program", fmt.Sprintf("the program with %d sets of options on %d texts of 32 KB and 256 KB (and 64 KB and 512 KB), by standard input or file (also of 256 KB and 2 MB)", len(options), len(texts)), func(c *core.Ctx) {
		o := options[c.Choose(len(options))]
		text := texts[c.Choose(len(texts))]
		distinct := c.Bool()
		file := c.Bool()
		first := 1 << 15
		if file && !distinct && c.Bool() {
			first = 1 << 18
		}
		c.Describe(func() string {
			return fmt.Sprintf("options %v on repetitions of %q, distinct %v, file %v, from %d bytes", o, text, distinct, file, first)
		})
		c.Chosen()
		dir, err := os.MkdirTemp(r.Tmp(), "cost")
		if err != nil {
			panic("mc: " + err.Error())
		}
		defer os.RemoveAll(dir)
		args := append([]string(nil), o...)
		if len(o) == 1 && o[0] == "-out" {
			args = append(args, filepath.Join(dir, "out"))
		}
		in := filepath.Join(dir, "in")
		if file {
			args = append(args, "-file", in)
		}
		grow(c, text, first, distinct, func(text string) time.Duration {
			if file {
				if err := os.WriteFile(in, []byte(text), 0o644); err != nil {
					panic("mc: " + err.Error())
				}
				return process(filepath.Join(bin, "jargon"), nil, args...)
			}
			return process(filepath.Join(bin, "jargon"), strings.NewReader(text), args...)
		})
	})
	r.Explore("time of the server", fmt.Sprintf("the server on requests with %d texts of 32 KB and 256 KB (and 64 KB and 512 KB)", len(texts)), func(c *core.Ctx) {
		text := texts[c.Choose(len(texts))]
		distinct := c.Bool()
		path := []string{"/text", "/html"}[c.Choose(2)]
		c.Describe(func() string { return fmt.Sprintf("%s with repetitions of %q, distinct %v", path, text, distinct) })
		c.Chosen()
		grow(c, text, 1<<15, distinct, func(text string) time.Duration { return serve(filepath.Join(bin, "web"), path, text, 1) })
	})
	r.Explore("requests", "processor time of the server for 500 and 4,000 requests (and 1,000 and 8,000)", func(c *core.Ctx) {
		path := []string{"/text", "/html", "/nothing"}[c.Choose(3)]
		body := []string{"Ruby on Rails, don't.", ""}[c.Choose(2)]
		c.Describe(func() string { return fmt.Sprintf("%s with %q, many times", path, body) })
		c.Chosen()
		bad := func(n int) bool {
			a, b := serve(filepath.Join(bin, "web"), path, body, n), serve(filepath.Join(bin, "web"), path, body, 8*n)
			return b > 16*a+200*time.Millisecond
		}
		c.Trans(2)
		if bad(500) && bad(1000) {
			c.Failf("time grows faster than the number of requests")
		}
	})
}

// Time is measured with other work going on, so only growth that is far from proportional counts, when it shows three times
// over at two sizes.
func timely(c *core.Ctx, mk func(size int) (do func())) {
	size := 1 << 14
	least := func(size, times int) time.Duration {
		min := time.Duration(1 << 60)
		for i := 0; i < times; i++ {
			if t := spent(mk(size)); t < min {
				min = t
			}
			if min > 4*time.Second {
				break
			}
		}
		return min
	}
	const unit = 8
	a, b := least(size, 1), least(unit*size, 1)
	c.Trans(2)
	c.Outcome(1)
	if b < 20*a+40*time.Millisecond {
		return
	}
	for k := 0; k < 2; k++ {
		a, b := least(size, 3), least(unit*size, 3)
		if b < 20*a+40*time.Millisecond {
			return
		}
		if k == 1 || b > 4*time.Second {
			c.Failf("%d bytes take %v, %d bytes %v", size, a, unit*size, b)
		}
		size *= unit
	}
}

func timeSpaces(r *core.Run, fs []h.F, alphabet []h.Pair, letters []string) {
	fs = append(fs[:len(fs):len(fs)], h.F{Name: "none", New: func() jargon.Filter { return func(s *jargon.TokenStream) *jargon.TokenStream { return s } }})
	atoms := []string{"a ", "don't ", "dOn’t ", "e\u0301 ", "Ruby on Rails ", "node. ", "a.b-c/d ", "@user ", "@", "# $", "Café, ", "running ", "\n", " ", ".", "-", "x", "日本", "the B user ", "LeBron James ", "\u0301", "\xff", "\u00a0", "\t"}
	beginnings := []string{"", "a", "ruby on", "user", "@"}
	r.Explore("time of texts", fmt.Sprintf("%d filters or none, %d texts of 16 KB and 128 KB (and 1 MB, if that takes too much longer), after one of %d beginnings", len(fs)-1, len(atoms), len(beginnings)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		distinct := c.Bool()
		unit := atoms[c.Choose(len(atoms))]
		front := ""
		if !distinct {
			front = beginnings[c.Choose(len(beginnings))]
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s on %q and repetitions of %q, distinct %v", f.Name, front, unit, distinct)
		})
		c.Chosen()
		g := f.New()
		g(jargon.TokenizeString("a Ruby.")).Count()
		timely(c, func(size int) func() {
			n := size / len(unit)
			if distinct {
				n = size / (len(unit) + 4)
			}
			text := front + repeated(n, unit, distinct)
			return func() { consumers[0].do(g(jargon.TokenizeString(text))) }
		})
	})
	r.Explore("time of tokens", fmt.Sprintf("%d filters or none, all sequences of 1 or 2 of %d tokens, the last of them 4,000 and 32,000 times (and 260,000)", len(fs)-1, len(alphabet)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		unit := h.Seq(c, 1+c.Choose(2), alphabet)
		c.Describe(func() string { return fmt.Sprintf("%s on %v, the last repeated", f.Name, unit) })
		c.Chosen()
		g := f.New()
		timely(c, func(size int) func() {
			ts, _ := h.Split(unit)
			g(h.StreamOf(ts)).Count()
			for last := ts[len(ts)-1]; len(ts) < size/4; {
				ts = append(ts, last)
			}
			return func() { consumers[0].do(g(h.StreamOf(ts))) }
		})
	})
	r.Explore("time of long tokens", fmt.Sprintf("%d filters, and the creation, of single tokens of 16 KB and 128 KB (and 1 MB) that repeat one of %d strings", len(fs)-1, len(letters)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		unit := letters[c.Choose(len(letters))]
		c.Describe(func() string { return fmt.Sprintf("%s on one token, repetitions of %q", f.Name, unit) })
		c.Chosen()
		g := f.New()
		ts, _ := h.Split(alphabet)
		g(h.StreamOf(ts)).Count()
		timely(c, func(size int) func() {
			long := strings.Repeat(unit, size/len(unit)+1)
			if f.Name == "none" {
				return func() { jargon.NewToken(long, false) }
			}
			ts := []*jargon.Token{jargon.NewToken(long, false), jargon.NewToken("a", false)}
			return func() { consumers[0].do(g(h.StreamOf(ts))) }
		})
	})
	r.Explore("time and the size of the configuration", "processor time of using filters, once built, with 128 and 16,384 entries (and 65,536)", func(c *core.Ctx) {
		kind := oneByOne[c.Choose(len(oneByOne))]
		ic := c.Bool()
		text := used[c.Choose(len(used))]
		how := c.Choose(2)
		c.Describe(func() string {
			return fmt.Sprintf("%s, ignore case %v, on %q, %s", kinds[kind], ic, text, []string{"at once", "in many uses"}[how])
		})
		c.Chosen()
		at := func(n int) (min time.Duration) {
			f := configured(kind, n, ic)()
			f(jargon.TokenizeString("a word0")).Count()
			for i := 0; i < 3; i++ {
				if t := spent(func() { useOften(f, text, how) }); i == 0 || t < min {
					min = t
				}
			}
			return min
		}
		a, b := at(128), at(16384)
		c.Trans(2)
		c.Outcome(1)
		if b > 10*a+2*time.Millisecond {
			if d := at(65536); d > 30*a+6*time.Millisecond && d > 2*b {
				c.Failf("the same use takes %v with 128 entries, %v with 16384, %v with 65536", a, b, d)
			}
		}
	})
	r.Explore("time of consumers", fmt.Sprintf("%d ways of consuming 2 texts", len(consumers)), func(c *core.Ctx) {
		how := consumers[c.Choose(len(consumers))]
		distinct := c.Bool()
		unit := []string{"a ", "don't, x. "}[c.Choose(2)]
		c.Describe(func() string { return fmt.Sprintf("%s of repetitions of %q, distinct %v", how.name, unit, distinct) })
		c.Chosen()
		timely(c, func(size int) func() {
			n := size / len(unit)
			if distinct {
				n = size / (len(unit) + 4)
			}
			text := repeated(n, unit, distinct)
			return func() { how.do(jargon.TokenizeString(text)) }
		})
	})
	tags := []string{"<b>x</b> ", "<", "</", "<!-- x -->", "<!--", "<script>x</script>", "<script>", "</script", "<a href='x'>", "<p x=1 y=2>t", "x=1 ", "&amp;", "&", "text ", "<![CDATA[", "<svg>", "-->", "'", "<style>a</style>"}
	fronts := []string{"", "<p ", "<p x='", "<!--", "<script>", "<title>"}
	r.Explore("time of documents", fmt.Sprintf("HTML: repetitions of %d fragments after %d beginnings", len(tags), len(fronts)), func(c *core.Ctx) {
		unit := tags[c.Choose(len(tags))]
		front := fronts[c.Choose(len(fronts))]
		c.Describe(func() string { return fmt.Sprintf("%q and repetitions of %q", front, unit) })
		c.Chosen()
		timely(c, func(size int) func() {
			text := front + strings.Repeat(unit, size/len(unit))
			return func() { consumers[0].do(jargon.TokenizeHTML(strings.NewReader(text))) }
		})
	})
}
