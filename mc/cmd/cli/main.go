// Command cli checks the command line (C21, C22): it runs the real program, built from the working tree, for every
// combination of options, inputs, outputs and failures in the stated bounds.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"

	"verif/mc/core"
	"verif/mc/h"
)

func main() { core.Main(map[string]func(*core.Run){"C21": c21, "C22": c22}) }

var program string
var tmp string
var serial atomic.Int64

func setup(r *core.Run) {
	program = filepath.Join(r.Root, "build", "jargon")
	if _, err := os.Stat(program); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp = r.Tmp()
}

func name(kind string) string { return filepath.Join(tmp, fmt.Sprintf("%s.%d", kind, serial.Add(1))) }

// result of a run of the program.
type result struct {
	out, err string
	code     int
	signal   string
}

// call runs the program. stdin and stdout may be nil: /dev/null for the first, captured for the second.
func call(c *core.Ctx, args []string, stdin *os.File, stdout *os.File, input *string) result {
	return callIn(c, tmp, args, stdin, stdout, input)
}

// callIn runs the program in a directory.
func callIn(c *core.Ctx, dir string, args []string, stdin *os.File, stdout *os.File, input *string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, program, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + tmp}
	if input != nil {
		cmd.Stdin = strings.NewReader(*input)
	} else if stdin != nil {
		cmd.Stdin = stdin
	}
	var out, errs bytes.Buffer
	if stdout != nil {
		cmd.Stdout = stdout
	} else {
		cmd.Stdout = &out
	}
	cmd.Stderr = &errs
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Failf("%q does not finish", args)
	}
	res := result{out: out.String(), err: errs.String()}
	if cmd.ProcessState == nil {
		panic(fmt.Sprint("mc: ", err))
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	res.code = ws.ExitStatus()
	if ws.Signaled() {
		res.signal = ws.Signal().String()
	}
	c.Step(core.HashStr(core.Hash(args...), res.err))
	c.Outcome(core.HashInt(core.Hash(res.out, res.err), res.code))
	return res
}

// ---- What the library produces

var filterByName = map[string]jargon.Filter{
	"ascii": ascii.Fold, "contractions": contractions.Expand, "lemmas": (*jargon.TokenStream).Lemmas,
	"distinct": (*jargon.TokenStream).Distinct, "stack": stackoverflow.Tags, "stem": stemmer.English,
}
var names = []string{"ascii", "contractions", "stack", "stem", "lemmas", "distinct"}
var langs = []string{"english", "french", "norwegian", "russian", "spanish", "swedish"}
var byLang = map[string]jargon.Filter{
	"english": stemmer.English, "french": stemmer.French, "norwegian": stemmer.Norwegian,
	"russian": stemmer.Russian, "spanish": stemmer.Spanish, "swedish": stemmer.Swedish,
}

type job struct {
	filters []string
	lang    string
	html    bool
	lines   bool
	count   bool
}

func (j job) expect(input string) (string, error) {
	var s *jargon.TokenStream
	if j.html {
		s = jargon.TokenizeHTML(strings.NewReader(input))
	} else {
		s = jargon.Tokenize(strings.NewReader(input))
	}
	for _, f := range j.filters {
		if f == "stem" && j.lang != "" {
			s = s.Filter(byLang[j.lang])
		} else {
			s = s.Filter(filterByName[f])
		}
	}
	ts, err := s.ToSlice()
	if err != nil {
		return "", err
	}
	if j.count {
		return strconv.Itoa(len(ts)) + "\n", nil
	}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.String())
		if j.lines {
			b.WriteByte('\n')
		}
	}
	return b.String(), nil
}

var memo sync.Map

func (j job) mustExpect(input string) string {
	k := fmt.Sprint(j, len(input), core.Hash(input))
	if v, ok := memo.Load(k); ok {
		return v.(string)
	}
	s, err := j.expect(input)
	if err != nil {
		panic(fmt.Sprint("mc: ", err))
	}
	memo.Store(k, s)
	return s
}

// ok fails unless the program succeeded with this output.
func ok(c *core.Ctx, args []string, res result, got, want string) {
	if res.signal != "" || res.code != 0 {
		c.Failf("%q: exit status %d %s, stderr %s", args, res.code, res.signal, h.Clip(res.err))
	}
	if res.err != "" {
		c.Failf("%q: succeeds, but prints on stderr %s", args, h.Clip(res.err))
	}
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.Failf("%q: output of %d bytes differs from the %d bytes expected, from offset %d: %s, expected %s", args, len(got), len(want), i, h.Clip(got[i:]), h.Clip(want[i:]))
	}
}

const plainText = "Don't résumé Ruby on Rails; rails café, isn't running the the  #1 manager's\n\tNode.js and nodejs, Änderung <b>C# &amp; managers</b> don’t\r\nRÉSUMÉ Don't"
const htmlText = "<!DOCTYPE html>\n<p class='x'>Don't résumé Ruby on Rails; rails <b>café</b>, isn't <!-- rails --> running the the<script>rails()</script>  <style>p{}</style>C# &amp; managers <BR/>don’t Don't <a href=\"rails\">node js</a>"

// ways to give input
var inputs = []string{"pipe", "redirected", "file", "fifo"}

// give runs the program with the input given in some way; more arguments may be added.
func give(c *core.Ctx, how string, args []string, input string, stdout *os.File) (result, []string) {
	switch how {
	case "pipe":
		return call(c, args, nil, stdout, &input), args
	case "redirected", "file":
		p := name("in")
		if err := os.WriteFile(p, []byte(input), 0o644); err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		defer os.Remove(p)
		if how == "file" {
			args = append(append([]string(nil), args...), "-file", p)
			return call(c, args, nil, stdout, nil), args
		}
		f, err := os.Open(p)
		if err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		defer f.Close()
		return call(c, args, f, stdout, nil), args
	case "fifo":
		p := name("fifo")
		if err := syscall.Mkfifo(p, 0o644); err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		defer os.Remove(p)
		done := make(chan struct{})
		go func() {
			defer close(done)
			f, err := os.OpenFile(p, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			f.WriteString(input)
			f.Close()
		}()
		args = append(append([]string(nil), args...), "-file="+p)
		res := call(c, args, nil, stdout, nil)
		// If the program never opened it, release the writer
		select {
		case <-done:
		case <-time.After(100 * time.Millisecond):
			if f, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				f.Close()
			}
			<-done
		}
		return res, args
	}
	panic("mc: " + how)
}

func c21(r *core.Run) {
	setup(r)
	// Orders
	n := r.Pick(3, 4)
	modes := []job{{}, {lines: true}, {count: true}, {html: true}, {html: true, lines: true}, {html: true, count: true}, {lines: true, count: true}}
	r.Explore("orders", fmt.Sprintf("all sequences of at most %d of the %d filters (repeated or not), %d output and input modes, the mode options before, among or after the filters", n, len(names), len(modes)), func(c *core.Ctx) {
		k := c.Choose(n + 1)
		j := modes[c.Choose(len(modes))]
		var fs []string
		for i := 0; i < k; i++ {
			fs = append(fs, names[c.Choose(len(names))])
		}
		j.filters = fs
		var opts []string
		if j.html {
			opts = append(opts, "-html")
		}
		if j.lines {
			opts = append(opts, "-lines")
		}
		if j.count {
			opts = append(opts, "-count")
		}
		pos := 0
		if len(opts) > 0 && k > 0 && k < 3 {
			pos = c.Choose(k + 1)
		}
		var args []string
		for i, f := range fs {
			if i == pos {
				args = append(args, opts...)
			}
			args = append(args, "-"+f)
		}
		if pos >= k {
			args = append(args, opts...)
		}
		c.Describe(func() string { return fmt.Sprintf("jargon %q", args) })
		text := plainText
		if j.html {
			text = htmlText
		}
		res := call(c, args, nil, nil, &text)
		ok(c, args, res, res.out, j.mustExpect(text))
	})
	// Spellings
	spell := func(s string, i int) string {
		return []string{"-" + s, "--" + s, "-" + s + "=true", "--" + s + "=true", "-" + s + "=1", "--" + s + "=T", "-" + s + "=TRUE", "--" + s + "=t", "-" + s + "=True"}[i]
	}
	all := append([]string{"html", "lines", "count"}, names...)
	r.Explore("spellings", "all ordered pairs of options, each in all 9 spellings that turn it on (the other in 4); also turned off", func(c *core.Ctx) {
		a, b := all[c.Choose(len(all))], all[c.Choose(len(all))]
		if a == b {
			c.Prune()
		}
		i, k := c.Choose(10), c.Choose(4)
		var j job
		var args []string
		on := func(s string) {
			switch s {
			case "html":
				j.html = true
			case "lines":
				j.lines = true
			case "count":
				j.count = true
			default:
				j.filters = append(j.filters, s)
			}
		}
		if i == 9 {
			args = append(args, "-"+a+"=false")
		} else {
			args = append(args, spell(a, i))
			on(a)
		}
		args = append(args, spell(b, k))
		on(b)
		c.Describe(func() string { return fmt.Sprintf("jargon %q", args) })
		text := htmlText
		res := call(c, args, nil, nil, &text)
		ok(c, args, res, res.out, j.mustExpect(text))
	})
	// The values of options are not options, whatever they look like
	values := []string{"-stem", "-ascii", "--distinct", "-lemmas=true", "-stack", "--contractions=1", "-lines", "-html=true", "-count", "stem", "-", "-lang", "-file", "-out", "notes.lang", "in.file", "x-out", "-x", "a=b", "=", "french", "é ü", "true", "-file=x", "*.txt", "~", "a\\b", "$HOME", "%s"}
	for _, a := range core.Atoms(values, 12)[len(values):] {
		if !strings.ContainsAny(a, "/\x00") && a != "." && a != ".." {
			values = append(values, a)
		}
	}
	r.Explore("values", fmt.Sprintf("input file, output file or both named by any of %d names (some like options), after the option or joined to it, before or after 2 of the 6 filters, or between", len(values)), func(c *core.Ctx) {
		v := values[c.Choose(len(values))]
		kind := c.Choose(3) // in, out, both
		joined := c.Bool()
		pos := c.Choose(3)
		a := c.Choose(len(names))
		j := job{filters: []string{names[a], names[(a+1+c.Choose(len(names)-1))%len(names)]}}
		dir := name("values")
		if err := os.Mkdir(dir, 0o755); err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		defer os.RemoveAll(dir)
		in, out := "plain.in", "plain.out"
		if kind != 1 {
			in = v
		}
		if kind != 0 {
			out = v
		}
		if kind == 2 {
			out = v + "2"
		}
		if err := os.WriteFile(filepath.Join(dir, in), []byte(plainText), 0o644); err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		var opts []string
		for _, o := range [][2]string{{"-file", in}, {"-out", out}} {
			if joined {
				opts = append(opts, o[0]+"="+o[1])
			} else {
				opts = append(opts, o[0], o[1])
			}
		}
		var args []string
		for i, f := range j.filters {
			if i == pos {
				args = append(args, opts...)
			}
			args = append(args, "-"+f)
		}
		if pos == 2 {
			args = append(args, opts...)
		}
		c.Describe(func() string { return fmt.Sprintf("jargon %q", args) })
		res := callIn(c, dir, args, nil, nil, nil)
		got, err := os.ReadFile(filepath.Join(dir, out))
		if err != nil {
			c.Failf("%q: %v (exit status %d, %s)", args, err, res.code, h.Clip(res.err))
		}
		if res.out != "" {
			c.Failf("%q: prints %s, not only to the file", args, h.Clip(res.out))
		}
		ok(c, args, res, string(got), j.mustExpect(plainText))
	})
	// Languages
	texts := map[string]string{
		"english": "running managers management easily", "french": "continuellement mangeaient nationalité chevaux", "norwegian": "havnedistriktene bestemmelser hundene",
		"russian": "важнейшими красивые бегающий", "spanish": "corriendo chicas nacionalidad cantábamos", "swedish": "jaktkarlarne flickorna kvinnornas",
	}
	long := ""
	for _, l := range langs {
		long += texts[l] + " "
	}
	r.Explore("languages", "every language, in all spellings of the option, before and after the filter, alone or with another filter on either side", func(c *core.Ctx) {
		l := langs[c.Choose(len(langs))]
		sp := c.Choose(4)
		where := c.Choose(3)
		around := c.Choose(3)
		lines := c.Bool()
		opt := [][]string{{"-lang", l}, {"-lang=" + l}, {"--lang", l}, {"--lang=" + l}}[sp]
		j := job{lang: l, lines: lines}
		fs := [][]string{{"stem"}, {"ascii", "stem"}, {"stem", "lemmas"}}[around]
		j.filters = fs
		var args []string
		if where == 0 {
			args = append(args, opt...)
		}
		for i, f := range fs {
			args = append(args, "-"+f)
			if where == 1 && i == 0 {
				args = append(args, opt...)
			}
		}
		if lines {
			args = append(args, "-lines")
		}
		if where == 2 {
			args = append(args, opt...)
		}
		c.Describe(func() string { return fmt.Sprintf("jargon %q", args) })
		res := call(c, args, nil, nil, &long)
		ok(c, args, res, res.out, j.mustExpect(long))
	})
	// Sizes
	kb := 1024
	sizes := core.Sizes(1<<22, append(core.Around(4*kb, 64*kb, 1024*kb), 0, 1, 2, 8*kb, 32*kb+5, 128*kb+1, 100*kb, 2*1024*kb+77, 3<<20)...)
	unit := "Don't résumé Ruby on Rails; rails café, the  manager's\n\tNode.js and node js. "
	body := func(n int) string {
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			b.WriteString(unit)
			fmt.Fprintf(&b, "w%d ", i)
		}
		s := b.String()[:n]
		return s
	}
	bodies := map[int]string{}
	for _, n := range sizes {
		bodies[n] = body(n)
	}
	jobs := []job{{}, {lines: true}, {count: true}, {filters: []string{"contractions", "stack"}}, {html: true, filters: []string{"ascii"}, lines: true}, {filters: []string{"distinct"}}}
	if !r.Thorough() {
		jobs = jobs[:5]
	}
	outs := []string{"captured", "file", "out", "overwritten"}
	r.Explore("sizes", fmt.Sprintf("input of %v bytes, from %v, to standard output (pipe or file) or a named file (new or overwriting a longer one), %d option sets (in the quick tier, the largest inputs in fewer combinations)", sizes, inputs, len(jobs)), func(c *core.Ctx) {
		size := sizes[c.Choose(len(sizes))]
		how := inputs[c.Choose(len(inputs))]
		to := outs[c.Choose(len(outs))]
		j := jobs[c.Choose(len(jobs))]
		if size > 200*kb && !r.Thorough() && (how == "redirected" || to == "file" || to == "overwritten" || len(j.filters) > 0 && size != 1024*kb+1) {
			c.Prune()
		}
		var args []string
		if j.html {
			args = append(args, "-html")
		}
		if j.lines {
			args = append(args, "-lines")
		}
		if j.count {
			args = append(args, "-count")
		}
		for _, f := range j.filters {
			args = append(args, "-"+f)
		}
		c.Describe(func() string { return fmt.Sprintf("%d bytes from %s to %s: jargon %q", size, how, to, args) })
		text := bodies[size]
		want := j.mustExpect(text)
		out := name("out")
		defer os.Remove(out)
		var stdout *os.File
		switch to {
		case "file":
			f, err := os.Create(out)
			if err != nil {
				panic(fmt.Sprint("mc: ", err))
			}
			defer f.Close()
			stdout = f
		case "overwritten":
			os.WriteFile(out, []byte(want+strings.Repeat("left over\n", 20)), 0o644)
			args = append(args, "-out="+out)
		case "out":
			args = append(args, "-out", out)
		}
		res, full := give(c, how, args, text, stdout)
		got := res.out
		if to != "captured" {
			b, err := os.ReadFile(out)
			if err != nil {
				c.Failf("%q: %v; exit status %d, stderr %q", full, err, res.code, res.err)
			}
			got = string(b)
			if res.out != "" {
				c.Failf("%q: output on standard output too: %s", full, h.Clip(res.out))
			}
		}
		ok(c, full, res, got, want)
	})
	huge := core.Huge(1<<20, 5<<20+1, 33<<20)
	r.ExploreSerial("huge", fmt.Sprintf("input of %v bytes, with long words, from %v, to standard output or a file, 3 option sets", huge, inputs), func(c *core.Ctx) {
		size := huge[c.Choose(len(huge))]
		how := inputs[c.Choose(len(inputs))]
		out := ""
		j := []job{{}, {lines: true}, {html: true, count: true}}[c.Choose(3)]
		var args []string
		if j.html {
			args = append(args, "-html")
		}
		if j.lines {
			args = append(args, "-lines")
		}
		if j.count {
			args = append(args, "-count")
		}
		if c.Bool() {
			out = name("out")
			defer os.Remove(out)
			args = append(args, "-out", out)
		}
		c.Describe(func() string { return fmt.Sprintf("%d bytes from %s: jargon %q", size, how, args) })
		c.Chosen()
		text := h.LongWords(size)
		want, err := j.expect(text)
		if err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		res, full := give(c, how, args, text, nil)
		got := res.out
		if out != "" {
			b, err := os.ReadFile(out)
			if err != nil {
				c.Failf("%q: %v", full, err)
			}
			got = string(b)
		}
		ok(c, full, res, got, want)
	})
	// Slow input
	slow := "Ruby on Rails, don't résumé!"
	r.Explore("slow", "a short text arriving in two or three parts, cut anywhere, in text and html mode", func(c *core.Ctx) {
		j := job{filters: []string{"stack", "ascii"}, lines: true}
		args := []string{"-stack", "-ascii", "-lines"}
		if c.Bool() {
			j.html = true
			args = append(args, "-html")
		}
		a := c.Choose(len(slow) + 1)
		b := a
		if r.Thorough() {
			b = a + c.Choose(len(slow)-a+1)
		} else {
			b = a + (len(slow)-a)/2
		}
		c.Describe(func() string { return fmt.Sprintf("%q %q %q to jargon %q", slow[:a], slow[a:b], slow[b:], args) })
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(fmt.Sprint("mc: ", err))
		}
		go func() {
			defer pw.Close()
			for _, s := range []string{slow[:a], slow[a:b], slow[b:]} {
				pw.WriteString(s)
				time.Sleep(3 * time.Millisecond)
			}
		}()
		res := call(c, args, pr, nil, nil)
		pr.Close()
		ok(c, args, res, res.out, j.mustExpect(slow))
	})
}

// ---- C22

// failed fails unless the program reported a failure.
func failed(c *core.Ctx, args []string, res result, why string) {
	if res.signal != "" {
		c.Failf("%q (%s): ended by signal %s", args, why, res.signal)
	}
	if res.code == 0 {
		c.Failf("%q: exit status 0, although %s", args, why)
	}
	if strings.TrimSpace(res.err) == "" {
		c.Failf("%q: nothing on standard error, although %s", args, why)
	}
	if strings.Contains(res.err, "goroutine ") {
		c.Failf("%q: crash, when %s: %s", args, why, h.Clip(res.err))
	}
}

// memory is a text followed by memory that cannot be read.
func memory(text string) (*os.File, func(), bool) {
	const page = 4096
	n := (len(text) + page - 1) / page * page
	if n == 0 {
		n = page
	}
	m, err := syscall.Mmap(-1, 0, n+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, nil, false
	}
	if _, _, e := syscall.Syscall(syscall.SYS_MPROTECT, uintptr(unsafe.Pointer(&m[n])), page, syscall.PROT_NONE); e != 0 {
		return nil, nil, false
	}
	copy(m[n-len(text):], text)
	f, err := os.Open("/proc/self/mem")
	if err != nil {
		return nil, nil, false
	}
	// Reading of memory ignores its protection: leave a hole
	addr := uintptr(unsafe.Pointer(&m[0]))
	syscall.Syscall(syscall.SYS_MUNMAP, addr+uintptr(n), page, 0)
	if _, err := f.Seek(int64(addr)+int64(n-len(text)), 0); err != nil {
		return nil, nil, false
	}
	return f, func() { f.Close() }, true
}

// terminal makes a pseudo terminal in raw mode: its master, and the name and an open file of its slave.
func terminal() (master *os.File, path string, slave *os.File, can bool) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	rc, err := m.SyscallConn()
	if err != nil {
		m.Close()
		return
	}
	var n uint32
	var unlock int32
	var e1, e2 syscall.Errno
	rc.Control(func(fd uintptr) {
		_, _, e1 = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock)))
		_, _, e2 = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	})
	path = fmt.Sprintf("/dev/pts/%d", n)
	if e1 != 0 || e2 != 0 {
		m.Close()
		return
	}
	s, err := os.OpenFile(path, os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return
	}
	var t syscall.Termios
	var e3, e4 syscall.Errno
	src, err := s.SyscallConn()
	if err == nil {
		src.Control(func(fd uintptr) {
			_, _, e3 = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&t)))
			t.Iflag, t.Oflag, t.Lflag = 0, 0, 0
			_, _, e4 = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCSETS, uintptr(unsafe.Pointer(&t)))
		})
	}
	if err != nil || e3 != 0 || e4 != 0 {
		m.Close()
		s.Close()
		return
	}
	return m, path, s, true
}

// lossy is a standard output whose other end is closed, which fails with an error that raises no signal.
func lossy() (*os.File, func(), bool) {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_DGRAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, nil, false
	}
	syscall.Close(fds[1])
	w := os.NewFile(uintptr(fds[0]), "socket")
	return w, func() { w.Close() }, true
}

var modeArgs = []struct {
	args []string
	j    job
}{
	{nil, job{}}, {[]string{"-lines"}, job{lines: true}}, {[]string{"-count"}, job{count: true}},
	{[]string{"-html", "-lines"}, job{html: true, lines: true}}, {[]string{"-stack"}, job{filters: []string{"stack"}}},
	{[]string{"-contractions", "-ascii", "-stem", "-distinct"}, job{filters: []string{"contractions", "ascii", "stem", "distinct"}}},
	{[]string{"-html", "-count"}, job{html: true, count: true}}, {[]string{"-stack", "-lemmas", "-lines"}, job{filters: []string{"stack", "lemmas"}, lines: true}},
}

func c22(r *core.Run) {
	setup(r)
	text := plainText
	missing := filepath.Join(tmp, "missing")
	dir := filepath.Join(tmp, "dir")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	good := filepath.Join(tmp, "good.txt")
	os.WriteFile(good, []byte(text), 0o644)
	empty := filepath.Join(tmp, "empty.txt")
	os.WriteFile(empty, nil, 0o644)

	// Bad arguments and inputs
	type bad struct {
		why  string
		args []string
		pipe bool
	}
	bads := []bad{
		{"the input file does not exist", []string{"-file", missing}, false},
		{"the input file does not exist", []string{"-file", filepath.Join(missing, "x")}, false},
		{"the input file is a directory", []string{"-file", dir}, false},
		{"the input file cannot be read", []string{"-file", "/proc/self/mem"}, false},
		{"there are two inputs", []string{"-file", good}, true},
		{"there are two inputs", []string{"-file", empty}, true},
		{"there are two inputs", []string{"--file=" + good}, true},
		{"the input file does not exist", []string{"-file", missing}, true},
		{"the flag is unknown", []string{"-stemm"}, true},
		{"the flag is unknown", []string{"-x"}, true},
		{"the flag is unknown", []string{"--stack-overflow"}, true},
		{"the flag is unknown", []string{"-file", good, "-unknown"}, false},
		{"the flag has no value", []string{"-file"}, true},
		{"the flag has no value", []string{"-out"}, true},
		{"the flag has no value", []string{"-lang"}, true},
		{"the value is not a truth value", []string{"-stem=maybe"}, true},
		{"the value is not a truth value", []string{"-count=2"}, true},
		{"the language is unknown", []string{"-stem", "-lang", "klingon"}, true},
		{"the language is unknown", []string{"-lang=English", "-stem"}, true},
		{"the language is unknown", []string{"-lang=german", "-stem"}, true},
		{"the language is unknown", []string{"--stem", "--lang=fr"}, true},
		{"the language is unknown", []string{"-stem=true", "-lang", "x"}, true},
		{"the output cannot be created", []string{"-out", filepath.Join(missing, "x")}, true},
		{"the output is a directory", []string{"-out", dir}, true},
		{"the output cannot be created", []string{"-file", good, "-out", filepath.Join(good, "x")}, false},
	}
	r.Explore("arguments", fmt.Sprintf("%d unusable arguments, before and after the options of %d modes", len(bads), len(modeArgs)), func(c *core.Ctx) {
		b := bads[c.Choose(len(bads))]
		m := modeArgs[c.Choose(len(modeArgs))]
		var args []string
		if c.Bool() {
			args = append(append(args, m.args...), b.args...)
		} else {
			if len(b.args) == 1 && strings.HasSuffix(b.why, "no value") {
				c.Prune()
			}
			args = append(append(args, b.args...), m.args...)
		}
		c.Describe(func() string { return fmt.Sprintf("jargon %q, piped input %v", args, b.pipe) })
		var in *string
		if b.pipe {
			in = &text
		}
		failed(c, args, call(c, args, nil, nil, in), b.why)
	})
	// Reads that fail
	offsets := core.Sizes(300000, append(core.Around(4096, 65536), 0, 1, 2, 3, 7, 20, 60, 100, 1000, 131072, 200000)...)
	unit := "Don't résumé Ruby on Rails; rails café, the  manager's\n\tNode.js and node js <b>x</b>. "
	body := func(n int) string {
		return strings.Repeat(unit, n/len(unit)+1)[:n]
	}
	if f, done, can := memory("test"); can {
		b := make([]byte, 10)
		n, err := f.Read(b)
		_, err2 := f.Read(b)
		done()
		if n != 4 || err == nil && err2 == nil {
			can = false
		}
		r.Extra["failing_reads"] = can
		if can {
			r.Explore("reads", fmt.Sprintf("standard input fails after %v bytes, in %d modes, to standard output or a file", offsets, len(modeArgs)), func(c *core.Ctx) {
				k := offsets[c.Choose(len(offsets))]
				m := modeArgs[c.Choose(len(modeArgs))]
				args := append([]string(nil), m.args...)
				out := ""
				if c.Bool() {
					out = name("out")
					defer os.Remove(out)
					args = append(args, "-out", out)
				}
				c.Describe(func() string { return fmt.Sprintf("input fails after %d bytes: jargon %q", k, args) })
				f, done, can := memory(body(k))
				if !can {
					panic("mc: no memory file")
				}
				defer done()
				failed(c, args, call(c, args, f, nil, nil), "the input could not be read completely")
			})
		}
	}
	r.Explore("directory", "standard input is a directory, in all modes", func(c *core.Ctx) {
		m := modeArgs[c.Choose(len(modeArgs))]
		f, err := os.Open(dir)
		if err != nil {
			panic("mc: " + err.Error())
		}
		defer f.Close()
		c.Describe(func() string { return fmt.Sprintf("jargon %q < directory", m.args) })
		failed(c, m.args, call(c, m.args, f, nil, nil), "the input is a directory")
	})
	// Writes that fail
	sizes := core.Sizes(1<<21, append(core.Around(4096, 65536), 1, 2, 10, 100, 1000, 8192, 20000, 70000, 131072, 200000, 1<<20+1)...)
	r.Explore("full", fmt.Sprintf("the output device is full: outputs made from %v bytes, as standard output or named file, input from a pipe or a file, in %d modes", sizes, len(modeArgs)), func(c *core.Ctx) {
		k := sizes[c.Choose(len(sizes))]
		m := modeArgs[c.Choose(len(modeArgs))]
		named := c.Bool()
		how := inputs[c.Choose(3)]
		if k > 100000 && len(m.j.filters) > 0 && !r.Thorough() {
			c.Prune()
		}
		args := append([]string(nil), m.args...)
		var stdout *os.File
		if named {
			args = append(args, "-out", "/dev/full")
		} else {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				panic("mc: " + err.Error())
			}
			defer f.Close()
			stdout = f
		}
		in := body(k)
		want := m.j.mustExpect(in)
		c.Describe(func() string { return fmt.Sprintf("%d bytes (%s) to a full device: jargon %q", k, how, args) })
		res, full := give(c, how, args, in, stdout)
		if want == "" {
			ok(c, full, res, res.out, "")
		} else {
			failed(c, full, res, "the output device is full")
		}
	})
	// Standard output that is gone
	if f, done, can := lossy(); can {
		_, err := f.Write([]byte("x"))
		done()
		can = err != nil
		r.Extra["failing_writes"] = can
		if can {
			r.Explore("writes", fmt.Sprintf("every write to standard output fails with another error, outputs made from %v bytes, in %d modes", sizes, len(modeArgs)), func(c *core.Ctx) {
				k := sizes[c.Choose(len(sizes))]
				m := modeArgs[c.Choose(len(modeArgs))]
				if k > 100000 {
					c.Prune()
				}
				in := body(k)
				want := m.j.mustExpect(in)
				c.Describe(func() string { return fmt.Sprintf("%d bytes to a standard output that fails: jargon %q", k, m.args) })
				f, done, _ := lossy()
				defer done()
				res, full := give(c, "pipe", m.args, in, f)
				if want == "" {
					ok(c, full, res, "", "")
				} else {
					failed(c, full, res, "standard output cannot be written")
				}
			})
		}
	}
	// A terminal that goes away
	takes := core.Sizes(200000, append(core.Around(4096, 65536), 1, 100, 10000, 100000)...)
	if m, p, f, can := terminal(); can {
		_, err := f.Write([]byte("x"))
		m.Close()
		_, err2 := f.Write([]byte("x"))
		f.Close()
		can = err == nil && err2 != nil && p != ""
		r.Extra["failing_terminal"] = can
		if can {
			r.Explore("terminal", fmt.Sprintf("the output, standard or named, is a terminal that goes away after %v bytes, with more than it can hold to come, in %d modes", takes, len(modeArgs)), func(c *core.Ctx) {
				k := takes[c.Choose(len(takes))]
				m := modeArgs[c.Choose(len(modeArgs))]
				if m.j.count {
					c.Prune()
				}
				in := body(400000)
				want := m.j.mustExpect(in)
				if len(want) < k+100000 {
					c.Prune()
				}
				how := inputs[c.Choose(3)]
				named := c.Bool()
				if !r.Thorough() && how == "redirected" {
					c.Prune()
				}
				args := append([]string(nil), m.args...)
				master, p, slave, can := terminal()
				if !can {
					panic("mc: no terminal")
				}
				stdout := slave
				if named {
					args = append(args, "-out", p)
					stdout = nil
				}
				c.Describe(func() string { return fmt.Sprintf("terminal goes away after %d bytes (%s): jargon %q", k, how, args) })
				gone := make(chan string, 1)
				go func() {
					buf := make([]byte, k)
					n, _ := io.ReadFull(master, buf)
					master.Close()
					gone <- string(buf[:n])
				}()
				res, full := give(c, how, args, in, stdout)
				slave.Close()
				got := <-gone
				if !strings.HasPrefix(want, got) {
					c.Failf("%q: what was written is not the beginning of the output", full)
				}
				failed(c, full, res, "the output terminal is gone")
			})
		}
	}
	// Success
	r.Explore("success", "small and large inputs that can be processed, in all modes, from every kind of input: status 0, nothing on standard error, everything written", func(c *core.Ctx) {
		k := sizes[c.Choose(len(sizes))]
		m := modeArgs[c.Choose(len(modeArgs))]
		how := inputs[c.Choose(len(inputs))]
		if k > 100000 && len(m.j.filters) > 0 && !r.Thorough() {
			c.Prune()
		}
		in := body(k)
		c.Describe(func() string { return fmt.Sprintf("%d bytes from %s: jargon %q", k, how, m.args) })
		res, full := give(c, how, m.args, in, nil)
		ok(c, full, res, res.out, m.j.mustExpect(in))
	})
	r.Explore("no input", "no input at all: usage on standard error and success; the version", func(c *core.Ctx) {
		m := modeArgs[c.Choose(len(modeArgs))]
		version := c.Bool()
		args := append([]string(nil), m.args...)
		if version {
			args = append(args, "-version")
		}
		c.Describe(func() string { return fmt.Sprintf("jargon %q", args) })
		res := call(c, args, nil, nil, nil)
		if res.code != 0 || res.signal != "" {
			c.Failf("%q: exit status %d %s", args, res.code, res.signal)
		}
		if version {
			if res.err != "" || !strings.Contains(res.out, "Version") {
				c.Failf("%q: prints %q, on stderr %q", args, res.out, res.err)
			}
		} else if res.out != "" || !strings.Contains(res.err, "-stack") {
			c.Failf("%q: prints %q, on stderr %q", args, res.out, res.err)
		}
	})
	// Words that are too long
	words := core.Sizes(200000, append(core.Around(65535, 65536), 60000, 70000, 131072, 150000)...)
	r.Explore("long words", fmt.Sprintf("a word of %v bytes, at the start, in the middle or the end: either everything is written, or a failure is reported", words), func(c *core.Ctx) {
		k := words[c.Choose(len(words))]
		w := c.Choose(3)
		m := modeArgs[c.Choose(len(modeArgs))]
		how := inputs[c.Choose(3)]
		word := strings.Repeat("w", k)
		form := []string{"wwvv rails don't", "rails wwvv don't", "rails don't wwvv"}[w]
		in := strings.Replace(form, "wwvv", word, 1)
		c.Describe(func() string {
			return fmt.Sprintf("a word of %d bytes (position %d, %s): jargon %q", k, w, how, m.args)
		})
		res, full := give(c, how, m.args, in, nil)
		if res.code == 0 && res.signal == "" {
			// All of it, then
			want := strings.Replace(m.j.mustExpect(form), "wwvv", word, 1)
			if k < 1000 {
				// A short word might be a term
				want = m.j.mustExpect(in)
			}
			ok(c, full, res, res.out, want)
			return
		}
		if k < 65536 {
			c.Failf("%q: exit status %d for a word of %d bytes: %s", full, res.code, k, h.Clip(res.err))
		}
		failed(c, full, res, "a word is too long")
	})
}
