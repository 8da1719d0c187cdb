package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C04"] = c04
}

// One or more characters of each word break class, and byte sequences that are not valid UTF-8.
var textAtoms = []string{
	"a", " ", ".", "'", "1", "\n", "\r", "\t", ",", "\"", "_", "-", ":", "B", "é", "\u0301", "\u200d", "👍", "🇺", "א", "カ", "中",
	"ก", "\u00ad", "\ufeff", "\x00", "\u0085", "\u00a0", "\u2028", "\xff", "\xc3", "\xe2\x82", "\u2019", "@", "#", "\u3000", "🏽",
	"\xed\xa0\x80", "\ufffd", "\u00b7",
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// lossless checks that a text comes back, through reader or string, and however it is consumed.
func lossless(c *core.Ctx, text string, all bool) {
	ts := h.MustDrain(c, jargon.TokenizeString(text), len(text)+8)
	for i, t := range ts {
		if t.V == "" {
			c.Failf("token %d is empty", i)
		}
	}
	if g := ref.Text(ts); g != text {
		c.Failf("tokens concatenate to %s", h.Clip(g))
	}
	s, err := jargon.TokenizeString(text).String()
	if err != nil || s != text {
		c.Failf("String gives %s, error %v", h.Clip(s), err)
	}
	if !all {
		return
	}
	for _, k := range h.Consumers {
		seen, err := k.Do(c, jargon.Tokenize(strings.NewReader(text)), len(text)+8)
		if err != nil {
			c.Failf("%s: error %v", k.Name, err)
		}
		seen.Agree(c, k.Name, ts)
	}
}

func c01(r *core.Run) {
	atoms := core.Atoms(textAtoms, 24)
	n := r.Pick(4, 5)
	r.Explore("texts", fmt.Sprintf("all texts of at most %d of %d atoms (each word break class, controls, invalid UTF-8)", n, len(atoms)), func(c *core.Ctx) {
		text := h.Text(c, c.Choose(n+1), atoms)
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		lossless(c, text, len(text) <= 8)
	})
	nb := r.Pick(2, 3)
	r.Explore("bytes", fmt.Sprintf("all strings of at most %d bytes, and those bytes between letters", nb), func(c *core.Ctx) {
		k := c.Choose(nb + 1)
		var b []byte
		for i := 0; i < k; i++ {
			b = append(b, byte(c.Choose(256)))
		}
		text := string(b)
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		lossless(c, text, k < 2)
		lossless(c, "a"+text+"b", false)
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("contexts of %U", x) })
		lossless(c, s, false)
		lossless(c, "a"+s+"b "+s+s+"\n1"+s+"2", false)
	})
	// Sizes of words, and of texts, around the sizes of buffers
	sizes := core.Sizes(1<<20, core.Around(15, 16, 64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65000)...)
	fill := []string{"a", "é", "1", "\u0301", "中", "👍", "\xff", "_", "ab ", ". ", "don't ", "a\r\n", "\n"}
	pre := []string{"", " ", "x ", "."}
	post := []string{"", " ", "\n", ".", "'", " y", "'z"}
	r.Explore("long words and texts", fmt.Sprintf("texts of %v bytes of one repeated atom, with what precedes and follows", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		f := fill[c.Choose(len(fill))]
		text := pre[c.Choose(len(pre))] + strings.Repeat(f, n/len(f)) + post[c.Choose(len(post))]
		c.Describe(func() string { return h.Clip(text) })
		if oversize(text) {
			c.Prune()
		}
		lossless(c, text, n < 300)
	})
	huge := core.Huge(1<<20, 5<<20+1, 17<<20+1)
	r.ExploreSerial("huge texts", fmt.Sprintf("texts of %v bytes with long words", huge), func(c *core.Ctx) {
		n := huge[c.Choose(len(huge))]
		c.Describe(func() string { return fmt.Sprintf("%d bytes", n) })
		c.Chosen()
		lossless(c, h.LongWords(n), false)
	})
	// Texts longer than any buffer, where each kind of atom meets each offset in the buffers
	mix := strings.Join(textAtoms, "")
	long := strings.Repeat("The quick brown fox, don't. "+mix+" ", 2500)
	r.Explore("long texts", fmt.Sprintf("a text of %d bytes, started at each of %d offsets", len(long), r.Pick(110, 1000)), func(c *core.Ctx) {
		off := c.Choose(r.Pick(110, 1000))
		text := strings.Repeat("x", off%50) + long[off:]
		c.Describe(func() string { return fmt.Sprintf("long text, offset %d", off) })
		lossless(c, text, false)
		if off < 10 {
			lossless(c, text, true)
		}
	})
}

// oversize tells whether a text has a word too near to, or over the limit of 64 KiB.
func oversize(text string) bool {
	if len(text) < 65000 {
		return false
	}
	for _, t := range ref.Split(text) {
		if len(t) > 65100 {
			return true
		}
	}
	return false
}

// runeSweep runs body for every character.
func runeSweep(r *core.Run, name string, body func(*core.Ctx, rune)) {
	r.Explore(name, "every Unicode code point", func(c *core.Ctx) {
		x := rune(c.Choose(0x1100)*256 + c.Choose(256))
		if !utf8.ValidRune(x) {
			c.Prune()
		}
		body(c, x)
	})
}

// compositions: all ways to cut n bytes into pieces
func chooseCuts(c *core.Ctx, n int) []int {
	var cuts []int
	for i := 1; i < n; i++ {
		if c.Bool() {
			cuts = append(cuts, i)
		}
	}
	return cuts
}

func ones(n int) []int {
	var cuts []int
	for i := 1; i < n; i++ {
		cuts = append(cuts, i)
	}
	return cuts
}

func chunked(c *core.Ctx, text string, cuts []int, eof bool, want []ref.Tok) {
	got := h.MustDrain(c, jargon.Tokenize(h.NewReader(text, cuts, eof)), len(text)+8)
	if !ref.Eq(got, want) {
		c.Describe(func() string {
			return fmt.Sprintf("%s in reads ending at %v, end with data %v", h.Clip(text), cuts, eof)
		})
		h.Same(c, got, want)
	}
}

// ofString: the same from a string
func ofString(c *core.Ctx, text string, want []ref.Tok) {
	got := h.MustDrain(c, jargon.TokenizeString(text), len(text)+8)
	if !ref.Eq(got, want) {
		c.Describe(func() string { return fmt.Sprintf("the string %s", h.Clip(text)) })
		h.Same(c, got, want)
	}
}

func c02(r *core.Run) {
	atoms := core.Atoms(textAtoms, 16)
	r.Explore("all chunkings", "texts of at most 2 atoms (40 and more), every division into reads, end with or after the last bytes", func(c *core.Ctx) {
		text := h.Text(c, c.Choose(3), atoms)
		cuts := chooseCuts(c, min(len(text), 16))
		eof := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("%q in reads ending at %v, end with data %v", text, cuts, eof) })
		chunked(c, text, cuts, eof, ref.Tokens(text))
	})
	// Where a boundary depends on what follows
	look := core.Atoms([]string{"a", "1", ".", "'", ",", "\"", "_", " ", "\u0301", "\u00ad", "\u200d", "א", "カ", "🇺", "👍", "\r", "\n", ":", "\u2019", "🏽", "-", "\xcc", "\u02d7", "^"}, 6)
	n := r.Pick(4, 5)
	r.Explore("splits", fmt.Sprintf("texts of at most %d of %d atoms; every division into two reads, and single bytes with and without empty reads", n, len(look)), func(c *core.Ctx) {
		text := h.Text(c, 1+c.Choose(n), look)
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		want := ref.Tokens(text)
		ofString(c, text, want)
		for i := 1; i < len(text); i++ {
			chunked(c, text, []int{i}, i%2 == 0, want)
		}
		chunked(c, text, ones(len(text)), len(text)%2 == 0, want)
		if len(text) < 8 {
			var empties []int
			for _, k := range ones(len(text)) {
				empties = append(empties, k, k, k)
			}
			chunked(c, text, empties, false, want)
			for i := 1; i < len(text); i++ {
				for j := i + 1; j < len(text); j++ {
					chunked(c, text, []int{i, j}, false, want)
				}
			}
		}
	})
	sandwiches := [][2]string{{"a", "b"}, {"1", "2"}, {"", "a"}, {"א", "א"}, {"\"", "a"}}
	if r.Thorough() {
		sandwiches = append(sandwiches, [2]string{"a.", "b"}, [2]string{"1,", "2"}, [2]string{"a'\u0301", "b"}, [2]string{"カ", "カ"}, [2]string{"🇺", "🇸"}, [2]string{"👍\u200d", "👍"})
	}
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		if !r.Thorough() && (unicode.Is(unicode.Co, x) || unicode.Is(unicode.Han, x) && x%64 != 0 || x >= 0xe0200) {
			c.Prune()
		}
		for i, sw := range sandwiches {
			text := sw[0] + string(x) + sw[1]
			c.Describe(func() string { return fmt.Sprintf("%q", text) })
			want := ref.Tokens(text)
			if i == 0 {
				ofString(c, text, want)
				for i := 1; i < len(text); i++ {
					chunked(c, text, []int{i}, false, want)
				}
			}
			chunked(c, text, ones(len(text)), i%2 == 0, want)
		}
	})
	// Patterns at the edge of the buffers (the scanner starts with 4096 bytes and grows)
	pats := []string{"don't", "a.b", "1,000.5", "a'", "\u0301\u0301x", "🇺🇸🇺🇸", "👍🏽\u200d👍🏽", "א\"א", "\r\n\r\n", "カカ_カ", "a\u00ad\u200d.\u0301b", "a \u2019b", "日本語", "e\u0301'\u0301e\u0301.\u0301e", "x..y", "1.a", "  x   ", "\n\n\t"}
	for _, s := range core.GetNovel().Strings {
		if len(s) < 20 && len(pats) < 24 {
			pats = append(pats, "a"+s+"b")
		}
	}
	edges := core.Sizes(1<<19, r.PickInts([]int{512, 4096, 8192, 65536}, []int{512, 1024, 4096, 8192, 12288, 16384, 65536, 131072})...)
	r.Explore("buffer edges", fmt.Sprintf("%d patterns around offsets %v, at each shift; unlimited reads, reads up to the edge, and reads of 1, 7, 512, 4096 bytes", len(pats), edges), func(c *core.Ctx) {
		p := pats[c.Choose(len(pats))]
		edge := edges[c.Choose(len(edges))]
		shift := c.Choose(len(p) + 3)
		wordy := c.Choose(3)
		k := edge - shift
		if k < 0 {
			c.Prune()
		}
		var pad string
		switch wordy {
		case 0:
			pad = strings.Repeat("w ", k/2) + strings.Repeat(" ", k%2)
		case 1:
			if k >= 60000 {
				c.Prune()
			}
			pad = strings.Repeat("w", k)
		case 2:
			// the pattern itself, so that it is at every place where a text may be cut
			u := p + "  "
			pad = strings.Repeat("w", k%len(u)) + strings.Repeat(u, k/len(u))
		}
		text := pad + p + p + " tail" + strings.Repeat(" "+p, 3)
		var cuts []int
		mode := c.Choose(6)
		switch mode {
		case 5:
			c.Describe(func() string { return fmt.Sprintf("%s at %d, shift %d, pad %d, as a string", p, edge, shift, wordy) })
			h.Same(c, h.MustDrain(c, jargon.TokenizeString(text), len(text)+8), ref.Tokens(text))
			return
		case 1:
			cuts = []int{edge}
		case 2:
			if edge > 9000 {
				c.Prune()
			}
			cuts = ones(len(text))
		case 3:
			for i := 7; i < len(text); i += 7 {
				cuts = append(cuts, i)
			}
		case 4:
			for i := 512; i < len(text); i += 512 {
				cuts = append(cuts, i)
			}
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s at %d, shift %d, pad %d, mode %d", p, edge, shift, wordy, mode)
		})
		chunked(c, text, cuts, c.Bool(), ref.Tokens(text))
	})
	// Any number of combining and formatting characters between a character in the middle of a word and what decides
	lefts, mids, marks := []string{"a", "1", "א", "カ", ""}, []string{"'", ".", ",", "\"", ":", "_", "\u2019", "", "👍"}, []string{"\u0301", "\u00ad", "\u200d", "\u02d7", "\u02b0", "\U000e0101", "🏽"}
	rights := []string{"a", "1", "", " ", "א", "👍"}
	counts := core.Sizes(4000, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 2050, 4000)
	r.Explore("marks", fmt.Sprintf("a character, punctuation, %v marks, and a character; split after the punctuation, within or after the marks, or in bytes", counts), func(c *core.Ctx) {
		l, mid, m, rt := lefts[c.Choose(len(lefts))], mids[c.Choose(len(mids))], marks[c.Choose(len(marks))], rights[c.Choose(len(rights))]
		n := counts[c.Choose(len(counts))]
		text := l + mid + strings.Repeat(m, n) + rt + " z"
		c.Describe(func() string { return fmt.Sprintf("%q, %q, %d times %q, %q", l, mid, n, m, rt) })
		want := ref.Tokens(text)
		at := len(l) + len(mid)
		end := len(text) - len(rt) - 2
		for _, i := range []int{at - 1, at, at + 1, at + len(m), (at + end) / 2, end - len(m), end - 1, end, end + 1} {
			if i > 0 && i < len(text) {
				chunked(c, text, []int{i}, n%2 == 0, want)
			}
		}
		if len(text) < 300 {
			chunked(c, text, ones(len(text)), false, want)
		}
		chunked(c, text, nil, true, want)
	})
	// Kinds of readers, which the tokenizer might know
	texts := []string{"", "a", "don't  stop.", "a\u0301'", "x  y\r\n\r\nz \xff", strings.Repeat("a b  c, don't ", 40), strings.Repeat("\u00e9.\u00e9  1,5 ", 700), strings.Repeat("w", 5000) + "  " + strings.Repeat("can't  ", 12000)}
	kinds := readerKinds()
	r.Explore("reader kinds", fmt.Sprintf("%d texts from %d kinds of readers of the standard library", len(texts), len(kinds)), func(c *core.Ctx) {
		text := texts[c.Choose(len(texts))]
		k := kinds[c.Choose(len(kinds))]
		c.Describe(func() string { return fmt.Sprintf("%s from %s", h.Clip(text), k.name) })
		rd, done := k.open(text)
		defer done()
		h.Same(c, h.MustDrain(c, jargon.Tokenize(rd), len(text)+8), ref.Tokens(text))
	})
	// Whole texts
	words := core.Atoms([]string{"don't", "a.b.c", "@user", "#tag", "3.14", "x-y", "C++", "naïve", "e\u0301", "日本", "👍🏽", "\r\n", "  ", ".", ",", "\"q\"", "http://x.y/z?q=1"}, 8)
	r.Explore("phrases", fmt.Sprintf("3 of %d phrases; delivered whole, in bytes, and split at each byte", len(words)), func(c *core.Ctx) {
		text := h.Text(c, 3, words)
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		want := ref.Tokens(text)
		chunked(c, text, nil, true, want)
		chunked(c, text, ones(len(text)), false, want)
		for i := 1; i < len(text); i++ {
			chunked(c, text, []int{i}, true, want)
		}
		got := h.MustDrain(c, jargon.TokenizeString(text), len(text)+8)
		h.Same(c, got, want)
		got = h.MustDrain(c, jargon.Tokenize(struct{ io.Reader }{strings.NewReader(text)}), len(text)+8)
		h.Same(c, got, want)
	})
}

type readerKind struct {
	name string
	open func(string) (io.Reader, func())
}

// atHand is a reader that gets more whenever it has been read, and tells the length of what it has.
type atHand struct {
	buffer bytes.Buffer
	rest   string
	n      int
}

func (a *atHand) Len() int { return a.buffer.Len() }

func (a *atHand) Read(p []byte) (int, error) {
	if a.buffer.Len() == 0 {
		a.n = a.n*2 + 3
		k := a.n
		if k > len(a.rest) {
			k = len(a.rest)
		}
		a.buffer.WriteString(a.rest[:k])
		a.rest = a.rest[k:]
	}
	return a.buffer.Read(p)
}

func readerKinds() []readerKind {
	none := func() {}
	kinds := []readerKind{
		{"strings.Reader", func(s string) (io.Reader, func()) { return strings.NewReader(s), none }},
		{"bytes.Reader", func(s string) (io.Reader, func()) { return bytes.NewReader([]byte(s)), none }},
		{"bytes.Buffer", func(s string) (io.Reader, func()) { return bytes.NewBufferString(s), none }},
		{"bufio.Reader of 16 bytes", func(s string) (io.Reader, func()) { return bufio.NewReaderSize(strings.NewReader(s), 16), none }},
		{"bufio.Reader, partly read", func(s string) (io.Reader, func()) {
			b := bufio.NewReaderSize(strings.NewReader("\x00"+s), 4096)
			b.ReadByte()
			return b, none
		}},
		{"strings.Reader, partly read", func(s string) (io.Reader, func()) {
			b := strings.NewReader("ab\x00" + s)
			b.Seek(3, 0)
			return b, none
		}},
		{"bytes.Buffer, partly read", func(s string) (io.Reader, func()) {
			b := bytes.NewBufferString("ab\x00" + s)
			b.Next(3)
			return b, none
		}},
		{"io.LimitedReader", func(s string) (io.Reader, func()) {
			return io.LimitReader(strings.NewReader(s+"more"), int64(len(s))), none
		}},
		{"io.SectionReader", func(s string) (io.Reader, func()) {
			return io.NewSectionReader(strings.NewReader("xy"+s+"more"), 2, int64(len(s))), none
		}},
		{"io.MultiReader", func(s string) (io.Reader, func()) {
			return io.MultiReader(strings.NewReader(s[:len(s)/3]), strings.NewReader(""), strings.NewReader(s[len(s)/3:])), none
		}},
		{"io.TeeReader", func(s string) (io.Reader, func()) { return io.TeeReader(strings.NewReader(s), io.Discard), none }},
		{"io.Pipe", func(s string) (io.Reader, func()) {
			pr, pw := io.Pipe()
			go func() {
				io.WriteString(pw, s)
				pw.Close()
			}()
			return pr, func() { pr.Close() }
		}},
		{"one byte at a time", func(s string) (io.Reader, func()) { return iotest.OneByteReader(strings.NewReader(s)), none }},
		{"half of what is asked", func(s string) (io.Reader, func()) { return iotest.HalfReader(strings.NewReader(s)), none }},
		{"end with data", func(s string) (io.Reader, func()) { return iotest.DataErrReader(strings.NewReader(s)), none }},
		{"a reader whose length is that of what it has at hand", func(s string) (io.Reader, func()) { return &atHand{rest: s}, none }},
		{"os.File, from its middle", func(s string) (io.Reader, func()) {
			f, err := os.CreateTemp("", "jargon-mc-*")
			if err != nil {
				panic(err)
			}
			os.Remove(f.Name())
			f.WriteString("xyz" + s)
			f.Seek(3, 0)
			return f, func() { f.Close() }
		}},
		{"os.File, a pipe", func(s string) (io.Reader, func()) {
			pr, pw, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			go func() {
				io.WriteString(pw, s)
				pw.Close()
			}()
			return pr, func() { pr.Close() }
		}},
		{"bufio.ReadWriter", func(s string) (io.Reader, func()) {
			return bufio.NewReadWriter(bufio.NewReaderSize(strings.NewReader(s), 32), nil), none
		}},
		{"io.NopCloser", func(s string) (io.Reader, func()) { return io.NopCloser(strings.NewReader(s)), none }},
	}
	return kinds
}

func checkTok(c *core.Ctx, s string, lemma bool) {
	t := jargon.NewToken(s, lemma)
	if s == "" {
		if t != nil {
			c.Failf("a token for the empty string")
		}
		return
	}
	if t == nil {
		c.Failf("no token for %q", s)
	}
	want := ref.New(s, lemma)
	got := h.Of(t)
	st := core.Hash(got.String())
	c.Step(st)
	c.Outcome(st)
	if got != want {
		c.Failf("NewToken(%q, %v) is %v, expected %v", s, lemma, got, want)
	}
}

func c04(r *core.Run) {
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		s := string(x)
		checkTok(c, s, false)
		checkTok(c, s, true)
		checkTok(c, s+s, false)
		checkTok(c, s+" ", true)
		checkTok(c, "."+s, false)
		checkTok(c, " "+s, false)
		checkTok(c, s+"\n", false)
		checkTok(c, s+"a", true)
		if t, err := jargon.TokenizeString(s).Next(); err != nil || t == nil || h.Of(t) != ref.New(s, false) {
			c.Failf("tokenizing %q gives %v %v", s, t, err)
		}
	})
	atoms := core.Atoms([]string{"a", " ", ".", "\n", "\r", "\t", "\u00a0", "\u0085", "\u3000", "-", "\u2019", "_", "$", "\x00", "\xff", "1", "é", "\u200b", "\ufeff", "\v", "\f", "\u2028", "中", "(", "+", "the", "And", "\ufffd", "\u00ad"}, 24)
	n := r.Pick(4, 5)
	r.Explore("strings", fmt.Sprintf("all strings of at most %d of %d atoms, lemma or not", n, len(atoms)), func(c *core.Ctx) {
		s := h.Text(c, c.Choose(n+1), atoms)
		c.Describe(func() string { return fmt.Sprintf("%q", s) })
		checkTok(c, s, false)
		checkTok(c, s, true)
	})
	// Words in all their cases: those that are common, and others
	ws := []string{"a", "an", "the", "and", "or", "not", "of", "in", "on", "to", "be", "is", "are", "has", "have", "it", "do", "i", "we", "you", "this", "that", "was", "for", "with", "as", "at", "by"}
	r.Explore("common words", "28 common words in every mixture of case, with and without a neighbouring space or period, lemma or not, twice", func(c *core.Ctx) {
		w := []byte(ws[c.Choose(len(ws))])
		for i := range w {
			if c.Bool() {
				w[i] -= 32
			}
		}
		s := string(w)
		c.Describe(func() string { return s })
		for _, x := range []string{s, s + " ", " " + s, s + ".", s} {
			checkTok(c, x, true)
			checkTok(c, x, false)
			checkTok(c, x, true)
		}
	})
	// Histories: the same and other strings before
	hist := core.Atoms([]string{"the", " ", ".", "\n", "a", "\r\n", "x", "\t", ",", "\u00a0"}, 12)
	d := r.Pick(4, 5)
	r.Explore("histories", fmt.Sprintf("all sequences of %d creations of %d strings as lemma or not; every token is inspected at the end", d, len(hist)), func(c *core.Ctx) {
		type made struct {
			t *jargon.Token
			w ref.Tok
		}
		var ms []made
		for i := 0; i < d; i++ {
			s, l := hist[c.Choose(len(hist))], c.Bool()
			ms = append(ms, made{jargon.NewToken(s, l), ref.New(s, l)})
		}
		c.Describe(func() string {
			x := ""
			for _, m := range ms {
				x += m.w.String() + " "
			}
			return x
		})
		for i, m := range ms {
			if m.t == nil || h.Of(m.t) != m.w {
				c.Failf("token %d is %v, expected %v", i, h.Of(m.t), m.w)
			}
		}
		c.Trans(d)
	})
	// Tokens that come out of the tokenizer, after long histories
	r.ExploreSerial("long histories", "one million creations, every one inspected", func(c *core.Ctx) {
		c.Choose(1)
		for i := 0; i < 1000000; i++ {
			s := fmt.Sprintf("w%d", i%300000)
			t := jargon.NewToken(s, i%3 == 0)
			if h.Of(t) != ref.New(s, i%3 == 0) {
				c.Failf("creation %d of %q is %v", i, s, h.Of(t))
			}
			if i%1000 == 0 {
				for _, s := range hist {
					checkTok(c, s, i%2000 == 0)
				}
			}
		}
		c.Trans(1000000)
	})
	long := core.Sizes(1<<18, core.Around(2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1024, 4096)...)
	r.Explore("long strings", fmt.Sprintf("lengths %v of one character with another at each end or in the middle", long), func(c *core.Ctx) {
		n := long[c.Choose(len(long))]
		two := []string{" ", ".", "a", "\n", "\u2028", "、", "\u3000", "é"}
		a, b := two[c.Choose(len(two))], two[c.Choose(len(two))]
		at := c.Choose(4)
		s := strings.Repeat(a, n)
		switch at {
		case 1:
			s = b + s
		case 2:
			s += b
		case 3:
			s = s[:n/2*len(a)] + b + s[n/2*len(a):]
		}
		c.Describe(func() string { return h.Clip(s) })
		checkTok(c, s, false)
		checkTok(c, s, true)
	})
}
