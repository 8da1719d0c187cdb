package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

func init() {
	props["C03"] = c03
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
	props["C25"] = c25
	props["C28"] = c28
	props["C29"] = c29
}

// ---- C05

func c05(r *core.Run) {
	type kind struct {
		name string
		make func(n int) (*jargon.TokenStream, []ref.Tok)
	}
	texts := []string{"", "a", "a ", "a b", "a b.", "don't @user a"}
	htmls := []string{"", "<p>", "<p>a", "a<b>c", "<script> </script>x", "<p>a b</p>"}
	fromText := func(n int) (*jargon.TokenStream, []ref.Tok) {
		return jargon.TokenizeString(texts[n]), ref.Tokens(texts[n])
	}
	kinds := []kind{
		{"source", func(n int) (*jargon.TokenStream, []ref.Tok) {
			ps := append(h.Ps("a", " ", "b", "a", "."), h.P("c", true))[:n]
			ts, rs := h.Split(ps)
			return h.StreamOf(ts), rs
		}},
		{"text", fromText},
		{"reader", func(n int) (*jargon.TokenStream, []ref.Tok) {
			return jargon.Tokenize(h.NewReader(texts[n], ones(len(texts[n])), true)), ref.Tokens(texts[n])
		}},
		{"html", func(n int) (*jargon.TokenStream, []ref.Tok) {
			return jargon.TokenizeHTML(strings.NewReader(htmls[n])), htmlRef(htmls[n])
		}},
	}
	for _, f := range h.Filters() {
		f := f
		kinds = append(kinds, kind{f.Name, func(n int) (*jargon.TokenStream, []ref.Tok) {
			s, ts := fromText(n)
			return f.New()(s), f.Model(ts)
		}})
	}
	kinds = append(kinds, kind{"where", func(n int) (*jargon.TokenStream, []ref.Tok) {
		s, ts := fromText(n)
		return s.Where(func(t *jargon.Token) bool { return t.String() != "a" }), ref.Where(func(t ref.Tok) bool { return t.V != "a" })(ts)
	}})
	d := r.Pick(6, 7)
	ops := []string{"Next", "Scan", "ToSlice", "String", "Count", "WriteTo"}
	body := func(c *core.Ctx, k kind, n, d int) {
		s, list := k.make(n)
		var trace []string
		c.Describe(func() string { return fmt.Sprintf("%s %d: %v", k.name, n, trace) })
		pos := 0
		st := core.HashInt(core.Hash(k.name), n)
		for i := 0; i < d; i++ {
			op := c.Choose(len(ops))
			trace = append(trace, ops[op])
			rest := list[min(pos, len(list)):]
			var last *ref.Tok // expected current token
			switch ops[op] {
			case "Next":
				t, err := s.Next()
				if err != nil {
					c.Failf("Next: error %v", err)
				}
				if (t == nil) != (len(rest) == 0) {
					c.Failf("Next: token %v with %d tokens left", t, len(rest))
				}
				if t != nil {
					if h.Of(t) != rest[0] {
						c.Failf("Next: %v, expected %v", h.Of(t), rest[0])
					}
					last = &rest[0]
					pos++
				}
				if s.Token() != t {
					c.Failf("after Next, Token is %v, not the token %v that was returned", s.Token(), t)
				}
			case "Scan":
				ok := s.Scan()
				if ok != (len(rest) > 0) {
					c.Failf("Scan: %v with %d tokens left", ok, len(rest))
				}
				if ok {
					last = &rest[0]
					pos++
				}
			case "ToSlice":
				ts, err := s.ToSlice()
				if err != nil {
					c.Failf("ToSlice: error %v", err)
				}
				h.Same(c, h.OfAll(ts), rest)
				pos = len(list)
			case "String":
				x, err := s.String()
				if err != nil || x != ref.Text(rest) {
					c.Failf("String: %q %v, expected %q", x, err, ref.Text(rest))
				}
				pos = len(list)
			case "Count":
				x, err := s.Count()
				if err != nil || x != len(rest) {
					c.Failf("Count: %d %v, expected %d", x, err, len(rest))
				}
				pos = len(list)
			case "WriteTo":
				var b strings.Builder
				x, err := s.WriteTo(&b)
				if err != nil || b.String() != ref.Text(rest) || int(x) != b.Len() {
					c.Failf("WriteTo: %d %v %q, expected %q", x, err, b.String(), ref.Text(rest))
				}
				pos = len(list)
			}
			for j := 0; j < 2; j++ { // observing has no effect
				if s.Err() != nil {
					c.Failf("after %s, Err is %v", ops[op], s.Err())
				}
				t := s.Token()
				if (t == nil) != (last == nil) {
					c.Failf("after %s, Token is %v, expected %v", ops[op], t, last)
				}
				if t != nil && h.Of(t) != *last {
					c.Failf("after %s, Token is %v, expected %v", ops[op], h.Of(t), *last)
				}
			}
			c.Step(core.HashInt(st, pos, op))
		}
		c.Outcome(core.HashInt(st, pos))
	}
	r.Explore("operation sequences", fmt.Sprintf("%d kinds of stream of 0 to 5 tokens, all sequences of %d operations of %v; current token and error observed after each", len(kinds), d, ops), func(c *core.Ctx) {
		body(c, kinds[c.Choose(len(kinds))], c.Choose(6), d)
	})
	d2 := r.Pick(7, 9)
	r.Explore("longer sequences", fmt.Sprintf("4 kinds of stream of 5 tokens, all sequences of %d operations", d2), func(c *core.Ctx) {
		body(c, kinds[c.Choose(4)], 5, d2)
	})
	// With failures: the error describes the most recent advance
	r.Explore("failing", fmt.Sprintf("a source that fails after 0 to 3 tokens, all sequences of %d of Next and Scan", d2), func(c *core.Ctx) {
		n := c.Choose(4)
		ts, rs := h.Split(h.Ps("a", " ", "b", "."))
		src := h.NewSource(ts)
		src.Fail, src.Err = n, h.ErrBoom
		s := src.Stream()
		var trace []string
		c.Describe(func() string { return fmt.Sprintf("fails after %d: %v", n, trace) })
		for i := 0; i < d2; i++ {
			var t *jargon.Token
			var err error
			if c.Bool() {
				trace = append(trace, "Next")
				t, err = s.Next()
			} else {
				trace = append(trace, "Scan")
				ok := s.Scan()
				t, err = s.Token(), s.Err()
				if ok != (i < n) {
					c.Failf("Scan %v at %d", ok, i)
				}
			}
			c.Step(core.HashInt(77, n, i))
			if i < n {
				if err != nil || t == nil || h.Of(t) != rs[i] || s.Err() != nil || s.Token() != t {
					c.Failf("at %d: %v %v", i, t, err)
				}
			} else if !h.IsErr(err, h.ErrBoom) || t != nil || !h.IsErr(s.Err(), h.ErrBoom) || s.Token() != nil {
				c.Failf("at %d: token %v, error %v, Token %v, Err %v", i, t, err, s.Token(), s.Err())
			}
		}
	})
	// Long streams, changing style at each place
	sizes := core.Sizes(1<<18, 100, 255, 256, 257, 1000, 1024, 5000, 65535, 65536, 65537, 70000)
	r.Explore("long", fmt.Sprintf("streams of %v tokens; advancing with a style that changes after k tokens, then collecting", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		k := []int{0, 1, 2, 63, 64, 99, n / 2, n - 1, n}[c.Choose(9)]
		op := c.Choose(5)
		if k < 0 || k > n {
			c.Prune()
		}
		var ts []*jargon.Token
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken(fmt.Sprint(i), false))
		}
		s := h.StreamOf(ts)
		c.Describe(func() string { return fmt.Sprintf("%d tokens, %d advanced, op %d", n, k, op) })
		for i := 0; i < k; i++ {
			if i%2 == 0 {
				s.Scan()
			} else {
				s.Next()
			}
			if s.Token() != ts[i] {
				c.Failf("token %d is %v", i, s.Token())
			}
		}
		switch op {
		case 0:
			x, _ := s.Count()
			if x != n-k {
				c.Failf("Count %d, expected %d", x, n-k)
			}
		case 1:
			x, _ := s.ToSlice()
			if len(x) != n-k {
				c.Failf("ToSlice %d, expected %d", len(x), n-k)
			}
			for i := range x {
				if x[i] != ts[k+i] {
					c.Failf("ToSlice: token %d is %v", i, x[i])
				}
			}
		case 2:
			x, _ := s.String()
			w := ref.Text(h.OfAll(ts[k:]))
			if x != w {
				c.Failf("String %s", h.Clip(x))
			}
		case 3:
			for i := k; i < n; i++ {
				if t, err := s.Next(); err != nil || t != ts[i] {
					c.Failf("token %d is %v", i, t)
				}
			}
		case 4:
			for i := k; i < n; i++ {
				if !s.Scan() || s.Token() != ts[i] {
					c.Failf("token %d is %v", i, s.Token())
				}
			}
		}
		for i := 0; i < 3; i++ {
			if t, err := s.Next(); t != nil || err != nil || s.Scan() || s.Token() != nil || s.Err() != nil {
				c.Failf("not at the end: %v %v", t, err)
			}
		}
		c.Trans(n)
	})
}

// ---- C06

type op struct {
	name  string
	apply func(*jargon.TokenStream) *jargon.TokenStream
	model func([]ref.Tok) []ref.Tok
}

func selectors() []op {
	return []op{
		{"Words", (*jargon.TokenStream).Words, ref.Words},
		{"Lemmas", (*jargon.TokenStream).Lemmas, ref.Lemmas},
		{"Distinct", (*jargon.TokenStream).Distinct, ref.Distinct},
		{"Where(not a)", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { return t.String() != "a" })
		}, ref.Where(func(t ref.Tok) bool { return t.V != "a" })},
		{"Where(2nd)", func(s *jargon.TokenStream) *jargon.TokenStream {
			n := 0
			return s.Where(func(t *jargon.Token) bool { n++; return n%2 == 0 })
		}, func(in []ref.Tok) []ref.Tok {
			var out []ref.Tok
			for i, t := range in {
				if i%2 == 1 {
					out = append(out, t)
				}
			}
			return out
		}},
		{"Where(none)", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { return false })
		}, func([]ref.Tok) []ref.Tok { return nil }},
		{"Where(all)", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { return true })
		}, func(in []ref.Tok) []ref.Tok { return in }},
	}
}

func selectAlphabet() []h.Pair {
	a := append(h.Ps("a", " ", ".", "b", "A", "\n", "a ", "\u00a0", "a."), h.Lemmas("a", "b", " ", ".", "ab")...)
	a = append(a, h.Script(" "), h.Script("."), h.Tag("<a>"), h.P("aa", false), h.P("é", false), h.P("e\u0301", false), h.P("+", false))
	for _, s := range core.Atoms(nil, 10) {
		a = append(a, h.P(s, false), h.P(s, true))
	}
	return a
}

func c06(r *core.Run) {
	alphabet := selectAlphabet()
	ops := selectors()
	n := 4
	if len(alphabet) > 21 && !r.Thorough() {
		n = 3
	}
	r.Explore("chains", fmt.Sprintf("all sequences of at most %d of %d tokens, chains of at most 2 operators of %d, every consumer", n, len(alphabet), len(ops)), func(c *core.Ctx) {
		k := c.Choose(3)
		var os []op
		for i := 0; i < k; i++ {
			os = append(os, ops[c.Choose(len(ops))])
		}
		seq := h.SeqUpTo(c, n, alphabet)
		ts, list := h.Split(seq)
		c.Describe(func() string {
			s := fmt.Sprint(h.Refs(seq))
			for _, o := range os {
				s += "." + o.name
			}
			return s
		})
		for _, o := range os {
			list = o.model(list)
		}
		for _, k := range h.Consumers {
			s := h.StreamOf(ts)
			for _, o := range os {
				s = o.apply(s)
			}
			seen, err := k.Do(c, s, len(ts))
			if err != nil {
				c.Failf("%s: error %v", k.Name, err)
			}
			seen.Agree(c, k.Name, list)
		}
		c.Outcome(h.HashToks(list))
	})
	small := append(h.Ps("a", " ", ".", "b"), h.Lemmas("a", ".")...)
	n2 := r.Pick(5, 6)
	r.Explore("longer chains", fmt.Sprintf("all sequences of %d of %d tokens, chains of 3 operators", n2, len(small)), func(c *core.Ctx) {
		var os []op
		for i := 0; i < 3; i++ {
			os = append(os, ops[c.Choose(len(ops))])
		}
		seq := h.Seq(c, n2, small)
		ts, list := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(h.Refs(seq), os[0].name, os[1].name, os[2].name) })
		s := h.StreamOf(ts)
		for _, o := range os {
			s = o.apply(s)
			list = o.model(list)
		}
		h.Same(c, h.MustDrain(c, s, len(ts)), list)
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		v := string(x)
		ts, list := h.Split([]h.Pair{h.P(v, false), h.P("a"+v, false), h.P(v+"a", true), h.P(v, true), h.P(v+" ", false), h.P(v+v, false)})
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		for _, o := range ops[:3] {
			if got := h.MustDrain(c, o.apply(h.StreamOf(ts)), len(ts)); !ref.Eq(got, o.model(list)) {
				c.Failf("%s of %v gives %v, expected %v", o.name, list, got, o.model(list))
			}
		}
		if n, err := h.StreamOf(ts).Words().Lemmas().Distinct().Count(); err != nil || n != len(ref.Distinct(ref.Lemmas(ref.Words(list)))) {
			c.Failf("Words.Lemmas.Distinct of %v counts %d, error %v", list, n, err)
		}
	})
	// The predicate is asked once per token, in order, and kept tokens are the very same
	n3 := r.Pick(12, 16)
	r.Explore("predicates", fmt.Sprintf("%d tokens, every set of accepted positions", n3), func(c *core.Ctx) {
		var ts []*jargon.Token
		for i := 0; i < n3; i++ {
			ts = append(ts, jargon.NewToken([]string{"a", " ", ".", "b"}[i%4], i%3 == 0))
		}
		mask := make([]bool, n3)
		for i := range mask {
			mask[i] = c.Bool()
		}
		c.Describe(func() string { return fmt.Sprint(mask) })
		var asked []*jargon.Token
		s := h.StreamOf(ts).Where(func(t *jargon.Token) bool {
			asked = append(asked, t)
			return mask[(len(asked)-1)%n3]
		})
		got, err := s.ToSlice()
		if err != nil {
			c.Failf("error %v", err)
		}
		if len(asked) != n3 {
			c.Failf("predicate asked %d times for %d tokens", len(asked), n3)
		}
		k := 0
		for i, t := range ts {
			if asked[i] != t {
				c.Failf("predicate call %d was for %v, expected %v", i, asked[i], t)
			}
			if mask[i] {
				if k >= len(got) || got[k] != t {
					c.Failf("kept tokens %v: %d should be %v", got, k, t)
				}
				k++
			}
		}
		if k != len(got) {
			c.Failf("kept %d, expected %d", len(got), k)
		}
		c.Trans(n3)
		c.Outcome(h.HashToks(h.OfAll(got)))
	})
	// However many tokens came before
	sizes := core.Sizes(600000, core.Around(64, 100, 128, 255, 256, 1000, 1024, 4096, 10000, 65536, 100000)...)
	r.Explore("long", fmt.Sprintf("%v distinct values, each repeated right away, later, and once more at the end, with words, spaces and lemmas between", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		var ts []*jargon.Token
		for i := 0; i < n; i++ {
			t := jargon.NewToken(fmt.Sprintf("w%d", i), i%2 == 0)
			ts = append(ts, t, jargon.NewToken(" ", false), t)
		}
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken(fmt.Sprintf("w%d", i), i%2 == 1))
		}
		list := h.OfAll(ts)
		c.Describe(func() string { return fmt.Sprint(n, " distinct values") })
		h.Same(c, h.MustDrain(c, h.StreamOf(ts).Distinct(), len(ts)), ref.Distinct(list))
		h.Same(c, h.MustDrain(c, h.StreamOf(ts).Words().Distinct(), len(ts)), ref.Distinct(ref.Words(list)))
		h.Same(c, h.MustDrain(c, h.StreamOf(ts).Lemmas(), len(ts)), ref.Lemmas(list))
		h.Same(c, h.MustDrain(c, h.StreamOf(ts).Words(), len(ts)), ref.Words(list))
		if x, err := h.StreamOf(ts).Count(); err != nil || x != len(ts) {
			c.Failf("count %d, expected %d", x, len(ts))
		}
	})
	// However long the tokens are, and however much they have in common
	lens := core.Sizes(1<<20, core.Around(1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 10000, 65535, 65536)...)
	r.Explore("long values", fmt.Sprintf("tokens of %v characters, which differ in one character at an end or in the middle, in length or as lemma; each twice or more", lens), func(c *core.Ctx) {
		n := lens[c.Choose(len(lens))]
		if n < 1 {
			c.Prune()
		}
		a := []string{"w", "é", "-", " ", "<", "中"}[c.Choose(6)]
		lemma := c.Bool()
		v := strings.Repeat(a, n)
		m := n / 2 * len(a)
		var ts []*jargon.Token
		for _, x := range []string{v, v, "x" + v[len(a):], v[:m] + "x" + v[m+len(a):], v[:len(v)-len(a)] + "x", v + a, v, v + "x", "x" + v, v + v, "x" + v[len(a):], v[:len(v)-len(a)], v[:m] + "x" + v[m+len(a):], v} {
			if t := jargon.NewToken(x, lemma != (len(ts)%5 == 4)); t != nil {
				ts = append(ts, t)
			}
		}
		list := h.OfAll(ts)
		c.Describe(func() string { return fmt.Sprintf("%d of %q, lemma %v", n, a, lemma) })
		for _, o := range ops[:3] {
			h.Same(c, h.MustDrain(c, o.apply(h.StreamOf(ts)), len(ts)), o.model(list))
		}
	})
	r.ExploreSerial("very long", "400000 distinct values of 4 shapes: all come out", func(c *core.Ctx) {
		shape := c.Choose(4)
		n := 400000
		i := 0
		s := jargon.NewTokenStream(func() (*jargon.Token, error) {
			if i >= 2*n {
				return nil, nil
			}
			k := i % n
			i++
			switch shape {
			case 0:
				return jargon.NewToken(fmt.Sprintf("%x", k), false), nil
			case 1:
				return jargon.NewToken(fmt.Sprintf("value-%d-suffix", k), true), nil
			case 2:
				return jargon.NewToken(fmt.Sprintf("%020d", k), false), nil
			}
			return jargon.NewToken(string([]byte{byte(k), byte(k >> 8), byte(k >> 16), 'x'}), false), nil
		}).Distinct()
		x, err := s.Count()
		if err != nil || x != n {
			c.Failf("%d distinct values, expected %d (error %v)", x, n, err)
		}
		c.Trans(2 * n)
	})
}

// ---- C07

// discard counts only.
type discard int64

func (d *discard) Write(p []byte) (int, error) { *d += discard(len(p)); return len(p), nil }

type failWriter struct {
	limit  int // accepts this many bytes in all, then fails
	call   int // fails at this call (-1: never)
	mode   int // how the failing call answers: 0 nothing accepted, 1 part accepted, 2 all accepted
	err    error
	calls  int
	got    []byte
	failed bool
	after  int
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.err
	}
	if w.call >= 0 && w.calls == w.call {
		w.failed = true
		n := 0
		switch w.mode {
		case 1:
			n = len(p) / 2
		case 2:
			n = len(p)
		}
		w.got = append(w.got, p[:n]...)
		return n, w.err
	}
	w.calls++
	if w.limit >= 0 && len(w.got)+len(p) > w.limit {
		n := w.limit - len(w.got)
		w.got = append(w.got, p[:n]...)
		w.failed = true
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

type stringWriter struct{ *failWriter }

func (w stringWriter) WriteString(s string) (int, error) { return w.failWriter.Write([]byte(s)) }

func c07(r *core.Run) {
	texts := core.Atoms([]string{"", "a", "a b", "don't stop. ", "日本語 é\xff", "<p>x", "@user #tag ruby on rails", "ab cd ef gh ij"}, 6)
	type src struct {
		name string
		make func(string) *jargon.TokenStream
	}
	srcs := []src{
		{"text", jargon.TokenizeString},
		{"html", func(s string) *jargon.TokenStream { return jargon.TokenizeHTML(strings.NewReader(s)) }},
	}
	for _, f := range h.Filters() {
		f := f
		srcs = append(srcs, src{f.Name, func(s string) *jargon.TokenStream { return f.New()(jargon.TokenizeString(s)) }})
	}
	check := func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, dst io.Writer, full string) {
		n, err := s.WriteTo(dst)
		c.Trans(w.calls + 1)
		c.Step(core.HashInt(core.Hash(string(w.got)), int(n)))
		c.Outcome(core.HashInt(core.Hash(string(w.got)), int(n)))
		if n != int64(len(w.got)) {
			c.Failf("returned %d, the destination accepted %d bytes (error %v)", n, len(w.got), err)
		}
		if !strings.HasPrefix(full, string(w.got)) {
			c.Failf("wrote %s, not a prefix of %s", h.Clip(string(w.got)), h.Clip(full))
		}
		if w.failed {
			if !h.IsErr(err, w.err) {
				c.Failf("the destination failed with %v, WriteTo returned %v", w.err, err)
			}
			if w.after > 0 {
				c.Failf("%d more writes after the failure", w.after)
			}
		} else {
			if err != nil {
				c.Failf("error %v", err)
			}
			if string(w.got) != full {
				c.Failf("wrote %s, expected %s", h.Clip(string(w.got)), h.Clip(full))
			}
		}
	}
	errs := h.Errs[:r.Pick(5, len(h.Errs))]
	errs = append([]error{io.EOF, io.ErrShortWrite}, errs...)
	r.Explore("failures", fmt.Sprintf("%d kinds of stream, %d texts; failing at every byte, or at every call with nothing, part or all of it accepted; %d error values; with and without WriteString", len(srcs), len(texts), len(errs)), func(c *core.Ctx) {
		k := srcs[c.Choose(len(srcs))]
		text := texts[c.Choose(len(texts))]
		full, err := k.make(text).String()
		if err != nil {
			c.Failf("error %v", err)
		}
		w := &failWriter{limit: -1, call: -1, err: errs[c.Choose(len(errs))]}
		switch c.Choose(3) {
		case 1:
			w.limit = c.Choose(len(full) + 2)
		case 2:
			w.call = c.Choose(8)
			w.mode = c.Choose(3)
		}
		var dst io.Writer = w
		sw := c.Bool()
		if sw {
			dst = stringWriter{w}
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s %q limit %d call %d mode %d err %v stringwriter %v", k.name, text, w.limit, w.call, w.mode, w.err, sw)
		})
		check(c, k.make(text), w, dst, full)
	})
	more := append([]error(nil), h.MoreErrs...)
	r.Explore("error values", fmt.Sprintf("%d more error values; 3 kinds of stream; at 4 bytes, or a call with nothing, part or all accepted; with and without WriteString", len(more)), func(c *core.Ctx) {
		k := srcs[c.Choose(3)]
		w := &failWriter{limit: -1, call: -1, err: more[c.Choose(len(more))]}
		text := "ab cd ef gh ij"
		if m := c.Choose(4); m == 0 {
			w.limit = []int{0, 1, 5, 13}[c.Choose(4)]
		} else {
			w.call, w.mode = []int{0, 1, 4, 8}[c.Choose(4)], m-1
		}
		var dst io.Writer = w
		sw := c.Bool()
		if sw {
			dst = stringWriter{w}
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s %q limit %d call %d mode %d err %T %q stringwriter %v", k.name, text, w.limit, w.call, w.mode, w.err, w.err, sw)
		})
		check(c, k.make(text), w, dst, text)
	})
	// Long streams, in case output is collected before it is written
	sizes := core.Sizes(1<<18, core.Around(512, 1024, 4096, 8192, 32768, 65536)...)
	long := strings.Repeat("abcdef gh. ", 20000)
	r.Explore("long", fmt.Sprintf("a text of %d bytes, failing after %v bytes or at calls around these", len(long), sizes), func(c *core.Ctx) {
		k := sizes[c.Choose(len(sizes))]
		w := &failWriter{limit: -1, call: -1, err: h.ErrBoom}
		m := c.Choose(4)
		if m == 0 {
			w.limit = k
		} else {
			w.call, w.mode = k, m-1
		}
		c.Describe(func() string { return fmt.Sprintf("limit %d call %d mode %d", w.limit, w.call, w.mode) })
		check(c, jargon.TokenizeString(long), w, w, long)
	})
	totals := []int64{1<<31 - 1, 1 << 31, 1<<32 + 5}
	r.ExploreSerial("very much", fmt.Sprintf("%v bytes in all, in tokens of 16 MB", totals), func(c *core.Ctx) {
		total := totals[c.Choose(len(totals))]
		c.Describe(func() string { return fmt.Sprintf("%d bytes", total) })
		c.Chosen()
		const most = 1 << 24
		big := jargon.NewToken(strings.Repeat("x", most), false)
		left := total
		s := jargon.NewTokenStream(func() (*jargon.Token, error) {
			if left == 0 {
				return nil, nil
			}
			if left >= most {
				left -= most
				return big, nil
			}
			t := jargon.NewToken(strings.Repeat("y", int(left)), false)
			left = 0
			return t, nil
		})
		var got discard
		n, err := s.WriteTo(&got)
		if n != total || int64(got) != total || err != nil {
			c.Failf("%d bytes in tokens, WriteTo returns %d, error %v, the destination received %d", total, n, err, got)
		}
	})
	// Kinds of destinations, which might be known and treated specially
	wk := writerKinds()
	many := []string{"", "a", "don't stop. ", "ab cd ef gh ij\n", strings.Repeat("日本 é\xff. ", 30), strings.Repeat("abcdef gh. ", 2000)}
	r.Explore("writer kinds", fmt.Sprintf("%d texts, plain and through a filter, after 0 to 2 tokens, into %d kinds of destinations, failing after k bytes (9 values) or never", len(many), len(wk)), func(c *core.Ctx) {
		text := many[c.Choose(len(many))]
		k := wk[c.Choose(len(wk))]
		limit := -1
		if k.fails {
			if i := c.Choose(10); i < 9 {
				limit = []int{0, 1, 2, 15, 16, 17, 100, 4096, 4097}[i]
			}
		}
		s := jargon.TokenizeString(text)
		if c.Bool() {
			s = s.Filter(h.Some("contractions")[0].New())
		}
		skip := c.Choose(3)
		c.Describe(func() string {
			return fmt.Sprintf("%s into %s after %d tokens, failing after %d bytes", h.Clip(text), k.name, skip, limit)
		})
		ts, err := h.Drain(c, s, len(text)*4+10)
		if err != nil {
			c.Failf("error %v", err)
		}
		src := h.NewSource(nil)
		for _, t := range ts {
			src.Toks = append(src.Toks, jargon.NewToken(t.V, t.L))
		}
		s = src.Stream()
		for i := 0; i < skip; i++ {
			if i == 0 {
				s.Scan()
			} else {
				s.Next()
			}
			if len(ts) > 0 {
				ts = ts[1:]
			}
		}
		want := ref.Text(ts)
		w := &failWriter{limit: limit, call: -1, err: h.ErrBoom}
		k.run(c, s, w, want)
	})
	// The source fails instead
	r.Explore("failing source", "a source that fails after 0 to 6 tokens, and a destination that fails at any byte or not", func(c *core.Ctx) {
		ts, rs := h.Split(h.Ps("ab", " ", "cd", ".", "é", "f"))
		s := h.NewSource(ts)
		s.Fail, s.Err = c.Choose(7), h.ErrWrapEOF
		part := ref.Text(rs[:s.Fail])
		w := &failWriter{limit: c.Choose(len(part)+2) - 1, call: -1, err: h.ErrBoom}
		c.Describe(func() string { return fmt.Sprintf("source fails at %d, destination after %d", s.Fail, w.limit) })
		n, err := s.Stream().WriteTo(w)
		c.Trans(w.calls + 1)
		c.Outcome(core.HashInt(core.Hash(string(w.got)), int(n)))
		if n != int64(len(w.got)) || !strings.HasPrefix(part, string(w.got)) {
			c.Failf("returned %d, wrote %q of %q", n, w.got, part)
		}
		want := s.Err
		if w.failed {
			want = w.err
		} else if string(w.got) != part {
			c.Failf("wrote %q, expected %q before the failure", w.got, part)
		}
		if !h.IsErr(err, want) {
			c.Failf("error %v, expected %v", err, want)
		}
	})
}

type writerKind struct {
	name  string
	fails bool
	run   func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, want string)
}

type byteWriter struct{ stringWriter }

func (w byteWriter) WriteByte(b byte) error {
	_, err := w.failWriter.Write([]byte{b})
	return err
}

type readerFrom struct{ *failWriter }

func (w readerFrom) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w.failWriter}, r)
}

type anyWriter struct{ byteWriter }

func (w anyWriter) ReadFrom(r io.Reader) (int64, error) { return readerFrom{w.failWriter}.ReadFrom(r) }
func (w anyWriter) WriteRune(r rune) (int, error)       { return w.failWriter.Write([]byte(string(r))) }
func (w anyWriter) Flush() error                        { return nil }
func (w anyWriter) Close() error {
	w.failWriter.err = fmt.Errorf("closed")
	w.failWriter.limit = 0
	return nil
}

func writerKinds() []writerKind {
	direct := func(name string, wrap func(*failWriter) io.Writer) writerKind {
		return writerKind{name, true, func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, want string) {
			n, err := s.WriteTo(wrap(w))
			c.Outcome(core.HashInt(core.Hash(string(w.got)), int(n)))
			if n != int64(len(w.got)) {
				c.Failf("returned %d, the destination accepted %d bytes (error %v)", n, len(w.got), err)
			}
			if !strings.HasPrefix(want, string(w.got)) {
				c.Failf("wrote %s, not a prefix of %s", h.Clip(string(w.got)), h.Clip(want))
			}
			if w.failed {
				if !h.IsErr(err, w.err) || w.after > 0 {
					c.Failf("the destination failed with %v, WriteTo returned %v after %d more writes", w.err, err, w.after)
				}
			} else if err != nil || string(w.got) != want {
				c.Failf("wrote %s of %s, error %v", h.Clip(string(w.got)), h.Clip(want), err)
			}
		}}
	}
	whole := func(name string, do func(s *jargon.TokenStream) (string, int64, error)) writerKind {
		return writerKind{name, false, func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, want string) {
			got, n, err := do(s)
			c.Outcome(core.HashInt(core.Hash(got), int(n)))
			if err != nil || n != int64(len(want)) || got != want {
				c.Failf("returned %d and %v, wrote %s, expected %s", n, err, h.Clip(got), h.Clip(want))
			}
		}}
	}
	buffered := func(size int) writerKind {
		return writerKind{fmt.Sprintf("bufio.Writer of %d bytes", size), true, func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, want string) {
			b := bufio.NewWriterSize(w, size)
			n, err := s.WriteTo(b)
			ferr := b.Flush()
			c.Outcome(core.HashInt(core.Hash(string(w.got)), int(n)))
			if !strings.HasPrefix(want, string(w.got)) || n < int64(len(w.got)) || n > int64(len(want)) {
				c.Failf("returned %d and %v, wrote %s of %s", n, err, h.Clip(string(w.got)), h.Clip(want))
			}
			if w.failed {
				if err != nil && !h.IsErr(err, w.err) || err == nil && !h.IsErr(ferr, w.err) || err == nil && n != int64(len(want)) {
					c.Failf("the destination failed with %v, WriteTo returned %v after %d bytes, Flush %v", w.err, err, n, ferr)
				}
			} else if err != nil || ferr != nil || n != int64(len(want)) || string(w.got) != want {
				c.Failf("returned %d and %v, wrote %s, expected %s", n, err, h.Clip(string(w.got)), h.Clip(want))
			}
		}}
	}
	return []writerKind{
		direct("io.Writer", func(w *failWriter) io.Writer { return w }),
		direct("io.StringWriter", func(w *failWriter) io.Writer { return stringWriter{w} }),
		direct("io.ByteWriter", func(w *failWriter) io.Writer { return byteWriter{stringWriter{w}} }),
		direct("io.ReaderFrom", func(w *failWriter) io.Writer { return readerFrom{w} }),
		direct("all of them, Flush and Close", func(w *failWriter) io.Writer { return anyWriter{byteWriter{stringWriter{w}}} }),
		direct("io.MultiWriter", func(w *failWriter) io.Writer { return io.MultiWriter(w, io.Discard) }),
		buffered(16), buffered(64), buffered(4096),
		whole("bytes.Buffer", func(s *jargon.TokenStream) (string, int64, error) {
			var b bytes.Buffer
			n, err := s.WriteTo(&b)
			return b.String(), n, err
		}),
		whole("bytes.Buffer with contents", func(s *jargon.TokenStream) (string, int64, error) {
			b := bytes.NewBufferString("before")
			n, err := s.WriteTo(b)
			return strings.TrimPrefix(b.String(), "before"), n, err
		}),
		whole("strings.Builder", func(s *jargon.TokenStream) (string, int64, error) {
			var b strings.Builder
			n, err := s.WriteTo(&b)
			return b.String(), n, err
		}),
		whole("io.Pipe", func(s *jargon.TokenStream) (string, int64, error) {
			pr, pw := io.Pipe()
			out := make(chan string)
			go func() {
				b, _ := io.ReadAll(iotest.OneByteReader(pr))
				out <- string(b)
			}()
			n, err := s.WriteTo(pw)
			pw.Close()
			return <-out, n, err
		}),
		whole("os.File", func(s *jargon.TokenStream) (string, int64, error) {
			f, err := os.CreateTemp("", "jargon-mc-w")
			if err != nil {
				return "", -1, err
			}
			defer os.Remove(f.Name())
			defer f.Close()
			n, err := s.WriteTo(f)
			b, _ := os.ReadFile(f.Name())
			return string(b), n, err
		}),
		{"io.Pipe closed by the reader", true, func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, want string) {
			if w.limit < 0 {
				c.Prune()
			}
			pr, pw := io.Pipe()
			out := make(chan string)
			go func() {
				b := make([]byte, w.limit)
				n, _ := io.ReadFull(pr, b)
				pr.CloseWithError(h.ErrBoom)
				out <- string(b[:n])
			}()
			n, err := s.WriteTo(pw)
			pw.Close()
			got := <-out
			if n != int64(len(got)) || !strings.HasPrefix(want, got) || len(got) < len(want) && !h.IsErr(err, h.ErrBoom) {
				c.Failf("returned %d and %v, the other end read %s of %s", n, err, h.Clip(got), h.Clip(want))
			}
		}},
		{"closed os.File", false, func(c *core.Ctx, s *jargon.TokenStream, w *failWriter, want string) {
			f, err := os.Open(os.DevNull)
			if err != nil {
				c.Prune()
			}
			f.Close()
			n, err := s.WriteTo(f)
			if n != 0 || want != "" && !errors.Is(err, os.ErrClosed) || want == "" && err != nil {
				c.Failf("returned %d and %v", n, err)
			}
		}},
	}
}

// ---- C03

type pipe struct {
	name  string
	fs    []h.F
	model func([]ref.Tok) []ref.Tok
}

func pipes(fs []h.F, n int) []pipe {
	out := []pipe{{"plain", nil, func(x []ref.Tok) []ref.Tok { return x }}}
	prev := out
	for d := 0; d < n; d++ {
		var cur []pipe
		for _, p := range prev {
			for _, f := range fs {
				p, f := p, f
				cur = append(cur, pipe{p.name + "." + f.Name, append(append([]h.F(nil), p.fs...), f), func(x []ref.Tok) []ref.Tok { return f.Model(p.model(x)) }})
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out
}

func (p pipe) apply(s *jargon.TokenStream) *jargon.TokenStream {
	for _, f := range p.fs {
		s = f.New()(s)
	}
	return s
}

// failing checks a pipeline over something that fails, where data is the model's view of what could be read.
func failing(c *core.Ctx, p pipe, make func() *jargon.TokenStream, full []ref.Tok, injected error) {
	failingOnce(c, p, make, full, injected, false)
}

func failingOnce(c *core.Ctx, p pipe, make func() *jargon.TokenStream, full []ref.Tok, injected error, once bool) {
	max := len(full)*4 + 64
	for _, k := range h.Consumers {
		s := p.apply(make())
		seen, err := k.Do(c, s, max)
		if err == nil {
			c.Failf("%s: clean end instead of %v; saw %s", k.Name, injected, h.Short(seen.Toks))
		}
		if !h.IsErr(err, injected) {
			c.Failf("%s: error %v instead of %v", k.Name, err, injected)
		}
		if seen.HasToks && !ref.IsPrefix(seen.Toks, full) {
			c.Failf("%s: delivered %s, not a prefix of %s", k.Name, h.Short(seen.Toks), h.Short(full))
		}
		if !seen.NoText && !strings.HasPrefix(ref.Text(full), seen.Text) {
			c.Failf("%s: delivered %s, not a prefix of %s", k.Name, h.Clip(seen.Text), h.Clip(ref.Text(full)))
		}
		if seen.NoText && seen.Count > len(full) {
			c.Failf("%s: counted %d of %d", k.Name, seen.Count, len(full))
		}
		c.Outcome(core.HashInt(core.Hash(p.name, k.Name, seen.Text), seen.Count))
		if once {
			continue
		}
		// And again
		for i := 0; i < 4; i++ {
			switch i {
			case 0, 2:
				if t, err := s.Next(); err == nil && t == nil {
					c.Failf("%s: asking again (%d) reports a clean end", k.Name, i)
				}
			case 1:
				if !s.Scan() && s.Err() == nil {
					c.Failf("%s: scanning again (%d) reports a clean end", k.Name, i)
				}
			case 3:
				if _, err := s.ToSlice(); err == nil {
					c.Failf("%s: collecting again reports a clean end", k.Name)
				}
			}
		}
	}
}

func c03(r *core.Run) {
	texts := core.Atoms([]string{"a", "don't @user, Ruby on Rails and c. #tag", "café $abc the rails B", "  \n..", "x@é@user", "a b the a bb\r\n'1.5 e\u0301", "LeBron James"}, 4)
	all := pipes(h.Filters(), 1)
	two := pipes(h.Some("ascii", "contractions", "stackoverflow", "handles", "stem", "stop", "words", "lemmas", "distinct", "synonyms", "lower", "sigil"), 2)
	if !r.Thorough() {
		two = append(all, pipes(h.Some("contractions", "synonyms", "handles", "stop", "distinct", "lower"), 2)[7:]...)
	} else {
		two = append(all, two[13:]...)
	}
	errs := h.Errs
	r.Explore("readers", fmt.Sprintf("%d texts failing at every byte; %d pipelines; %d error values; error with or after the last bytes; read whole or in single bytes; every consumer", len(texts), len(two), len(errs)), func(c *core.Ctx) {
		p := two[c.Choose(len(two))]
		text := texts[c.Choose(len(texts))]
		at := c.Choose(len(text) + 1)
		mode := c.Choose(4)
		e := errs[(at+mode+len(p.name))%len(errs)]
		if len(p.fs) < 2 {
			e = errs[c.Choose(len(errs))]
		}
		c.Describe(func() string { return fmt.Sprintf("%s: %q fails at %d with %v, mode %d", p.name, text, at, e, mode) })
		mk := func() *jargon.TokenStream {
			rd := h.NewReader(text, nil, mode&1 == 1)
			if mode&2 == 2 {
				rd.Cuts = ones(len(text))
			}
			rd.FailAt, rd.Err = at, e
			return jargon.Tokenize(rd)
		}
		failing(c, p, mk, p.model(ref.Tokens(text[:at])), e)
	})
	htmls := core.Atoms([]string{"<p>a b</p>", "x<script> y </script>don't<!-- c -->", "<a href='x y'>Ruby on Rails</a> &amp; <", "<style>b</style><br/>the @user", "<title>a</title><textarea> b"}, 4)
	hp := pipes(h.Some("contractions", "stackoverflow", "handles", "words", "distinct", "stem", "stop", "synonyms"), 1)
	r.Explore("html readers", fmt.Sprintf("%d documents failing at every byte; %d pipelines; %d error values; every consumer", len(htmls), len(hp), len(errs)), func(c *core.Ctx) {
		p := hp[c.Choose(len(hp))]
		text := htmls[c.Choose(len(htmls))]
		at := c.Choose(len(text) + 1)
		mode := c.Choose(4)
		e := errs[c.Choose(len(errs))]
		c.Describe(func() string { return fmt.Sprintf("%s: %q fails at %d with %v, mode %d", p.name, text, at, e, mode) })
		mk := func() *jargon.TokenStream {
			rd := h.NewReader(text, nil, mode&1 == 1)
			if mode&2 == 2 {
				rd.Cuts = ones(len(text))
			}
			rd.FailAt, rd.Err = at, e
			return jargon.TokenizeHTML(rd)
		}
		failing(c, p, mk, p.model(htmlRef(text[:at])), e)
	})
	alphabet := append(h.Ps("a", " ", "b", ".", "@", "user", "the", "don't", "$", "é"), h.P("c", true))
	n := r.Pick(3, 4)
	pp := pipes(h.Filters(), 1)
	r.Explore("sources", fmt.Sprintf("all sequences of %d of %d tokens, failing after each; %d pipelines; every consumer", n, len(alphabet), len(pp)), func(c *core.Ctx) {
		p := pp[c.Choose(len(pp))]
		k := c.Choose(n + 1)
		seq := h.Seq(c, k, alphabet)
		ts, rs := h.Split(seq)
		e := errs[(k+len(p.name))%len(errs)]
		c.Describe(func() string { return fmt.Sprintf("%s: %v then %v", p.name, rs, e) })
		mk := func() *jargon.TokenStream {
			s := h.NewSource(ts)
			s.Fail, s.Err = k, e
			return s.Stream()
		}
		failing(c, p, mk, p.model(rs), e)
	})
	// Failures far into a text
	sizes := core.Sizes(1<<19, core.Around(511, 4096, 8192, 65536, 150000)...)
	long := strings.Repeat("The quick brown fox doesn't jump @over Ruby on Rails, é. ", 9000)
	lp := pipes(h.Some("contractions", "stackoverflow", "handles", "words", "distinct", "stem", "synonyms"), 1)
	lateRef := map[int][]ref.Tok{}
	lateModel := map[string][]ref.Tok{}
	for _, at := range sizes {
		if at <= len(long) {
			lateRef[at] = ref.Tokens(long[:at])
			for _, p := range lp {
				lateModel[fmt.Sprint(p.name, at)] = p.model(lateRef[at])
			}
		}
	}
	r.Explore("late failures", fmt.Sprintf("a long text failing at %v; %d pipelines; every consumer", sizes, len(lp)), func(c *core.Ctx) {
		p := lp[c.Choose(len(lp))]
		at := sizes[c.Choose(len(sizes))]
		html := c.Bool()
		e := errs[c.Choose(2)]
		if at > len(long) {
			c.Prune()
		}
		c.Describe(func() string { return fmt.Sprintf("%s: fails at %d with %v html %v", p.name, at, e, html) })
		mk := func() *jargon.TokenStream {
			rd := h.NewReader(long, nil, at%2 == 0)
			rd.FailAt, rd.Err = at, e
			if html {
				return jargon.TokenizeHTML(rd)
			}
			return jargon.Tokenize(rd)
		}
		failing(c, p, mk, lateModel[fmt.Sprint(p.name, at)], e)
	})
	// A failure which is reported once
	r.Explore("failures reported once", fmt.Sprintf("%d texts, failing at every byte, after which the reader ends or goes on; read as text, html or tokens; %d pipelines; every consumer", len(texts), len(pp)), func(c *core.Ctx) {
		p := pp[c.Choose(len(pp))]
		text := texts[c.Choose(len(texts))]
		at := c.Choose(len(text) + 1)
		kind := c.Choose(6)
		c.Describe(func() string { return fmt.Sprintf("%s: %q fails once at %d, kind %d", p.name, text, at, kind) })
		if kind >= 4 {
			k := len(ref.Tokens(text[:at]))
			toks := ref.Tokens(text)
			if k > len(toks) || !ref.Eq(toks[:k], ref.Tokens(text[:at])) {
				c.Prune()
			}
			failingOnce(c, p, func() *jargon.TokenStream {
				s := h.NewSource(nil)
				for i, t := range toks {
					if i < k || kind == 5 {
						s.Toks = append(s.Toks, jargon.NewToken(t.V, false))
					}
				}
				s.Fail, s.Err, s.Once = k, h.ErrBoom, true
				return s.Stream()
			}, p.model(toks[:k]), h.ErrBoom, true)
			return
		}
		read := ref.Tokens(text[:at])
		if kind%2 == 1 {
			read = htmlRef(text[:at])
		}
		failing(c, p, func() *jargon.TokenStream {
			rd := h.NewReader(text, nil, at%2 == 1)
			rd.FailAt, rd.Err, rd.Once = at, h.ErrBoom, 1+kind/2
			if kind%2 == 1 {
				return jargon.TokenizeHTML(rd)
			}
			return jargon.Tokenize(rd)
		}, p.model(read), h.ErrBoom)
	})
	// What kind of error it is makes no difference
	many := append(append([]error(nil), h.Errs...), h.MoreErrs...)
	ap := pipes(h.Filters(), 1)
	r.Explore("error values", fmt.Sprintf("%d error values of the standard library and look-alikes of the end, from a reader of text or html or a source of tokens; at 5 places; %d pipelines; every consumer", len(many), len(ap)), func(c *core.Ctx) {
		p := ap[c.Choose(len(ap))]
		e := many[c.Choose(len(many))]
		at := []int{0, 1, 6, 9, 21}[c.Choose(5)]
		kind := c.Choose(4)
		text := "don't @user, Ruby on Rails"
		c.Describe(func() string { return fmt.Sprintf("%s: fails at %d with %T %q, kind %d", p.name, at, e, e, kind) })
		full := p.model(ref.Tokens(text[:at]))
		failing(c, p, func() *jargon.TokenStream {
			rd := h.NewReader(text, nil, kind == 1)
			rd.FailAt, rd.Err = at, e
			switch kind {
			case 2:
				return jargon.TokenizeHTML(rd)
			case 3:
				s := h.NewSource(nil)
				for _, t := range ref.Tokens(text[:at]) {
					s.Toks = append(s.Toks, jargon.NewToken(t.V, false))
				}
				s.Fail, s.Err = len(s.Toks), e
				return s.Stream()
			}
			return jargon.Tokenize(rd)
		}, full, e)
	})
	// Whatever is reported once, with the last bytes or after them
	op := pipes(h.Some("contractions", "handles", "synonyms"), 1)
	r.Explore("error values, once", fmt.Sprintf("%d error values, reported once, with data or without, after which the reader ends or goes on; text or html; at 7 places, in whole reads or bytes; %d pipelines; every consumer", len(many), len(op)), func(c *core.Ctx) {
		p := op[c.Choose(len(op))]
		e := many[c.Choose(len(many))]
		text := "don't @user, Ruby on Rails"
		at := []int{0, 1, 5, 6, 9, 21, len(text)}[c.Choose(7)]
		html, with, goes, bytewise := c.Bool(), c.Bool(), c.Bool(), c.Bool()
		c.Describe(func() string {
			return fmt.Sprintf("%s: fails once at %d with %T %q, html %v, with the data %v, goes on %v, bytewise %v", p.name, at, e, e, html, with, goes, bytewise)
		})
		read := ref.Tokens(text[:at])
		if html {
			read = htmlRef(text[:at])
		}
		failing(c, p, func() *jargon.TokenStream {
			rd := h.NewReader(text, nil, with)
			if bytewise {
				rd.Cuts = ones(len(text))
			}
			rd.FailAt, rd.Err, rd.Once = at, e, 1
			if goes {
				rd.Once = 2
			}
			if html {
				return jargon.TokenizeHTML(rd)
			}
			return jargon.Tokenize(rd)
		}, p.model(read), e)
	})
	// A word over the limit of the tokenizer is a failure to read, unless the tokenizer can do it after all
	r.Explore("words over the limit", "words of 66 000, 70 000 and 200 000 bytes after 0 to 2 others; text and html; every consumer: an error, or all of it", func(c *core.Ctx) {
		n := []int{66000, 70000, 200000}[c.Choose(3)]
		text := []string{"", "x ", "x y "}[c.Choose(3)] + strings.Repeat("w", n) + " z"
		html := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("%s html %v", h.Clip(text), html) })
		full := ref.Tokens(text)
		for _, k := range h.Consumers {
			s := jargon.TokenizeString(text)
			if html {
				s = jargon.TokenizeHTML(strings.NewReader(text))
			}
			seen, err := k.Do(c, s, 100)
			if err == nil {
				seen.Agree(c, k.Name, full)
				continue
			}
			if seen.HasToks && !ref.IsPrefix(seen.Toks, full) {
				c.Failf("%s: delivered %s", k.Name, h.Short(seen.Toks))
			}
			if t, err := s.Next(); t == nil && err == nil {
				c.Failf("%s: asking again reports a clean end", k.Name)
			}
		}
	})
}

// again asks a stream which has ended for more.
func again(c *core.Ctx, s *jargon.TokenStream, how int, failed error) {
	switch how {
	case 0:
		t, err := s.Next()
		if failed == nil && (t != nil || err != nil) || failed != nil && t == nil && err == nil {
			c.Failf("a stream that has ended (%v), asked again: %v %v", failed, t, err)
		}
	case 1:
		if s.Scan() && failed == nil || s.Err() != nil && failed == nil {
			c.Failf("a stream that has ended, scanned again: %v %v", s.Token(), s.Err())
		}
	case 2:
		ts, err := s.ToSlice()
		if failed == nil && (len(ts) > 0 || err != nil) || failed != nil && err == nil {
			c.Failf("a stream that has ended (%v), collected again: %v %v", failed, ts, err)
		}
	case 3:
		n, err := s.Count()
		if failed == nil && (n > 0 || err != nil) || failed != nil && err == nil {
			c.Failf("a stream that has ended (%v), counted again: %v %v", failed, n, err)
		}
	}
}

// ---- C25

func c25(r *core.Run) {
	inputs := []string{"a b c", "don't a. b", "@user a", "the the a b", "Ruby on Rails", "café x.", "", "$abc #tag B"}
	fs := h.Filters()
	type st struct {
		s    *jargon.TokenStream
		want []ref.Tok
		err  error
		got  []ref.Tok
		done bool
	}
	mk := func(f jargon.Filter, m func([]ref.Tok) []ref.Tok, in string, failAt int, e error) *st {
		src := h.NewSource(nil)
		for _, t := range ref.Tokens(in) {
			src.Toks = append(src.Toks, jargon.NewToken(t.V, false))
		}
		full := ref.Tokens(in)
		if failAt >= 0 && failAt < len(full) {
			src.Fail, src.Err = failAt, e
			return &st{s: f(src.Stream()), want: m(full[:failAt]), err: e}
		}
		return &st{s: f(src.Stream()), want: m(full)}
	}
	advance := func(c *core.Ctx, i int, x *st) {
		t, err := x.s.Next()
		c.Trans(1)
		if err != nil {
			if x.err == nil || !h.IsErr(err, x.err) {
				c.Failf("stream %d: error %v", i, err)
			}
			x.done = true
			return
		}
		if t == nil {
			if x.err != nil {
				c.Failf("stream %d ends cleanly, it should fail", i)
			}
			if !ref.Eq(x.got, x.want) {
				c.Failf("stream %d gives %v, alone it gives %v", i, x.got, x.want)
			}
			x.done = true
			return
		}
		x.got = append(x.got, h.Of(t))
		if !ref.IsPrefix(x.got, x.want) {
			c.Failf("stream %d gives %v, alone it gives %v", i, x.got, x.want)
		}
	}
	chains := func(c *core.Ctx) (string, jargon.Filter, func([]ref.Tok) []ref.Tok) {
		f := fs[c.Choose(len(fs))]
		return f.Name, f.New(), f.Model
	}
	r.Explore("two streams", fmt.Sprintf("each of %d filters applied to two streams of %d inputs, one of which may fail midway; all interleavings of reads, either may be abandoned", len(fs), len(inputs)), func(c *core.Ctx) {
		name, f, m := chains(c)
		i, j := c.Choose(len(inputs)), c.Choose(len(inputs))
		fail := c.Choose(4) - 1
		a, b := mk(f, m, inputs[i], fail, h.ErrBoom), mk(f, m, inputs[j], -1, nil)
		var sched []int
		c.Describe(func() string {
			return fmt.Sprintf("%s on %q (fails at %d) and %q: %v", name, inputs[i], fail, inputs[j], sched)
		})
		all := []*st{a, b}
		for !a.done || !b.done {
			k := 0
			switch {
			case a.done:
				k = 1
			case b.done:
			default:
				k = c.Choose(2)
			}
			sched = append(sched, k)
			advance(c, k, all[k])
		}
		c.Outcome(h.HashToks(a.got) ^ h.HashToks(b.got)*3)
	})
	// Later streams, after some were abandoned at any point or failed
	n := r.Pick(3, 4)
	r.Explore("abandoned", fmt.Sprintf("%d streams in a row through one filter: each fails, is abandoned after k tokens, or is read out; the last is checked", n), func(c *core.Ctx) {
		name, f, m := chains(c)
		var trace []string
		c.Describe(func() string { return fmt.Sprint(name, " ", trace) })
		for i := 0; i < n; i++ {
			in := inputs[c.Choose(3)+3*(i%2)]
			if i == n-1 {
				in = inputs[c.Choose(len(inputs))]
			}
			act := 0
			if i < n-1 {
				act = c.Choose(5)
			}
			trace = append(trace, fmt.Sprintf("%q:%d", in, act))
			fail := -1
			if act == 4 {
				fail = 2
			}
			x := mk(f, m, in, fail, h.ErrBoom)
			for k := 0; !x.done; k++ {
				if act >= 1 && act <= 3 && k >= act-1 {
					break
				}
				advance(c, i, x)
			}
		}
	})
	// Many uses, one after the other, each of them checked
	uses := core.Sizes(5000, 2, 10, 33, 65, 101, 129, 257, 1001)
	r.Explore("many uses", fmt.Sprintf("each of %d filters used %v times in a row: read out, abandoned after 0 to 3 tokens, or failing, in 6 rhythms; the streams read out are checked", len(fs), uses), func(c *core.Ctx) {
		name, f, m := chains(c)
		n := uses[c.Choose(len(uses))]
		rhythm := c.Choose(6)
		c.Describe(func() string { return fmt.Sprintf("%s %d times, rhythm %d", name, n, rhythm) })
		for i := 0; i < n; i++ {
			act := []int{0, 1, 2 * (i % 2), 4 * (i % 2), i % 5, (i*7 + i/5) % 5}[rhythm]
			if i == n-1 {
				act = 0
			}
			fail := -1
			if act == 4 {
				fail = 2
			}
			in := inputs[(i+i/len(inputs)*3)%len(inputs)]
			if act != 0 {
				x := mk(f, m, in, fail, h.ErrBoom)
				for k := 0; !x.done && (act == 4 || k < act); k++ {
					advance(c, i, x)
				}
				continue
			}
			x := mk(f, m, in, -1, nil)
			for !x.done {
				advance(c, i, x)
			}
		}
	})
	r.Explore("very many uses", "each filter used 65,540 times in a row, read out, abandoned or failing in 2 rhythms", func(c *core.Ctx) {
		name, f, m := chains(c)
		rhythm := c.Choose(2)
		c.Describe(func() string { return fmt.Sprintf("%s 65540 times, rhythm %d", name, rhythm) })
		c.Chosen()
		for i := 0; i < 65540; i++ {
			act := []int{i % 2, (i*7 + i/5) % 5}[rhythm]
			fail := -1
			if act == 4 {
				fail = 2
			}
			if i >= 65530 {
				act, fail = 0, -1
			}
			x := mk(f, m, inputs[i%len(inputs)], fail, h.ErrBoom)
			for k := 0; !x.done && (act == 0 || act == 4 || k < act); k++ {
				advance(c, i, x)
			}
		}
	})
	// Many streams open at the same time
	r.Explore("many open", fmt.Sprintf("each of %d filters on %v streams at once, advanced in turn", len(fs), uses), func(c *core.Ctx) {
		name, f, m := chains(c)
		n := uses[c.Choose(len(uses))]
		back := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("%s on %d streams at once, last first %v", name, n, back) })
		var all []*st
		for i := 0; i < n; i++ {
			all = append(all, mk(f, m, inputs[(i+i/len(inputs)*3)%len(inputs)], -1, nil))
		}
		for busy := true; busy; {
			busy = false
			for i := range all {
				if back {
					i = n - 1 - i
				}
				if x := all[i]; !x.done {
					busy = true
					advance(c, i, x)
				}
			}
		}
	})
	// Streams that have ended are asked again while others go on
	r.Explore("asked again", fmt.Sprintf("each of %d filters applied to two streams of %d inputs: the first is read out or fails, and asked 3 more times by Next, Scan, ToSlice or Count before, between and after the reads of a second one", len(fs), len(inputs)), func(c *core.Ctx) {
		name, f, m := chains(c)
		i, j := c.Choose(len(inputs)), c.Choose(len(inputs))
		fail := c.Choose(3) - 1
		a := mk(f, m, inputs[i], fail, h.ErrBoom)
		how := c.Choose(4)
		early := c.Bool()
		var b *st
		if early {
			b = mk(f, m, inputs[j], -1, nil)
			advance(c, 1, b)
		}
		at := c.Choose(4)
		c.Describe(func() string {
			return fmt.Sprintf("%s on %q (fails at %d), asked again by %d after %d reads of %q (made first %v)", name, inputs[i], fail, how, at, inputs[j], early)
		})
		for !a.done {
			advance(c, 0, a)
		}
		if b == nil {
			b = mk(f, m, inputs[j], -1, nil)
		}
		for k := 0; !b.done; k++ {
			if k >= at && k < at+3 {
				again(c, a.s, how, a.err)
			}
			advance(c, 1, b)
		}
		again(c, a.s, how, a.err)
		x := mk(f, m, inputs[(i+j)%len(inputs)], -1, nil)
		for !x.done {
			advance(c, 2, x)
		}
	})
	// Different filters, which might share something
	r.Explore("different filters", fmt.Sprintf("each pair of %d filters, made before or after each other's use, on two streams of 3 inputs; 4 ways of taking turns", len(fs)), func(c *core.Ctx) {
		f1, f2 := fs[c.Choose(len(fs))], fs[c.Choose(len(fs))]
		in := []string{"don't a @user b. Ruby on Rails", "the #tag café $abc", "a b c LeBron James"}
		i, j := c.Choose(3), c.Choose(3)
		turns := c.Choose(4)
		c.Describe(func() string {
			return fmt.Sprintf("%s on %q, %s on %q, turns %d", f1.Name, in[i], f2.Name, in[j], turns)
		})
		a := mk(f1.New(), f1.Model, in[i], -1, nil)
		if turns >= 2 {
			advance(c, 0, a)
		}
		b := mk(f2.New(), f2.Model, in[j], -1, nil)
		for n := 0; !a.done || !b.done; n++ {
			for k, x := range []*st{a, b} {
				if !x.done && (turns%2 == 0 || n%3 == k || n > 30) {
					advance(c, k, x)
				}
			}
		}
	})
	// Through two filters, three streams
	some := h.Some("contractions", "synonyms", "handles", "distinct", "stop", "lower", "stackoverflow", "sigil")
	r.Explore("three streams", "chains of two of 8 filters on three streams, made at different times; all interleavings of the first 4 reads, then round robin", func(c *core.Ctx) {
		f1, f2 := some[c.Choose(len(some))], some[c.Choose(len(some))]
		a, b := f1.New(), f2.New()
		f := func(s *jargon.TokenStream) *jargon.TokenStream { return s.Filter(a, b) }
		m := func(x []ref.Tok) []ref.Tok { return f2.Model(f1.Model(x)) }
		ins := []string{"don't a b", "@user the b, a", "a  b Ruby on Rails $x"}
		var all []*st
		var sched []int
		c.Describe(func() string { return fmt.Sprintf("%s.%s: %v", f1.Name, f2.Name, sched) })
		all = append(all, mk(f, m, ins[0], -1, nil))
		for step := 0; step < 4; step++ {
			if step < 2 {
				all = append(all, mk(f, m, ins[len(all)], -1, nil))
			}
			k := c.Choose(len(all))
			sched = append(sched, k)
			if !all[k].done {
				advance(c, k, all[k])
			}
		}
		for {
			busy := false
			for i, x := range all {
				if !x.done {
					busy = true
					advance(c, i, x)
				}
			}
			if !busy {
				break
			}
		}
	})
	// Streams from the tokenizers
	r.Explore("tokenizers", "two of the tokenizers on two of 4 inputs each; all interleavings of the first 10 reads", func(c *core.Ctx) {
		ins := []string{"a b.c", "<b>x</b> y", "<script> z </script>w", "don't é"}
		var got [2][]ref.Tok
		var want [2][]ref.Tok
		var ss [2]*jargon.TokenStream
		var sched []int
		for i := 0; i < 2; i++ {
			in := ins[c.Choose(len(ins))]
			if c.Bool() {
				ss[i], want[i] = jargon.TokenizeHTML(strings.NewReader(in)), htmlRef(in)
			} else {
				ss[i], want[i] = jargon.Tokenize(strings.NewReader(in)), ref.Tokens(in)
			}
		}
		c.Describe(func() string { return fmt.Sprint(want, sched) })
		for i := 0; i < 10; i++ {
			k := c.Choose(2)
			sched = append(sched, k)
			t, err := ss[k].Next()
			if err != nil {
				c.Failf("error %v", err)
			}
			if t != nil {
				got[k] = append(got[k], h.Of(t))
			}
			c.Trans(1)
		}
		for k := range ss {
			rest, err := h.Drain(c, ss[k], 100)
			if err != nil {
				c.Failf("error %v", err)
			}
			h.Same(c, append(got[k], rest...), want[k])
		}
	})
}

// ---- C28

func c28(r *core.Run) {
	type fn struct {
		name  string
		real  func(*jargon.Token) *jargon.Token
		model func(ref.Tok) ref.Tok
	}
	mk := func(name string, f func(string) string) fn {
		return fn{name, func(t *jargon.Token) *jargon.Token {
			s := f(t.String())
			if s == t.String() {
				return t
			}
			return jargon.NewToken(s, true)
		}, func(t ref.Tok) ref.Tok {
			s := f(t.V)
			if s == t.V {
				return t
			}
			return ref.New(s, true)
		}}
	}
	fns := []fn{
		mk("upper", strings.ToUpper), mk("x", func(s string) string { return s + "x" }), mk("swap", func(s string) string {
			return strings.NewReplacer("a", "b", "b", "a").Replace(s)
		}), mk("id", func(s string) string { return s }), mk("dot", func(string) string { return "." }),
		mk("double", func(s string) string { return s + s }),
	}
	alphabet := append(h.Ps("a", " ", ".", "b", "é", "\n"), h.Lemmas("a", "Z")...)
	alphabet = append(alphabet, h.Script(" "), h.Tag("<b>"))
	for _, s := range core.Atoms(nil, 8) {
		alphabet = append(alphabet, h.P(s, false))
	}
	n, d := r.Pick(4, 5), r.Pick(5, 6)
	body := func(c *core.Ctx, k int, seq []h.Pair) {
		type call struct {
			f int
			t *jargon.Token
			r *jargon.Token
		}
		var names []string
		var calls []call
		var fs []func(*jargon.Token) *jargon.Token
		var ms []fn
		for i := 0; i < k; i++ {
			i, f := i, fns[c.Choose(len(fns))]
			ms = append(ms, f)
			names = append(names, f.name)
			fs = append(fs, func(t *jargon.Token) *jargon.Token {
				r := f.real(t)
				calls = append(calls, call{i, t, r})
				return r
			})
		}
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(names, h.Refs(seq)) })
		filter := mapper.NewFilter(fs...)
		for round := 0; round < 2; round++ {
			calls = nil
			s := filter(h.StreamOf(ts))
			for i := range ts {
				got, err := s.Next()
				if err != nil || got == nil {
					c.Failf("token %d: %v, %v", i, got, err)
				}
				if len(calls) != (i+1)*k {
					c.Failf("after token %d, %d calls of %d functions", i, len(calls), k)
				}
				cur, want := ts[i], rs[i]
				for j := 0; j < k; j++ {
					x := calls[i*k+j]
					if x.f != j || x.t != cur {
						c.Failf("token %d: call %d is of function %d with %v, expected function %d with %v", i, j, x.f, x.t, j, cur)
					}
					cur = x.r
					want = ms[j].model(want)
				}
				if got != cur || h.Of(got) != want {
					c.Failf("token %d: %v, expected %v", i, h.Of(got), want)
				}
				c.Step(core.HashInt(core.HashStr(uint64(k), want.V), i))
			}
			for i := 0; i < 2; i++ {
				if t, err := s.Next(); t != nil || err != nil {
					c.Failf("not at the end: %v %v", t, err)
				}
			}
			if len(calls) != len(ts)*k {
				c.Failf("%d calls for %d tokens and %d functions", len(calls), len(ts), k)
			}
		}
	}
	r.Explore("mappings", fmt.Sprintf("all lists of at most %d of %d functions on all sequences of at most %d of %d tokens, twice with one filter; calls recorded", d, len(fns), n, len(alphabet)), func(c *core.Ctx) {
		k := c.Choose(d + 1)
		m := n
		if k >= 3 {
			m = 2
		}
		body(c, k, h.SeqUpTo(c, m, alphabet))
	})
	sizes := core.Sizes(100000, 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 1000, 65535, 65537, 70000)
	r.Explore("sizes", fmt.Sprintf("%v functions, and %v tokens", sizes, sizes), func(c *core.Ctx) {
		k := sizes[c.Choose(len(sizes))]
		n := sizes[c.Choose(len(sizes))]
		if k*n > 200000 {
			c.Prune()
		}
		calls := 0
		var fs []func(*jargon.Token) *jargon.Token
		for i := 0; i < k; i++ {
			i := i
			fs = append(fs, func(t *jargon.Token) *jargon.Token {
				if calls%k != i {
					c.Failf("call %d is of function %d of %d", calls, i, k)
				}
				calls++
				return t
			})
		}
		i := 0
		s := mapper.NewFilter(fs...)(jargon.NewTokenStream(func() (*jargon.Token, error) {
			if i >= n {
				return nil, nil
			}
			i++
			return jargon.NewToken(fmt.Sprint(i), false), nil
		}))
		c.Describe(func() string { return fmt.Sprintf("%d functions, %d tokens", k, n) })
		x, err := s.Count()
		if err != nil || x != n || calls != n*k {
			c.Failf("%d tokens %v, %d calls", x, err, calls)
		}
		c.Trans(n)
	})
	// An error of the source
	r.Explore("failing source", "a source failing after 0 to 3 tokens: no function is called for it", func(c *core.Ctx) {
		ts, _ := h.Split(h.Ps("a", " ", "b"))
		src := h.NewSource(ts)
		src.Fail, src.Err = c.Choose(4), h.ErrBoom
		calls := 0
		s := mapper.NewFilter(func(t *jargon.Token) *jargon.Token { calls++; return t })(src.Stream())
		n, err := s.Count()
		if n != src.Fail || calls != n || !errors.Is(err, h.ErrBoom) {
			c.Failf("%d tokens, %d calls, %v; source fails after %d", n, calls, err, src.Fail)
		}
	})
}

// ---- C29

func c29(r *core.Run) {
	fs := h.Filters()
	texts := core.Atoms([]string{"don't @user, Ruby on Rails and c# #tag", "café $abc the rails B a b", "x@é@user RUBY Don’t   the the", "a the a b\r\n'1.5 e\u0301 LeBron James. running"}, 4)
	run := func(c *core.Ctx, fl []h.F, text string, how int) {
		c.Describe(func() string {
			s := fmt.Sprintf("%q how %d", text, how)
			for _, f := range fl {
				s += "." + f.Name
			}
			return s
		})
		// Stage by stage
		toks, err := jargon.TokenizeString(text).ToSlice()
		if err != nil {
			c.Failf("error %v", err)
		}
		want := ref.Tokens(text)
		for _, f := range fl {
			toks, err = f.New()(h.StreamOf(toks)).ToSlice()
			if err != nil {
				c.Failf("stage %s: error %v", f.Name, err)
			}
			want = f.Model(want)
		}
		stage := h.OfAll(toks)
		var js []jargon.Filter
		for _, f := range fl {
			js = append(js, f.New())
		}
		s := jargon.TokenizeString(text)
		switch how {
		case 0:
			s = s.Filter(js...)
		case 1:
			for _, f := range js {
				s = s.Filter(f)
			}
		case 2:
			for _, f := range js {
				s = f(s)
			}
		case 3:
			s = s.Filter().Filter(js[:len(js)/2]...).Filter().Filter(js[len(js)/2:]...)
		}
		got := h.MustDrain(c, s, 4*len(text)+64)
		if !ref.Eq(got, stage) {
			c.Failf("chain gives %v\nstages give %v", got, stage)
		}
		h.Same(c, got, want)
	}
	r.Explore("pairs", fmt.Sprintf("all chains of at most 2 of %d filters on %d texts, applied in 4 ways", len(fs), len(texts)), func(c *core.Ctx) {
		k := c.Choose(3)
		var fl []h.F
		for i := 0; i < k; i++ {
			fl = append(fl, fs[c.Choose(len(fs))])
		}
		run(c, fl, texts[c.Choose(len(texts))], c.Choose(4))
	})
	some := h.Some("ascii", "contractions", "stackoverflow", "handles", "hashtags", "stem", "stop", "words", "lemmas", "distinct", "synonyms", "lower", "sigil", "nfd")
	r.Explore("triples", fmt.Sprintf("all chains of 3 of %d filters on %d texts, applied in one call and one after the other", len(some), len(texts)), func(c *core.Ctx) {
		var fl []h.F
		for i := 0; i < 3; i++ {
			fl = append(fl, some[c.Choose(len(some))])
		}
		run(c, fl, texts[c.Choose(len(texts))], 3*c.Choose(2))
	})
	few := h.Some("contractions", "synonyms", "handles", "stem", "distinct", "stackoverflow", "lower")
	n := r.Pick(6, 7)
	r.Explore("longer", fmt.Sprintf("all chains of %d of %d filters on one text", n, len(few)), func(c *core.Ctx) {
		var fl []h.F
		for i := 0; i < n; i++ {
			fl = append(fl, few[c.Choose(len(few))])
		}
		run(c, fl, texts[c.Choose(2)], 0)
	})
	// Filters of the user's own
	mapAll := func(name string, f func(ref.Tok) []ref.Tok, before, after []ref.Tok) h.F {
		return h.F{Name: name, New: func() jargon.Filter {
			return func(s *jargon.TokenStream) *jargon.TokenStream {
				var queue []*jargon.Token
				for _, t := range before {
					queue = append(queue, jargon.NewToken(t.V, t.L))
				}
				ended := false
				return jargon.NewTokenStream(func() (*jargon.Token, error) {
					for len(queue) == 0 && !ended {
						t, err := s.Next()
						if err != nil {
							return nil, err
						}
						add := after
						if t == nil {
							ended = true
						} else if add = f(h.Of(t)); len(add) == 2 && add[0] == add[1] && add[0] == h.Of(t) {
							queue, add = append(queue, t, t), nil
						}
						for _, x := range add {
							queue = append(queue, jargon.NewToken(x.V, x.L))
						}
					}
					if len(queue) == 0 {
						return nil, nil
					}
					t := queue[0]
					queue = queue[1:]
					return t, nil
				})
			}
		}, Model: func(in []ref.Tok) []ref.Tok {
			out := append([]ref.Tok(nil), before...)
			for _, t := range in {
				out = append(out, f(t)...)
			}
			return append(out, after...)
		}}
	}
	own := []h.F{
		mapAll("flat", func(t ref.Tok) []ref.Tok {
			if t.S || t.P {
				return []ref.Tok{ref.New(" ", true)}
			}
			return []ref.Tok{ref.New("the", true)}
		}, nil, nil),
		mapAll("plain", func(t ref.Tok) []ref.Tok { return []ref.Tok{ref.New(t.V, false)} }, nil, nil),
		mapAll("double", func(t ref.Tok) []ref.Tok { return []ref.Tok{t, t} }, nil, nil),
		mapAll("tail", func(t ref.Tok) []ref.Tok { return []ref.Tok{ref.New(t.V, t.L)} }, nil, []ref.Tok{ref.New("don't", false), ref.New(" ", false), ref.New("a", true)}),
		mapAll("head", func(t ref.Tok) []ref.Tok { return []ref.Tok{ref.New(t.V, t.L)} }, []ref.Tok{ref.New("the", true), ref.New(".", false)}, nil),
		mapAll("nothing", func(t ref.Tok) []ref.Tok { return nil }, nil, nil),
		mapAll("words and end", func(t ref.Tok) []ref.Tok {
			if t.Word() {
				return []ref.Tok{ref.New(t.V, true)}
			}
			return nil
		}, nil, []ref.Tok{ref.New("@", false), ref.New("user", false)}),
	}
	beads := append(h.Ps("a", " ", ".", "the", "don't", "@", "user", "\n"), h.Lemmas("a", " ", ".")...)
	n4 := r.Pick(3, 4)
	both := append(append([]h.F(nil), own...), some...)
	r.Explore("own filters", fmt.Sprintf("chains of two of %d filters, at least one of them of the user's own (%d, which add or drop tokens, at the beginning or the end too, or give the same token twice), and those of three of the user's own; all sequences of at most %d of %d tokens, applied in 3 ways", len(both), len(own), n4, len(beads)), func(c *core.Ctx) {
		var fl []h.F
		switch c.Choose(3) {
		case 0:
			fl = []h.F{own[c.Choose(len(own))], both[c.Choose(len(both))]}
		case 1:
			fl = []h.F{some[c.Choose(len(some))], own[c.Choose(len(own))]}
		case 2:
			fl = []h.F{own[c.Choose(len(own))], own[c.Choose(len(own))], own[c.Choose(len(own))]}
		}
		ts, rs := h.Split(h.SeqUpTo(c, n4, beads))
		how := c.Choose(3)
		c.Describe(func() string {
			s := fmt.Sprintf("%v how %d", rs, how)
			for _, f := range fl {
				s += "." + f.Name
			}
			return s
		})
		want := rs
		var js []jargon.Filter
		for _, f := range fl {
			want = f.Model(want)
			js = append(js, f.New())
		}
		s := h.StreamOf(ts)
		switch how {
		case 0:
			s = s.Filter(js...)
		case 1:
			for _, f := range js {
				s = f(s)
			}
		case 2:
			s = s.Filter(js[0]).Filter(js[1:]...)
		}
		h.Same(c, h.MustDrain(c, s, 200), want)
	})
	// Filters that change nothing on the way
	rich := "a\tb \r\n\n .,! é e\u0301 中 😀 1.5 x\u00a0y _ don't @user #tag $x $abc the B ruby on rails\u200b\xff Running c#\"'"
	none := h.F{Name: "none", New: func() jargon.Filter { return func(s *jargon.TokenStream) *jargon.TokenStream { return s } }, Model: func(x []ref.Tok) []ref.Tok { return x }}
	all := h.F{Name: "all", New: func() jargon.Filter {
		return func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(*jargon.Token) bool { return true })
		}
	}, Model: none.Model}
	same := h.F{Name: "same", New: func() jargon.Filter { return mapper.NewFilter() }, Model: none.Model}
	idle := []h.F{none, all, same}
	counts := core.Sizes(70, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64)
	r.Explore("one of many", fmt.Sprintf("chains of %v filters of which all but one at any place change nothing, on a text with all kinds of tokens, applied in 4 ways", counts), func(c *core.Ctx) {
		k := counts[c.Choose(len(counts))]
		id := idle[c.Choose(len(idle))]
		f := fs[c.Choose(len(fs))]
		at := c.Choose(4)
		if at >= 2 {
			at = k - at + 1
		}
		var fl []h.F
		for i := 0; i < k; i++ {
			if i == at {
				fl = append(fl, f)
			} else {
				fl = append(fl, id)
			}
		}
		run(c, fl, rich, c.Choose(4))
	})
	sizes := core.Sizes(300, 5, 8, 9, 10, 16, 17, 32, 33, 64, 100)
	// Filters applied when part of the stream has been read
	texts2 := []string{"a\tb\n\u00a0the ", "don't @user, the the", "ruby on rails #tag é", "a b"}
	r.Explore("later", fmt.Sprintf("all chains of at most 2 of %d filters, applied after every number of tokens read by Next or Scan, on %d texts or the stage before", len(some), len(texts2)), func(c *core.Ctx) {
		text := texts2[c.Choose(len(texts2))]
		all := ref.Tokens(text)
		var fl []h.F
		s := jargon.TokenizeString(text)
		k := 1 + c.Choose(2)
		how := c.Choose(3)
		for i := 0; i < k; i++ {
			fl = append(fl, some[c.Choose(len(some))])
		}
		var read []int
		c.Describe(func() string {
			x := fmt.Sprintf("%q how %d", text, how)
			for i := range read {
				x += fmt.Sprintf(", read %d, %s", read[i], fl[i].Name)
			}
			return x
		})
		for _, f := range fl {
			n := c.Choose(len(all) + 1)
			read = append(read, n)
			for i := 0; i < n; i++ {
				var t *jargon.Token
				if how == 0 {
					var err error
					if t, err = s.Next(); err != nil {
						c.Failf("error %v", err)
					}
				} else if s.Scan() {
					t = s.Token()
				}
				if t == nil || h.Of(t) != all[i] {
					c.Failf("token %d is %v, expected %v", i, t, all[i])
				}
			}
			all = f.Model(all[n:])
			if how == 2 {
				s = f.New()(s)
			} else {
				s = s.Filter(f.New())
			}
		}
		h.Same(c, h.MustDrain(c, s, 4*len(text)+64), all)
	})
	r.Explore("many", fmt.Sprintf("chains of %v mapping filters, which each add a letter", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		var js []jargon.Filter
		want := "x"
		for i := 0; i < n; i++ {
			l := string(rune('a' + i%26))
			want += l
			js = append(js, mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+l, true) }))
		}
		s := h.StreamOf([]*jargon.Token{jargon.NewToken("x", false)})
		k := c.Choose(3)
		switch k {
		case 0:
			s = s.Filter(js...)
		case 1:
			for _, f := range js {
				s = s.Filter(f)
			}
		case 2:
			s = s.Filter(js[:n/2]...).Filter(js[n/2:]...)
		}
		got := h.MustDrain(c, s, 10)
		if len(got) != 1 || got[0].V != want {
			c.Failf("got %v, expected %q", got, want)
		}
	})
	r.Explore("html", "all chains of at most 2 of 14 filters on 3 documents", func(c *core.Ctx) {
		docs := []string{"<p>don't</p><script> </script> @user", "Ruby <b>on</b> Rails ruby on rails<style>running</style>", "<a>the the</a> café"}
		doc := docs[c.Choose(len(docs))]
		k := c.Choose(3)
		want := htmlRef(doc)
		s := jargon.TokenizeHTML(strings.NewReader(doc))
		var names []string
		for i := 0; i < k; i++ {
			f := some[c.Choose(len(some))]
			names = append(names, f.Name)
			s, want = s.Filter(f.New()), f.Model(want)
		}
		c.Describe(func() string { return fmt.Sprint(doc, names) })
		h.Same(c, h.MustDrain(c, s, 200), want)
	})
}
