package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"
	"github.com/clipperhouse/jargon/tokenqueue"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

func init() { props["C31"] = c31 }

// held is a token that was given or obtained, with a copy of what it was then.
type held struct {
	tok  *jargon.Token
	was  ref.Tok
	lent string // the string it gave, not a copy
	who  string
}

type holder struct {
	all []held
}

func (w *holder) add(who string, t *jargon.Token) *jargon.Token {
	if t != nil {
		x := held{tok: t, was: h.Of(t), lent: t.String(), who: who}
		x.was.V = string(append([]byte(nil), x.was.V...))
		w.all = append(w.all, x)
	}
	return t
}

// same fails if one of the tokens has changed.
func (w *holder) same(c *core.Ctx, when string) {
	for i, x := range w.all {
		if x.lent != x.was.V {
			c.Failf("%s: the string obtained from token %d (%s) was %q, it is %q", when, i, x.who, x.was.V, x.lent)
		}
		if now := h.Of(x.tok); now != x.was {
			c.Failf("%s: token %d (%s) was %v, it is %v", when, i, x.who, x.was, now)
		}
	}
}

// tee notes the tokens that pass.
func (w *holder) tee(who string, s *jargon.TokenStream) *jargon.TokenStream {
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		t, err := s.Next()
		return w.add(who, t), err
	})
}

var collects = []string{"Next", "Scan", "ToSlice", "String", "Count"}

// get reads a stream in one of the ways, and notes the tokens.
func (w *holder) get(c *core.Ctx, who string, s *jargon.TokenStream, how string) {
	const limit = 100000
	switch how {
	case "Next":
		for i := 0; i < limit; i++ {
			t, err := s.Next()
			if err != nil || t == nil {
				return
			}
			w.add(who, t)
			w.same(c, "after Next")
		}
	case "Scan":
		for i := 0; i < limit && s.Scan(); i++ {
			w.add(who, s.Token())
			w.same(c, "after Scan")
		}
	case "ToSlice":
		ts, _ := s.ToSlice()
		for _, t := range ts {
			w.add(who, t)
		}
	case "String":
		s.String()
	case "Count":
		s.Count()
	}
	w.same(c, "after "+how)
	c.Trans(len(w.all) + 1)
}

func c31(r *core.Run) {
	r.Assumptions = []string{"tokens are changed by the library only, not behind its back by way of package unsafe or reflection"}
	fs := h.Filters()
	// Tokens
	alphabet := append(h.Ps(core.Atoms([]string{"a", "B", "don't", "rails", "Ruby", " ", ".", "@", "#", "user", "café", "\n", "running"}, 3)...), h.Lemmas("a", " ")...)
	n := r.Pick(3, 4)
	r.Explore("tokens", fmt.Sprintf("all sequences of at most %d of %d tokens (given twice over, with the same tokens), each of %d filters; every consumer; all tokens given and obtained are compared with what they were after every step, and after another use of the filter", n, len(alphabet), len(fs)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		how := collects[c.Choose(len(collects))]
		seq := h.SeqUpTo(c, n, alphabet)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprintf("%v through %s, by %s", rs, f.Name, how) })
		var w holder
		for _, t := range ts {
			w.add("given", t)
		}
		filter := f.New()
		twice := append(append([]*jargon.Token(nil), ts...), ts...)
		keep := append([]*jargon.Token(nil), twice...)
		w.get(c, "obtained", filter(h.StreamOf(twice)), how)
		w.get(c, "obtained later", filter(jargon.TokenizeString("Ruby on Rails; don't @user the #tag b, the a")), "Next")
		for i := range keep {
			if keep[i] != twice[i] {
				c.Failf("the slice of tokens behind the source is changed at %d", i)
			}
		}
		w.same(c, "at the end")
		c.Step(core.HashStr(h.HashToks(rs), f.Name+how))
		c.Outcome(core.HashInt(core.Hash(f.Name), len(w.all)))
	})
	// Chains: tokens between the stages
	texts := core.Atoms([]string{"Don't @user the Ruby on Rails, a b café x.", "#go running B the  a\n$usd isn't", "résumés I'LL b, the a"}, 3)
	r.Explore("chains", fmt.Sprintf("every chain of 2 of %d filters on %d texts; the tokens between the stages too", len(fs), len(texts)), func(c *core.Ctx) {
		a, b := fs[c.Choose(len(fs))], fs[c.Choose(len(fs))]
		text := texts[c.Choose(len(texts))]
		how := collects[c.Choose(3)]
		c.Describe(func() string { return fmt.Sprintf("%q through %s and %s, by %s", text, a.Name, b.Name, how) })
		var w holder
		s := w.tee("tokenizer", jargon.TokenizeString(text))
		s = w.tee(a.Name, s.Filter(a.New()))
		w.get(c, b.Name, s.Filter(b.New()), how)
		w.get(c, "later", jargon.TokenizeString(text).Filter(a.New(), b.New()), "ToSlice")
		w.same(c, "at the end")
		c.Step(core.Hash(text, a.Name, b.Name, how))
		c.Outcome(core.HashInt(core.Hash(a.Name, b.Name), len(w.all)))
	})
	// Readers, whose memory is used for something else afterwards
	atoms := core.Atoms([]string{"a", "don't", " ", "\n", ".", "<b>", "é", "\xff", "rails"}, 3)
	readers := []string{"bytes.Buffer", "bytes.Reader", "bufio.Reader", "strings.Reader", "own", "string", "LimitedReader", "MultiReader"}
	rf := append([]h.F{{Name: "none"}}, h.Some("ascii", "contractions", "synonyms", "distinct", "nfc", "stem", "handles", "words")...)
	pads := core.Sizes(9000, 0, 4090, 8190)
	n2 := r.Pick(3, 4)
	r.Explore("readers", fmt.Sprintf("texts of up to %d of %d atoms, after %v bytes, from %d kinds of reader, as plain text or HTML, through %d filters; the memory that a reader reads from is left as it was, and overwritten at the end", n2, len(atoms), pads, len(readers), len(rf)), func(c *core.Ctx) {
		k := c.Choose(n2 + 1)
		f := rf[c.Choose(len(rf))]
		kind := readers[c.Choose(len(readers))]
		html := c.Bool()
		pad := 0
		if f.Name == "none" || k <= 2 {
			pad = pads[c.Choose(len(pads))]
		}
		text := h.Text(c, k, atoms)
		if pad > 0 {
			text = strings.Repeat("word ", pad/5) + text
		}
		c.Describe(func() string {
			return fmt.Sprintf("%s from a %s, html %v, through %s", h.Clip(text), kind, html, f.Name)
		})
		mem := make([]byte, len(text), len(text)+64)
		copy(mem, text)
		for i := range mem[len(text):cap(mem)] {
			mem[:cap(mem)][len(text)+i] = 'z'
		}
		var rd io.Reader
		overwrite := true
		switch kind {
		case "bytes.Buffer":
			rd = bytes.NewBuffer(mem)
		case "bytes.Reader":
			rd = bytes.NewReader(mem)
		case "bufio.Reader":
			rd = bufio.NewReader(bytes.NewReader(mem))
		case "strings.Reader":
			rd, overwrite = strings.NewReader(text), false
		case "own":
			rd = struct{ io.Reader }{bytes.NewReader(mem)}
		case "LimitedReader":
			rd = io.LimitReader(bytes.NewReader(mem), int64(len(mem)))
		case "MultiReader":
			rd = io.MultiReader(bytes.NewReader(mem[:len(mem)/2]), bytes.NewBuffer(mem[len(mem)/2:len(mem):len(mem)]))
		case "string":
			overwrite = false
		}
		var s *jargon.TokenStream
		switch {
		case kind == "string" && html:
			c.Prune()
		case kind == "string":
			s = jargon.TokenizeString(text)
		case html:
			s = jargon.TokenizeHTML(rd)
		default:
			s = jargon.Tokenize(rd)
		}
		if f.New != nil {
			s = s.Filter(f.New())
		}
		var w holder
		for i := 0; i < 100000 && s.Scan(); i++ {
			w.add("obtained", s.Token())
			if i&(i-1) == 0 {
				w.same(c, "while reading")
			}
		}
		if string(mem) != text {
			c.Failf("the memory of the reader was changed, to %s", h.Clip(string(mem)))
		}
		for i, b := range mem[:cap(mem)][len(text):] {
			if b != 'z' {
				c.Failf("the memory after that of the reader was changed, at %d", i)
			}
		}
		if overwrite {
			for i := range mem[:cap(mem)] {
				mem[:cap(mem)][i] = '!'
			}
		}
		w.same(c, "after the reader's memory was used for something else")
		c.Step(core.Hash(text, kind, f.Name, fmt.Sprint(html)))
		c.Outcome(core.HashInt(core.Hash(f.Name), len(w.all)))
	})
	// Configurations
	words := core.Atoms([]string{"the", "The", "b", "", " ", "É", "a b", "zz", "Ruby on Rails, RoR"}, 3)
	runes := []rune{'-', ' ', 'A', '.', '-'}
	input := "The b  a b the É e zz Ruby on Rails-b. RoR ror THE A-B $usd"
	n3 := r.Pick(3, 4)
	r.Explore("configurations", fmt.Sprintf("lists of up to %d of %d words with spare room behind them, as stop words, synonyms, canonical terms, and lists of ignored characters and functions; used 3 times: all left as they were", n3, len(words)), func(c *core.Ctx) {
		k := c.Choose(n3 + 1)
		kind := c.Choose(4)
		ignoreCase := c.Bool()
		list := make([]string, 0, k+3)
		for i := 0; i < k; i++ {
			list = append(list, words[c.Choose(len(words))])
		}
		list = append(list, "spare", "Spare", "ZZ")[:k]
		full := append([]string(nil), list[:cap(list)]...)
		ig := append(make([]rune, 0, 8), runes...)[:len(runes)]
		ign := c.Choose(len(runes) + 1)
		var filter jargon.Filter
		mapping := map[string]string{}
		var before map[string]string
		var fns []func(*jargon.Token) *jargon.Token
		calls := ""
		c.Describe(func() string {
			return fmt.Sprintf("%s %q, ignore case %v, ignoring %q", []string{"stop words", "synonyms", "canonical terms", "functions"}[kind], list, ignoreCase, string(runes[:ign]))
		})
		switch kind {
		case 0:
			if ign > 0 {
				c.Prune()
			}
			filter = stopwords.NewFilter(list, ignoreCase)
		case 1, 2:
			for i, x := range list {
				if kind == 1 {
					mapping[x] = fmt.Sprint("v", i)
				} else {
					mapping[fmt.Sprint("zz", i, ", b")] = x
				}
			}
			before = map[string]string{}
			for a, b := range mapping {
				before[a] = b
			}
			filter = synonyms.NewFilter(mapping, ignoreCase, ig[:ign])
		case 3:
			if ign > 0 || ignoreCase {
				c.Prune()
			}
			for i := range full {
				i := i
				fns = append(fns, func(t *jargon.Token) *jargon.Token { calls += string(rune('a' + i)); return t })
			}
			filter = mapper.NewFilter(fns[:k]...)
		}
		var w holder
		for use := 0; use < 3; use++ {
			w.get(c, "obtained", filter(jargon.TokenizeString(input)), collects[use])
			for i := range full {
				if full[i] != list[:cap(list)][i] {
					c.Failf("use %d: the list is changed to %q", use, list[:cap(list)])
				}
			}
			if !reflect.DeepEqual(before, mapping) && kind > 0 && kind < 3 {
				c.Failf("use %d: the mapping is changed from %q to %q", use, before, mapping)
			}
			for i := range runes {
				if ig[:len(runes)][i] != runes[i] {
					c.Failf("use %d: the ignored characters are changed to %q", use, string(ig[:len(runes)]))
				}
			}
			for _, x := range ig[len(runes):cap(ig)] {
				if x != 0 {
					c.Failf("use %d: there is something behind the ignored characters: %q", use, string(ig[:cap(ig)]))
				}
			}
		}
		if kind == 3 {
			calls = ""
			for _, f := range fns {
				f(nil)
			}
			for i := range full {
				if i >= len(calls) || calls[i] != byte('a'+i) {
					c.Failf("the functions are changed, to %s", calls)
				}
			}
		}
		c.Step(core.HashStr(core.HashInt(core.Hash(list...), kind, ign), fmt.Sprint(ignoreCase)))
		c.Outcome(core.HashInt(core.Hash(fmt.Sprint(kind)), len(w.all)))
	})
	// What the functions of the caller are given
	r.Explore("arguments", "a rule for names, and a mapping function, that keep what they are given, on texts of up to 4 of 7 atoms", func(c *core.Ctx) {
		atoms := []string{"$", "usd", "x1", " ", ".", "é", "don't"}
		text := h.Text(c, c.Choose(5), atoms)
		how := collects[c.Choose(len(collects))]
		c.Describe(func() string { return fmt.Sprintf("%q by %s", text, how) })
		var given, were []string
		var w holder
		s := jargon.TokenizeString(text).Filter(
			mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return w.add("function", t) }),
			sigil.NewFilter("$", func(s string) bool {
				given = append(given, s)
				were = append(were, string(append([]byte(nil), s...)))
				return true
			}),
			mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return w.add("second function", t) }))
		w.get(c, "obtained", s, how)
		for i := range given {
			if given[i] != were[i] {
				c.Failf("a name given to the rule was %q, it is %q", were[i], given[i])
			}
		}
		c.Step(core.Hash(text, how))
		c.Outcome(core.HashInt(core.Hash(were...), len(w.all)))
	})
	// What is collected belongs to the caller
	few := append([]h.F{{Name: "none", New: func() jargon.Filter { return func(s *jargon.TokenStream) *jargon.TokenStream { return s } }}}, fs...)
	r.Explore("slices", fmt.Sprintf("the tokens of a stream, some of them after %d filters, collected after 0 to 4 reads; the slice is overwritten, or grown; the stream, another one that is open, and a new one, are as without", len(few)), func(c *core.Ctx) {
		f := few[c.Choose(len(few))]
		text := texts[c.Choose(3)]
		skip := c.Choose(5)
		what := c.Choose(3)
		c.Describe(func() string { return fmt.Sprintf("%q through %s, from token %d, %d", text, f.Name, skip, what) })
		filter := f.New()
		want := h.MustDrain(c, filter(jargon.TokenizeString(text)), 1000)
		if skip > len(want) {
			c.Prune()
		}
		s := filter(jargon.TokenizeString(text))
		other := filter(jargon.TokenizeString(text))
		other.Next()
		for i := 0; i < skip; i++ {
			s.Next()
		}
		ts, err := s.ToSlice()
		if err != nil {
			c.Failf("ToSlice: %v", err)
		}
		h.Same(c, h.OfAll(ts), want[skip:])
		x := jargon.NewToken("XXX", true)
		switch what {
		case 0:
			for i := range ts {
				ts[i] = x
			}
		case 1:
			for i := range ts {
				ts[i] = nil
			}
		case 2:
			ts = append(ts, x)
			for i := range ts[:cap(ts)] {
				ts[:cap(ts)][i] = x
			}
		}
		if t, err := s.Next(); t != nil || err != nil {
			c.Failf("after the slice was collected: %v, %v", t, err)
		}
		again, _ := s.ToSlice()
		if len(again) != 0 {
			c.Failf("collected again: %d tokens", len(again))
		}
		all, err := filter(jargon.TokenizeString(text)).ToSlice()
		if err != nil {
			c.Failf("later: %v", err)
		}
		h.Same(c, h.OfAll(all), want)
		rest, err := other.ToSlice()
		if err != nil {
			c.Failf("other: %v", err)
		}
		if len(want) > 0 {
			h.Same(c, h.OfAll(rest), want[1:])
		}
		h.Same(c, h.OfAll(all), want)
		c.Step(core.HashInt(core.Hash(text, f.Name), skip, what))
		c.Outcome(h.HashToks(want))
	})
	most := r.Pick(9, 18)
	r.Explore("slices of one stream", fmt.Sprintf("a source that ends after 0 to %d tokens, goes on with 0 to %d more, and ends again, through nothing or 6 filters, collected each time; the slices are grown, or overwritten to their ends, in either order", most, most), func(c *core.Ctx) {
		f := append(few[:1:1], h.Some("ascii", "stop", "distinct", "lower", "words", "stem")...)[c.Choose(7)]
		n1, n2 := c.Choose(most+1), c.Choose(most+1)
		what := c.Choose(4)
		c.Describe(func() string { return fmt.Sprintf("%d and %d tokens through %s, %d", n1, n2, f.Name, what) })
		i := 0
		s := f.New()(jargon.NewTokenStream(func() (*jargon.Token, error) {
			i++
			if i == n1+1 || i > n1+1+n2 {
				return nil, nil
			}
			return jargon.NewToken(fmt.Sprint("t", i), false), nil
		}))
		a, err1 := s.ToSlice()
		av := h.OfAll(a)
		b, err2 := s.ToSlice()
		bv := h.OfAll(b)
		if err1 != nil || err2 != nil {
			c.Failf("errors: %v, %v", err1, err2)
		}
		h.Same(c, h.OfAll(a), av)
		x := jargon.NewToken("XXX", true)
		one, other, ov := a, b, bv
		if what&1 != 0 {
			one, other, ov = b, a, av
		}
		if what&2 != 0 {
			_ = append(one, x)
		} else {
			for i := range one[:cap(one)] {
				one[:cap(one)][i] = x
			}
		}
		h.Same(c, h.OfAll(other), ov)
		c.Step(core.HashInt(core.Hash(f.Name), n1, n2, what))
		c.Outcome(h.HashToks(ov))
	})
	r.Explore("functions that are not there", "lists of up to 4 functions, some of them nil, and spare room behind them, given to a mapping filter which is not used (or not with nil in the list): left as they were", func(c *core.Ctx) {
		k := c.Choose(5)
		var calls string
		list := make([]func(*jargon.Token) *jargon.Token, k, k+2)
		want := ""
		for i := range list[:cap(list)] {
			i := i
			if i >= k || c.Bool() {
				list[:cap(list)][i] = func(t *jargon.Token) *jargon.Token { calls += fmt.Sprint(i); return t }
				want += fmt.Sprint(i)
			} else {
				want += "-"
			}
		}
		c.Describe(func() string { return want })
		f := mapper.NewFilter(list...)
		if !strings.Contains(want, "-") {
			f(jargon.TokenizeString("a b")).ToSlice()
		}
		calls = ""
		for _, f := range list[:cap(list)] {
			if f == nil {
				calls += "-"
				continue
			}
			f(nil)
		}
		if calls != want {
			c.Failf("the list of functions was %s, it is %s", want, calls)
		}
		c.Step(core.Hash(want))
		c.Outcome(core.Hash(want))
	})
	// Queue and term index
	pool := h.Ps("a", "b", " ", ".", "c")
	n4 := r.Pick(4, 5)
	r.Explore("slices given", fmt.Sprintf("slices of up to %d tokens with spare room, given to a queue or to the term index, then %d operations: left as they were, in front of and behind their end", n4, 3), func(c *core.Ctx) {
		k := c.Choose(n4 + 1)
		ts, _ := h.Split(h.Seq(c, k, pool))
		spare := jargon.NewToken("spare", false)
		slice := append(make([]*jargon.Token, 0, k+4), ts...)
		for i := k; i < cap(slice); i++ {
			slice[:cap(slice)][i] = spare
		}
		var ops []string
		c.Describe(func() string { return fmt.Sprintf("%d tokens, %v", k, ops) })
		q, q2 := tokenqueue.New(slice...), tokenqueue.New()
		tr := trie.New(c.Bool(), []rune{' ', '.'})
		if c.Bool() {
			q = tokenqueue.New()
			q.Push(slice...)
			ops = append(ops, "Push(slice)")
		}
		for i := 0; i < 3; i++ {
			switch o := c.Choose(8); o {
			case 0:
				ops = append(ops, "Push")
				q.Push(spare)
			case 1:
				ops = append(ops, "Pop")
				if q.Any() {
					q.Pop()
				}
			case 2:
				ops = append(ops, "Drop")
				if q.Len() > 1 {
					q.Drop(2)
				}
			case 3:
				ops = append(ops, "Clear, Push")
				q.Clear()
				q.Push(spare, spare)
			case 4:
				ops = append(ops, "FlushTo")
				q.FlushTo(q2)
				q2.Push(spare)
			case 5:
				ops = append(ops, "PopTo")
				if q.Any() {
					q.PopTo(q2)
				}
			case 6:
				ops = append(ops, "Add")
				tr.Add(slice, "x")
			case 7:
				ops = append(ops, "Search")
				tr.SearchCanonical(slice...)
			}
			c.Trans(1)
			for j := range slice[:cap(slice)] {
				if j < k && slice[j] != ts[j] || j >= k && slice[:cap(slice)][j] != spare {
					c.Failf("the slice given is changed at %d", j)
				}
			}
		}
		c.Step(core.HashInt(core.Hash(ops...), k))
		c.Outcome(core.Hash(ops...))
	})
}
