package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/synonyms"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

func init() {
	props["C08"] = c08
	props["C10"] = c10
	props["C24"] = c24
	props["C27"] = c27
}

type synCfg struct {
	m      map[string]string
	ic     bool
	ignore []rune
	filter jargon.Filter
	model  *ref.Syn
}

func newCfg(m map[string]string, ic bool, ignore []rune) *synCfg {
	return &synCfg{m, ic, ignore, synonyms.NewFilter(m, ic, ignore), ref.NewSyn(m, ic, ignore)}
}

func (k *synCfg) String() string {
	return fmt.Sprintf("%q ignoreCase %v ignore %q", k.m, k.ic, k.ignore)
}

func c08(r *core.Run) {
	// Configurations
	terms := []string{"a", "b", "a b", "b a", "a b a", "ab", "A", "a  b", "b a b a", "a-b", "a, b b", " b", "aa", "b.", "a b,", "á b"}
	ignores := [][]rune{nil, {' '}, {' ', '-', '.'}, {'-'}}
	var cfgs []*synCfg
	add := func(m map[string]string) {
		for _, ic := range []bool{false, true} {
			for _, ig := range ignores {
				k := newCfg(m, ic, ig)
				if !k.model.Conflict {
					cfgs = append(cfgs, k)
				}
			}
		}
	}
	add(map[string]string{})
	for i, t := range terms {
		add(map[string]string{t: "X"})
		add(map[string]string{t: ""})
		for j, u := range terms[:i] {
			add(map[string]string{t: "X", u: "Y z"})
			if r.Thorough() || i%4 == 0 {
				add(map[string]string{t: "", u: "a"})
				for _, v := range terms[:j] {
					add(map[string]string{t: "X", u: "Y", v: "Z"})
				}
			}
		}
	}
	alphabet := append(h.Ps("a", " ", "b", ".", "A", "-", "ab", "\n"), h.P("b", true), h.Script("a"), h.Tag("<b>"))
	n := r.Pick(4, 5)
	if r.Thorough() {
		alphabet = alphabet[:10]
	}
	r.Explore("sequences", fmt.Sprintf("%d configurations (sets of at most 3 of %d terms, both cases, %d sets of ignored characters), all sequences of at most %d of %d tokens", len(cfgs), len(terms), len(ignores), n, len(alphabet)), func(c *core.Ctx) {
		k := cfgs[c.Choose(len(cfgs))]
		seq := h.SeqUpTo(c, n, alphabet)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(k, " on ", rs) })
		h.Same(c, h.MustDrain(c, k.filter(h.StreamOf(ts)), 64), k.model.Apply(rs))
	})
	small := h.Ps("a", " ", "b", ".", "A")
	n2 := r.Pick(7, 9)
	var deep []*synCfg
	for _, m := range []map[string]string{
		{"a b a": "X", "a": "Y", "b a b": "Z"}, {"a a": "X", "b": ""}, {"a b a b": "X", "a b": "Y", "b b": "Z"}, {"a b": "X", "b a": "Y", "a b b a": "Z"},
		{"a": "b", "b": "a"}, {"a a a a a": "X"}, {"ab": "X", "a": "Y"}, {"a  b": "X", "b": "Y"}, {"a b a, b b": "X"},
	} {
		for _, ic := range []bool{false, true} {
			for _, ig := range ignores[:3] {
				k := newCfg(m, ic, ig)
				if !k.model.Conflict {
					deep = append(deep, k)
				}
			}
		}
	}
	r.Explore("longer sequences", fmt.Sprintf("%d configurations, all sequences of %d of %d tokens", len(deep), n2, len(small)), func(c *core.Ctx) {
		k := deep[c.Choose(len(deep))]
		seq := h.Seq(c, n2, small)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(k, " on ", rs) })
		h.Same(c, h.MustDrain(c, k.filter(h.StreamOf(ts)), 64), k.model.Apply(rs))
	})
	// Any set of ignored characters, from text
	chars := core.Atoms([]string{"a", "b", " ", "-", ".", "'", "é", "_", "/", "  ", "\n", "c d", "B", "É"}, 6)
	igs := [][]rune{nil, {' '}, {' ', '-', '.', '/'}, {'\'', '.'}, {'b'}, {'_', '\''}, {'é'}, {' ', '.', '\'', '-', '–'}}
	for _, x := range core.GetNovel().Runes {
		if len(igs) < 14 {
			igs = append(igs, []rune{x, ' '})
		}
	}
	var cfg2 []*synCfg
	for _, m := range []map[string]string{{"a b": "X", "ab": "X", "c d": "Z"}, {"a-b, b_a": "X", "a'b": "X"}, {"a.b a": "X", "b": "Y"}, {"éa": "X", "a": "Y", "a b c d": "Q"}, {"a/b": "X", "c d a b": "Y"}} {
		for _, ic := range []bool{false, true} {
			for _, ig := range igs {
				k := newCfg(m, ic, ig)
				if !k.model.Conflict {
					cfg2 = append(cfg2, k)
				}
			}
		}
	}
	n3 := r.Depth(len(chars), 250000, 4)
	r.Explore("texts", fmt.Sprintf("%d configurations, all texts of at most %d of %d atoms", len(cfg2), n3, len(chars)), func(c *core.Ctx) {
		text := h.Text(c, c.Choose(n3+1), chars)
		k := cfg2[c.Choose(len(cfg2))]
		c.Describe(func() string { return fmt.Sprintf("%v on %q", k, text) })
		h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(text)), 64), k.model.Apply(ref.Tokens(text)))
	})
	// How lists of synonyms are written
	parts := []string{",", " ", "a", "b", "  ", "\n", "\t", ", ", " ,", "\u00a0", "1", "-", "A"}
	n7 := r.Pick(5, 6)
	var line []string
	for _, w := range []string{"a", "b", "a b", "ab", "1", "a 1", "1 a", "b a b", "a  b", "-", "a-b", "-a", "1,1", "A", "a\nb", "a\tb", "a\u00a0b", "b-", ",a", "aa", "bb 1", ",", "a,b"} {
		line = append(line, w)
	}
	text7 := strings.Join(line, ". ") + ".  " + strings.Join(line, " . ")
	toks7 := ref.Tokens(text7)
	r.Explore("lists", fmt.Sprintf("all lists of synonyms of %d of %d parts (commas, spaces of 5 kinds, words), ignoring nothing or spaces, on one text with all terms they might be", n7, len(parts)), func(c *core.Ctx) {
		list := h.Text(c, n7, parts)
		for _, ig := range [][]rune{nil, {' '}} {
			k := newCfg(map[string]string{list: "X"}, false, ig)
			c.Describe(func() string { return fmt.Sprint(k, " on ", text7) })
			h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(text7)), 400), k.model.Apply(toks7))
		}
	})
	// Characters: case and identity
	var letters []rune
	for x := rune(0); x <= 0x1ffff; x++ {
		if unicode.IsLetter(x) && (unicode.ToLower(x) != x || unicode.ToUpper(x) != x || x%97 == 0) || unicode.IsNumber(x) || unicode.In(x, unicode.Other_Lowercase, unicode.Other_Uppercase) {
			letters = append(letters, x)
		}
	}
	r.Explore("case", fmt.Sprintf("%d letters and numbers, as a term and in a phrase, in each of their cases, with and without ignoring case", len(letters)), func(c *core.Ctx) {
		x := letters[c.Choose(len(letters))]
		s := string(x)
		if len(ref.Tokens(s)) != 1 {
			c.Prune()
		}
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		for _, ic := range []bool{true, false} {
			k := newCfg(map[string]string{s: "X1", "p " + s + "q": "X2"}, ic, []rune{'-'})
			text := ""
			for _, y := range []rune{x, unicode.ToLower(x), unicode.ToUpper(x), unicode.ToTitle(x), unicode.SimpleFold(x), x + 1} {
				text += string(y) + " P " + string(y) + "Q p " + string(y) + "q. "
			}
			h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(text)), 200), k.model.Apply(ref.Tokens(text)))
		}
	})
	// Every kind of space, and other characters that are not words for some
	kinds := []string{"\u00a0", "\u1680", "\u2000", "\u2003", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "\u0085", "\v", "\f", "\t", "\r", "\n", "\r\n", "  ", " \u00a0", "\u200b", "\ufeff", "\u2060", "\u00ad", "\x00", "\x1f", "\x1c", "_", "#", "+", "$", "\u0301", "\xff", "😀"}
	kinds = core.Atoms(kinds, 8)
	var cfg3 []*synCfg
	for _, m := range []map[string]string{{"a b a": "X", "b": "Y"}, {"a b": "X", "b a b a": "Y", "a": ""}, {"a\u00a0b": "X", "b b": "Y"}} {
		for _, ig := range [][]rune{nil, {' '}, {' ', '\u00a0', '_'}} {
			if k := newCfg(m, true, ig); !k.model.Conflict {
				cfg3 = append(cfg3, k)
			}
		}
	}
	n6 := r.Pick(6, 7)
	r.Explore("spaces", fmt.Sprintf("%d configurations, all sequences of %d of two words, a space and one of %d other characters", len(cfg3), n6, len(kinds)), func(c *core.Ctx) {
		sp := kinds[c.Choose(len(kinds))]
		k := cfg3[c.Choose(len(cfg3))]
		ts, rs := h.Split(h.Seq(c, n6, h.Ps("a", "b", " ", sp)))
		c.Describe(func() string { return fmt.Sprint(k, " on ", rs) })
		h.Same(c, h.MustDrain(c, k.filter(h.StreamOf(ts)), 64), k.model.Apply(rs))
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		text := "a" + string(x) + "b a b " + string(x) + " a b" + string(x) + "a " + string(x) + "a"
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		for _, i := range []int{0, 2, 4} {
			k := cfg3[i]
			h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(text)), 64), k.model.Apply(ref.Tokens(text)))
		}
	})
	// Scale: many terms, long terms
	sizes := core.Sizes(5000, 1, 2, 3, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100)
	r.Explore("long terms", fmt.Sprintf("terms of %v words together with shorter ones; texts with all of it, all but the last or the first word, another word in between, doubled spaces", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		ic := c.Bool()
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, fmt.Sprintf("w%d", i))
		}
		m := map[string]string{strings.Join(ws, " "): "LONG", "w0": "FIRST"}
		if n > 3 {
			m[strings.Join(ws[:n/2], " ")] = "HALF"
			m[strings.Join(ws[n/2:n-1], " ")] = "REST"
		}
		if n == 1 {
			delete(m, "w0")
			m["w0"] = "FIRST"
		}
		k := newCfg(m, ic, []rune{'-'})
		full := strings.Join(ws, " ")
		texts := []string{full, "x " + full + " y", full + "." + full, strings.Join(ws, "  "), full[:len(full)-1], strings.Join(ws[1:], " "), full + " " + full, strings.Join(ws[:n/2], " ") + ", " + strings.Join(ws[n/2:], " "), strings.ToUpper(full), full + "\n"}
		text := texts[c.Choose(len(texts))]
		c.Describe(func() string { return fmt.Sprintf("%d words, ignoreCase %v, %s", n, ic, h.Clip(text)) })
		h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(text)), 4*n+100), k.model.Apply(ref.Tokens(text)))
	})
	many := map[string]string{}
	for i := 0; i < 5000; i++ {
		many[fmt.Sprintf("t%d", i)] = fmt.Sprintf("T%d", i)
		many[fmt.Sprintf("t%d u%d", i, i%7)] = fmt.Sprintf("TU%d", i)
		many[fmt.Sprintf("é%d t%d, alt%d", i, i, i)] = fmt.Sprintf("E%d", i)
	}
	big := newCfg(many, true, []rune{' ', '-'})
	r.Explore("many terms", "a dictionary of 20 000 terms, each looked up in 5 ways", func(c *core.Ctx) {
		i := c.Choose(5000)
		text := fmt.Sprintf("T%d x t%d u%d é%d T%d ALT%d t%du%d t%d-u%d t%d\nu%d.", i, i, i%7, i, i, i, i, i%7, i, i%7, i, i%7)
		c.Describe(func() string { return text })
		h.Same(c, h.MustDrain(c, big.filter(jargon.TokenizeString(text)), 100), big.model.Apply(ref.Tokens(text)))
	})
	// Long inputs
	lens := core.Sizes(1<<17, 10, 100, 255, 256, 257, 1000, 1024, 4096, 20000)
	r.Explore("long inputs", fmt.Sprintf("%d configurations on %v repetitions of 6 patterns", 4, lens), func(c *core.Ctx) {
		n := lens[c.Choose(len(lens))]
		p := []string{"a ", "a b ", "b.", " ", "a b a\n", "ab, "}[c.Choose(6)]
		k := deep[c.Choose(4)*5]
		text := strings.Repeat(p, n) + "a b a b."
		if p == " " && n > 65000 {
			c.Prune()
		}
		c.Describe(func() string { return fmt.Sprintf("%v on %d of %q", k, n, p) })
		h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(text)), len(text)+10), k.model.Apply(ref.Tokens(text)))
	})
	// The shipped dictionaries on running text
	words := core.Atoms([]string{"Ruby", "on", "Rails", "rails", ".", " ", " ", "the", "C", "++", "#", "Node", "js", "-", "React", "LeBron", "James", ",", "\n", "asp", "net", "/", "mvc", "4"}, 6)
	r.Explore("dictionaries", fmt.Sprintf("Stack Overflow and NBA on all texts of 4 of %d atoms", len(words)), func(c *core.Ctx) {
		text := h.Text(c, 4, words)
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		h.Same(c, h.MustDrain(c, stackoverflow.Tags(jargon.TokenizeString(text)), 64), ref.SO().Apply(ref.Tokens(text)))
		h.Same(c, h.MustDrain(c, nba.CurrentPlayers(jargon.TokenizeString(text)), 64), ref.NBA().Apply(ref.Tokens(text)))
	})
}

// ---- C10

// lookahead checks at each delivery how far the source was read. For the delivered token, the model tells from which
// source tokens it came: out is the number of source tokens that are accounted for once k tokens are out.
func c10(r *core.Run) {
	fs := h.Filters()
	const slack = 4
	words := func(k *ref.Syn) int { return k.MaxWords }
	// accounted[i]: index of the last source token needed to decide output i, without lookahead
	check := func(c *core.Ctx, f h.F, head []h.Pair, tail []h.Pair) {
		all := append(append([]h.Pair(nil), head...), tail...)
		ts, rs := h.Split(all)
		src := h.NewSource(ts)
		s := f.New()(src.Stream())
		if src.Pulls != 0 {
			c.Failf("building the pipeline read %d tokens", src.Pulls)
		}
		// Deliver what the model says comes out of the head, and compare the reads with a bound.
		hs := rs[:len(head)]
		outs := len(f.Model(hs))
		for i := 0; i < outs; i++ {
			before := src.I
			t, err := s.Next()
			if err != nil || t == nil {
				c.Failf("delivery %d: %v %v", i, t, err)
			}
			c.Step(core.HashInt(core.Hash(f.Name), i, src.I, before))
			// The output so far was produced from some source prefix: the shortest prefix whose output has i+1 tokens.
			need := len(rs)
			for p := 1; p <= len(hs); p++ {
				if len(f.Model(hs[:p])) > i {
					need = p
					break
				}
			}
			if need > len(hs) {
				break
			}
			limit := need + slack
			if f.Syn != nil {
				// the words of the longest synonym or the next punctuation
				w := 0
				j := need
				for j < len(rs) && w < words(f.Syn) {
					if rs[j].P {
						j++
						break
					}
					if !rs[j].S {
						w++
					}
					j++
				}
				limit = j + slack
			}
			if src.I > limit {
				c.Failf("delivery %d (%q) came after reading %d tokens; %d would do, at most %d are justified", i, t.String(), src.I, need, limit)
			}
		}
		// The rest is read only as far as it is needed
		c.Outcome(core.HashInt(core.Hash(f.Name), src.I))
	}
	alphabet := append(h.Ps("a", " ", "b", ".", "@", "user", "don't", "é", "the", "rails", "$", "\n"), h.P("c", true))
	var tails [][]h.Pair
	for _, t := range []string{"a", " ", ".", "@", "$", "the", "rails", "\n", "b"} {
		var tail []h.Pair
		for i := 0; i < 300; i++ {
			tail = append(tail, h.P(t, false))
		}
		tails = append(tails, tail)
	}
	var mixed []h.Pair
	for i := 0; i < 300; i++ {
		mixed = append(mixed, h.Ps("a", " ", "x", " ")[i%4])
	}
	tails = append(tails, mixed)
	n := r.Pick(2, 3)
	r.Explore("lookahead", fmt.Sprintf("%d filters; all sequences of %d of %d tokens, followed by 300 tokens of %d kinds", len(fs), n+1, len(alphabet), len(tails)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		k := c.Choose(len(tails))
		head := h.Seq(c, n+1, alphabet)
		c.Describe(func() string { return fmt.Sprintf("%s on %v then 300 of %v", f.Name, h.Refs(head), tails[k][0].R) })
		check(c, f, head, tails[k])
	})
	// Through the whole of a long input, at every delivery
	r.Explore("lookahead throughout", fmt.Sprintf("%d filters; 6 long inputs; at each delivery the reads are at most a constant ahead of the deliveries", len(fs)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		pat := [][]h.Pair{h.Ps("a", " ", "x", " "), h.Ps("a", "."), h.Ps(".", "."), h.Ps(" ", "\n"), h.Ps("@", "user", " "), h.Ps("don't", ",", "rails", " ", "the")}[c.Choose(6)]
		n := r.Pick(5000, 50000)
		i := 0
		s := f.New()(jargon.NewTokenStream(func() (*jargon.Token, error) {
			if i >= n {
				return nil, nil
			}
			i++
			return pat[(i-1)%len(pat)].T, nil
		}))
		c.Describe(func() string { return fmt.Sprintf("%s on repeated %v", f.Name, h.Refs(pat)) })
		// per period of the pattern, the number of outputs is constant after the first
		_, unit := h.Split(pat)
		var rep []ref.Tok
		for k := 0; k < 40; k++ {
			rep = append(rep, unit...)
		}
		o1, o2 := len(f.Model(rep[:10*len(unit)])), len(f.Model(rep))
		if o2 == o1 {
			c.Prune() // nothing more comes out, e.g. no other distinct values
		}
		perTok := float64(o2-o1) / float64(30*len(unit))
		outs := 0
		for {
			t, err := s.Next()
			if err != nil {
				c.Failf("error %v", err)
			}
			if t == nil {
				break
			}
			outs++
			ahead := float64(i) - float64(outs)/perTok
			if ahead > 200 {
				c.Failf("after %d deliveries, %d tokens were read, %.0f ahead", outs, i, ahead)
			}
		}
		c.Trans(outs)
	})
	// Building reads nothing, from readers, through chains
	r.Explore("lazy", "text and html readers through chains of 2 filters: nothing is read before the first advance", func(c *core.Ctx) {
		a, b := fs[c.Choose(len(fs))], fs[c.Choose(len(fs))]
		rd := h.NewReader("a b c. don't", nil, false)
		var s *jargon.TokenStream
		if c.Bool() {
			s = jargon.Tokenize(rd)
		} else {
			s = jargon.TokenizeHTML(rd)
		}
		s = s.Filter(a.New(), b.New()).Words().Distinct().Where(func(*jargon.Token) bool { return true }).Lemmas()
		c.Describe(func() string { return a.Name + "." + b.Name })
		if rd.Reads != 0 {
			c.Failf("%d reads before the first advance", rd.Reads)
		}
		s.Next()
		c.Trans(1)
	})
	// Text is read a fixed-size buffer at a time
	units := []string{"ab c. ", "don't ", "é\n", ". ", "x @user "}
	r.Explore("read-ahead", "text and html readers of 2 MB, whole or 1000 bytes at a time, through each filter: bytes read are at most 64 KiB ahead of the bytes delivered", func(c *core.Ctx) {
		u := units[c.Choose(len(units))]
		fi := c.Choose(len(fs) + 1)
		html := c.Bool()
		small := c.Bool()
		text := strings.Repeat(u, 2<<20/len(u))
		if html {
			text = strings.Repeat("<p>"+u+"</p>", 2<<20/(len(u)+7))
		}
		var cuts []int
		if small {
			for i := 1000; i < len(text); i += 1000 {
				cuts = append(cuts, i)
			}
		}
		rd := h.NewReader(text, cuts, false)
		var s *jargon.TokenStream
		if html {
			s = jargon.TokenizeHTML(rd)
		} else {
			s = jargon.Tokenize(rd)
		}
		// Count what is taken from the tokenizer, and filter that
		taken, ntok := 0, 0
		tap := jargon.NewTokenStream(func() (*jargon.Token, error) {
			t, err := s.Next()
			if t != nil {
				taken += len(t.String())
				ntok++
				if rd.Given > taken+70000 {
					c.Failf("%d bytes read, %d delivered", rd.Given, taken)
				}
			}
			return t, err
		})
		name := "plain"
		out := tap
		if fi > 0 {
			name = fs[fi-1].Name
			out = fs[fi-1].New()(tap)
		}
		c.Describe(func() string { return fmt.Sprintf("%q through %s html %v small %v", u, name, html, small) })
		if name == "lemmas" || name == "distinct" {
			c.Prune()
		}
		for i := 0; i < 3000; i++ {
			t, err := out.Next()
			if err != nil {
				c.Failf("error %v", err)
			}
			if t == nil {
				break
			}
			if i == 0 && (rd.Given > 200000 || ntok > 500) {
				c.Failf("the first token was delivered after reading %d bytes (%d tokens)", rd.Given, ntok)
			}
			if rd.Given > 1<<20 {
				c.Failf("%d tokens were delivered after reading %d bytes", i+1, rd.Given)
			}
		}
		c.Trans(3000)
	})
	// Nothing waits for a buffer to fill: what has arrived, up to the end of the next token, is enough
	pieces := core.Atoms([]string{"a", "b1", " ", ".", "'", "\n", "é", "e\u0301", "@", "🙂", "\r\n", "ש\"", "_"}, 6)
	ln := r.Pick(4, 5)
	r.Explore("interactive", fmt.Sprintf("all texts of at most %d of %d pieces, then 4000 bytes of words or of spaces; delivered by the byte, by the rune, by the piece: each token is delivered before anything is read that is more than 8 bytes after the end of the token that follows it", ln, len(pieces)), func(c *core.Ctx) {
		var head string
		var cuts []int
		mode := c.Choose(3)
		for i, n := 0, 1+c.Choose(ln); i < n; i++ {
			head += pieces[c.Choose(len(pieces))]
			cuts = append(cuts, len(head))
		}
		text := head + strings.Repeat([]string{"x yz ", "     "}[c.Choose(2)], 800)
		switch mode {
		case 0:
			cuts = ones(len(text))
		case 1:
			cuts = nil
			for i := range text {
				if i > 0 {
					cuts = append(cuts, i)
				}
			}
		default:
			for i := len(head) + 1; i < len(text); i++ {
				cuts = append(cuts, i)
			}
		}
		want := ref.Tokens(text)
		rd := h.NewReader(text, cuts, false)
		s := jargon.Tokenize(rd)
		c.Describe(func() string { return fmt.Sprintf("%q…, reads ending at %v…", head, cuts[:4]) })
		end := 0
		for i := 0; i < len(want)-1 && i < 2*ln+6 && end < len(head)+20; i++ {
			t, err := s.Next()
			if err != nil || t == nil || t.String() != want[i].V {
				c.Failf("delivery %d: %v %v, expected %q", i, t, err, want[i].V)
			}
			end += len(want[i].V)
			if limit := end + len(want[i+1].V) + 8; rd.Given > limit && (mode < 2 || rd.Given > limit+len(head)) {
				c.Failf("delivery %d (%q) waited until %d bytes were read; it ends at %d, and the token after it at %d", i, want[i].V, rd.Given, end, limit-8)
			}
			c.Step(core.HashInt(core.Hash(head), i, rd.Given-end, 0))
		}
	})
	nodes := []string{"a b", "<p>", "</p>", "<!-- c -->", "<br/>", "&amp;", "<a href='x'>", "\n", "<script>s t</script>", "<style>u</style>", "<title>v w</title>", "<!DOCTYPE html>"}
	r.Explore("interactive html", fmt.Sprintf("all documents of at most %d of %d nodes, then 4000 bytes of elements, by the byte: each token is delivered before anything is read that is more than 16 bytes after the end of the markup that follows it", ln, len(nodes)), func(c *core.Ctx) {
		head := h.Text(c, 1+c.Choose(ln), nodes)
		text := head + strings.Repeat("<i>x</i> ", 450)
		want := htmlRef(text)
		rd := h.NewReader(text, ones(len(text)), false)
		s := jargon.TokenizeHTML(rd)
		c.Describe(func() string { return fmt.Sprintf("%q…", head) })
		end := 0
		for i := 0; i < len(want)-1 && end < len(head)+20; i++ {
			t, err := s.Next()
			if err != nil || t == nil || t.String() != want[i].V {
				c.Failf("delivery %d: %v %v, expected %q", i, t, err, want[i].V)
			}
			end += len(want[i].V)
			limit := end
			for _, n := range want[i+1:] {
				limit += len(n.V)
				if strings.HasPrefix(n.V, "<") {
					break
				}
			}
			if rd.Given > limit+16 {
				c.Failf("delivery %d (%q) waited until %d bytes were read; it ends at %d, and the markup after it at %d", i, want[i].V, rd.Given, end, limit)
			}
			c.Step(core.HashInt(core.Hash(head), i, rd.Given-end, 0))
		}
	})
	// Memory: what each filter keeps of pairs of tokens that follow one another
	long := strings.Repeat("z", 40)
	classes := []struct {
		name string
		make func(i int) *jargon.Token
	}{
		{"@", func(int) *jargon.Token { return jargon.NewToken("@", false) }},
		{"#", func(int) *jargon.Token { return jargon.NewToken("#", false) }},
		{"name", func(i int) *jargon.Token { return jargon.NewToken("u"+fmt.Sprint(i), false) }},
		{"long word", func(i int) *jargon.Token { return jargon.NewToken(long+fmt.Sprint(i), false) }},
		{"spaces", func(i int) *jargon.Token { return jargon.NewToken("   ", false) }},
		{"dashes", func(i int) *jargon.Token { return jargon.NewToken("--", i%2 == 0) }},
		{"don't", func(i int) *jargon.Token { return jargon.NewToken("don't", false) }},
		{"rails", func(i int) *jargon.Token { return jargon.NewToken("rails", i%3 == 0) }},
		{"accents", func(i int) *jargon.Token { return jargon.NewToken("é\u0301ﬁ"+fmt.Sprint(i), false) }},
		{"running", func(i int) *jargon.Token { return jargon.NewToken(fmt.Sprint(i)+"running", true) }},
		{"the", func(i int) *jargon.Token { return jargon.NewToken("the", false) }},
	}
	const step = 12000
	r.ExploreSerial("memory of pairs", fmt.Sprintf("%d filters on %d tokens alternating between any 2 of %d kinds, each a new value: heap in use grows by less than 4 bytes per token (confirmed with 4 times as many)", len(fs), step, len(classes)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		bi := c.Choose(len(classes))
		a, b := classes[c.Choose(bi+1)], classes[bi]
		c.Describe(func() string { return fmt.Sprintf("%s on %s and %s", f.Name, a.name, b.name) })
		gen := func(i int) *jargon.Token {
			if f.Name == "distinct" {
				i %= 100 // it may remember values
			}
			if i%2 == 0 {
				return a.make(i)
			}
			return b.make(i)
		}
		const per = 3
		if retains(c, f, step, gen) < per*step*3/4 {
			return
		}
		if g := retains(c, f, 4*step, gen); g > per*4*step*3/4 {
			if g2 := retains(c, f, 8*step, gen); g2 > per*8*step*3/4 {
				c.Failf("heap in use grows by %d bytes over %d tokens, by %d over %d", g, 3*step, g2, 6*step)
			}
		}
	})
	// Memory
	total := r.Pick(200000, 2000000)
	kinds := []string{"text", "html"}
	for _, f := range fs {
		kinds = append(kinds, f.Name)
	}
	inputs := []string{"don't stop the Ruby on Rails, @user é. a b ", "word ", ". ", "@ $ "}
	r.ExploreSerial("memory", fmt.Sprintf("%d kinds of pipeline on inputs of %d tokens of %d kinds: heap in use after a collection, at 1/4, 1/2 and the end, grows by less than 600 KB", len(kinds), total, len(inputs)), func(c *core.Ctx) {
		kind := kinds[c.Choose(len(kinds))]
		in := inputs[c.Choose(len(inputs))]
		c.Describe(func() string { return fmt.Sprintf("%s on repeated %q", kind, in) })
		var s *jargon.TokenStream
		pulled := 0
		var mem []uint64
		measure := func() {
			var ms runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&ms)
			mem = append(mem, ms.HeapAlloc)
		}
		switch kind {
		case "text", "html":
			rd := &endless{unit: in, max: total * 2}
			if kind == "html" {
				rd.unit = "<p>" + in + "</p><script>x</script>"
				rd.max *= 2
			}
			rd.at = func(n int) {
				measure()
			}
			if kind == "html" {
				s = jargon.TokenizeHTML(rd)
			} else {
				s = jargon.Tokenize(rd)
			}
		default:
			ts := ref.Tokens(in)
			var js []*jargon.Token
			for _, t := range ts {
				js = append(js, jargon.NewToken(t.V, false))
			}
			src := jargon.NewTokenStream(func() (*jargon.Token, error) {
				if pulled >= total {
					return nil, nil
				}
				if pulled == total/4 || pulled == total/2 || pulled == total-100 {
					measure()
				}
				t := js[pulled%len(js)]
				pulled++
				// a new value each time, so that what is retained counts
				return jargon.NewToken(t.String(), pulled%5 == 0), nil
			})
			s = h.Filter(kind).New()(src)
		}
		n := 0
		for {
			t, err := s.Next()
			if err != nil {
				c.Failf("error %v", err)
			}
			if t == nil {
				break
			}
			n++
		}
		c.Trans(n)
		if len(mem) < 3 {
			c.Failf("the input was not read to its end: %d measurements", len(mem))
		}
		if grow := int64(mem[2]) - int64(mem[0]); grow > 600000 && int64(mem[1])-int64(mem[0]) > 150000 {
			c.Failf("heap grows by %d bytes between 1/4 and the end of the input: %v", grow, mem)
		}
	})
}

// retains runs a filter over total tokens made by gen and returns the growth of the heap in use from 1/4 to the end.
func retains(c *core.Ctx, f h.F, total int, gen func(i int) *jargon.Token) int64 {
	var mem []uint64
	pulled := 0
	s := f.New()(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if pulled == total/4 || pulled == total-50 {
			var ms runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&ms)
			mem = append(mem, ms.HeapAlloc)
		}
		if pulled >= total {
			return nil, nil
		}
		pulled++
		return gen(pulled), nil
	}))
	for {
		t, err := s.Next()
		if err != nil {
			c.Failf("error %v", err)
		}
		if t == nil {
			break
		}
	}
	c.Trans(total)
	runtime.KeepAlive(s)
	if len(mem) < 2 {
		c.Failf("the input was not read to its end: %d measurements", len(mem))
	}
	return int64(mem[1]) - int64(mem[0])
}

// endless delivers a repeated unit.
type endless struct {
	unit string
	max  int
	n    int
	at   func(int)
	seen int
}

func (e *endless) Read(p []byte) (int, error) {
	marks := []int{e.max / 4, e.max / 2, e.max - 10000}
	if e.seen < len(marks) && e.n >= marks[e.seen] {
		e.at(e.seen)
		e.seen++
	}
	if e.n >= e.max {
		return 0, errEOF
	}
	i := 0
	for i < len(p) && i < 4096 {
		p[i] = e.unit[e.n%len(e.unit)]
		i++
		e.n++
	}
	return i, nil
}

// ---- C24

func variants(term string) []string {
	out := []string{term, strings.ToUpper(term), strings.ToLower(term), strings.Title(term)}
	// alternating case
	b := []rune(strings.ToLower(term))
	for i := range b {
		if i%2 == 1 {
			b[i] = unicode.ToUpper(b[i])
		}
	}
	out = append(out, string(b))
	// one letter in the other case
	b = []rune(term)
	for i, x := range b {
		y := unicode.ToUpper(x)
		if x == y {
			y = unicode.ToLower(x)
		}
		if x != y {
			b[i] = y
			out = append(out, string(b))
			b[i] = x
		}
	}
	// every combination of spaces left out, kept, doubled
	if parts := strings.Split(term, " "); len(parts) > 1 && len(parts) < 6 {
		n := 1
		for range parts[1:] {
			n *= 3
		}
		for k := 0; k < n; k++ {
			s, x := parts[0], k
			for _, p := range parts[1:] {
				s += strings.Repeat(" ", x%3) + p
				x /= 3
			}
			out = append(out, s, strings.ToUpper(s))
		}
	}
	return out
}

func c24(r *core.Run) {
	type entry struct{ dict, term, canonical string }
	var es []entry
	collect := func(dict string, table map[string]string) {
		for syns, canonical := range table {
			for _, s := range ref.SplitSynonyms(syns) {
				es = append(es, entry{dict, strings.TrimRight(s, " "), canonical})
			}
		}
	}
	collect("stackoverflow", ref.SOTable)
	collect("nba", ref.NBATable)
	sort.Slice(es, func(i, j int) bool { return es[i].dict+es[i].term < es[j].dict+es[j].term })
	filters := map[string]jargon.Filter{"stackoverflow": stackoverflow.Tags, "nba": nba.CurrentPlayers}
	models := map[string]*ref.Syn{"stackoverflow": ref.SO(), "nba": ref.NBA()}
	contexts := [][2]string{{"", ""}, {"Zzyzx ", " zzyzx"}, {". ", "."}, {"(", ")"}, {"\n", "\n"}, {"qqxq, ", ", qqxq"}, {"zzyzx\n\nqqxq  ", "  zzyzx qqxq zzyzx"}, {"«", "»"}}
	var mu sync.Mutex
	r.Extra["terms"] = len(es)
	r.Explore("terms", fmt.Sprintf("all %d terms of both dictionaries, in all spellings (four letter cases, each letter in the other case, every combination of spaces left out, kept and doubled), in %d contexts", len(es), len(contexts)), func(c *core.Ctx) {
		e := es[c.Choose(len(es))]
		vs := variants(e.term)
		v := vs[c.Choose(len(vs))]
		k := c.Choose(len(contexts))
		ctx := contexts[k]
		text := ctx[0] + v + ctx[1]
		c.Describe(func() string { return fmt.Sprintf("%s: %q", e.dict, text) })
		got := h.MustDrain(c, filters[e.dict](jargon.TokenizeString(text)), 100)
		// What is around it may begin a longer term with it; the dictionaries have none with these neighbours.
		pre, post := ref.Tokens(ctx[0]), ref.Tokens(ctx[1])
		var want []ref.Tok
		want = append(want, pre...)
		want = append(want, ref.New(e.canonical, true))
		want = append(want, post...)
		if ref.Eq(got, want) {
			return
		}
		// A known finding is about the term as listed and what comes out of it, wherever it stands.
		base := h.MustDrain(c, filters[e.dict](jargon.TokenizeString(e.term)), 100)
		what := fmt.Sprintf("%s: %q comes out as %v, not as the lemma %q", e.dict, e.term, base, e.canonical)
		mu.Lock()
		known := r.Known(what)
		mu.Unlock()
		if known {
			// In other spellings and contexts it must be what the matching rule says, which breaks at punctuation
			if ref.Eq(got, models[e.dict].Apply(ref.Tokens(text))) {
				return
			}
		}
		c.Failf("%s\n%q gives %v, expected %v", what, text, got, want)
	})
	// Two terms next to each other
	r.Explore("neighbours", "every term followed by a comma, and by the next term of the dictionary after a comma", func(c *core.Ctx) {
		i := c.Choose(len(es) - 1)
		a, b := es[i], es[i+1]
		text := a.term + ", " + b.term + "; " + a.term
		c.Describe(func() string { return fmt.Sprintf("%s: %q", a.dict, text) })
		got := h.MustDrain(c, filters[a.dict](jargon.TokenizeString(text)), 100)
		h.Same(c, got, models[a.dict].Apply(ref.Tokens(text)))
	})
}

// ---- C27

func c27(r *core.Run) {
	over := strings.Repeat("w", 70000)
	bad := []map[string]string{
		{over: "X"}, {"a": "A", over: "X"}, {"a b, " + over: "X", "b": "Y"}, {over: "", "a": "A", "b": "B", "c": "C"}, {"a " + over + " b": "X"}, {over + ",a": "X"},
	}
	inputs := []string{"a b", "", "a", ". a", "x"}
	uses := r.Pick(3, 4)
	r.Explore("failing", fmt.Sprintf("%d dictionaries that cannot be processed, %d uses in a row of %d inputs, each advanced several times, in either style or collected", len(bad), uses, len(inputs)), func(c *core.Ctx) {
		i := c.Choose(len(bad))
		ic := c.Bool()
		f := synonyms.NewFilter(bad[i], ic, []rune{'-'})
		var trace []string
		c.Describe(func() string { return fmt.Sprintf("dictionary %d: %v", i, trace) })
		var first error
		for u := 0; u < uses; u++ {
			in := inputs[c.Choose(len(inputs))]
			how := c.Choose(3)
			trace = append(trace, fmt.Sprintf("%q/%d", in, how))
			src := h.NewSource(nil)
			for _, t := range ref.Tokens(in) {
				src.Toks = append(src.Toks, jargon.NewToken(t.V, false))
			}
			s := f(src.Stream())
			var err error
			switch how {
			case 0:
				var t *jargon.Token
				t, err = s.Next()
				if t != nil && err != nil {
					c.Failf("use %d: token and error", u)
				}
			case 1:
				if s.Scan() {
					err = nil
				} else {
					err = s.Err()
				}
			case 2:
				_, err = s.ToSlice()
			}
			c.Step(core.HashInt(core.Hash(in), i, u, how))
			if u == 0 {
				first = err
				if first == nil {
					// The tokenizer can do it after all; then it is a filter as any other.
					k := ref.NewSyn(bad[i], ic, []rune{'-'})
					rs := ref.Tokens("a b " + over)
					var ts []*jargon.Token
					for _, t := range rs {
						ts = append(ts, jargon.NewToken(t.V, false))
					}
					got, err := h.Drain(c, f(h.StreamOf(ts)), 64)
					if err != nil || !ref.Eq(got, k.Apply(rs)) {
						c.Failf("no error on the first use, but then %v %v", h.Short(got), err)
					}
					return
				}
			}
			if err == nil {
				c.Failf("use %d: no error on the first advance (the first use reported %v)", u, first)
			}
			if err.Error() != first.Error() {
				c.Failf("use %d: %v, the first use reported %v", u, err, first)
			}
			for k := 0; k < 2; k++ {
				if t, err := s.Next(); err == nil {
					c.Failf("use %d: advancing again gives %v without error", u, t)
				}
			}
		}
		c.Outcome(core.Hash(fmt.Sprint(trace)))
	})
	// One stream made before another is read
	r.Explore("interleaved", "two streams made from one failing filter, advanced in any order", func(c *core.Ctx) {
		f := synonyms.NewFilter(bad[c.Choose(len(bad))], true, nil)
		ss := []*jargon.TokenStream{f(jargon.TokenizeString("a b")), nil}
		ss[1] = f(jargon.TokenizeString("c"))
		errs := 0
		var sched []int
		c.Describe(func() string { return fmt.Sprint(sched) })
		for i := 0; i < 5; i++ {
			k := c.Choose(2)
			sched = append(sched, k)
			t, err := ss[k].Next()
			c.Trans(1)
			if err != nil {
				errs++
			} else if errs > 0 {
				c.Failf("advance %d: %v without error, after errors", i, t)
			}
		}
	})
	// Through other filters
	r.Explore("in chains", "a failing filter before and after each other filter: the error comes through", func(c *core.Ctx) {
		fs := h.Filters()
		o := fs[c.Choose(len(fs))]
		f := synonyms.NewFilter(bad[0], true, nil)
		before := c.Bool()
		c.Describe(func() string { return fmt.Sprint(o.Name, before) })
		for u := 0; u < 2; u++ {
			var s *jargon.TokenStream
			if before {
				s = jargon.TokenizeString("a @user the don't").Filter(f, o.New())
			} else {
				s = jargon.TokenizeString("a @user the don't").Filter(o.New(), f)
			}
			_, err := s.Count()
			if err == nil {
				if x, e := f(jargon.TokenizeString("a")).Count(); e == nil && x == 1 {
					c.Prune() // can be built after all
				}
				c.Failf("use %d: no error", u)
			}
		}
	})
	// Filters that can be built never report one
	good := []map[string]string{
		nil, {}, {"": ""}, {"a": ""}, {"": "X"}, {",": "X"}, {" ": "X"}, {", ,": "X"}, {"a,,b": "X"}, {"\xff": "X"}, {"a\x00b": "X"}, {"\n": "X"}, {".": "X"}, {"a": strings.Repeat("y", 200000)},
		{strings.Repeat("w", 60000): "X"}, {strings.Repeat("w ", 3000): "X"}, {"a": "A", "b": "B", "a b": "AB"}, {"-": "X"},
	}
	igs := [][]rune{nil, {}, {' '}, {'a'}, {' ', 'a', 'b', '.', '-', ','}, {0xfffd}}
	ins := []string{"", "a", "a b", " ", ".", "a, b. a", "\xff", "-", "b a b"}
	r.Explore("buildable", fmt.Sprintf("%d dictionaries with unusual contents, %d sets of ignored characters, %d inputs, two uses: never an error, and the output of the rule", len(good), len(igs), len(ins)), func(c *core.Ctx) {
		m := good[c.Choose(len(good))]
		ic := c.Bool()
		ig := igs[c.Choose(len(igs))]
		k := newCfg(m, ic, ig)
		in := ins[c.Choose(len(ins))]
		c.Describe(func() string { return fmt.Sprintf("%s on %q", h.Clip(fmt.Sprint(k)), in) })
		for u := 0; u < 2; u++ {
			h.Same(c, h.MustDrain(c, k.filter(jargon.TokenizeString(in)), 64), k.model.Apply(ref.Tokens(in)))
		}
	})
}
