package main

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	jnorm "github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/twitter"
	"golang.org/x/text/unicode/norm"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

var errEOF = io.EOF

func init() {
	props["C09"] = c09
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
	props["C15"] = c15
	props["C16"] = c16
	props["C17"] = c17
}

// ---- C09

func c09(r *core.Run) {
	fs := h.Filters()
	base := append(h.Ps("a", " ", ".", "b", "café", "don't", "@", "user", "running", "rails", "e\u0301", "#", "the", "B", "\n", "1"), h.Lemmas("don't", "café", "running", "a", "rails", ".", "user")...)
	base = append(base, h.Script(" "), h.Script("don't"), h.Tag("<b>"), h.P("\xff", false), h.P("ﬁ", false))
	for _, s := range core.Atoms(nil, 6) {
		base = append(base, h.P(s, false), h.P(s, true))
	}
	n := r.Depth(len(base), 30000, 2)
	r.Explore("sequences", fmt.Sprintf("%d filters; all sequences of at most %d of %d tokens, lemmas and tokens of html among them", len(fs), n, len(base)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		seq := h.SeqUpTo(c, n, base)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(f.Name, " on ", rs) })
		got := h.MustDrain(c, f.New()(h.StreamOf(ts)), 64)
		h.Same(c, got, f.Model(rs))
	})
	words := core.Atoms([]string{"don't", "Café", "@user", "#tag", "running", "Ruby on Rails", "LeBron James", ".", " ", ",", "e\u0301", "ﬁn", "\n", "x", "12", "the", "$abc", "naïve's", "They’re"}, 6)
	r.Explore("texts", fmt.Sprintf("%d filters; all texts of 3 of %d phrases", len(fs), len(words)), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		text := h.Text(c, 3, words)
		c.Describe(func() string { return fmt.Sprintf("%s on %q", f.Name, text) })
		h.Same(c, h.MustDrain(c, f.New()(jargon.TokenizeString(text)), 100), f.Model(ref.Tokens(text)))
	})
	sizes := core.Sizes(1<<15, 10, 64, 100, 256, 257, 1000, 4096, 20000)
	r.Explore("long", fmt.Sprintf("%d filters; %v repetitions of 3 texts: nothing is lost, duplicated or reordered", len(fs), sizes), func(c *core.Ctx) {
		f := fs[c.Choose(len(fs))]
		n := sizes[c.Choose(len(sizes))]
		u := []string{"don't stop @user é. ", "Ruby on Rails the ", "a.b "}[c.Choose(3)]
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%s%d ", u, i)
		}
		text := b.String()
		c.Describe(func() string { return fmt.Sprintf("%s on %d of %q", f.Name, n, u) })
		h.Same(c, h.MustDrain(c, f.New()(jargon.TokenizeString(text)), len(text)+10), f.Model(ref.Tokens(text)))
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		if !r.Thorough() && (unicode.Is(unicode.Co, x) || unicode.Is(unicode.Han, x) && x%64 != 0 || x >= 0xe0200) {
			c.Prune()
		}
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		ts, rs := h.Split(append(h.Ps(s, s+"a"), h.P("a"+s, true)))
		for _, f := range fs {
			if f.Syn != nil && f.Name != "synonyms" || f.Name == "handles" || f.Kind == "select" && f.Name != "stop" {
				continue
			}
			got, err := h.Drain(c, f.New()(h.StreamOf(ts)), 64)
			want := f.Model(rs)
			if err != nil {
				c.Failf("%s: %v", f.Name, err)
			}
			if !ref.Eq(got, want) {
				c.Failf("%s on %v gives %v, expected %v", f.Name, rs, got, want)
			}
		}
	})
}

// ---- C12

func sorted(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func c12(r *core.Run) {
	base := sorted(ref.ContractionBase())
	r.Extra["contractions"] = len(base)
	expand := func(c *core.Ctx, ts []*jargon.Token) []ref.Tok {
		return h.MustDrain(c, contractions.Expand(h.StreamOf(ts)), 100)
	}
	check := func(c *core.Ctx, s string, lemma bool) {
		p := []h.Pair{h.P("x", false), h.P(s, lemma), h.P(" ", false), h.P(s, lemma)}
		ts, rs := h.Split(p)
		c.Describe(func() string { return fmt.Sprintf("%q", s) })
		h.Same(c, expand(c, ts), ref.Expand(rs))
	}
	r.Explore("all cases", fmt.Sprintf("each of %d contractions in every mixture of upper and lower case, with straight and typographic apostrophe", len(base)), func(c *core.Ctx) {
		w := []rune(base[c.Choose(len(base))])
		apos := []rune{'\'', '’', '\u02bc', '`'}[c.Choose(4)]
		for i, x := range w {
			if x == '\'' {
				w[i] = apos
			} else if c.Bool() {
				w[i] = unicode.ToUpper(x)
			}
		}
		check(c, string(w), false)
	})
	// From text, in context
	ctx := [][2]string{{"", ""}, {"x ", " y"}, {"", "."}, {"(", ")"}, {"\n", "\n"}, {"don't ", " don't"}, {"'", "'"}, {"“", "”"}, {"é ", ", é"}}
	r.Explore("in text", fmt.Sprintf("each contraction in three cases and two apostrophes in %d contexts, from text", len(ctx)), func(c *core.Ctx) {
		w := base[c.Choose(len(base))]
		switch c.Choose(3) {
		case 1:
			w = strings.ToUpper(w)
		case 2:
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		if c.Bool() {
			w = strings.ReplaceAll(w, "'", "’")
		}
		k := ctx[c.Choose(len(ctx))]
		text := k[0] + w + k[1]
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		h.Same(c, h.MustDrain(c, contractions.Expand(jargon.TokenizeString(text)), 100), ref.Expand(ref.Tokens(text)))
	})
	// Near misses
	letters := []string{"a", "s", "t", "e", "'", "’", "n", "d", " ", "é", "x", "ﬁ", ".", "S", "ſ", "\u212a", "İ", "\u0301"}
	r.Explore("near misses", fmt.Sprintf("each contraction with one character left out, replaced by or preceded by one of %d, or two neighbours swapped", len(letters)), func(c *core.Ctx) {
		w := []rune(base[c.Choose(len(base))])
		if c.Bool() {
			w[0] = unicode.ToUpper(w[0])
		}
		i := c.Choose(len(w) + 1)
		var s string
		switch c.Choose(4) {
		case 0: // left out
			if i == len(w) || len(w) < 2 {
				c.Prune()
			}
			s = string(w[:i]) + string(w[i+1:])
		case 1:
			if i == len(w) {
				c.Prune()
			}
			s = string(w[:i]) + letters[c.Choose(len(letters))] + string(w[i+1:])
		case 2:
			s = string(w[:i]) + letters[c.Choose(len(letters))] + string(w[i:])
		case 3:
			if i+1 >= len(w) {
				c.Prune()
			}
			s = string(w[:i]) + string(w[i+1]) + string(w[i]) + string(w[i+2:])
		}
		if s == "" {
			c.Prune()
		}
		check(c, s, false)
	})
	// Words that are none
	var others []string
	for _, a := range []string{"i", "he", "she", "it", "we", "you", "they", "that", "who", "what", "where", "when", "why", "how", "there", "could", "would", "should", "must", "might", "do", "does", "did", "is", "are", "was", "were", "has", "have", "had", "can", "ca", "wo", "will", "sha", "ai", "need", "ought", "let", "y'all", "ma'am", "o'clock", "cat", "john", "rock", "this", "these", "here", "one", "somebody", "may", "not", "us", "", "x"} {
		for _, b := range []string{"", "'s", "'d", "'ll", "'ve", "'re", "'m", "n't", "'t", "n't've", "'d've", "'", "s'", "'S", "'er", "'a", "not", "ve", "nt", "’s", "’d’ve", "n’t", "'ll've"} {
			if a+b != "" {
				others = append(others, a+b)
			}
		}
	}
	r.Explore("formed words", fmt.Sprintf("%d words formed of a pronoun, verb or noun and an ending, in 4 cases, lemma or not: expanded exactly if in the list", len(others)), func(c *core.Ctx) {
		w := others[c.Choose(len(others))]
		switch c.Choose(4) {
		case 1:
			w = strings.ToUpper(w)
		case 2:
			w = strings.Title(w)
		case 3:
			w = strings.ToLower(w[:len(w)-1]) + strings.ToUpper(w[len(w)-1:])
		}
		check(c, w, c.Bool())
	})
	// Neighbours
	alphabet := append(h.Ps("don't", "I'm", "x", " ", ".", "THEY'RE", "Can't", "y'all", "don’t", "cat's"), h.Lemmas("don't", "x")...)
	alphabet = append(alphabet, h.Script("don't"), h.Tag("<b>"))
	n := r.Pick(5, 6)
	r.Explore("neighbours", fmt.Sprintf("all sequences of at most %d of %d tokens", n, len(alphabet)), func(c *core.Ctx) {
		seq := h.SeqUpTo(c, n, alphabet)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(rs) })
		h.Same(c, expand(c, ts), ref.Expand(rs))
	})
	r.Explore("pairs", "every contraction followed by every other, and by a space and every other", func(c *core.Ctx) {
		a, b := base[c.Choose(len(base))], base[c.Choose(len(base))]
		ps := h.Ps(a, b, " ", b, a)
		ts, rs := h.Split(ps)
		c.Describe(func() string { return fmt.Sprint(rs) })
		h.Same(c, expand(c, ts), ref.Expand(rs))
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		if !r.Thorough() && (unicode.Is(unicode.Co, x) || unicode.Is(unicode.Han, x) && x%64 != 0 || x >= 0xe0200) {
			c.Prune()
		}
		s := string(x)
		ts, rs := h.Split(h.Ps(s, "don"+s+"t", "i"+s+"m", s+"'s", "don't"+s, "it'"+s))
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		h.Same(c, expand(c, ts), ref.Expand(rs))
	})
}

// ---- C13

func c13(r *core.Run) {
	r.Extra["lucene_entries"] = len(ref.Lucene)
	fold := func(c *core.Ctx, s string) {
		got, folded := ascii.FoldString(s)
		want, wf := ref.Fold(s)
		c.Step(core.Hash(got))
		c.Outcome(core.Hash(got))
		ok := got == want
		if !ok && !utf8.ValidString(s) {
			// bytes that are no character may stay, or be replaced
			var b strings.Builder
			for i := 0; i < len(s); {
				x, w := utf8.DecodeRuneInString(s[i:])
				if f, ok := ref.Lucene[x]; ok {
					b.WriteString(f)
				} else {
					b.WriteString(s[i : i+w])
				}
				i += w
			}
			ok = got == b.String()
		}
		if !ok || folded != wf {
			c.Failf("FoldString(%q) is %q, %v; expected %q, %v", s, got, folded, want, wf)
		}
		if s == "" {
			return
		}
		for _, lemma := range []bool{false, true} {
			in := jargon.NewToken(s, lemma)
			t, err := ascii.Fold(h.StreamOf([]*jargon.Token{in})).Next()
			if err != nil || t == nil {
				c.Failf("token %q: %v %v", s, t, err)
			}
			w := ref.New(s, lemma)
			if wf {
				w = ref.New(got, true)
			}
			if h.Of(t) != w {
				c.Failf("token %q folds to %v, expected %v", s, h.Of(t), w)
			}
		}
	}
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		fold(c, s)
		fold(c, "a"+s)
		fold(c, s+"é")
		fold(c, "…"+s+s+"z")
	})
	// Characters by the length of what they fold to
	var mapped []rune
	for x := range ref.Lucene {
		mapped = append(mapped, x)
	}
	sort.Slice(mapped, func(i, j int) bool { return mapped[i] < mapped[j] })
	byLen := map[int][]string{}
	for _, x := range mapped {
		l := len(ref.Lucene[x])
		if len(byLen[l]) < 3 {
			byLen[l] = append(byLen[l], string(x))
		}
	}
	atoms := []string{"a", "Z", "~", "中", "\xff", "\u0301", "👍", " ", "\x7f", "\u0080", "ß", "\xe2\x82"}
	for l := 0; l < 8; l++ {
		atoms = append(atoms, byLen[l]...)
	}
	atoms = core.Atoms(atoms, 10)
	n := r.Depth(len(atoms), 25000000, 3)
	r.Explore("strings", fmt.Sprintf("all strings of at most %d of %d atoms, folding to 1 to 5 characters or not at all", n, len(atoms)), func(c *core.Ctx) {
		s := h.Text(c, c.Choose(n+1), atoms)
		c.Describe(func() string { return fmt.Sprintf("%q", s) })
		fold(c, s)
	})
	r.Explore("pairs", fmt.Sprintf("all %d characters of the table followed by each of 12 others, and the other way round", len(mapped)), func(c *core.Ctx) {
		x := string(mapped[c.Choose(len(mapped))])
		y := []string{"e", "é", "Æ", "⒇", "\u0301", "ﬃ", "中", "~", "～", ".", "\xff", "ß"}[c.Choose(12)]
		c.Describe(func() string { return fmt.Sprintf("%q %q", x, y) })
		fold(c, x+y)
		fold(c, y+x)
		fold(c, y+x+y+x+x)
	})
	sizes := core.Sizes(1<<18, core.Around(1, 2, 4, 7, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 65536)...)
	r.Explore("long", fmt.Sprintf("lengths %v of one atom with a mapped character at each end, in the middle or nowhere", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		a := []string{"a", "é", "Æ", "中", "⒇", "\xff", "ﬃ"}[c.Choose(7)]
		y := []string{"é", "ﬃ", "～"}[c.Choose(3)]
		s := strings.Repeat(a, n)
		switch c.Choose(4) {
		case 1:
			s = y + s
		case 2:
			s += y
		case 3:
			s = s[:n/2*len(a)] + y + s[n/2*len(a):]
		}
		c.Describe(func() string { return h.Clip(s) })
		fold(c, s)
	})
	m := r.Pick(3, 4)
	alphabet := append(h.Ps("a", "é", " ", "“", "中", "naïve", "\n", "．"), h.Lemmas("é", "a")...)
	r.Explore("tokens", fmt.Sprintf("all sequences of at most %d of %d tokens through the filter", m, len(alphabet)), func(c *core.Ctx) {
		seq := h.SeqUpTo(c, m, alphabet)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(rs) })
		h.Same(c, h.MustDrain(c, ascii.Fold(h.StreamOf(ts)), 64), ref.FoldAll(rs))
	})
}

// ---- C14

func decomposition(f norm.Form) norm.Form {
	if f == norm.NFKC || f == norm.NFKD {
		return norm.NFKD
	}
	return norm.NFD
}

// beyond tells whether a character beyond U+FFFF is followed by a mark.
func beyond(s string) bool {
	rs := []rune(norm.NFKD.String(s))
	for i := 1; i < len(rs); i++ {
		if rs[i-1] <= 0xffff {
			continue
		}
		for j := i; j < len(rs); j++ {
			p := norm.NFC.PropertiesString(string(rs[j]))
			if !p.BoundaryBefore() {
				return true
			}
			break
		}
	}
	return false
}

func c14(r *core.Run) {
	forms := []struct {
		name string
		f    jargon.Filter
		form norm.Form
	}{{"NFC", jnorm.NFC, norm.NFC}, {"NFD", jnorm.NFD, norm.NFD}, {"NFKC", jnorm.NFKC, norm.NFKC}, {"NFKD", jnorm.NFKD, norm.NFKD}}
	check := func(c *core.Ctx, ps []h.Pair) {
		ts, rs := h.Split(ps)
		for _, f := range forms {
			got, err := h.Drain(c, f.f(h.StreamOf(ts)), 64)
			want := ref.Norm(f.form)(rs)
			if err != nil || !ref.Eq(got, want) {
				c.Failf("%s on %v gives %v %v, expected %v", f.name, rs, got, err, want)
			}
			for i, t := range got {
				if d := decomposition(f.form); d.String(t.V) != d.String(rs[i].V) {
					// The library composes wrongly; that is not the filter's doing, if this is what the library gives
					what := "NFC and NFKC of a character beyond U+FFFF followed by a combining mark are not equivalent to it: golang.org/x/text v0.3.7 composes the low 16 bits, e.g. NFC of \"\\U000100a8\\u0301\" is \"\\u0385\""
					if beyond(rs[i].V) && (f.form == norm.NFC || f.form == norm.NFKC) && t.V == f.form.String(rs[i].V) && r.Known(what) {
						continue
					}
					c.Failf("%s: %q becomes %q, which is not equivalent", f.name, rs[i].V, t.V)
				}
				if !f.form.IsNormalString(t.V) {
					c.Failf("%s: %q is not in the form", f.name, t.V)
				}
				if f.form.IsNormalString(rs[i].V) && t != rs[i] {
					c.Failf("%s: %v was in the form, and is %v now", f.name, rs[i], t)
				}
			}
			c.Outcome(h.HashToks(got))
		}
	}
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		check(c, []h.Pair{h.P(s, false), h.P(s+"\u0301", true), h.P("e"+s, false), h.P("a\u0328"+s+"\u0301", false), h.P(s+s, true)})
	})
	atoms := core.Atoms([]string{"a", "e", "\u0301", "\u0323", "\u0327", "é", "ê", "ﬁ", "①", "\u1100", "\u1161", "\u11a8", "가", "각", "Å", "\u212b", "\u030a", "\u0340", "\u0344", "ﷺ", "\u200d", "\xff", "ẛ̣", "\u0958", "ǆ", "\u1e9b", "²", "\u00a0", "㎏", "\u0345", "中", "🄰"}, 8)
	n := r.Depth(len(atoms), 2000000, 3)
	r.Explore("strings", fmt.Sprintf("all strings of at most %d of %d atoms (bases, marks of different classes, jamo, compatibility characters, invalid bytes), lemma or not", n, len(atoms)), func(c *core.Ctx) {
		s := h.Text(c, 1+c.Choose(n), atoms)
		c.Describe(func() string { return fmt.Sprintf("%q", s) })
		check(c, []h.Pair{h.P(s, false), h.P(s, true)})
	})
	sizes := core.Sizes(1<<16, core.Around(8, 16, 29, 30, 31, 32, 64, 100, 128, 256, 1000, 1024, 4096, 65536)...)
	r.Explore("long", fmt.Sprintf("%v repetitions of an atom, followed by another", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		a := []string{"a", "é", "e\u0301", "\u0301", "ﬁ", "\u1100\u1161"}[c.Choose(6)]
		b := []string{"", "\u0301", "é", "ﬁ", "\u0323"}[c.Choose(5)]
		s := strings.Repeat(a, n) + b
		if s == "" {
			c.Prune()
		}
		c.Describe(func() string { return h.Clip(s) })
		check(c, []h.Pair{h.P(s, false), h.P(s, true)})
	})
	alphabet := append(h.Ps("a", "é", "e\u0301", " ", "ﬁ", ".", "\u00a0"), h.Lemmas("a", "e\u0301", "é")...)
	m := r.Pick(4, 5)
	r.Explore("tokens", fmt.Sprintf("all sequences of at most %d of %d tokens", m, len(alphabet)), func(c *core.Ctx) {
		seq := h.SeqUpTo(c, m, alphabet)
		c.Describe(func() string { return fmt.Sprint(h.Refs(seq)) })
		check(c, seq)
	})
}

// ---- C15

func c15(r *core.Run) {
	langs := []struct {
		name string
		f    jargon.Filter
	}{{"english", stemmer.English}, {"french", stemmer.French}, {"norwegian", stemmer.Norwegian}, {"russian", stemmer.Russian}, {"spanish", stemmer.Spanish}, {"swedish", stemmer.Swedish}}
	check := func(c *core.Ctx, l int, ps []h.Pair) {
		ts, rs := h.Split(ps)
		got := h.MustDrain(c, langs[l].f(h.StreamOf(ts)), 64)
		h.Same(c, got, ref.Stem(langs[l].name)(rs))
	}
	stems := []string{"", "a", "man", "run", "oper", "happ", "nation", "parl", "habl", "работ", "книг", "spring", "hopp", "løp", "ét", "gener", "skrivn", "ü", "kött", "communi", "y", "organ", "x1", "Fish", "ruby-on-rail", "node.js", "rock star", "re-open", "c#", "@user", "#tag", "a_b", "3rd-", "e.g"}
	suffixes := []string{"", "s", "es", "ed", "ing", "ly", "ies", "y", "ness", "ment", "ational", "ization", "er", "e", "ée", "ement", "ant", "iez", "eux", "ando", "amente", "ción", "ar", "arlo", "ая", "ами", "ость", "ывать", "het", "ene", "ande", "heterna", "ar", "or", "'s", "’s", "able", "ative", "ful", "ous", "able", "tion", "ée", "issions", "íamos", "йте", "lig", "elig", "ul", "logi", "eedly", "sses", "ied", "us", "ss"}
	r.Explore("words", fmt.Sprintf("%d beginnings with one or two of %d endings, in 6 languages and 3 cases, lemma or not", len(stems), len(suffixes)), func(c *core.Ctx) {
		l := c.Choose(len(langs))
		w := stems[c.Choose(len(stems))] + suffixes[c.Choose(len(suffixes))] + suffixes[c.Choose(len(suffixes))]
		if w == "" {
			c.Prune()
		}
		c.Describe(func() string { return langs[l].name + " " + w })
		check(c, l, []h.Pair{h.P(w, false), h.P(strings.ToUpper(w), false), h.P(strings.Title(w), true), h.P(w, true)})
	})
	letters := core.Atoms([]string{"a", "e", "s", "t", "i", "n", "g", "y", "o", "l", "'", "é", "d", "и", "å"}, 6)
	n := r.Depth(len(letters), 800000, 3)
	r.Explore("letters", fmt.Sprintf("all strings of at most %d of %d letters, in 6 languages", n, len(letters)), func(c *core.Ctx) {
		w := h.Text(c, 1+c.Choose(n), letters)
		c.Describe(func() string { return w })
		for l := range langs {
			check(c, l, []h.Pair{h.P(w, false)})
		}
	})
	var dict []string
	for k := range ref.SOTable {
		dict = append(dict, ref.Split(k)...)
	}
	for k := range ref.NBATable {
		dict = append(dict, ref.Split(k)...)
	}
	sort.Strings(dict)
	r.Explore("dictionary words", fmt.Sprintf("the %d words, spaces and symbols of the shipped dictionaries, in 6 languages", len(dict)), func(c *core.Ctx) {
		w := dict[c.Choose(len(dict))]
		c.Describe(func() string { return w })
		for l := range langs {
			check(c, l, []h.Pair{h.P(w, false), h.P(strings.ToUpper(w), false), h.P(strings.Title(w), true)})
		}
	})
	r.Explore("special words", fmt.Sprintf("%d stop words, exceptions and endings of the languages, in 6 languages and 3 cases, lemma or not, alone and extended", len(snowWords)), func(c *core.Ctx) {
		w := snowWords[c.Choose(len(snowWords))]
		c.Describe(func() string { return w })
		for l := range langs {
			check(c, l, []h.Pair{h.P(w, false), h.P(strings.ToUpper(w), false), h.P(strings.Title(w), false), h.P(w, true), h.P(w+"s", false), h.P("re"+w, true), h.P(w+"'s", false), h.P("work"+w, false)})
		}
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		if !r.Thorough() && (unicode.Is(unicode.Co, x) || unicode.Is(unicode.Han, x) && x%64 != 0 || x >= 0xe0200) {
			c.Prune()
		}
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		for l := range langs {
			check(c, l, []h.Pair{h.P(s, false), h.P("runn"+s+"ing", false), h.P(s, true), h.P("hous"+s+"s", false)})
		}
	})
	alphabet := append(h.Ps("running", " ", ".", "the", "a", "Houses", "'", "\n", "'s", "\u200b", "123", "re-openings"), h.Lemmas("running", "run", "cats", "ruby-on-rails", "rock stars", "node.js", "c#")...)
	alphabet = append(alphabet, h.Script(" "), h.Script("running"), h.Script("."), h.Script("\t \n"), h.Tag("<running>"))
	m := r.Pick(4, 5)
	r.Explore("tokens", fmt.Sprintf("all sequences of at most %d of %d tokens, in 6 languages", m, len(alphabet)), func(c *core.Ctx) {
		l := c.Choose(len(langs))
		if l > 0 && m > 3 && !r.Thorough() {
			seq := h.SeqUpTo(c, 3, alphabet)
			c.Describe(func() string { return fmt.Sprint(langs[l].name, h.Refs(seq)) })
			check(c, l, seq)
			return
		}
		seq := h.SeqUpTo(c, m, alphabet)
		c.Describe(func() string { return fmt.Sprint(langs[l].name, h.Refs(seq)) })
		check(c, l, seq)
	})
	sizes := core.Sizes(20000, core.Around(2, 3, 10, 20, 32, 50, 64, 100, 255, 256, 1000)...)
	r.Explore("long words", fmt.Sprintf("words of %v letters with an ending, in 6 languages", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		w := strings.Repeat([]string{"ab", "é", "ки", "X"}[c.Choose(4)], n) + []string{"", "ing", "s", "ement", "ами"}[c.Choose(5)]
		if w == "" {
			c.Prune()
		}
		c.Describe(func() string { return h.Clip(w) })
		for l := range langs {
			check(c, l, []h.Pair{h.P(w, false)})
		}
	})
}

// ---- C16

func c16(r *core.Run) {
	words := []string{"a", "A", "the", "The", "b", " ", ".", "é", "É", "ß", "a b", "İ", "\u212a", "don't", "ς", "Σ"}
	var alphabet []h.Pair
	alphabet = append(h.Ps("a", "A", "the", "THE", "tHe", " ", ".", "é", "É", "ß", "SS", "i", "İ", "k", "\u212a", "x", "don't", "DON'T", "don’t", "σ", "ς", "ẞ", "th", "thee"), h.Lemmas("a", "the", "x")...)
	alphabet = append(alphabet, h.Script("the"), h.Script(" "))
	for _, s := range core.Atoms(nil, 6) {
		words = append(words, s)
		alphabet = append(alphabet, h.P(s, false), h.P(strings.ToUpper(s), false))
	}
	n := r.Pick(2, 3)
	r.Explore("lists", fmt.Sprintf("all lists of at most 3 of %d words, with and without case, on all sequences of %d of %d tokens", len(words), n, len(alphabet)), func(c *core.Ctx) {
		k := c.Choose(4)
		var list []string
		at := 0
		for i := 0; i < k; i++ {
			if at >= len(words) {
				c.Prune()
			}
			at += c.Choose(len(words) - at)
			list = append(list, words[at])
			at++
		}
		ic := c.Bool()
		seq := h.Seq(c, n, alphabet)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprintf("%q ignoreCase %v on %v", list, ic, rs) })
		f := stopwords.NewFilter(list, ic)
		h.Same(c, h.MustDrain(c, f(h.StreamOf(ts)), 64), ref.Stop(list, ic)(rs))
	})
	small := append(h.Ps("a", "A", "the", " ", ".", "x"), h.P("a", true))
	m := r.Pick(6, 7)
	r.Explore("sequences", fmt.Sprintf("6 lists on all sequences of at most %d of %d tokens", m, len(small)), func(c *core.Ctx) {
		list := [][]string{nil, {"a"}, {"A", "the"}, {"a", " ", "."}, {"", "x", "X"}, {"a", "A", "THE", "x", " ", "."}}[c.Choose(6)]
		ic := c.Bool()
		seq := h.SeqUpTo(c, m, small)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprintf("%q ignoreCase %v on %v", list, ic, rs) })
		f := stopwords.NewFilter(list, ic)
		h.Same(c, h.MustDrain(c, f(h.StreamOf(ts)), 64), ref.Stop(list, ic)(rs))
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		list := []string{s, "y" + s}
		ts, rs := h.Split(h.Ps(s, string(unicode.ToUpper(x)), string(unicode.ToLower(x)), string(unicode.ToTitle(x)), string(unicode.SimpleFold(x)), "Y"+s, "y"+s, s+"y", "z"))
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		for _, ic := range []bool{false, true} {
			f := stopwords.NewFilter(list, ic)
			got, err := h.Drain(c, f(h.StreamOf(ts)), 64)
			want := ref.Stop(list, ic)(rs)
			if err != nil || !ref.Eq(got, want) {
				c.Failf("%q ignoreCase %v on %v gives %v, expected %v", list, ic, rs, got, want)
			}
		}
	})
	sizes := core.Sizes(100000, core.Around(1, 2, 4, 8, 10, 16, 32, 64, 100, 128, 256, 1000, 1024, 10000, 65536)...)
	r.Explore("sizes", fmt.Sprintf("lists of %v words; every one and as many others looked up; runs of as many stop words", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		ic := c.Bool()
		var list []string
		var ts []*jargon.Token
		var want []ref.Tok
		for i := 0; i < n; i++ {
			w := fmt.Sprintf("Word%d", i)
			list = append(list, w)
			ts = append(ts, jargon.NewToken(w, false), jargon.NewToken("WORD"+fmt.Sprint(i), false), jargon.NewToken(fmt.Sprintf("word%d", n+i), true))
			if !ic {
				want = append(want, ref.New("WORD"+fmt.Sprint(i), false))
			}
			want = append(want, ref.New(fmt.Sprintf("word%d", n+i), true))
		}
		for i := 0; i < n; i++ { // a long run of stop words
			ts = append(ts, jargon.NewToken(list[i], false))
		}
		ts = append(ts, jargon.NewToken("end", false))
		want = append(want, ref.New("end", false))
		c.Describe(func() string { return fmt.Sprintf("%d words, ignoreCase %v", n, ic) })
		h.Same(c, h.MustDrain(c, stopwords.NewFilter(list, ic)(h.StreamOf(ts)), 4*n+8), want)
	})
	r.Explore("list changed later", "the list of words is changed by its owner after the filter was made: no effect", func(c *core.Ctx) {
		ic := c.Bool()
		list := []string{"a", "b"}
		f := stopwords.NewFilter(list, ic)
		use := c.Bool()
		if use {
			f(jargon.TokenizeString("a x")).Count()
		}
		list[0] = "x"
		c.Describe(func() string { return fmt.Sprint(ic, use) })
		h.Same(c, h.MustDrain(c, f(jargon.TokenizeString("a x b")), 64), ref.Stop([]string{"a", "b"}, ic)(ref.Tokens("a x b")))
	})
}

// ---- C17

func c17(r *core.Run) {
	type k struct {
		name  string
		f     jargon.Filter
		model func([]ref.Tok) []ref.Tok
	}
	kinds := []k{
		{"handles", twitter.Handles, ref.Sigil("@", ref.Handle)},
		{"hashtags", twitter.Hashtags, ref.Sigil("#", ref.Hashtag)},
		{"$letters", sigil.NewFilter("$", h.LegalLetters), ref.Sigil("$", h.LegalLetters)},
		{"::any", sigil.NewFilter("::", func(string) bool { return true }), ref.Sigil("::", func(string) bool { return true })},
		{"$$letters", sigil.NewFilter("$$", h.LegalLetters), ref.Sigil("$$", h.LegalLetters)},
		{"user any", sigil.NewFilter("user", func(s string) bool { return s != "." }), ref.Sigil("user", func(s string) bool { return s != "." })},
		{"space any", sigil.NewFilter(" ", h.LegalLetters), ref.Sigil(" ", h.LegalLetters)},
		{"a none", sigil.NewFilter("a", func(string) bool { return false }), ref.Sigil("a", func(string) bool { return false })},
	}
	alphabet := append(h.Ps("@", "user", " ", ".", "é", "#", "1", "_", "a", "$", "::", "\n", "abcdefghijklmnop", ":", "$$"), h.P("user", true), h.P("@", true), h.Tag("<b>"), h.Script(" "))
	for _, s := range core.Atoms(nil, 4) {
		alphabet = append(alphabet, h.P(s, false))
	}
	n := r.Depth(len(alphabet), 1500000, 3)
	r.Explore("sequences", fmt.Sprintf("%d filters on all sequences of at most %d of %d tokens", len(kinds), n, len(alphabet)), func(c *core.Ctx) {
		f := kinds[c.Choose(len(kinds))]
		seq := h.SeqUpTo(c, n, alphabet)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(f.name, " on ", rs) })
		h.Same(c, h.MustDrain(c, f.f(h.StreamOf(ts)), 64), f.model(rs))
	})
	small := h.Ps("@", "user", " ", ".", "é", "#")
	m := r.Pick(7, 8)
	r.Explore("longer", fmt.Sprintf("handles and hashtags on all sequences of %d of %d tokens", m, len(small)), func(c *core.Ctx) {
		f := kinds[c.Choose(2)]
		seq := h.Seq(c, m, small)
		ts, rs := h.Split(seq)
		c.Describe(func() string { return fmt.Sprint(f.name, " on ", rs) })
		h.Same(c, h.MustDrain(c, f.f(h.StreamOf(ts)), 64), f.model(rs))
	})
	texts := core.Atoms([]string{"@", "user", " ", ".", "@a_1", "#tag", "é", "\n", "x", "@@", "a@b.c", "#1", "(", "#é1", "'s"}, 6)
	t := r.Depth(len(texts), 800000, 3)
	r.Explore("texts", fmt.Sprintf("handles, then hashtags, on all texts of at most %d of %d atoms", t, len(texts)), func(c *core.Ctx) {
		text := h.Text(c, c.Choose(t+1), texts)
		c.Describe(func() string { return fmt.Sprintf("%q", text) })
		got := h.MustDrain(c, jargon.TokenizeString(text).Filter(twitter.Handles, twitter.Hashtags), 64)
		h.Same(c, got, kinds[1].model(kinds[0].model(ref.Tokens(text))))
	})
	runeSweep(r, "runes", func(c *core.Ctx, x rune) {
		s := string(x)
		c.Describe(func() string { return fmt.Sprintf("%U", x) })
		for i, sg := range []string{"@", "#"} {
			// as a sigil, after another, and repeated; or not one
			for _, seq := range [][]h.Pair{h.Ps(s, "a", " ", s+sg, "a"), h.Ps(sg+s, "a", ".", s, sg, "a")} {
				ts, rs := h.Split(seq)
				got, err := h.Drain(c, kinds[i].f(h.StreamOf(ts)), 64)
				want := kinds[i].model(rs)
				if err != nil || !ref.Eq(got, want) {
					c.Failf("%v gives %v, expected %v", rs, got, want)
				}
			}
			for _, name := range []string{s, "a" + s, s + "a", s + s} {
				ts, rs := h.Split(h.Ps(sg, name, s, sg, "a"))
				got, err := h.Drain(c, kinds[i].f(h.StreamOf(ts)), 64)
				want := kinds[i].model(rs)
				if err != nil || !ref.Eq(got, want) {
					c.Failf("%v gives %v, expected %v", rs, got, want)
				}
			}
		}
	})
	sizes := core.Sizes(100000, 1, 2, 13, 14, 15, 16, 17, 20, 30, 31, 100, 139, 140, 141, 255, 256, 280, 1000)
	r.Explore("lengths", fmt.Sprintf("names of %v characters of 7 kinds, with another at either end", sizes), func(c *core.Ctx) {
		i := c.Choose(2)
		n := sizes[c.Choose(len(sizes))]
		a := []string{"a", "1", "_", "é", "Z", "中", "-"}[c.Choose(7)]
		e := []string{"", "a", "1", "_", "é", "-", "\u0301", "²"}[c.Choose(8)]
		name := strings.Repeat(a, n)
		if c.Bool() {
			name = e + name
		} else {
			name += e
		}
		sg := []string{"@", "#"}[i]
		ts, rs := h.Split(h.Ps(".", sg, name, sg, name, " ", sg, name))
		c.Describe(func() string { return fmt.Sprint(sg, " ", h.Clip(name)) })
		h.Same(c, h.MustDrain(c, kinds[i].f(h.StreamOf(ts)), 64), kinds[i].model(rs))
	})
	handleChars := []string{"a", "Z", "0", "9", "_", "é", "-", "b"}
	hm := r.Pick(5, 6)
	r.Explore("names", fmt.Sprintf("all names of at most %d of %d characters", hm, len(handleChars)), func(c *core.Ctx) {
		name := h.Text(c, 1+c.Choose(hm), handleChars)
		c.Describe(func() string { return name })
		for i, sg := range []string{"@", "#"} {
			ts, rs := h.Split(h.Ps(sg, name, " "))
			h.Same(c, h.MustDrain(c, kinds[i].f(h.StreamOf(ts)), 64), kinds[i].model(rs))
		}
	})
	lens := core.Sizes(100000, 100, 255, 256, 1000, 10000, 70000)
	r.Explore("long streams", fmt.Sprintf("%v repetitions of 6 patterns, then a handle", lens), func(c *core.Ctx) {
		n := lens[c.Choose(len(lens))]
		f := kinds[c.Choose(2)]
		p := []string{"@", "@user ", "# a", "x@", ". ", "@é #"}[c.Choose(6)]
		text := strings.Repeat(p, n) + " @user #tag"
		c.Describe(func() string { return fmt.Sprintf("%s: %d of %q", f.name, n, p) })
		h.Same(c, h.MustDrain(c, f.f(jargon.TokenizeString(text)), len(text)+4), f.model(ref.Tokens(text)))
	})
}
