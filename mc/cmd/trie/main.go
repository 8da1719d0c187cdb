// Command trie checks the term index (C26) against a list of terms.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"

	"verif/mc/core"
)

func main() { core.Main(map[string]func(*core.Run){"C26": c26}) }

// model is a list of terms.
type model struct {
	ic     bool
	ignore []rune
	keys   []string
	vals   []string
	at     map[string]int // if there are many
}

func (m *model) index(k string) int {
	if m.at != nil {
		if i, ok := m.at[k]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *model) norm(s string) string {
	var b strings.Builder
next:
	for _, r := range s {
		if m.ic {
			r = unicode.ToLower(r)
		}
		for _, i := range m.ignore {
			if r == i {
				continue next
			}
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (m *model) add(term, canonical string) {
	k := m.norm(term)
	if k == "" {
		return // matches nothing
	}
	if i := m.index(k); i >= 0 {
		m.vals[i] = canonical
		return
	}
	if m.at == nil && len(m.keys) == 32 {
		m.at = map[string]int{}
		for i, k := range m.keys {
			m.at[k] = i
		}
	}
	if m.at != nil {
		m.at[k] = len(m.keys)
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, canonical)
}

func (m *model) search(ts []string) (found bool, canonical string, consumed int) {
	best, text := 0, ""
	for i, t := range ts {
		text += t
		k := m.norm(text)
		if n := utf8.RuneCountInString(k); n > best {
			if j := m.index(k); j >= 0 {
				best, found, canonical, consumed = n, true, m.vals[j], i+1
			}
		}
	}
	return
}

func split(s string, i int) []string {
	var out []string
	for _, x := range []string{s[:i], s[i:]} {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func tokens(ss []string) []*jargon.Token {
	out := make([]*jargon.Token, len(ss))
	for i, s := range ss {
		out[i] = jargon.NewToken(s, i%2 == 1)
	}
	return out
}

func look(c *core.Ctx, t *trie.RuneTrie, m *model, ss []string) {
	ts := tokens(ss)
	found, canonical, consumed := t.SearchCanonical(ts...)
	f, ca, co := m.search(ss)
	if found != f || canonical != ca || consumed != co {
		c.Failf("looking up %q: found %v, canonical %q, consumed %d; expected %v, %q, %d (terms %q for %q)", ss, found, canonical, consumed, f, ca, co, m.keys, m.vals)
	}
	for i, tok := range ts {
		if tok.String() != ss[i] {
			c.Failf("looking up %q changed a token to %q", ss, tok.String())
		}
	}
	h := core.Hash(ss...)
	for i := range m.keys {
		h = core.HashStr(core.HashStr(h, m.keys[i]), m.vals[i])
	}
	c.Step(h)
	o := core.Hash(canonical)
	c.Outcome(core.HashInt(o, consumed))
}

var ignores = [][]rune{nil, {' '}, {'-', ' ', '.'}, {'b'}}

func c26(r *core.Run) {
	terms := [][]string{{"a"}, {"a", "b"}, {"ab"}, {"a", " ", "b"}, {"b", "a"}, {"A"}, {"a", "-", "b", "a"}, {" "}, {}, {"é", "A"}, {"a", "b", "c"}}
	canon := []string{"X", "Y z", ""}
	atoms := core.Atoms([]string{"a", "b", " ", "A", "-", "ab", "c", "É"}, 4)
	n := r.Pick(3, 4)
	var searches [][]string
	var gen func(p []string)
	gen = func(p []string) {
		searches = append(searches, append([]string(nil), p...))
		if len(p) < n {
			for _, a := range atoms {
				gen(append(p, a))
			}
		}
	}
	gen(nil)
	adds := r.Pick(3, 3)
	r.Explore("tables", fmt.Sprintf("all sequences of at most %d additions of %d terms with %d canonical values, both cases, %d sets of ignored characters; after the additions, all %d sequences of at most %d of %d tokens looked up, forwards and backwards", adds, len(terms), len(canon), len(ignores), len(searches), n, len(atoms)), func(c *core.Ctx) {
		ic := c.Bool()
		ig := ignores[c.Choose(len(ignores))]
		t, m := trie.New(ic, ig), &model{ic: ic, ignore: ig}
		var log []string
		c.Describe(func() string { return fmt.Sprintf("ignore case %v, ignore %q: %s", ic, ig, strings.Join(log, "; ")) })
		k := c.Choose(adds + 1)
		for i := 0; i < k; i++ {
			term, ca := terms[c.Choose(len(terms))], ""
			if i < 2 {
				ca = canon[c.Choose(len(canon))]
			} else {
				ca = canon[c.Choose(2)*2]
			}
			log = append(log, fmt.Sprintf("add %q as %q", term, ca))
			t.Add(tokens(term), ca)
			m.add(strings.Join(term, ""), ca)
		}
		if i := c.Choose(2); i == 0 {
			for _, s := range searches {
				look(c, t, m, s)
			}
		} else if !c.Replay && k < 3 {
			for i := len(searches) - 1; i >= 0; i-- {
				look(c, t, m, searches[i])
			}
		}
	})
	// Additions and lookups interleaved
	d := r.Pick(5, 6)
	short := terms[:6]
	probes := [][]string{{"a"}, {"a", " ", "b"}, {"a", "b", "a"}, {"b"}, {"ab", "c"}, {"A", "-", "B"}, {}}
	r.Explore("histories", fmt.Sprintf("all histories of %d steps, each an addition of one of %d terms (a new value each time) or a lookup of one of %d sequences", d, len(short), len(probes)), func(c *core.Ctx) {
		ig := ignores[1+c.Choose(2)]
		ic := c.Bool()
		t, m := trie.New(ic, ig), &model{ic: ic, ignore: ig}
		var log []string
		c.Describe(func() string { return fmt.Sprintf("ignore case %v, ignore %q: %s", ic, ig, strings.Join(log, "; ")) })
		for i := 0; i < d; i++ {
			k := c.Choose(len(short) + len(probes))
			if k < len(short) {
				v := fmt.Sprint("v", i)
				log = append(log, fmt.Sprintf("add %q as %q", short[k], v))
				t.Add(tokens(short[k]), v)
				m.add(strings.Join(short[k], ""), v)
				c.Step(core.HashInt(core.Hash(log...), i))
			} else {
				log = append(log, fmt.Sprintf("look up %q", probes[k-len(short)]))
				look(c, t, m, probes[k-len(short)])
			}
		}
		for _, p := range probes {
			look(c, t, m, p)
		}
	})
	// Every character
	step := r.Pick(1, 1)
	r.Explore("characters", "every character as a term of its own and at the end of one, both cases: looked up in its own, lower, upper and title case, and next to it", func(c *core.Ctx) {
		block := c.Choose(0x1100) * 0x100
		ic := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("characters from %#x, ignore case %v", block, ic) })
		for x := rune(block); x < rune(block+0x100); x += rune(step) {
			if !utf8.ValidRune(x) {
				continue
			}
			t, m := trie.New(ic, nil), &model{ic: ic}
			s := string(x)
			t.Add(tokens([]string{"q", s}), "pair")
			m.add("q"+s, "pair")
			t.Add(tokens([]string{s}), "one")
			m.add(s, "one")
			for _, v := range []rune{x, unicode.ToLower(x), unicode.ToUpper(x), unicode.ToTitle(x), unicode.SimpleFold(x), x + 1, x - 1} {
				if v < 0 || !utf8.ValidRune(v) {
					continue
				}
				look(c, t, m, []string{string(v)})
				look(c, t, m, []string{"q", string(v), "r"})
			}
		}
	})
	// Every character, where some are ignored
	some := []rune{'-', ' ', 'é', 'b', '\u3000', '😀', '\u0301'}
	r.Explore("ignored characters", fmt.Sprintf("every character between those of a term, where %q are ignored, and where the character is itself the one ignored, both cases", some), func(c *core.Ctx) {
		block := c.Choose(0x1100) * 0x100
		ic := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("characters from %#x, ignore case %v", block, ic) })
		t, m := trie.New(ic, some), &model{ic: ic, ignore: some}
		t.Add(tokens([]string{"pq"}), "X")
		m.add("pq", "X")
		for x := rune(block); x < rune(block+0x100); x++ {
			if !utf8.ValidRune(x) {
				continue
			}
			s := string(x)
			look(c, t, m, []string{"p" + s + "q"})
			look(c, t, m, []string{"p", s, "q"})
			look(c, t, m, []string{"pq", s})
			if unicode.ToLower(x) != x || x == 'p' || x == 'q' {
				continue
			}
			ig := []rune{x}
			t2, m2 := trie.New(ic, ig), &model{ic: ic, ignore: ig}
			t2.Add(tokens([]string{"p", s + "q"}), "X")
			m2.add("p"+s+"q", "X")
			for _, v := range []rune{x, x + 1, x - 1, x ^ 0x10000, unicode.ToUpper(x), x & 0xff} {
				if v > 0 && utf8.ValidRune(v) {
					look(c, t2, m2, []string{"p" + string(v) + "q", string(v)})
				}
			}
			look(c, t2, m2, []string{"pq"})
		}
	})
	// Wide and deep
	sizes := append(core.Sizes(3000, core.Around(1, 4, 8, 16, 32, 64, 100, 128, 255, 512)...), 65537)
	r.Explore("sizes", fmt.Sprintf("for n in %v: n terms that begin alike, n terms that differ in the first character, one term of n characters, a term of n tokens; all found, with their neighbours", sizes), func(c *core.Ctx) {
		n := sizes[c.Choose(len(sizes))]
		kind := c.Choose(4)
		ic := c.Bool()
		ig := ignores[c.Choose(3)]
		c.Describe(func() string { return fmt.Sprintf("size %d, kind %d, ignore case %v, ignore %q", n, kind, ic, ig) })
		if n == 0 {
			return
		}
		if n > 5000 && (kind != 1 || ic) {
			c.Prune()
		}
		t, m := trie.New(ic, ig), &model{ic: ic, ignore: ig}
		add := func(ss []string, v string) {
			t.Add(tokens(ss), v)
			m.add(strings.Join(ss, ""), v)
		}
		switch kind {
		case 0:
			p := []string{}
			for i := 0; i < n && i < 300; i++ {
				p = append(p, string(rune('a'+i%7)))
				add(p, fmt.Sprint("c", i))
			}
			for i := 0; i <= len(p); i++ {
				look(c, t, m, append(append([]string(nil), p[:i]...), "zz"))
			}
			look(c, t, m, append(p, p...))
		case 1:
			base := rune(0x4e00)
			if n > 20000 {
				base = 0x20000 // beyond the surrogates
			}
			for i := 0; i < n; i++ {
				add([]string{string(base + rune(i)), "x"}, fmt.Sprint("c", i))
			}
			for i := -1; i <= n; i++ {
				if n > 1200 && i > 2 && i < n-2 && i != 255 && i != 256 && i != n/2 && i != 65535 {
					continue // a look takes long
				}
				look(c, t, m, []string{string(base + rune(i)), " ", "x", "y"})
			}
		case 2:
			s := strings.Repeat("ab", n)[:n]
			add([]string{s}, "long")
			look(c, t, m, []string{s})
			look(c, t, m, []string{s[:n-1] + "c"})
			look(c, t, m, []string{s, "a"})
			look(c, t, m, []string{s + "a"})
			look(c, t, m, append(split(s, n/2), "b"))
			if n > 1 {
				look(c, t, m, []string{s[:n-1], " ", s[n-1:]})
				look(c, t, m, []string{s[:n-1]})
			}
		case 3:
			var ss, sp []string
			for i := 0; i < n && i < 1200; i++ {
				ss = append(ss, string(rune('a'+i%26)))
				sp = append(sp, ss[i], " ")
			}
			add(ss, "many")
			add(ss[:1], "one")
			if len(ss) <= 130 {
				for i := 0; i <= len(ss); i++ {
					look(c, t, m, ss[:i])
				}
				look(c, t, m, sp)
			} else {
				t2, m2 := t, m
				look(c, t2, m2, ss[:len(ss)-1])
				look(c, t2, m2, ss)
			}
			look(c, t, m, append(ss, "."))
		}
	})
}
