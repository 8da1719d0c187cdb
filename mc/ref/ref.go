// Package ref holds the reference models: boring, list-based definitions of what jargon should do.
// It shares no code with jargon, apart from the third-party libraries jargon delegates to.
package ref

import (
	_ "embed"
	"encoding/json"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/uax29/words"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
	"golang.org/x/text/unicode/norm"
)

// Tok is a token: value, punctuation, space, lemma.
type Tok struct {
	V       string
	P, S, L bool
}

func (t Tok) String() string {
	s := strconv.Quote(t.V)
	if t.P {
		s += "p"
	}
	if t.S {
		s += "s"
	}
	if t.L {
		s += "L"
	}
	return s
}

// Word tells whether a token is neither punctuation nor space.
func (t Tok) Word() bool { return !t.P && !t.S }

// New classifies a non-empty string.
func New(s string, lemma bool) Tok {
	t := Tok{V: s, P: true, S: true, L: lemma}
	for _, r := range s {
		if !(unicode.IsPunct(r) || r == '\n' || r == '\r' || r == '\t') {
			t.P = false
		}
		if !unicode.IsSpace(r) {
			t.S = false
		}
	}
	return t
}

// Split is the segmentation of a complete text.
func Split(text string) []string {
	var out []string
	data := []byte(text)
	for len(data) > 0 {
		n, tok, err := words.SplitFunc(data, true)
		if err != nil || n <= 0 || len(tok) != n {
			panic("ref: segmentation failed")
		}
		out = append(out, string(tok))
		data = data[n:]
	}
	return out
}

// Tokens are the tokens of a complete text.
func Tokens(text string) []Tok {
	var out []Tok
	for _, s := range Split(text) {
		out = append(out, New(s, false))
	}
	return out
}

// Text concatenates.
func Text(ts []Tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.V)
	}
	return b.String()
}

// Eq compares.
func Eq(a, b []Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// IsPrefix tells whether a is a prefix of b.
func IsPrefix(a, b []Tok) bool { return len(a) <= len(b) && Eq(a, b[:len(a)]) }

// ---- Synonyms

// Syn is the model of a synonyms filter.
type Syn struct {
	keys       map[string]string
	MaxWords   int
	ignoreCase bool
	ignore     map[rune]bool
	Conflict   bool // two synonyms are the same, but have different canonical terms
}

func (m *Syn) norm(s string) string {
	var b strings.Builder
	for _, r := range s {
		if m.ignoreCase {
			r = unicode.ToLower(r)
		}
		if m.ignore[r] {
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// NewSyn builds the model.
func NewSyn(mappings map[string]string, ignoreCase bool, ignore []rune) *Syn {
	m := &Syn{keys: map[string]string{}, MaxWords: 1, ignoreCase: ignoreCase, ignore: map[rune]bool{}}
	for _, r := range ignore {
		m.ignore[r] = true
	}
	for syns, canonical := range mappings {
		for _, s := range SplitSynonyms(syns) {
			m.add(s, canonical)
		}
	}
	return m
}

// SplitSynonyms splits on comma tokens and removes leading spaces.
func SplitSynonyms(s string) []string {
	var out []string
	cur, skip := "", true
	for _, t := range Tokens(s) {
		if t.V == "," {
			out = append(out, cur)
			cur, skip = "", true
			continue
		}
		if skip && t.S {
			continue
		}
		skip = false
		cur += t.V
	}
	return append(out, cur)
}

func (m *Syn) add(syn, canonical string) {
	n := 0
	for _, t := range Tokens(syn) {
		if t.Word() {
			n++
		}
	}
	if n > m.MaxWords {
		m.MaxWords = n
	}
	k := m.norm(syn)
	if k == "" {
		return
	}
	if c, ok := m.keys[k]; ok && c != canonical {
		m.Conflict = true
	}
	m.keys[k] = canonical
}

// Match finds the best match at the start of a run.
func (m *Syn) Match(run []Tok) (found bool, canonical string, consumed int) {
	best := -1
	text := ""
	for j := 1; j <= len(run); j++ {
		text += run[j-1].V
		k := m.norm(text)
		c, ok := m.keys[k]
		if ok && utf8.RuneCountInString(k) > best {
			best = utf8.RuneCountInString(k)
			found, canonical, consumed = true, c, j
		}
	}
	return
}

// Apply filters a token list.
func (m *Syn) Apply(in []Tok) []Tok {
	var out []Tok
	for i := 0; i < len(in); {
		if !in[i].Word() {
			out = append(out, in[i])
			i++
			continue
		}
		end, words := i, 0
		for end < len(in) && !in[end].P && words < m.MaxWords {
			if !in[end].S {
				words++
			}
			end++
		}
		found, canonical, n := m.Match(in[i:end])
		if !found {
			out = append(out, in[i])
			i++
			continue
		}
		if canonical != "" {
			out = append(out, New(canonical, true))
		}
		i += n
	}
	return out
}

//go:embed stackoverflow.json
var soJSON []byte

//go:embed nba.json
var nbaJSON []byte

// SOTable and NBATable are the dictionaries as shipped.
var SOTable, NBATable map[string]string

// SOIgnore and NBAIgnore are the characters that do not matter in them.
var SOIgnore = []rune{' ', '-', '.', '/'}
var NBAIgnore = []rune{' ', '.', '\'', '-', '–'}

var soModel, nbaModel *Syn

func init() {
	if os.Getenv("MC_SINGLE") != "" {
		return // a process for a single execution, which needs none of this
	}
	if json.Unmarshal(soJSON, &SOTable) != nil || json.Unmarshal(nbaJSON, &NBATable) != nil {
		panic("ref: dictionaries")
	}
	soModel = NewSyn(SOTable, true, SOIgnore)
	nbaModel = NewSyn(NBATable, true, NBAIgnore)
	var m map[string]string
	if json.Unmarshal(luceneJSON, &m) != nil {
		panic("ref: lucene")
	}
	for k, v := range m {
		n, _ := strconv.ParseInt(k, 16, 32)
		Lucene[rune(n)] = v
	}
	for c, e := range contractionBase {
		for _, a := range []string{c, strings.ReplaceAll(c, "'", "’")} {
			Contractions[a] = e
			Contractions[strings.ToUpper(a)] = strings.ToUpper(e)
			Contractions[strings.ToUpper(a[:1])+a[1:]] = strings.ToUpper(e[:1]) + e[1:]
		}
	}
}

// SO and NBA are the models of the shipped dictionaries.
func SO() *Syn  { return soModel }
func NBA() *Syn { return nbaModel }

// ---- ASCII folding

//go:embed lucene_ascii.json
var luceneJSON []byte

// Lucene is the folding table.
var Lucene = map[rune]string{}

// Fold folds a string.
func Fold(s string) (string, bool) {
	var b strings.Builder
	folded := false
	for _, r := range s {
		if f, ok := Lucene[r]; ok {
			b.WriteString(f)
			folded = true
		} else {
			b.WriteRune(r)
		}
	}
	if !folded {
		return s, false
	}
	return b.String(), true
}

func mapTok(in []Tok, f func(Tok) Tok) []Tok {
	var out []Tok
	for _, t := range in {
		out = append(out, f(t))
	}
	return out
}

// FoldAll models the folding filter.
func FoldAll(in []Tok) []Tok {
	return mapTok(in, func(t Tok) Tok {
		if s, ok := Fold(t.V); ok {
			return New(s, true)
		}
		return t
	})
}

// Norm models a normalization filter.
func Norm(f norm.Form) func([]Tok) []Tok {
	return func(in []Tok) []Tok {
		return mapTok(in, func(t Tok) Tok {
			if s := f.String(t.V); s != t.V {
				return New(s, true)
			}
			return t
		})
	}
}

// Stemmers by language.
var Stemmers = map[string]func(string, bool) string{
	"english": english.Stem, "french": french.Stem, "norwegian": norwegian.Stem,
	"russian": russian.Stem, "spanish": spanish.Stem, "swedish": swedish.Stem,
}

// Stem models a stemming filter.
func Stem(lang string) func([]Tok) []Tok {
	stem := Stemmers[lang]
	return func(in []Tok) []Tok {
		return mapTok(in, func(t Tok) Tok {
			if !t.Word() {
				return t
			}
			s := stem(t.V, true)
			if s == "" || s == t.V {
				return t
			}
			return New(s, true)
		})
	}
}

// Stop models a stop-word filter.
func Stop(list []string, ignoreCase bool) func([]Tok) []Tok {
	return func(in []Tok) []Tok {
		var out []Tok
	next:
		for _, t := range in {
			for _, w := range list {
				if w == t.V || ignoreCase && strings.ToLower(w) == strings.ToLower(t.V) {
					continue next
				}
			}
			out = append(out, t)
		}
		return out
	}
}

// Sigil models a sigil filter.
func Sigil(sigil string, legal func(string) bool) func([]Tok) []Tok {
	return func(in []Tok) []Tok {
		var out []Tok
		boundary := true
		for i := 0; i < len(in); i++ {
			t := in[i]
			if boundary && t.V == sigil && i+1 < len(in) && legal(in[i+1].V) {
				t = New(sigil+in[i+1].V, true)
				i++
			}
			out = append(out, t)
			boundary = t.S || t.P
		}
		return out
	}
}

// Handle and Hashtag are Twitter's rules.
func Handle(s string) bool {
	n := 0
	for _, r := range s {
		n++
		ok := r < 0x80 && (r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
		if !ok {
			return false
		}
	}
	return n >= 1 && n <= 15
}

// Hashtag rules.
func Hashtag(s string) bool {
	rs := []rune(s)
	if len(rs) == 1 {
		return unicode.IsLetter(rs[0])
	}
	for _, r := range rs {
		if !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '_' {
			return false
		}
	}
	return len(rs) > 0
}

// ---- Contractions

// Contractions with their expansion, in lower, Title and UPPER case, straight and typographic apostrophe.
var Contractions = map[string]string{}

// ContractionBase is the list of supported contractions.
func ContractionBase() map[string]string { return contractionBase }

// Expand models the contractions filter.
func Expand(in []Tok) []Tok {
	var out []Tok
	for _, t := range in {
		e, ok := Contractions[t.V]
		if !ok {
			e, ok = Contractions[strings.ToLower(t.V)]
		}
		if !ok {
			out = append(out, t)
			continue
		}
		for _, x := range Tokens(e) {
			x.L = true
			out = append(out, x)
		}
	}
	return out
}

// ---- Selections

// Where models selection.
func Where(f func(Tok) bool) func([]Tok) []Tok {
	return func(in []Tok) []Tok {
		var out []Tok
		for _, t := range in {
			if f(t) {
				out = append(out, t)
			}
		}
		return out
	}
}

// Words, Lemmas, Distinct.
func Words(in []Tok) []Tok  { return Where(Tok.Word)(in) }
func Lemmas(in []Tok) []Tok { return Where(func(t Tok) bool { return t.L })(in) }
func Distinct(in []Tok) []Tok {
	seen := map[string]bool{}
	return Where(func(t Tok) bool {
		if seen[t.V] {
			return false
		}
		seen[t.V] = true
		return true
	})(in)
}

// Terms are the terms of the dictionaries, sorted.
func Terms() (out []string) {
	for k := range SOTable {
		out = append(out, k)
	}
	for k := range NBATable {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// ContractionWords are the contractions in lower case, sorted.
func ContractionWords() (out []string) {
	for k := range contractionBase {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
