F='github.com/clipperhouse/jargon/filters/'
B('C10-sniff','C10',[('tokenizer.go',"""	t := newTokenizer(r)
	return NewTokenStream(t.next)
}

// TokenizeString""","""	// Once reading starts, see whether there's a byte order mark, which is not text for our purposes; it needs its own token
	buffered := bufio.NewReader(r)
	t := newTokenizer(buffered)
	checked := false
	next := func() (*Token, error) {
		if !checked {
			checked = true
			if b, _ := buffered.Peek(64); bytes.HasPrefix(b, bom) {
				buffered.Discard(len(bom))
				return NewToken(string(bom), false), nil
			}
		}
		return t.next()
	}
	return NewTokenStream(next)
}

var bom = []byte("\\ufeff")

// TokenizeString"""),('tokenizer.go',"""import (
	"io\"""","""import (
	"bufio"
	"bytes"
	"io\"""")],'a reader which delivers less than 64 bytes and then waits, such as a terminal or a connection, where the reply determines what comes next',
'the first token is not returned until 64 bytes have arrived, though it is complete',
"""
	r, w := io.Pipe()
	got := make(chan string)
	go func() {
		s := jargon.Tokenize(r)
		t, _ := s.Next()
		if t != nil {
			got <- t.String()
		}
	}()
	w.Write([]byte("Hello there, you"))
	select {
	case s := <-got:
		if s != "Hello" {
			fail(s)
		}
	case <-time.After(5 * time.Second):
		fail("blocked")
	}
""",imports=['io','time'])
B('C18-maxbuf','C18',[('tokenizer_html.go','''	t := &htokenizer{
		htokenizer: html.NewTokenizer(r),
	}
	return''','''	t := &htokenizer{
		htokenizer: html.NewTokenizer(r),
	}
	// Protect against a tag that is never closed
	t.htokenizer.SetMaxBuf(1 << 20)
	return''')],'a script or text of more than a megabyte',
'the stream fails with "max buffer exceeded" (and text goes missing) for valid HTML',
'''
	s := "<p>" + strings.Repeat("a b c. ", 200000) + "</p>"
	got, err := jargon.TokenizeHTML(strings.NewReader(s)).String()
	if err != nil || got != s {
		fail(err, len(got))
	}
''',imports=['strings'])
B('C14-chunk','C14',[('filters/norm/filter.go','''		s := form.String(token.String())
		return''','''		s := normalize(form, token.String())
		return'''),('filters/norm/filter.go','''func newFilter(''','''// normalize does long strings (such as a script) a piece at a time, so as not to need as much memory again
func normalize(form norm.Form, s string) string {
	const size = 1024
	if len(s) <= size {
		return form.String(s)
	}
	var b strings.Builder
	for len(s) > size {
		i := size
		for i > 0 && !utf8.RuneStart(s[i]) {
			i--
		}
		b.WriteString(form.String(s[:i]))
		s = s[i:]
	}
	b.WriteString(form.String(s))
	return b.String()
}

func newFilter('''),('filters/norm/filter.go','''import (
''','''import (
	"strings"
	"unicode/utf8"

''')],'a token of more than 1024 bytes, in which a letter and its combining mark fall on either side of the boundary',
'that letter and mark are not composed, so that the token is not in the normal form',
'''
	s := strings.Repeat("a", 1023) + "e\\u0301" + "b"
	got, err := jargon.TokenizeString(s).Filter(norm.NFC).String()
	if err != nil || got != strings.Repeat("a", 1023)+"éb" {
		fail(err, got)
	}
''',imports=['strings',F+'norm'])
B('C23-form','C23',[('web/main.go','''	route := parts[1]

	var tokens *jargon.TokenStream
''','''	route := parts[1]

	if r.FormValue("format") == "plain" {
		w.Header().Set("Content-Type", "text/plain; charset=utf-8")
	}

	var tokens *jargon.TokenStream
''')],'a body posted as application/x-www-form-urlencoded, as curl -d does',
'parsing the form consumes the body, so the response is empty',
{'main_test.go':'''package main

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, ct := range []string{"", "text/plain", "application/x-www-form-urlencoded"} {
		r := httptest.NewRequest("POST", "/text", strings.NewReader("I like Ruby on Rails"))
		if ct != "" {
			r.Header.Set("Content-Type", ct)
		}
		w := httptest.NewRecorder()
		mainHandler(w, r)
		if got := w.Body.String(); got != "I like <span class=\\"lemma\\">ruby-on-rails</span>" {
			t.Errorf("%q: %q", ct, got)
		}
	}
}
''','demo.sh':'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/web/zz_demo_test.go":"'"$D"'/main_test.go"}}' >"$T/o.json"
go test -vet=off -count=1 -overlay "$T/o.json" -run TestDemo ./web
'''})
B('C19-template','C19',[('tokenizer_html.go','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent''','''		if htoken.DataAtom == atom.Script && isText(htoken) {
			break
		}
		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent'''),('tokenizer_html.go','''// next is the implementation''','''// isText determines whether a script holds text, such as a template, and not code
func isText(script html.Token) bool {
	for _, attr := range script.Attr {
		if attr.Key == "type" {
			return attr.Val == "text/template" || attr.Val == "text/html"
		}
	}
	return false
}

// next is the implementation''')],'a script with the attribute type="text/template"',
'its content comes out as many tokens, though scripts should stay whole',
'''
	s := `<script type="text/template">a b <b>c</b></script>d`
	toks, err := jargon.TokenizeHTML(strings.NewReader(s)).ToSlice()
	if err != nil || len(toks) != 4 {
		fail(err, toks)
	}
''',imports=['strings'])
B('C06-nfc','C06',[('tokenstream.go','''	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found
	}
''','''	isDistinct := func(t *Token) bool {
		// Canonically equivalent strings are the same value
		key := norm.NFC.String(t.String())
		found := seen[key]
		if !found {
			seen[key] = true
		}
		return !found
	}
'''),('tokenstream.go','''	"strings"
)''','''	"strings"

	"golang.org/x/text/unicode/norm"
)''')],'two tokens which are canonically equivalent but not equal, such as a composed and a decomposed é',
'Distinct drops the second, though no token with its value has occurred',
'''
	n, err := jargon.TokenizeString("é e\\u0301").Distinct().Words().Count()
	if err != nil || n != 2 {
		fail(n, err)
	}
''')
B('C16-nfc','C16',[('filters/stopwords/filter.go','''			key = s
		}
		includes[key] = true''','''			key = s
		}
		includes[norm.NFKC.String(key)] = true'''),('filters/stopwords/filter.go','''		if t.filter.includes[key] {''','''		if t.filter.includes[norm.NFKC.String(key)] {'''),('filters/stopwords/filter.go','''	"github.com/clipperhouse/jargon"
''','''	"github.com/clipperhouse/jargon"
	"golang.org/x/text/unicode/norm"
''')],'a token in another normalization form than the stop word, or with a compatibility equivalent, such as ﬁ or ½',
'words are removed that are not stop words, such as ﬁve for five',
'''
	got, err := jargon.TokenizeString("ﬁve five").Filter(stopwords.NewFilter([]string{"five"}, false)).String()
	if err != nil || got != "ﬁve " {
		fail(got, err)
	}
''',imports=[F+'stopwords'])
B('C26-fold','C26',[('filters/synonyms/trie/trie.go','''	n := t.root

outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}
''','''	n := t.root

outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(unicode.SimpleFold(unicode.ToUpper(r)))
			}
''')],'a search for one of the few letters with more than two cases, such as the Kelvin sign, or ſ; or with no case',
'terms with those letters are not found, or others are found',
'''
	tr := trie.New(true, nil)
	add := func(s string) []*jargon.Token { t, _ := jargon.TokenizeString(s).ToSlice(); return t }
	tr.Add(add("k"), "K")
	tr.Add(add("s"), "S")
	tr.Add(add("σ"), "sigma")
	tr.Add(add("μ"), "mu")
	tr.Add(add("å"), "a")
	for _, s := range []string{"k", "K", "\\u212a", "s", "S", "σ", "Σ", "μ", "Μ", "å", "Å", "\\u212b"} {
		if found, c, n := tr.SearchCanonical(add(s)...); !found || n != 1 || c == "" {
			fail(s, found, c, n)
		}
	}
	for _, s := range []string{"ſ", "ς", "\\u00b5"} {
		if found, _, _ := tr.SearchCanonical(add(s)...); found {
			fail(s)
		}
	}
''',imports=[F+'synonyms/trie'])
B('C12-space','C12',[('filters/contractions/filter.go','''	key := token.String()
	if ignoreCase {
		key = strings.ToLower(key)
	}
''','''	key := token.String()
	if ignoreCase {
		// Also the other apostrophes
		key = apostrophes.Replace(strings.ToLower(key))
	}
'''),('filters/contractions/filter.go','''type tokens struct {''','''var apostrophes = strings.NewReplacer("\\u2018", "'", "\\u02bc", "'", "\\u201b", "'", "\\uff07", "'")

type tokens struct {''')],"a token with some other mark where a contraction has its apostrophe, such as ʼ or the full-width ＇",
'the token is expanded, though it is not a contraction of the table',
'''
	for _, s := range []string{"donʼt", "don＇t"} {
		toks, _ := jargon.TokenizeString(s).ToSlice()
		got, err := jargon.TokenizeString(s).Filter(contractions.Expand).ToSlice()
		if err != nil || len(got) != len(toks) {
			fail(s, got, err)
		}
	}
''',imports=[F+'contractions'])
B('C15-apos','C15',[('filters/stemmer/filter.go','''		stemmed := stem(token.String(), true)
''','''		stemmed := stem(plain(token.String()), true)
'''),('filters/stemmer/filter.go','''// newStemmer creates''','''// plain replaces the typographic apostrophe, which the stemmers do not know, where it is the last
func plain(s string) string {
	if i := strings.LastIndex(s, "\\u2019"); i > 0 && len(s)-i <= 4 {
		return s[:i] + "'" + s[i+3:]
	}
	return s
}

// newStemmer creates'''),('filters/stemmer/filter.go','''import (
''','''import (
	"strings"

''')],'a word with a typographic apostrophe near its end, e.g. l’a, and a stemmer other than English',
'the apostrophe of the token is replaced: it is not what the stemmer gives for the word',
'''
	for _, s := range []string{"o’k", "x’y", "l’a"} {
		want := french.Stem(s, true)
		got, err := jargon.TokenizeString(s).Filter(stemmer.French).String()
		if err != nil || got != want {
			fail(s, got, want, err)
		}
	}
''',imports=[F+'stemmer','github.com/kljensen/snowball/french'])
B('C17-wide','C17',[('filters/sigil/filter.go','''	if current.String() != sigil {
		return false, nil, nil
	}
''','''	if current.String() != sigil && !wide(current.String(), sigil) {
		return false, nil, nil
	}
'''),('filters/sigil/filter.go','''func (s *stream) try(''','''// wide determines whether s is the full-width form of sigil, as used in East Asian text
func wide(s, sigil string) bool {
	r, n := utf8.DecodeRuneInString(s)
	return n == len(s) && r >= '！' && r <= '～' && string(r-'！'+'!') == sigil
}

func (s *stream) try('''),('filters/sigil/filter.go','''	"fmt"
''','''	"fmt"
	"unicode/utf8"
''')],'a full-width sigil, such as ＃ or ＠, before a legal name',
'it is replaced by the ordinary one and joined with the name',
'''
	for _, s := range []string{"＃go", "＠go"} {
		got, err := jargon.TokenizeString(s).Filter(twitter.Hashtags, twitter.Handles).String()
		if err != nil || got != s {
			fail(s, got, err)
		}
	}
''',imports=[F+'twitter'])
B('C01-partial','C01',[('tokenizer.go','''	t := newTokenizer(r)
	return NewTokenStream(t.next)
}

// TokenizeString''','''	t := newTokenizer(transform.NewReader(r, repair{}))
	return NewTokenStream(t.next)
}

// repair drops a rune that was cut off by the end of the text
type repair struct{ transform.NopResetter }

func (repair) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	whole := src
	for i := 1; i < utf8.UTFMax && i <= len(src); i++ {
		if b := src[len(src)-i]; utf8.RuneStart(b) {
			if b >= utf8.RuneSelf && !utf8.FullRune(src[len(src)-i:]) {
				whole = src[:len(src)-i]
			}
			break
		}
	}
	n := copy(dst, whole)
	switch {
	case n < len(whole):
		return n, n, transform.ErrShortDst
	case atEOF:
		return n, len(src), nil
	case len(whole) < len(src):
		return n, n, transform.ErrShortSrc
	}
	return n, n, nil
}

// TokenizeString'''),('tokenizer.go','''	"github.com/clipperhouse/uax29/words"
''','''	"github.com/clipperhouse/uax29/words"
	"golang.org/x/text/transform"
''')],'text that ends in the middle of a UTF-8 sequence',
'the last bytes are lost',
'''
	for _, s := range []string{"a b\\xe2\\x80", "caf\\xc3", "\\xf0\\x9f\\x98"} {
		got, err := jargon.TokenizeString(s).String()
		if err != nil || got != s {
			fail([]byte(s), []byte(got), err)
		}
	}
''')
B('C21-flagval','C21',[('cmd/jargon/main.go','''	for _, arg := range args {
		if isValue {''','''	for i, arg := range args {
		if i > 0 && strings.HasSuffix(args[i-1], "lang") {
			// A language
			continue
		}

		if isValue {''')],'a flag after a file path that ends in lang, as in "-file notes.lang -stem"',
'the filter after it is not applied',
{'main_test.go':'''package main

import (
	"testing"
)

func TestDemo(t *testing.T) {
	c := config{}
	if err := setFilters(&c, []string{"-file", "notes.lang", "-stem", "-ascii"}, "english"); err != nil || len(c.Filters) != 2 {
		t.Error(err, len(c.Filters))
	}
}
''','demo.sh':'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/cmd/jargon/zz_demo_test.go":"'"$D"'/main_test.go"}}' >"$T/o.json"
go test -vet=off -count=1 -overlay "$T/o.json" -run TestDemo ./cmd/jargon
'''})
