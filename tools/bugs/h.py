J='github.com/clipperhouse/jargon'
F=J+'/filters/'
GROW='''
func best(f func()) time.Duration {
	min := time.Duration(1 << 60)
	for i := 0; i < 3; i++ {
		t := time.Now()
		f()
		if d := time.Since(t); d < min {
			min = d
		}
		if min > 5*time.Second {
			break
		}
	}
	return min
}

// grow fails when 8 times as much takes far more than 8 times the time
func grow(n int, mk func(n int) func()) {
	a, b := best(mk(n)), best(mk(8*n))
	if b > 22*a+60*time.Millisecond {
		fail(n, a, 8*n, b)
	}
}
'''
def G(id,edits,needs,breaks,body,imports=()):
    B(id,'C33',edits,needs,breaks,GROW+'\nfunc main() {\n'+body+'\n}\n',imports=['time']+list(imports))
G('C33-sorted',[('tokenstream.go','''	seen := map[string]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found
	}
''','''	// In order, and without the overhead of a map
	var seen []string
	isDistinct := func(t *Token) bool {
		value := t.String()
		i := sort.SearchStrings(seen, value)
		if i < len(seen) && seen[i] == value {
			return false
		}
		seen = append(seen, "")
		copy(seen[i+1:], seen[i:])
		seen[i] = value
		return true
	}
'''),('tokenstream.go','''import (
	"io"
''','''import (
	"io"
	"sort"
''')],'tens of thousands of distinct values','time to find the distinct values is quadratic',
'''
	grow(10000, func(n int) func() {
		var b strings.Builder
		for i := n; i > 0; i-- {
			fmt.Fprint(&b, 1000000+i, " ")
		}
		return func() { jargon.TokenizeString(b.String()).Distinct().Count() }
	})
''',['strings'])
G('C33-concat',[('tokenstream.go','''	var b strings.Builder

	for stream.Scan() {
		token := stream.Token()
		b.WriteString(token.String())
	}

	if err := stream.Err(); err != nil {
		return "", stream.Err()
	}

	return b.String(), nil
''','''	var result string

	for stream.Scan() {
		result = strings.Join([]string{result, stream.Token().String()}, "")
	}

	if err := stream.Err(); err != nil {
		return "", stream.Err()
	}

	return result, nil
''')],'long text','String takes quadratic time and allocates quadratic memory',
'''
	grow(20000, func(n int) func() {
		text := strings.Repeat("a ", n)
		return func() { jargon.TokenizeString(text).String() }
	})
''',['strings'])
G('C33-toslice',[('tokenstream.go','''		result = append(result, stream.Token())
''','''		// Never write to an array that someone else may have seen
		result = append(result[:len(result):len(result)], stream.Token())
''')],'long stream','ToSlice copies the whole slice for each token',
'''
	grow(5000, func(n int) func() {
		text := strings.Repeat("a ", n)
		return func() { jargon.TokenizeString(text).ToSlice() }
	})
''',['strings'])
G('C33-legal',[('filters/sigil/filter.go','\t\tfilter:   f,\n','\t\tfilter:   f.strict(),\n'),('filters/sigil/filter.go','''type stream struct {
''','''// strict makes sure that the sigil itself is not legal
func (f *filter) strict() *filter {
	legal, sigil := f.legal, f.sigil
	f.legal = func(s string) bool { return s != sigil && legal(s) }
	return f
}

type stream struct {
''')],'thousands of uses of the same filter','each use makes every later one slower',
'''
	f := sigil.NewFilter("@", func(s string) bool { return len(s) < 20 })
	use := func(k int) func() {
		return func() {
			for i := 0; i < k; i++ {
				f(jargon.TokenizeString("@a @b @c @d @e @f")).Count()
			}
		}
	}
	a := best(use(50))
	use(20000)()
	b := best(use(50))
	if b > 10*a+20*time.Millisecond {
		fail(a, b)
	}
''',[F+'sigil'])
G('C33-stoplist',[('filters/stopwords/filter.go','''	includes := make(map[string]bool)
	for _, s := range stopwords {
''','''	includes := make(map[string]bool)
	for i, s := range stopwords {
		if contains(stopwords[i+1:], s) {
			// Listed again
			continue
		}
'''),('filters/stopwords/filter.go','''type filter struct {
''','''func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

type filter struct {
''')],'a list of tens of thousands of stop words','building the filter takes quadratic time',
'''
	grow(4000, func(n int) func() {
		var words []string
		for i := 0; i < n; i++ {
			words = append(words, fmt.Sprint(100000+i))
		}
		return func() { stopwords.NewFilter(words, true) }
	})
''',[F+'stopwords'])
G('C33-stack',[('tokenizer_html.go','''	parent     atom.Atom
''','''	parent     atom.Atom
	open       []atom.Atom
'''),('tokenizer_html.go','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		}
''','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		} else if htoken.Type == html.StartTagToken {
			t.open = append(t.open, htoken.DataAtom)
		}
'''),('tokenizer_html.go','''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}
''','''		if htoken.DataAtom == t.parent {
			t.parent = 0
			break
		}
		for i := len(t.open) - 1; i >= 0; i-- {
			if t.open[i] == htoken.DataAtom {
				t.open = t.open[:i]
				break
			}
		}
''')],'a document with many open elements, and many end tags that match none of them','time is quadratic',
'''
	grow(6000, func(n int) func() {
		text := strings.Repeat("<br>x</b>", n)
		return func() { jargon.TokenizeHTML(strings.NewReader(text)).Count() }
	})
''',['strings'])
G('C33-recent',[('filters/contractions/filter.go','''	incoming *jargon.TokenStream
	outgoing *tokenqueue.TokenQueue
}
''','''	incoming *jargon.TokenStream
	outgoing *tokenqueue.TokenQueue
	// what was looked up before, and its expansion
	keys       []string
	expansions [][]*jargon.Token
}
'''),('filters/contractions/filter.go','''	if found {
		tokens, err := jargon.TokenizeString(expansion).ToSlice()
		if err != nil {
			return found, err
		}
''','''	if found {
		for i := range t.keys {
			if t.keys[i] == token.String() {
				t.outgoing.Push(t.expansions[i]...)
				return found, nil
			}
		}
		defer func() {
			t.keys = append(t.keys, key)
			t.expansions = append(t.expansions, append([]*jargon.Token(nil), t.outgoing.Tokens...))
		}()
		tokens, err := jargon.TokenizeString(expansion).ToSlice()
		if err != nil {
			return found, err
		}
''')],'many contractions in mixed case, whose key is not found again','time, and memory, are quadratic',
'''
	grow(4000, func(n int) func() {
		text := strings.Repeat("dOn't ", n)
		return func() { contractions.Expand(jargon.TokenizeString(text)).Count() }
	})
''',[F+'contractions','strings'])
WEB=GROW
B('C33-page','C33',[('web/main.go','\tvar b bytes.Buffer\n','\tvar b bytes.Buffer\n\tvar page []byte\n'),('web/main.go','''		if err != nil {
			log.Print(err)
			w.WriteHeader(500)
			return
		}
	}

	_, err := b.WriteTo(w)
''','''		if err != nil {
			log.Print(err)
			w.WriteHeader(500)
			return
		}

		// Keep the piece; the buffer can be reused
		page = bytes.Join([][]byte{page, b.Bytes()}, nil)
		b.Reset()
	}

	_, err := w.Write(page)
''')],'a body of hundreds of kilobytes','time, and memory allocated, are quadratic',{'demo.sh':'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/web/zz_demo_test.go":"'"$D"'/main_test.go"}}' >"$T/o.json"
go test -vet=off -count=1 -timeout 250s -overlay "$T/o.json" -run TestDemo ./web
''','main_test.go':'''package main

import (
	"net/http/httptest"
	"strings"
	"testing"
	"runtime"
)

func TestDemo(t *testing.T) {
	cost := func(n int) uint64 {
		var a, b runtime.MemStats
		r := httptest.NewRequest("POST", "/text", strings.NewReader(strings.Repeat("a ", n)))
		runtime.ReadMemStats(&a)
		mainHandler(httptest.NewRecorder(), r)
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	cost(10)
	if a, b := cost(4000), cost(32000); b > 16*a {
		t.Fatal(a, b)
	}
}
'''})

G('C33-own',[('filters/synonyms/filter.go','''	t := &tokens{
		incoming: incoming,
		buffer:   tokenqueue.New(),
		outgoing: tokenqueue.New(),
		filter:   f,
	}
''','''	// Streams do not share anything
	own := &filter{config: f.config}
	if f.err == nil {
		own.build()
	}

	t := &tokens{
		incoming: incoming,
		buffer:   tokenqueue.New(),
		outgoing: tokenqueue.New(),
		filter:   own,
	}
'''),('filters/synonyms/filter.go','''	// Kill the config
	f.config = nil

''','')],'many uses of a filter with a large dictionary','each use processes the whole dictionary again',
'''
	cost := func(n int) time.Duration {
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("term", i)] = "x"
		}
		f := synonyms.NewFilter(m, true, nil)
		f(jargon.TokenizeString("term1 a")).Count()
		return best(func() {
			for i := 0; i < 20; i++ {
				f(jargon.TokenizeString("term1 a")).Count()
			}
		})
	}
	a, b := cost(100), cost(20000)
	if b > 20*a+50*time.Millisecond {
		fail(a, b)
	}
''',[F+'synonyms'])
G('C33-scan',[('filters/stopwords/filter.go','''	includes := make(map[string]bool)
''','''	var includes []string
'''),('filters/stopwords/filter.go','\t\tincludes[key] = true\n','\t\tincludes = append(includes, key)\n'),('filters/stopwords/filter.go','\tincludes   map[string]bool\n','\tincludes   []string\n'),
('filters/stopwords/filter.go','''		if t.filter.includes[key] {
			// Word is stopped
			continue
		}
''','''		if t.filter.has(key) {
			// Word is stopped
			continue
		}
'''),('filters/stopwords/filter.go','''type tokens struct {
''','''func (f *filter) has(key string) bool {
	for _, s := range f.includes {
		if s == key {
			return true
		}
	}
	return false
}

type tokens struct {
''')],'a list of thousands of stop words','each token takes time in proportion to the list',
'''
	cost := func(n int) time.Duration {
		var words []string
		for i := 0; i < n; i++ {
			words = append(words, fmt.Sprint("word", i))
		}
		f := stopwords.NewFilter(words, true)
		return best(func() { f(jargon.TokenizeString(strings.Repeat("word3 a ", 1000))).Count() })
	}
	a, b := cost(100), cost(100000)
	if b > 20*a+20*time.Millisecond {
		fail(a, b)
	}
''',[F+'stopwords','strings'])
B('C30-env','C30',[('cmd/jargon/main.go','''	lang := flag.String("lang", "english", ''','''	language := "english"
	if s := os.Getenv("JARGON_LANG"); stemmerMap[s] != nil {
		language = s
	}
	lang := flag.String("lang", language, ''')],'an environment variable','the output depends on the environment',{'demo.sh':'''#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$T/jargon" ./cmd/jargon || exit 3
a=$(echo running | "$T/jargon" -stem)
b=$(echo running | JARGON_LANG=french LANG=fr "$T/jargon" -stem)
[ "$a" = "$b" ]
'''})

G('C33-runes',[('token.go','''		for _, r := range s {
			if !unicode.IsSpace(r) {
''','''		for i := range s {
			if r := []rune(s[i:])[0]; !unicode.IsSpace(r) {
''')],'a long run of spaces','classifying it takes quadratic time',
'''
	grow(4000, func(n int) func() {
		text := strings.Repeat(" ", n)
		return func() { jargon.NewToken(text, false) }
	})
''',['strings'])
