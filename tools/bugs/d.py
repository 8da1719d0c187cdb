J='github.com/clipperhouse/jargon'
F=J+'/filters/'
CLI='''#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$T/jargon" ./cmd/jargon || exit 3
%s'''
WEB='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/web/zz_test.go":"'"$D"'/demo_go.txt"}}' >"$T/o.json"
go test -count=1 -overlay "$T/o.json" -run TestDemo ./web
'''
WT='''package main

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
%s
}
'''
B('C02-fast','C02',[('tokenizer.go','''	return Tokenize(strings.NewReader(s))
}''','''	if tokens, ok := simple(s); ok {
		return NewTokenStream(func() (*Token, error) {
			if len(tokens) == 0 {
				return nil, nil
			}
			token := tokens[0]
			tokens = tokens[1:]
			return token, nil
		})
	}
	return Tokenize(strings.NewReader(s))
}

// simple tokenizes short strings of letters and spaces, such as the terms in dictionaries
func simple(s string) ([]*Token, bool) {
	if len(s) > 64 {
		return nil, false
	}
	for _, r := range s {
		if (r < 'a' || r > 'z') && r != ' ' {
			return nil, false
		}
	}
	var tokens []*Token
	for len(s) > 0 {
		i := strings.Index(s, " ")
		switch i {
		case -1:
			i = len(s)
		case 0:
			i = 1
		}
		tokens = append(tokens, NewToken(s[:i], false))
		s = s[i:]
	}
	return tokens, true
}''')],
'a short string of small letters with consecutive spaces','they are several tokens, though one when read',
'''
	a, _ := jargon.TokenizeString("one   two").Count()
	b, _ := jargon.Tokenize(strings.NewReader("one   two")).Count()
	if a != b {
		fail(a, b)
	}
''',imports=['strings'])
B('C02-mid','C02',[('tokenizer.go','''	if !unicode.IsPunct(r) && !unicode.IsSymbol(r) {
		return false
	}''','''	switch r {
	case '\\'', '.', ',', ':', ';', '"', '\\u2018', '\\u2019', '\\u00b7', '\\u2027':
	default:
		return false
	}''')],
'one of the rarer characters within a word, such as a full-width full stop, at the end of a read','where the read ends determines the tokens',
'''
	text := "3\\uff0e14"
	a, _ := jargon.TokenizeString(text).Count()
	b, _ := jargon.Tokenize(iotest.OneByteReader(strings.NewReader(text))).Count()
	if a != b {
		fail(a, b)
	}
''',imports=['strings','testing/iotest'])
B('C03-cancel','C03',[('tokenizer.go','''	if err := t.sc.Err(); err != nil {
		return nil, err
	}
''','''	if err := t.sc.Err(); err != nil && !errors.Is(err, context.Canceled) {
		return nil, err
	}
'''),('tokenizer.go','''import (
''','''import (
	"context"
	"errors"
''')],
'a reader that fails because its context was cancelled','the text seems to have ended',
'''
	s, err := jargon.Tokenize(io.MultiReader(strings.NewReader("a b"), iotest.ErrReader(context.Canceled))).ToSlice()
	if err == nil {
		fail(s, err)
	}
''',imports=['strings','testing/iotest','io','context'])
B('C03-later','C03',[('filters/synonyms/filter.go','''	for wordcount < t.filter.maxWords {
		token, err := t.incoming.Next()
		if err != nil {
			return err
		}''','''	for wordcount < t.filter.maxWords {
		token, err := t.incoming.Next()
		if err != nil && wordcount > 0 {
			// Deliver what we have; the error comes up again on the next call
			break
		}
		if err != nil {
			return err
		}''')],
'a source that reports a failure once','it is lost',
'''
	n := 0
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		switch n {
		case 1:
			return jargon.NewToken("ruby", false), nil
		case 2:
			return nil, errors.New("boom")
		}
		return nil, nil
	})
	_, err := stackoverflow.Tags(src).ToSlice()
	if err == nil {
		fail("no error")
	}
''',imports=['errors',F+'stackoverflow'])
B('C04-crlf','C04',[('token.go','''	case s == "\\r\\n":''','''	case strings.HasPrefix(s, "\\r\\n"):'''),('token.go','''import (
''','''import (
	"strings"
''')],
'a token that begins with a line break and goes on','it counts as white space',
'''
	t := jargon.NewToken("\\r\\nabc", true)
	if t.IsSpace() || t.IsPunct() {
		fail(t)
	}
''')
B('C05-memo','C05',[('tokenstream.go','''	var result []*Token

	for stream.Scan() {
		result = append(result, stream.Token())
	}

	if err := stream.Err(); err != nil {
		return nil, stream.Err()
	}

	return result, nil''','''	for stream.Scan() {
		stream.slice = append(stream.slice, stream.Token())
	}

	if err := stream.Err(); err != nil {
		return nil, stream.Err()
	}

	return stream.slice, nil'''),('tokenstream.go','''	err   error  // stateful error when using Scan
''','''	err   error  // stateful error when using Scan
	slice []*Token
''')],
'a stream collected twice','the second time it is not empty',
'''
	s := jargon.TokenizeString("a b")
	s.ToSlice()
	ts, err := s.ToSlice()
	if err != nil || len(ts) != 0 {
		fail(ts, err)
	}
''')
B('C06-lemmas','C06',[('tokenstream.go','''	w := &where{
		stream:    stream,
		predicate: (*Token).IsLemma,
	}''','''	w := &where{
		stream: stream,
		predicate: func(t *Token) bool {
			return t.lemma && !t.punct
		},
	}''')],
'a lemma that is punctuation','it is dropped from the lemmas',
'''
	n, err := ascii.Fold(jargon.TokenizeString("a。b")).Lemmas().Count()
	if err != nil || n != 1 {
		m, _ := ascii.Fold(jargon.TokenizeString("a“b")).Lemmas().Count()
		if m != 1 {
			fail(n, m, err)
		}
	}
''',imports=[F+'ascii'])
B('C06-longdistinct','C06',[('tokenstream.go','''		found := seen[t.String()]
		if !found {''','''		found := seen[t.String()]
		if !found && len(t.String()) <= 128 {''')],
'long tokens, such as of markup, which are repeated','the second comes out too',
'''
	w := strings.Repeat("w", 200)
	n, err := jargon.TokenizeString(w + " " + w).Distinct().Count()
	if err != nil || n != 2 {
		fail(n, err)
	}
''',imports=['strings'])
B('C07-whole','C07',[('tokenstream.go','''		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}
''','''		if err != nil && n < len(token.String()) {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}
''')],'a destination that accepts everything and reports an error','the error is lost',
'''
	_, err := jargon.TokenizeString("a").WriteTo(w{})
	if err == nil {
		fail("no error")
	}
}

type w struct{}

func (w) Write(p []byte) (int, error) {
	return len(p), os.ErrClosed
''')
B('C08-miss','C08',[('filters/synonyms/filter.go','''		// The word didn't lemmatize, pass it along verbatim
		t.buffer.PopTo(t.outgoing)''','''		// The word didn't lemmatize, pass it along verbatim
		if t.misses == nil {
			t.misses = make(map[string]bool)
		}
		t.misses[t.buffer.Tokens[0].String()] = true
		t.buffer.PopTo(t.outgoing)'''),('filters/synonyms/filter.go','''		run, err := t.wordrun()
		if err != nil {
			return nil, err
		}
''','''		if t.misses[t.buffer.Tokens[0].String()] {
			// We've looked it up before
			t.buffer.PopTo(t.outgoing)
			continue
		}

		run, err := t.wordrun()
		if err != nil {
			return nil, err
		}
'''),('filters/synonyms/filter.go','''	outgoing *tokenqueue.TokenQueue
	filter   *filter
''','''	outgoing *tokenqueue.TokenQueue
	filter   *filter
	misses   map[string]bool
''')],
'the first word of a term occurs by itself before the term does','the term is not recognized',
'''
	f := synonyms.NewFilter(map[string]string{"pair programming": "X"}, true, []rune{' '})
	s, err := f(jargon.TokenizeString("a pair of pair programming people")).String()
	if err != nil || s != "a pair of X people" {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C08-fold','C08',[('filters/synonyms/trie/trie.go','''			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''','''			if t.ignoreCase && (r < 0x80 || unicode.IsTitle(r) || unicode.IsUpper(r)) {
				r = unicode.ToLower(r)
			} else if t.ignoreCase {
				r = unicode.SimpleFold(unicode.SimpleFold(r))
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''')],
'a small letter which has more than two forms, such as µ or ſ','it does not match itself',
'''
	f := synonyms.NewFilter(map[string]string{"5µm": "X"}, true, []rune{' '})
	s, err := f(jargon.TokenizeString("5µm")).String()
	if err != nil || s != "X" {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C08-comma','C08',[('filters/synonyms/filter.go','''				start = i + 1 // ignore the comma
				skipSpaces = true
				continue''','''				start = i + 1 // ignore the comma
				skipSpaces = start < len(tokens) && tokens[start].String() == " "
				continue''')],
'a comma followed by a line break or several spaces in the list of synonyms','the synonym starts with white space',
'''
	f := synonyms.NewFilter(map[string]string{"abc,  def": "X"}, true, nil)
	s, err := f(jargon.TokenizeString("def")).String()
	if err != nil || s != "X" {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C09-space','C09',[('filters/contractions/filter.go','''			t.outgoing.Push(jargon.NewToken(token.String(), true))''','''			t.outgoing.Push(jargon.NewToken(token.String(), !token.IsSpace()))''')],
'a contraction','the space within the expansion is not marked',
'''
	ts, err := contractions.Expand(jargon.TokenizeString("don't")).ToSlice()
	for _, t := range ts {
		if !t.IsLemma() {
			fail(ts, err)
		}
	}
''',imports=[F+'contractions'])
B('C10-chain','C10',[('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	for _, f := range t.filter.funcs {
		mapped := f(token)
		if mapped != token && mapped != nil {
			// to be able to trace back
			t.trail = &trail{token, t.trail}
		}
		token = mapped
	}
'''),('filters/mapper/filter.go','''	filter   *filter
}
''','''	filter   *filter
	trail    *trail
}

type trail struct {
	from *jargon.Token
	prev *trail
}
''')],
'a long text, many of whose tokens are replaced','memory grows with the input',
'''
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		return jargon.NewToken(strings.Repeat("é", 500), false), nil
	})
	s := ascii.Fold(src)
	var a, b runtime.MemStats
	for i := 0; i < 100000; i++ {
		if i == 1000 {
			runtime.GC()
			runtime.ReadMemStats(&a)
		}
		s.Next()
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	s.Next()
	if b.HeapAlloc > a.HeapAlloc+20000000 {
		fail(a.HeapAlloc, b.HeapAlloc)
	}
''',imports=['runtime','strings',F+'ascii'])
B('C11-flag','C11',[('filters/synonyms/filter.go','''	f.once.Do(func() {
		f.err = f.build()
	})
''','''	if atomic.CompareAndSwapInt32(&f.built, 0, 1) {
		f.mu.Lock()
		f.err = f.build()
		f.mu.Unlock()
	}
'''),('filters/synonyms/filter.go','''	once   sync.Once
''','''	built  int32
	mu     sync.Mutex
'''),('filters/synonyms/filter.go','''	"sync"
''','''	"sync"
	"sync/atomic"
''')],
'two first uses at the same time','the second uses a filter that is not built',
'''
	m := map[string]string{}
	for i := 0; i < 20000; i++ {
		m[fmt.Sprintf("word%d of many", i)] = "X"
	}
	for k := 0; k < 5; k++ {
		f := synonyms.NewFilter(m, true, []rune{' '})
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				s, err := f(jargon.TokenizeString("a word77 of many b")).String()
				if err != nil || s != "a X b" {
					fail(s, err)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
''',imports=['sync',F+'synonyms'])
B('C11-join','C11',[('filters/sigil/filter.go','''		// Drop current & lookahead, replace with new token
		s := sigil + lookahead.String()
		token := jargon.NewToken(s, true)
		return true, token, nil''','''		// Drop current & lookahead, replace with new token
		f := s.filter
		f.buf = append(append(f.buf[:0], sigil...), lookahead.String()...)
		token := jargon.NewToken(string(f.buf), true)
		return true, token, nil'''),('filters/sigil/filter.go','''	legal func(s string) bool
}

func (f''','''	legal func(s string) bool
	buf   []byte
}

func (f''')],
'handles found by two goroutines at the same time','they share a buffer',
'''
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		name := fmt.Sprintf("@user_%d_%d", i, i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20000; k++ {
				s, err := twitter.Handles(jargon.TokenizeString(name)).String()
				if err != nil || s != name {
					fail(s, name)
				}
			}
		}()
	}
	wg.Wait()
''',imports=['sync',F+'twitter'],race=True)
B('C11-norm','C11',[('filters/norm/filter.go','''		s := form.String(token.String())
		return jargon.NewToken(s, true)''','''		buf = form.AppendString(buf[:0], token.String())
		return jargon.NewToken(string(buf), true)'''),('filters/norm/filter.go','''	f := func(token *jargon.Token) *jargon.Token {''','''	var buf []byte
	f := func(token *jargon.Token) *jargon.Token {''')],
'two goroutines normalizing at the same time','they share a buffer',
'''
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5000; k++ {
				norm.NFD(jargon.TokenizeString("café")).String()
			}
		}()
	}
	wg.Wait()
''',imports=['sync',F+'norm'],race=True)
B('C16-len','C16',[('filters/stopwords/filter.go','''		includes[key] = true
	}
''','''		includes[key] = true
		if len(key) > longest {
			longest = len(key)
		}
	}
'''),('filters/stopwords/filter.go','''	includes := make(map[string]bool)
''','''	includes := make(map[string]bool)
	longest := 0
'''),('filters/stopwords/filter.go','''		includes:   includes,
''','''		includes:   includes,
		longest:    longest,
'''),('filters/stopwords/filter.go','''	includes   map[string]bool
	ignoreCase bool
''','''	includes   map[string]bool
	longest    int
	ignoreCase bool
'''),('filters/stopwords/filter.go','''		key := token.String()
''','''		if len(token.String()) > t.filter.longest {
			// Can't be one
			return token, nil
		}

		key := token.String()
''')],
'a word which is longer in capital letters, such as of the Kelvin sign','it is not removed',
'''
	f := stopwords.NewFilter([]string{"k"}, true)
	n, err := f(jargon.TokenizeString("\\u212a")).Count()
	if err != nil || n != 0 {
		fail(n, err)
	}
''',imports=[F+'stopwords'])
B('C17-prefix','C17',[('filters/sigil/filter.go','''	if current.String() != sigil {''','''	if !strings.HasPrefix(sigil, current.String()) {'''),('filters/sigil/filter.go','''import (
	"fmt"
''','''import (
	"fmt"
	"strings"
''')],
'a sigil of several characters, of which the first is in the text','it is taken for the whole',
'''
	f := sigil.NewFilter("::", func(s string) bool { return s != " " })
	s, err := f(jargon.TokenizeString("a :x")).String()
	if err != nil || s != "a :x" {
		fail(s, err)
	}
''',imports=[F+'sigil'])
B('C18-end','C18',[('tokenizer_html.go','''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}
''','''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}
		if htoken.DataAtom != 0 {
			// Well known
			raw = htoken.String()
		}
''')],
'an end tag with spaces or capital letters','it is rewritten',
'''
	s, err := jargon.TokenizeHTML(strings.NewReader("<P>a</P >")).String()
	if err != nil || s != "<P>a</P >" {
		fail(s, err)
	}
''',imports=['strings'])
B('C19-self','C19',[('tokenizer_html.go','''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}
''','''		if htoken.DataAtom == t.parent && t.parent != atom.Style {
			t.parent = 0
		}
''')],
'text after a style element','it is not tokenized',
'''
	n, err := jargon.TokenizeHTML(strings.NewReader("<style>x</style>a b")).Count()
	if err != nil || n != 6 {
		fail(n, err)
	}
''',imports=['strings'])
B('C21-trunc','C21',[('cmd/jargon/main.go','''		file, err := c.Fs.Create(fileout)
''','''		file, err := c.Fs.OpenFile(fileout, os.O_WRONLY|os.O_CREATE, 0666)
''')],
'an output file that exists and is longer','the rest of it stays',
{'demo.sh':CLI%'''
printf 'a much longer text' >"$T/out"
printf 'short' | "$T/jargon" -out "$T/out"
[ "$(cat "$T/out")" = short ] || { cat "$T/out"; exit 1; }
'''})
B('C21-fifo','C21',[('cmd/jargon/main.go','''			c.Reader = bufio.NewReaderSize(c.Filein, 4*1024)
''','''			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, 4*1024), 4*1024)
'''),('cmd/jargon/main.go','''	"fmt"
''','''	"fmt"
	"io"
''')],
'an input file whose size is not known in advance, such as a pipe','only its beginning is processed',
{'demo.sh':CLI%'''
mkfifo "$T/in"
head -c 10000 /dev/zero | tr '\\0' a | tr a '\\n' >"$T/in" &
exec 3</dev/null
n=$("$T/jargon" -file "$T/in" </dev/tty 2>/dev/null | wc -c) || true
if [ "$n" = 0 ]; then
  n=$(script -qec "$T/jargon -file $T/in -out $T/out" /dev/null </dev/null >/dev/null; wc -c <"$T/out")
fi
[ "$n" = 10000 ] || { echo "$n"; exit 1; }
'''})
B('C22-dir','C22',[('cmd/jargon/main.go','''		size := fi.Size()
		switch {
''','''		size := fi.Size()
		switch {
		case fi.IsDir():
			// Nothing to read
			c.Reader = bufio.NewReader(strings.NewReader(""))
''')],
'a directory as the input file','nothing is output, as success',
{'demo.sh':CLI%'''
mkdir "$T/d"
script -qec "$T/jargon -file $T/d -out $T/out" /dev/null </dev/null >/dev/null && exit 1
exit 0
'''})
B('C23-limit','C23',[('web/main.go','''		tokens = jargon.Tokenize(r.Body)
''','''		tokens = jargon.Tokenize(io.LimitReader(r.Body, 1<<23))
'''),('web/main.go','''	"html/template"
''','''	"html/template"
	"io"
''')],
'a request of more than 8 MB','it is cut off without an error',
{'demo.sh':WEB,'demo_go.txt':WT%'''
	body := strings.Repeat("abc ", 1<<21) + "end"
	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", strings.NewReader(body)))
	if w.Code == 200 && !strings.HasSuffix(w.Body.String(), "end") {
		t.Error(w.Body.Len())
	}
'''})
B('C25-pool','C25',[('filters/contractions/filter.go','''	if token == nil {
		return nil, nil
	}

	// Try case-sensitive''','''	if token == nil {
		if !t.done {
			t.done = true
			queues.Put(t.outgoing)
		}
		return nil, nil
	}

	// Try case-sensitive'''),('filters/contractions/filter.go','''		outgoing: tokenqueue.New(),
''','''		outgoing: queues.Get().(*tokenqueue.TokenQueue),
'''),('filters/contractions/filter.go','''type tokens struct {
	incoming *jargon.TokenStream
	outgoing *tokenqueue.TokenQueue
}''','''var queues = sync.Pool{New: func() interface{} { return tokenqueue.New() }}

type tokens struct {
	incoming *jargon.TokenStream
	outgoing *tokenqueue.TokenQueue
	done     bool
}'''),('filters/contractions/filter.go','''import (
	"strings"
''','''import (
	"strings"
	"sync"
''')],
'a stream that ended is asked again while another is being read','it takes tokens of the other',
'''
	for i := 0; i < 100; i++ {
		a := contractions.Expand(jargon.TokenizeString("a"))
		a.ToSlice()
		b := contractions.Expand(jargon.TokenizeString("don't"))
		b.Next()
		if t, _ := a.Next(); t != nil {
			fail(t)
		}
	}
''',imports=[F+'contractions'])
B('C26-depth','C26',[('filters/synonyms/trie/trie.go','''			n = n.children[r]
			if n == nil {
				break outer
			}
''','''			n = n.children[r]
			depth++
			if n == nil || depth > 48 {
				break outer
			}
'''),('filters/synonyms/trie/trie.go','''	var result *node
	n := t.root
''','''	var result *node
	n := t.root
	depth := 0
''')],
'a stored term of more than 48 characters','it is not found',
'''
	term := "supercalifragilisticexpialidocious internationalization"
	f := synonyms.NewFilter(map[string]string{term: "X"}, true, nil)
	s, err := f(jargon.TokenizeString(term)).String()
	if err != nil || s != "X" {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C27-once','C27',[('filters/synonyms/filter.go','''	f.once.Do(func() {
		f.err = f.build()
	})
''','''	var err error
	f.once.Do(func() {
		err = f.build()
	})
'''),('filters/synonyms/filter.go','''		if f.err != nil {
			return nil, f.err
		}
''','''		if err != nil {
			return nil, err
		}
		if f.trie == nil {
			return incoming.Next()
		}
''')],
'a second use of a filter that cannot be built','it silently does nothing',
'''
	f := synonyms.NewFilter(map[string]string{strings.Repeat("x", 70000): "X"}, true, nil)
	for i := 0; i < 2; i++ {
		if _, err := f(jargon.TokenizeString("a")).ToSlice(); err == nil {
			fail("no error", i)
		}
	}
''',imports=['strings',F+'synonyms'])
B('C28-memo','C28',[('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}

	return token, nil''','''	if token == t.last && token != nil {
		// The same again, such as a space
		return t.result, nil
	}
	t.last = token

	for _, f := range t.filter.funcs {
		token = f(token)
	}
	t.result = token

	return token, nil'''),('filters/mapper/filter.go','''	filter   *filter
}
''','''	filter   *filter

	last, result *jargon.Token
}
''')],
'consecutive occurrences of the same common word, and a function that counts','it is called once for them',
'''
	n := 0
	f := mapper.NewFilter(func(t *jargon.Token) *jargon.Token {
		n++
		return jargon.NewToken(fmt.Sprint(n), true)
	})
	the := jargon.NewToken("the", false)
	k := 0
	s, err := f(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if k++; k > 3 {
			return nil, nil
		}
		return the, nil
	})).String()
	if err != nil || s != "123" {
		fail(s, err)
	}
''',imports=[F+'mapper'])
B('C29-words','C29',[('tokenstream.go','''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing''','''	outgoing := stream
	for i, f := range filters {
		if i > 0 {
			// Stages don't need to see the end of the previous one again
			outgoing = once(outgoing)
		}
		outgoing = f(outgoing)
	}
	return outgoing
}

func once(stream *TokenStream) *TokenStream {
	var previous *Token
	return NewTokenStream(func() (*Token, error) {
		token, err := stream.Next()
		for err == nil && token != nil && token == previous && token.space && token.lemma {
			token, err = stream.Next()
		}
		previous = token
		return token, err
	})''')],
'a stage that gives the same space token, as a lemma, twice in a row','one of them is lost',
'''
	sp := mapper.NewFilter(func(t *jargon.Token) *jargon.Token {
		if t.IsSpace() {
			return jargon.NewToken(" ", true)
		}
		return t
	})
	id := func(s *jargon.TokenStream) *jargon.TokenStream { return s }
	in := "a \\n b"
	x, _ := sp(jargon.TokenizeString(in)).String()
	y, err := jargon.TokenizeString(in).Filter(sp, id).String()
	if err != nil || x != y {
		fail(x, y, err)
	}
''',imports=[F+'mapper'])
