J='github.com/clipperhouse/jargon'
F=J+'/filters/'
B('C11-dcl','C11',[('filters/synonyms/filter.go','''	f.once.Do(func() {
		f.err = f.build()
	})
''','''	if f.trie == nil {
		f.once.Do(func() {
			f.err = f.build()
		})
	}
''')],'two goroutines at the first use of a filter','the trie is read without synchronization; maxWords may still be 0 when trie is already set',
'''
	for i := 0; i < 2000; i++ {
		f := synonyms.NewFilter(map[string]string{"a b": "X", "c d e": "Y"}, true, nil)
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s, err := f(jargon.TokenizeString("a b")).String()
				if s != "X" || err != nil {
					fail(s, err)
				}
			}()
		}
		wg.Wait()
	}
''',imports=[F+'synonyms','sync'],race=True)
B('C11-cache','C11',[('filters/stemmer/filter.go','''		stemmed := stem(token.String(), true)
''','''		stemmed, found := cache[token.String()]
		if !found {
			stemmed = stem(token.String(), true)
			if len(cache) < 1000 {
				cache[token.String()] = stemmed
			}
		}
'''),('filters/stemmer/filter.go','''	f := func(token *jargon.Token) *jargon.Token {
''','''	cache := map[string]string{}
	f := func(token *jargon.Token) *jargon.Token {
''')],'two goroutines using the same stemmer','concurrent writes to a map',
'''
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				stemmer.French(jargon.TokenizeString(fmt.Sprint("mangeons", i))).Count()
			}
		}()
	}
	wg.Wait()
''',imports=[F+'stemmer','sync'],race=True)
B('C11-foldbuf','C11',[('filters/ascii/fold.go','''	var b bytes.Buffer
	folded := false
''','''	b := buffers[len(s)%len(buffers)]
	if b == nil {
		b = new(bytes.Buffer)
		buffers[len(s)%len(buffers)] = b
	}
	b.Reset()
	folded := false
'''),('filters/ascii/fold.go','''// FoldString is''','''var buffers [16]*bytes.Buffer

// FoldString is''')],'two goroutines folding at the same time','they write to the same buffer',
'''
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				if s, _ := ascii.FoldString("crème brûlée"); s != "creme brulee" {
					fail(s)
				}
			}
		}()
	}
	wg.Wait()
''',imports=[F+'ascii','sync'],race=True)
B('C11-stats','C11',[('filters/sigil/filter.go','''type filter struct {
	sigil string
''','''type filter struct {
	last  string // the last token found illegal, they come in series
	sigil string
'''),('filters/sigil/filter.go','''	if legal(lookahead.String()) {
''','''	if lookahead.String() != s.filter.last && legal(lookahead.String()) {
'''),('filters/sigil/filter.go','''	// Queue the lookahead for later
''','''	s.filter.last = lookahead.String()

	// Queue the lookahead for later
''')],'two goroutines using the same sigil filter, with illegal names','a data race on the remembered name',
'''
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				twitter.Handles(jargon.TokenizeString("@é @ü @user")).Count()
			}
		}()
	}
	wg.Wait()
''',imports=[F+'twitter','sync'],race=True)
B('C12-title','C12',[('filters/contractions/filter.go','''	expansion, found := mappings[key]

	if found {
''','''	expansion, found := mappings[key]

	if found {
		if ignoreCase && strings.HasPrefix(token.String(), strings.ToUpper(expansion[:1])) {
			// Keep the capital, e.g. at the start of a sentence
			expansion = strings.ToUpper(expansion[:1]) + expansion[1:]
		}
''')],'a contraction in an unusual mixture of case, starting with a capital','it expands to title case instead of lower case',
'''
	s, err := contractions.Expand(jargon.TokenizeString("DoN't")).String()
	if s != "do not" || err != nil {
		fail(s, err)
	}
''',imports=[F+'contractions'])
B('C12-entry','C12',[('filters/contractions/generated.go','''	"WOULD’VE":  "WOULD HAVE",
''','''	"WOULD’VE":  "WOULD Have",
''')],'WOULD’VE in upper case with a typographic apostrophe','it expands in the wrong case',
'''
	s, err := contractions.Expand(jargon.TokenizeString("WOULD’VE")).String()
	if s != "WOULD HAVE" || err != nil {
		fail(s, err)
	}
''',imports=[F+'contractions'])
B('C13-last','C13',[('filters/ascii/fold.go','''			default:
				b.WriteRune(r)
''','''			default:
				b.WriteRune(r)
				folded = false
''')],'a folded character followed by one that is not ASCII and not in the table','the string is folded but not reported as such',
'''
	s, ok := ascii.FoldString("é中")
	if s != "e中" || !ok {
		fail(s, ok)
	}
''',imports=[F+'ascii'])
B('C14-latin','C14',[('filters/norm/filter.go','''		if form.IsNormalString(token.String()) {
			return token
		}
''','''		// Latin-1 is common, and always composed
		latin := true
		for _, r := range token.String() {
			if r > unicode.MaxLatin1 {
				latin = false
				break
			}
		}
		if latin || form.IsNormalString(token.String()) {
			return token
		}
'''),('filters/norm/filter.go','''import (
''','''import (
	"unicode"

''')],'NFD, NFKC or NFKD of Latin-1 text','é stays composed in NFD',
'''
	s, err := norm.NFD(jargon.TokenizeString("é")).String()
	if s != "e\\u0301" || err != nil {
		fail(s, err)
	}
''',imports=[F+'norm'])
B('C15-short','C15',[('filters/stemmer/filter.go','''		if token.IsPunct() || token.IsSpace() {
			return token
		}
''','''		if token.IsPunct() || token.IsSpace() {
			return token
		}

		// Too short to have a suffix
		if len(token.String()) < 3 {
			return token
		}
''')],'a word of one or two letters, in upper case','it is not stemmed (to lower case)',
'''
	s, err := stemmer.English(jargon.TokenizeString("TV")).String()
	if s != "tv" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stemmer'])
B('C15-lemma','C15',[('filters/stemmer/filter.go','''		if token.IsPunct() || token.IsSpace() {
			return token
		}
''','''		if token.IsPunct() || token.IsSpace() || token.IsLemma() && strings.Contains(token.String(), "-") {
			// Canonical terms stay
			return token
		}
'''),('filters/stemmer/filter.go','''import (
''','''import (
	"strings"

''')],'a lemma with a hyphen, such as a canonical term','it is not stemmed',
'''
	s, err := jargon.TokenizeString("Ruby on Rails").Filter(stackoverflow.Tags, stemmer.English).String()
	if s != "ruby-on-rail" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stemmer',F+'stackoverflow'])
B('C15-lang','C15',[('filters/stemmer/filter.go','''var Norwegian = newStemmer(norwegian.Stem)
''','''var Norwegian = newStemmer(swedish.Stem)
'''),('filters/stemmer/filter.go','''	"github.com/kljensen/snowball/norwegian"
''','')],'Norwegian','the wrong stemmer',
'''
	s, err := stemmer.Norwegian(jargon.TokenizeString("havnedistriktene")).String()
	if s != "havnedistrikt" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stemmer'])
B('C16-title','C16',[('filters/stopwords/filter.go','''		key := token.String()
		if t.filter.ignoreCase {
			key = strings.ToLower(token.String())
		}

		if t.filter.includes[key] {
''','''		key := token.String()
		if t.filter.ignoreCase {
			key = strings.ToLower(token.String())
		}

		if t.filter.includes[key] && !token.IsLemma() {
''')],'a stop word that is a lemma','it is not removed',
'''
	s, err := jargon.TokenizeString("thé").Filter(ascii.Fold, stopwords.NewFilter([]string{"the"}, true)).String()
	if s != "" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stopwords',F+'ascii'])
B('C16-trim','C16',[('filters/stopwords/filter.go','''	for _, s := range stopwords {
''','''	for _, s := range stopwords {
		s = strings.TrimSpace(s)
''')],'a stop word with spaces around it, or that is a space','spaces are not removed',
'''
	s, err := jargon.TokenizeString("a b").Filter(stopwords.NewFilter([]string{" "}, true)).String()
	if s != "ab" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stopwords'])
B('C16-upper','C16',[('filters/stopwords/filter.go','''			key = strings.ToLower(s)
''','''			key = strings.ToUpper(s)
'''),('filters/stopwords/filter.go','''			key = strings.ToLower(token.String())
''','''			key = strings.ToUpper(token.String())
''')],'characters that share an upper case but not a lower case, e.g. ı and i','words that are not configured are removed',
'''
	s, err := jargon.TokenizeString("ı").Filter(stopwords.NewFilter([]string{"i"}, true)).String()
	if s != "ı" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stopwords'])
B('C17-previous','C17',[('filters/sigil/filter.go','''		s.previous = handle
		return handle, nil
''','''		return handle, nil
''')],'a sigil right after a handle','it is joined, though there is no word boundary',
'''
	ts, err := twitter.Handles(jargon.TokenizeString("@a@b")).ToSlice()
	if len(ts) != 3 || err != nil {
		fail(ts, err)
	}
''',imports=[F+'twitter'])
B('C17-number','C17',[('filters/twitter/filter.go','''			unicode.IsNumber(r),
''','''			unicode.IsDigit(r),
''')],'a hashtag with a number that is not a digit','it is not joined',
'''
	ts, err := twitter.Hashtags(jargon.TokenizeString("#x²")).ToSlice()
	n := 0
	for _, t := range ts {
		if t.IsLemma() {
			n++
		}
	}
	src := jargon.NewTokenStream(func() func() (*jargon.Token, error) {
		i := -1
		return func() (*jargon.Token, error) {
			i++
			if i > 1 {
				return nil, nil
			}
			return jargon.NewToken([]string{"#", "x½"}[i], false), nil
		}
	}())
	us, err2 := twitter.Hashtags(src).ToSlice()
	if len(us) != 1 || err != nil || err2 != nil {
		fail(ts, us, err)
	}
''',imports=[F+'twitter'])
B('C17-eof','C17',[('filters/sigil/filter.go','''	if lookahead == nil {
		// EOF
		return false, nil, nil
	}

	if legal(''','''	if lookahead == nil {
		// EOF
		return false, nil, nil
	}
	for lookahead.String() == sigil {
		// Only the last of several matters
		next, err := s.incoming.Next()
		if err != nil {
			return false, nil, err
		}
		if next == nil {
			break
		}
		s.outgoing.Push(lookahead)
		lookahead = next
	}

	if !s.outgoing.Any() && legal(''')],'several sigils followed by a name','the name after a second sigil is no longer joined',
'''
	ts, err := twitter.Handles(jargon.TokenizeString("@@user")).ToSlice()
	if len(ts) != 2 || err != nil {
		fail(ts, err)
	}
''',imports=[F+'twitter'])
B('C18-comment','C18',[('tokenizer_html.go','''	case html.EndTagToken:
''','''	case html.CommentToken:
		return &Token{value: "<!--" + htoken.Data + "-->", punct: true}, nil
	case html.EndTagToken:
''')],'a comment that is not written <!-- -->','a bogus comment is rewritten',
'''
	s := "a <?php x ?> b <!bogus> <!-- unfinished"
	got, err := jargon.TokenizeHTML(strings.NewReader(s)).String()
	if got != s || err != nil {
		fail(got, err)
	}
''',imports=['strings'])
B('C18-nul','C18',[('tokenizer_html.go','''			t.ttokens = TokenizeString(raw)
''','''			t.ttokens = TokenizeString(strings.ReplaceAll(raw, "\\r\\n", "\\n"))
'''),('tokenizer_html.go','''	"io"
''','''	"io"
	"strings"
''')],'Windows line breaks in text','they are rewritten',
'''
	s := "a\\r\\nb<br>\\r\\n"
	got, err := jargon.TokenizeHTML(strings.NewReader(s)).String()
	if got != s || err != nil {
		fail(got, err)
	}
''',imports=['strings'])
B('C19-noscript','C19',[('tokenizer_html.go','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
''','''		switch htoken.DataAtom {
		case atom.Script, atom.Style, atom.Textarea:
'''),('tokenizer_html.go','''		case atom.Script, atom.Style:
			// Don't''','''		case atom.Script, atom.Style, atom.Textarea:
			// Don't''')],'a textarea','its text is not tokenized',
'''
	ts, err := jargon.TokenizeHTML(strings.NewReader("<textarea>a b</textarea>")).ToSlice()
	if len(ts) != 5 || err != nil {
		fail(ts, err)
	}
''',imports=['strings'])
B('C20-flush','C20',[('tokenqueue/queue.go','''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''','''	if dst.Len() == 0 {
		dst.Tokens = q.Tokens
	} else {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	}
	q.Clear()
''')],'flushing to an empty queue, then pushing to the first again','the queues share memory',
'''
	a := tokenqueue.New(jargon.NewToken("a", false))
	b := tokenqueue.New()
	a.FlushTo(b)
	a.Push(jargon.NewToken("z", false))
	if b.String() != "[\\"a\\"]" {
		fail(b)
	}
''',imports=[J+'/tokenqueue'])
B('C20-shift','C20',[('tokenqueue/queue.go','''	copy(q.Tokens, q.Tokens[n:])
	// Chop off the end
	q.Tokens = q.Tokens[:len(q.Tokens)-n]
''','''	if n > 8 && n > len(q.Tokens)/2 {
		// Let go of a large array
		q.Tokens = append([]*Token{}, q.Tokens[n:len(q.Tokens)-1]...)
		return
	}
	copy(q.Tokens, q.Tokens[n:])
	// Chop off the end
	q.Tokens = q.Tokens[:len(q.Tokens)-n]
''')],'dropping more than 8 tokens at once','one more is lost',
'''
	a := tokenqueue.New()
	for i := 0; i < 12; i++ {
		a.Push(jargon.NewToken(fmt.Sprint(i), false))
	}
	a.Drop(9)
	if a.Len() != 3 {
		fail(a)
	}
''',imports=[J+'/tokenqueue'])
CLI='''#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$T/jargon" ./cmd/jargon || exit 3
%s
'''
B('C21-dedupe','C21',[('cmd/jargon/main.go','''			c.Filters = append(c.Filters, filter)
''','''			if used[arg] {
				continue
			}
			used[arg] = true
			c.Filters = append(c.Filters, filter)
'''),('cmd/jargon/main.go','''	for _, arg := range args {
''','''	used := map[string]bool{}
	for _, arg := range args {
''')],'a filter given twice','it is applied once',
{'demo.sh':CLI%'''
got=$(printf 'café THE the' | "$T/jargon" -distinct -stem -distinct -lines | tr '\\n' '|')
[ "$got" = "cafe| |the|" ] || [ "$got" = "café| |the|" ] || { echo "$got"; exit 1; }
'''})
B('C21-lines','C21',[('cmd/jargon/main.go','''			_, err := c.Writer.WriteRune('\\n')
			if err != nil {
				return err
			}
''','''			if token.String() == "\\n" {
				// it already is a line break
				continue
			}
			_, err := c.Writer.WriteRune('\\n')
			if err != nil {
				return err
			}
''')],'lines are requested, and the text has line breaks','they are not followed by one',
{'demo.sh':CLI%'''
got=$(printf 'a\\nb' | "$T/jargon" -lines | od -c | head -1)
want=$(printf 'a\\n\\n\\nb\\n' | od -c | head -1)
[ "$got" = "$want" ] || { echo "$got"; exit 1; }
'''})
B('C22-flush','C22',[('cmd/jargon/main.go','''	if err := c.Writer.Flush(); err != nil {
		return err
	}

	return nil
}
''','''	defer c.Writer.Flush()

	return nil
}
''')],'a destination that fails when the last of the output is written','success is reported',
{'demo.sh':CLI%'''
printf 'hello world' | "$T/jargon" -out /dev/full && exit 1
exit 0
'''})
B('C22-count','C22',[('cmd/jargon/main.go','''		count, err := tokens.Count()
		if err != nil {
			return err
		}
''','''		count, err := tokens.Count()
		if err != nil && count == 0 {
			return err
		}
''')],'-count on input that cannot be read to its end','the count so far is reported as success',
{'demo.sh':CLI%'''
python3 -c "print('a '*100+'x'*70000)" | "$T/jargon" -count && exit 1
exit 0
'''})
WEB='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/web/zz_test.go":"'"$D"'/demo_go.txt"}}' >"$T/o.json"
go test -count=1 %s-overlay "$T/o.json" -run TestDemo ./web
'''
WT='''package main

import (
	"io"
	"net/http/httptest"
	"strings"
	"testing"
	"sync"
)

var _ = io.EOF
var _ sync.Mutex
var _ = strings.NewReader

func TestDemo(t *testing.T) {
%s
}
'''
B('C23-template','C23',[('web/main.go','''		if t.IsLemma() {
			err = lemma.Execute(&b, t)
		} else {
			err = plain.Execute(&b, t)
		}
''','''		switch {
		case t.IsLemma():
			err = lemma.Execute(&b, t)
		case t.IsPunct() && route == "html":
			// markup, as is
			b.WriteString(t.String())
		default:
			err = plain.Execute(&b, t)
		}
''')],'HTML with markup','the response contains the markup of the request',
{'demo.sh':WEB%'','demo_go.txt':WT%'''
	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/html", strings.NewReader("<b>hi</b>")))
	if strings.Contains(w.Body.String(), "<b>") {
		t.Error(w.Body.String())
	}
'''})
B('C23-error','C23',[('web/main.go','''			log.Print(err)
			w.WriteHeader(500)
		}
		if t == nil {
''','''			log.Print(err)
			if b.Len() == 0 {
				w.WriteHeader(500)
			}
		}
		if t == nil {
''')],'a request body that fails after some of it was processed','status 200',
{'demo.sh':WEB%'','demo_go.txt':WT%'''
	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", io.MultiReader(strings.NewReader("hello, "+strings.Repeat("a. ", 5000)), bad{})))
	if w.Code != 500 {
		t.Error(w.Code)
	}
}

type bad struct{}

func (bad) Read([]byte) (int, error) {
	return 0, io.ErrUnexpectedEOF
'''})
B('C23-pool','C23',[('web/main.go','''	var b bytes.Buffer

''','''	b := pool.Get().(*bytes.Buffer)
	defer pool.Put(b)

'''),('web/main.go','''			err = lemma.Execute(&b, t)
		} else {
			err = plain.Execute(&b, t)
''','''			err = lemma.Execute(b, t)
		} else {
			err = plain.Execute(b, t)
'''),('web/main.go','''var lemma = ''','''var pool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

var lemma = '''),('web/main.go','''	"strings"

''','''	"strings"
	"sync"

''')],'a response that cannot be written, then another request','the second response starts with what is left of the first',
{'demo.sh':WEB%'','demo_go.txt':WT%'''
	mainHandler(&broken{httptest.NewRecorder()}, httptest.NewRequest("POST", "/text", strings.NewReader("first request")))
	for i := 0; i < 20; i++ {
		w := httptest.NewRecorder()
		mainHandler(w, httptest.NewRequest("POST", "/text", strings.NewReader("second")))
		if w.Body.String() != "second" {
			t.Fatal(w.Body.String())
		}
	}
}

type broken struct{ *httptest.ResponseRecorder }

func (broken) Write([]byte) (int, error) {
	return 0, io.ErrClosedPipe
'''})
B('C08-cap','C08',[('filters/synonyms/filter.go','''	f.maxWords = maxWords
''','''	f.maxWords = maxWords
	if f.maxWords > 5 {
		// no one writes terms that long
		f.maxWords = 5
	}
''')],'terms of more than five words','they are not recognized',
'''
	s, err := stackoverflow.Tags(jargon.TokenizeString("x")).String()
	if err != nil {
		fail(s)
	}
	f := synonyms.NewFilter(map[string]string{"a b c d e f": "X"}, true, nil)
	s, err = f(jargon.TokenizeString("a b c d e f")).String()
	if s != "X" || err != nil {
		fail(s, err)
	}
''',imports=[F+'stackoverflow',F+'synonyms'])
B('C25-shared','C25',[('filters/sigil/filter.go','''	t := &stream{
		filter:   f,
		incoming: incoming,
		outgoing: tokenqueue.New(),
	}
''','''	t := &stream{
		filter:   f,
		incoming: incoming,
		outgoing: f.queue,
	}
'''),('filters/sigil/filter.go','''	f := &filter{
		sigil: sigil,
''','''	f := &filter{
		queue: tokenqueue.New(),
		sigil: sigil,
'''),('filters/sigil/filter.go','''type filter struct {
''','''type filter struct {
	queue *tokenqueue.TokenQueue
''')],'a stream abandoned after a sigil with no name, then another stream','the second stream gets a token of the first',
'''
	s := twitter.Handles(jargon.TokenizeString("@ é"))
	s.Next()
	got, err := twitter.Handles(jargon.TokenizeString("x")).String()
	if got != "x" || err != nil {
		fail(got, err)
	}
''',imports=[F+'twitter'])
B('C25-scratch','C25',[('filters/contractions/filter.go','''	t := &tokens{
		incoming: incoming,
		outgoing: tokenqueue.New(),
	}
	return jargon.NewTokenStream(t.next)
''','''	t := pool.Get().(*tokens)
	t.incoming = incoming
	next := func() (*jargon.Token, error) {
		token, err := t.next()
		if token == nil && t.incoming != nil {
			// Done, let others use it
			t.incoming = jargon.NewTokenStream(func() (*jargon.Token, error) { return nil, err })
			pool.Put(t)
		}
		return token, err
	}
	return jargon.NewTokenStream(next)
'''),('filters/contractions/filter.go','''type tokens struct {
''','''var pool = sync.Pool{New: func() interface{} { return &tokens{outgoing: tokenqueue.New()} }}

type tokens struct {
'''),('filters/contractions/filter.go','''	"strings"

''','''	"strings"
	"sync"

''')],'a stream that is asked again after its end, while another stream is in progress','it takes tokens from the other stream',
'''
	a := contractions.Expand(jargon.TokenizeString("a"))
	a.Count()
	b := contractions.Expand(jargon.TokenizeString("b c d"))
	b.Next()
	if t, _ := a.Next(); t != nil {
		fail(t)
	}
''',imports=[F+'contractions'])
B('C26-first','C26',[('filters/synonyms/trie/trie.go','''	n.hasCanonical = true
	n.canonical = canonical
''','''	if !n.hasCanonical || len(canonical) > len(n.canonical) {
		n.canonical = canonical
	}
	n.hasCanonical = true
''')],'storing a term again with a shorter canonical','the canonical is not replaced',
'''
	t := trie.New(true, nil)
	a := []*jargon.Token{jargon.NewToken("a", false)}
	t.Add(a, "long")
	t.Add(a, "x")
	if _, c, _ := t.SearchCanonical(a...); c != "x" {
		fail(c)
	}
''',imports=[F+'synonyms/trie'])
B('C27-skip','C27',[('filters/synonyms/filter.go','''		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
		if err != nil {
			return err
		}
''','''		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
		if err != nil {
			continue
		}
''')],'synonyms that cannot be processed','they are skipped silently',
'''
	f := synonyms.NewFilter(map[string]string{strings.Repeat("x", 70000): "y"}, true, nil)
	if _, err := f(jargon.TokenizeString("a")).String(); err == nil {
		fail("no error")
	}
''',imports=[F+'synonyms','strings'])
B('C28-stop','C28',[('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	for _, f := range t.filter.funcs {
		mapped := f(token)
		if mapped.IsLemma() && !token.IsLemma() {
			// It's been replaced
			return mapped, nil
		}
		token = mapped
	}
''')],'several functions, the first of which makes a lemma','the others are not applied',
'''
	up := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+"!", true) }
	s, err := mapper.NewFilter(up, up)(jargon.TokenizeString("a")).String()
	if s != "a!!" || err != nil {
		fail(s, err)
	}
''',imports=[F+'mapper'])
B('C29-peek','C29',[('filters/stopwords/filter.go','''	t := tokens{
		filter:   f,
		incoming: incoming,
	}
	return jargon.NewTokenStream(t.next)
''','''	t := tokens{
		filter:   f,
		incoming: incoming,
	}
	if len(f.includes) == 0 {
		// Nothing to do
		return incoming
	}
	if current := incoming.Token(); current != nil && !current.IsSpace() {
		// In the middle of it, start with the token that the caller is looking at
		next := func() (*jargon.Token, error) {
			if current != nil {
				token := current
				current = nil
				return token, nil
			}
			return t.next()
		}
		return jargon.NewTokenStream(next)
	}
	return jargon.NewTokenStream(t.next)
''')],'filtering the rest of a stream that was partly consumed','a token appears twice',
'''
	s := jargon.TokenizeString("a b c")
	s.Next()
	got, err := s.Filter(stopwords.NewFilter([]string{"b"}, true)).String()
	if got != "  c" || err != nil {
		fail(got, err)
	}
''',imports=[F+'stopwords'])
B('C29-dup','C29',[('tokenstream.go','''	for _, f := range filters {
		outgoing = f(outgoing)
	}
''','''	for i, f := range filters {
		if i > 0 && reflect.ValueOf(f).Pointer() == reflect.ValueOf(filters[i-1]).Pointer() {
			// Twice the same
			continue
		}
		outgoing = f(outgoing)
	}
'''),('tokenstream.go','''	"io"
''','''	"io"
	"reflect"
''')],'two filters of the same kind in one call','method values of the same method have the same code pointer, so the second is skipped',
'''
	a := synonyms.NewFilter(map[string]string{"a": "b"}, true, nil)
	b := synonyms.NewFilter(map[string]string{"b": "c"}, true, nil)
	got, err := jargon.TokenizeString("a").Filter(a, b).String()
	if got != "c" || err != nil {
		fail(got, err)
	}
''',imports=[F+'synonyms'])
