J='github.com/clipperhouse/jargon'
F=J+'/filters/'
B('C01-bom','C01',[('tokenizer.go','''		token := NewToken(t.sc.Text(), false)
''','''		token := NewToken(strings.TrimPrefix(t.sc.Text(), "\\ufeff"), false)
''')],'a byte order mark','the byte order mark is lost (and alone it ends the stream)',
'''
	s := "\\ufeffc d"
	got, err := jargon.TokenizeString(s).String()
	if err != nil || got != s {
		fail(got, err)
	}
''')
B('C01-utf8','C01',[('tokenizer.go','''		token := NewToken(t.sc.Text(), false)
''','''		token := NewToken(strings.ToValidUTF8(t.sc.Text(), "\\ufffd"), false)
''')],'invalid UTF-8','invalid bytes are replaced',
'''
	s := "abc \\xff\\xfe d\\xc3"
	got, err := jargon.TokenizeString(s).String()
	if err != nil || got != s {
		fail(got, err)
	}
''')
B('C01-copy','C01',[('tokenizer.go','''		token := NewToken(t.sc.Text(), false)
''','''		b := t.sc.Bytes()
		if len(b) > 255 {
			// not a word that anyone would look up
			return &Token{value: *(*string)(unsafe.Pointer(&b))}, nil
		}
		token := NewToken(string(b), false)
'''),('tokenizer.go','''	"unicode/utf8"
''','''	"unicode/utf8"
	"unsafe"
''')],'a long token, kept while more of the text is read','the value of a token changes when the buffer is reused',
'''
	s := strings.Repeat("x", 300) + " " + strings.Repeat("some more text ", 1000)
	ts, err := jargon.Tokenize(strings.NewReader(s)).ToSlice()
	if err != nil {
		fail(err)
	}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.String())
	}
	if b.String() != s {
		fail("differs")
	}
''',imports=['strings'])
B('C03-unexpected','C03',[('tokenizer.go','''	if err := t.sc.Err(); err != nil {
''','''	if err := t.sc.Err(); err != nil && err != io.ErrUnexpectedEOF {
''')],'a reader that fails with io.ErrUnexpectedEOF, such as a truncated request body','truncated input looks complete',
'''
	r := io.MultiReader(strings.NewReader("some text"), bad{})
	_, err := jargon.Tokenize(r).String()
	if err != io.ErrUnexpectedEOF {
		fail(err)
	}
}

type bad struct{}

func (bad) Read(p []byte) (int, error) {
	return 0, io.ErrUnexpectedEOF
''',imports=['strings','io'])
B('C03-sigil','C03',[('filters/sigil/filter.go','''	if err != nil {
		return false, nil, err
	}
	if lookahead == nil {
''','''	if err != nil {
		// the next call will report it
		return false, nil, nil
	}
	if lookahead == nil {
''')],'a token source that reports its error once, right after a sigil','the error is swallowed',
'''
	n := 0
	e := fmt.Errorf("boo")
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		switch n {
		case 1:
			return jargon.NewToken("@", false), nil
		case 2:
			return nil, e
		}
		return nil, nil
	})
	_, err := twitter.Handles(src).ToSlice()
	if err != e {
		fail(err)
	}
''',imports=[F+'twitter'])
B('C03-html','C03',[('tokenizer_html.go','''		if err == io.EOF {
''','''		if err == io.EOF || t.parent != 0 {
''')],'a read failure inside a script or style element','the failure is reported as the end of the document',
'''
	e := fmt.Errorf("boo")
	_, err := jargon.TokenizeHTML(io.MultiReader(strings.NewReader("<p>hi</p><script>var x"), bad{e})).ToSlice()
	if err != e {
		fail(err)
	}
}

type bad struct{ e error }

func (b bad) Read(p []byte) (int, error) {
	return 0, b.e
''',imports=['strings','io'])
B('C04-ascii','C04',[('token.go','''			if !unicode.IsSpace(r) {
''','''			if r > ' ' && !unicode.IsSpace(r) {
''')],'a control character','control characters count as white space',
'''
	if jargon.NewToken("\\x1b", false).IsSpace() {
		fail("escape is space")
	}
''')
B('C04-first','C04',[('token.go','''			if !isPunct(r) {
				punct = false
				break
			}
''','''			if !isPunct(r) {
				punct = false
			}
			if r == '\\n' {
				// a line break always breaks a run of words
				punct = true
				break
			}
''')],'a token with a line break and something else, such as in an HTML title or a replaced term','it counts as punctuation',
'''
	if jargon.NewToken("a\\nb", false).IsPunct() {
		fail("a word with a line break is punctuation")
	}
''')
B('C04-intern','C04',[('token.go','''	return &Token{
		value: s,
		punct: punct,
		space: space,
		lemma: isLemma,
	}
}

var common''','''	result := &Token{
		value: s,
		punct: punct,
		space: space,
		lemma: isLemma,
	}
	if punct || space {
		// There are few of these, and many occurences
		common[s] = map[bool]*Token{isLemma: result, !isLemma: result}
	}
	return result
}

var common''')],'the same punctuation, first as a lemma and then not','the lemma mark of the first is given to the second',
'''
	jargon.NewToken("--", true)
	if jargon.NewToken("--", false).IsLemma() {
		fail("lemma")
	}
''')
B('C05-sticky','C05',[('tokenstream.go','''		stream.token, stream.err = next()
		return stream.Token(), stream.Err()
''','''		token, err := next()
		if token != nil {
			stream.token = token
		}
		stream.err = err
		return token, err
'''),('tokenstream.go','''	stream.token, stream.err = stream.Next()
	return stream.token != nil && stream.err == nil
''','''	token, err := stream.Next()
	return token != nil && err == nil
''')],'looking at the current token after the end','the last token is still current at the end',
'''
	s := jargon.TokenizeString("a")
	for s.Scan() {
	}
	if s.Token() != nil {
		fail(s.Token())
	}
''')
B('C05-slice','C05',[('tokenstream.go','''	var result []*Token

	for stream.Scan() {
''','''	var result []*Token

	if stream.token != nil && stream.token.IsLemma() {
		// don't lose what we are looking at
		result = append(result, stream.token)
	}
	for stream.Scan() {
''')],'collecting midway, when the current token is a lemma','a token is delivered twice',
'''
	s := jargon.TokenizeString("a café b").Filter(ascii.Fold)
	for i := 0; i < 3; i++ {
		s.Scan()
	}
	ts, err := s.ToSlice()
	if err != nil || len(ts) != 2 {
		fail(ts, err)
	}
''',imports=[F+'ascii'])
B('C05-reopen','C05',[('tokenstream.go','''		stream.token, stream.err = next()
		return stream.Token(), stream.Err()
''','''		if stream.err != nil {
			// report an error once
			stream.token, stream.err = nil, nil
			return nil, nil
		}
		stream.token, stream.err = next()
		return stream.Token(), stream.Err()
''')],'asking again after a failure','the second call reports a clean end',
'''
	e := fmt.Errorf("boo")
	s := jargon.NewTokenStream(func() (*jargon.Token, error) { return nil, e })
	s.Next()
	if _, err := s.Next(); err != e {
		fail(err)
	}
''')
B('C06-bounded','C06',[('tokenstream.go','''		found := seen[t.String()]
		if !found {
''','''		found := seen[t.String()]
		if len(seen) == cap {
			// bound our memory use
			seen = map[string]bool{}
		}
		if !found {
'''),('tokenstream.go','''	seen := map[string]bool{}
''','''	const cap = 100_000
	seen := make(map[string]bool)
''')],'more than 100,000 distinct values','values are forgotten and come out again',
'''
	i := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		i++
		if i > 250000 {
			return nil, nil
		}
		return jargon.NewToken(fmt.Sprint("t", i%125000), false), nil
	})
	n, err := s.Distinct().Count()
	if n != 125000 || err != nil {
		fail(n, err)
	}
''')
B('C06-hash','C06',[('tokenstream.go','''	seen := map[string]bool{}
''','''	seen := map[uint32]bool{}
	hash := func(s string) uint32 {
		h := fnv.New32a()
		io.WriteString(h, s)
		return h.Sum32()
	}
'''),('tokenstream.go','''		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
''','''		key := hash(t.String())
		found := seen[key]
		if !found {
			seen[key] = true
'''),('tokenstream.go','''import (
''','''import (
	"hash/fnv"
''')],'two values with the same 32-bit hash','the second is taken for a repetition of the first',
'''
	// "costarring" and "liquid" collide
	n, err := jargon.TokenizeString("costarring liquid").Words().Distinct().Count()
	if n != 2 || err != nil {
		fail(n, err)
	}
''')
B('C06-words','C06',[('tokenstream.go','''		return !t.IsPunct() && !t.IsSpace()
	}
''','''		if t.IsPunct() || t.IsSpace() {
			return false
		}
		r, _ := utf8.DecodeRuneInString(t.String())
		return !unicode.IsControl(r)
	}
'''),('tokenstream.go','''	"strings"
''','''	"strings"
	"unicode"
	"unicode/utf8"
''')],'a token starting with a control character','it is dropped from the words',
'''
	n, err := jargon.TokenizeString("a \\x00 b").Words().Count()
	if n != 3 || err != nil {
		fail(n, err)
	}
''')
B('C07-count','C07',[('tokenstream.go','''		written += int64(n)

		if err != nil {
			return written, err
		}
''','''		if err != nil {
			return written, err
		}
		written += int64(n)
''')],'a destination that fails after accepting part of a token','the partial write is not counted',
'''
	w := &lim{}
	n, err := jargon.TokenizeString("hello world").WriteTo(w)
	if n != 3 || err == nil {
		fail(n, err)
	}
}

type lim struct{}

func (*lim) Write(p []byte) (int, error) {
	return 3, fmt.Errorf("full")
''')
B('C07-retry','C07',[('tokenstream.go','''		written += int64(n)

		if err != nil {
			return written, err
		}
''','''		written += int64(n)

		if err == io.ErrShortWrite && n < len(token.String()) {
			// Once more for the rest
			n, err = w.Write([]byte(token.String()[n:]))
			written += int64(n)
		}
		if err != nil {
			return written, err
		}
''')],'a destination that reports a short write','it is written to after it failed',
'''
	w := &lim{}
	n, err := jargon.TokenizeString("hello world").WriteTo(w)
	if n != 3 || err != io.ErrShortWrite || w.calls != 1 {
		fail(n, err, w.calls)
	}
}

type lim struct{ calls int }

func (l *lim) Write(p []byte) (int, error) {
	l.calls++
	if l.calls == 1 {
		return 3, io.ErrShortWrite
	}
	return len(p), nil
''',imports=['io'])
B('C08-max','C08',[('filters/synonyms/filter.go','''		slice := tokens[start:]
		trie.Add(slice, canonical)
		updateMaxWords(slice, &maxWords)
''','''		slice := tokens[start:]
		trie.Add(slice, canonical)
''')],'a dictionary whose longest synonym is last in its list','it is never matched',
'''
	f := synonyms.NewFilter(map[string]string{"a, b c": "x"}, true, nil)
	s, err := f(jargon.TokenizeString("b c")).String()
	if s != "x" || err != nil {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C08-empty','C08',[('filters/synonyms/filter.go','''			if canonical != "" {
				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
			}
			t.buffer.Drop(consumed)
''','''			if canonical == "" {
				// Removed; so is the space it leaves behind
				if consumed < t.buffer.Len() && t.buffer.Tokens[consumed].IsSpace() {
					consumed++
				}
			} else {
				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
			}
			t.buffer.Drop(consumed)
''')],'an empty canonical term, followed by a space that is in the buffer','the space is removed too',
'''
	f := synonyms.NewFilter(map[string]string{"b": "", "c d": "x"}, true, nil)
	s, err := f(jargon.TokenizeString("a b e")).String()
	if s != "a  e" || err != nil {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C09-rebuild','C09',[('filters/ascii/filter.go','''	if folded {
		return jargon.NewToken(fold, true)
	}
	return token
''','''	return jargon.NewToken(fold, folded || token.IsLemma())
''')],'HTML: markup tokens','tags are no longer punctuation after the filter',
'''
	ts, err := jargon.TokenizeHTML(strings.NewReader("<b>")).Filter(ascii.Fold).ToSlice()
	if err != nil || !ts[0].IsPunct() {
		fail(ts, err)
	}
''',imports=[F+'ascii','strings'])
B('C09-relemma','C09',[('filters/stemmer/filter.go','''		if stemmed == token.String() {
''','''		if stemmed == strings.ToLower(token.String()) {
'''),('filters/stemmer/filter.go','''import (
''','''import (
	"strings"

''')],'a capitalized word that is its own stem','it is not replaced',
'''
	s, err := stemmer.English(jargon.TokenizeString("Cat")).ToSlice()
	if err != nil || s[0].String() != "cat" || !s[0].IsLemma() {
		fail(s, err)
	}
''',imports=[F+'stemmer'])
B('C10-one','C10',[('filters/synonyms/filter.go','''		t.buffer.Push(token)

		if token.IsPunct() {
			break
		}
''','''		t.buffer.Push(token)

		if token.IsPunct() && !token.IsSpace() {
			break
		}
''')],'line breaks or tabs','they no longer end the lookahead (though the run ends there)',
'''
	f := synonyms.NewFilter(map[string]string{"a b c d": "x"}, true, nil)
	src := jargon.TokenizeString("a\\nb c d e f")
	n := 0
	counted := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		return src.Next()
	})
	s := f(counted)
	s.Next()
	if n > 2 {
		fail(n)
	}
''',imports=[F+'synonyms'])
B('C10-prefetch','C10',[('filters/sigil/filter.go','''	t := &stream{
		filter:   f,
		incoming: incoming,
		outgoing: tokenqueue.New(),
	}
	return jargon.NewTokenStream(t.next)
''','''	t := &stream{
		filter:   f,
		incoming: incoming,
		outgoing: tokenqueue.New(),
	}
	if token, err := incoming.Next(); err == nil && token != nil {
		t.outgoing.Push(token)
	}
	return jargon.NewTokenStream(t.next)
''')],'watching the source while the pipeline is built','building it reads',
'''
	n := 0
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		return nil, nil
	})
	twitter.Handles(src)
	if n > 0 {
		fail(n)
	}
''',imports=[F+'twitter'])
B('C10-history','C10',[('filters/sigil/filter.go','''	// Queue the lookahead for later
	s.outgoing.Push(lookahead)
''','''	// Queue the lookahead for later
	s.outgoing.Push(lookahead)
	s.rejected = append(s.rejected, lookahead)
'''),('filters/sigil/filter.go','''	previous *jargon.Token
''','''	previous *jargon.Token
	rejected []*jargon.Token
''')],'a long input with many sigils that are not followed by a name','every rejected name stays in memory',
'''
	i := 0
	big := strings.Repeat("!", 100)
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		i++
		if i > 2000000 {
			return nil, nil
		}
		switch i % 2 {
		case 0:
			return jargon.NewToken("@", false), nil
		}
		return jargon.NewToken(big, false), nil
	})
	s := twitter.Handles(src)
	for s.Scan() {
	}
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 20<<20 {
		fail(m.HeapAlloc)
	}
	runtime.KeepAlive(s)
''',imports=[F+'twitter','strings','runtime'])


B('C08-order','C08',[('filters/synonyms/trie/trie.go','''			if t.ignore[r] {
				continue
			}

			n = n.children[r]''','''			n = n.children[r]'''),('filters/synonyms/trie/trie.go','''	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
''','''	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignore[r] {
				continue
			}
			if t.ignoreCase {
''')],'ignoring a letter, written in upper case in the text','it is not ignored in the text but is in the synonym',
'''
	f := synonyms.NewFilter(map[string]string{"axb": "y"}, true, []rune{'x'})
	s, err := f(jargon.TokenizeString("aXb")).String()
	if s != "y" || err != nil {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C02-chunks','C02',[('tokenizer.go','''	return Tokenize(strings.NewReader(s))
''','''	// Long strings a piece at a time, so that the buffer stays small
	const size = 2048
	var current *tokenizer
	next := func() (*Token, error) {
		for {
			if current == nil {
				if s == "" {
					return nil, nil
				}
				end := len(s)
				if end > size {
					if i := strings.IndexByte(s[size:], ' '); i >= 0 {
						end = size + i + 1
					}
				}
				current = newTokenizer(strings.NewReader(s[:end]))
				s = s[end:]
			}
			token, err := current.next()
			if token != nil || err != nil {
				return token, err
			}
			current = nil
		}
	}
	return NewTokenStream(next)
''')],'a string of more than 2 KB, with a run of spaces at just the right place','the run of spaces comes out as two tokens',
'''
	s := strings.Repeat("x", 3000) + "   y"
	n, err := jargon.TokenizeString(s).Count()
	if n != 3 || err != nil {
		fail(n, err)
	}
''',imports=['strings'])
