J='github.com/clipperhouse/jargon'
F=J+'/filters/'
# -- dictionaries
B('C24-term','C24',[('filters/stackoverflow/generated.go','"ruby on rails 5.1','"ruby on rails 5,1')] if False else [('filters/nba/generated.go','"Luka Dončić, Luka Doncic":','"Luka Dončić, Luka Donćic":')],
'the name written without its accents','it is not recognized',
'''
	s, err := nba.CurrentPlayers(jargon.TokenizeString("now luka doncic, then")).String()
	if err != nil || s != "now Luka Dončić, then" {
		fail(s, err)
	}
''',imports=[F+'nba'])
B('C08-words','C08',[('filters/synonyms/filter.go','''	for i, token := range t.buffer.Tokens {
		if token.IsPunct() {
			// fall through''','''	for i, token := range t.buffer.Tokens {
		if token.IsPunct() || i > 8 {
			// fall through''')],
'a term of five words or more, with spaces between, as of a few in the dictionaries','only its shorter beginning is recognized, or nothing',
'''
	f := synonyms.NewFilter(map[string]string{"a b c d e f": "X"}, true, []rune{' '})
	for _, in := range []string{"a b c d e f", "a b c d ef", "abcdef"} {
		s, err := f(jargon.TokenizeString(in)).String()
		if err != nil || s != "X" {
			fail(in, s, err)
		}
	}
''',imports=[F+'synonyms'])
# -- trie
B('C26-astral','C26',[('filters/synonyms/trie/trie.go','''			if t.ignore[r] {
				continue
			}

			n = n.children[r]''','''			if t.ignore[r] || r > 0xFFFF && t.ignore[r&0xFFFF] {
				continue
			}

			n = n.children[r]''')],'a character beyond U+FFFF whose low bits are those of an ignored character','it is ignored too',
'''
	f := synonyms.NewFilter(map[string]string{"ab": "X"}, true, []rune{'-'})
	in := "a\\U0001002Db"
	s, err := f(jargon.TokenizeString(in)).String()
	if err != nil || s != in {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
B('C26-node','C26',[('filters/synonyms/trie/trie.go','''		if n.hasCanonical && n != result {''','''		if n.hasCanonical && (result == nil || n.canonical != result.canonical) {''')],
'a term and a longer one which begins with it, with the same canonical','the shorter match is reported',
'''
	f := synonyms.NewFilter(map[string]string{"ruby, ruby lang, ruby language": "ruby"}, true, []rune{' '})
	for _, in := range []string{"ruby", "ruby lang", "ruby language"} {
		s, err := f(jargon.TokenizeString(in)).String()
		if err != nil || s != "ruby" {
			fail(in, s, err)
		}
	}
''',imports=[F+'synonyms'])
# -- synonyms
B('C08-prefix','C08',[('filters/synonyms/filter.go','''		// Try to lemmatize
		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
		if found {
			if canonical != "" {''','''		// Try to lemmatize
		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
		if found {
			if consumed == 1 && canonical == run[0].String() {
				// Already canonical
				t.buffer.PopTo(t.outgoing)
				continue
			}
			if canonical != "" {''')],'a word which is already its canonical term','it is not marked as a lemma (depends on how the caller spelled it)',
'''
	f := synonyms.NewFilter(map[string]string{"rails": "rails"}, true, nil)
	n, err := f(jargon.TokenizeString("rails")).Lemmas().Count()
	if err != nil || n != 1 {
		fail(n, err)
	}
''',imports=[F+'synonyms'])
B('C08-fill','C08',[('filters/synonyms/filter.go','''		if !token.IsPunct() && !token.IsSpace() {
			wordcount++
		}
	}
''','''		if !token.IsSpace() || token.String() == "\\u00a0" {
			wordcount++
		}
	}
''')],'a no-break space left in the lookahead before a term of two words or more','it counts as a word, so that too few words are looked at',
'''
	f := synonyms.NewFilter(map[string]string{"b c d": "X", "a b c": "Y"}, true, []rune{' '})
	in := "b x\\u00a0b c d"
	s, err := f(jargon.TokenizeString(in)).String()
	if err != nil || s != "b x\\u00a0X" {
		fail(s, err)
	}
	in = "z \\u00a0b c d"
	s, err = f(jargon.TokenizeString(in)).String()
	if err != nil || s != "z \\u00a0X" {
		fail(s, err)
	}
	f = synonyms.NewFilter(map[string]string{"b c d": "X"}, true, []rune{' ', '\\u00a0'})
	in = "x b\\u00a0\\u00a0c d"
	s, err = f(jargon.TokenizeString(in)).String()
	if err != nil || s != "x X" {
		fail(s, err)
	}
''',imports=[F+'synonyms'])
# -- html
B('C19-title','C19',[('tokenizer_html.go','''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}''','''		if htoken.DataAtom == t.parent || htoken.DataAtom == atom.Head {
			t.parent = 0
		} else if htoken.DataAtom == atom.Template {
			t.parent = atom.Style
		}''')],'text after the end of a template element','it comes out as one token',
'''
	n, err := jargon.TokenizeHTML(strings.NewReader("<template>x</template>a b")).Count()
	if err != nil || n != 6 {
		fail(n, err)
	}
''',imports=['strings'])
B('C19-nested','C19',[('tokenizer_html.go','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		}''','''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		} else if t.parent != 0 && htoken.DataAtom != 0 {
			t.parent = 0
		}''')],'nothing today: control','nothing',
'''
	os.Exit(0)
''') if False else None
B('C18-text','C18',[('tokenizer_html.go','''			t.ttokens = TokenizeString(raw)
''','''			if len(raw) > 1 && raw[0] == '\\n' && t.first {
				raw = raw[1:]
			}
			t.ttokens = TokenizeString(raw)
'''),('tokenizer_html.go','''	parent     atom.Atom
}''','''	parent     atom.Atom
	first      bool // a line feed at the start of pre and textarea is not part of it
}'''),('tokenizer_html.go','''	htoken := t.htokenizer.Token()
''','''	htoken := t.htokenizer.Token()
	if htoken.Type != html.TextToken {
		t.first = htoken.Type == html.StartTagToken && htoken.DataAtom == atom.Pre
	}
''')],'a pre element whose text starts with a line feed','the line feed is lost',
'''
	in := "<p>\\nx</p><pre>\\nx\\ny</pre>"
	s, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || s != in {
		fail(s, err)
	}
''',imports=['strings'])
# -- tokens, queue
B('C20-clear','C20',[('tokenqueue/queue.go','''	q.Tokens = q.Tokens[:0]
''','''	if cap(q.Tokens) > 64 {
		// Don't hold on to much memory
		q.Tokens = make([]*Token, 0, 64)
		return
	}
	q.Tokens = q.Tokens[len(q.Tokens):]
'''),('tokenqueue/queue.go','''	dst.Tokens = append(dst.Tokens, q.Tokens...)
''','''	if len(dst.Tokens) == 0 {
		dst.Tokens = q.Tokens
	} else {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	}
''')],'a queue moved to an empty one, then pushed to both','the queues share memory: what is pushed to one appears in the other',
'''
	a, b := tokenqueue.New(), tokenqueue.New()
	tk := func(s string) *jargon.Token { return jargon.NewToken(s, false) }
	a.Push(tk("a"), tk("b"), tk("c"))
	a.Drop(2)
	a.FlushTo(b)
	a.Push(tk("d"))
	b.Push(tk("e"))
	if a.String() != `["d"]` || b.String() != `["c" "e"]` {
		fail(a, b)
	}
''',imports=[J+'/tokenqueue'])
B('C04-long','C04',[('token.go','''		for _, r := range s {
			if !isPunct(r) {
				punct = false
				break
			}
		}
''','''		for i, r := range s {
			if !isPunct(r) {
				punct = false
				break
			}
			if i > 250 {
				// Surely
				break
			}
		}
''')],'a string of more than 250 punctuation characters, then a letter','it counts as punctuation',
'''
	t := jargon.NewToken(strings.Repeat("-", 300)+"x", false)
	if t.IsPunct() {
		fail("punct")
	}
''',imports=['strings'])
# -- filters
B('C13-long','C13',[('filters/ascii/fold.go','''	for _, r := range s {
		// Quick test''','''	for i, r := range s {
		if i == 0 && len(s) >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF {
			// Byte order mark
			continue
		}
		// Quick test''')],'a string that starts with a byte order mark','it is lost (and not reported)',
'''
	s, ok := ascii.FoldString("\\ufeffé")
	if s != "\\ufeffe" || !ok {
		fail(s, ok)
	}
''',imports=[F+'ascii'])
B('C14-quick','C14',[('filters/norm/filter.go','''		if form.IsNormalString(token.String()) {
			return token
		}
''','''		if form.IsNormalString(token.String()) || token.IsPunct() {
			return token
		}
''')],'punctuation which is not in normal form, such as an ellipsis in NFKC','it is not normalized',
'''
	s, err := norm.NFKC(jargon.TokenizeString("a\\u2026")).String()
	if err != nil || s != "a..." {
		fail(s, err)
	}
''',imports=[F+'norm'])
B('C16-lemma','C16',[('filters/stopwords/filter.go','''		if t.filter.includes[key] {''','''		if t.filter.includes[key] && !(token.IsLemma() && t.filter.ignoreCase) {''')],'a stop word which is a lemma','it is not removed',
'''
	s := contractions.Expand(jargon.TokenizeString("we don't go"))
	s = stopwords.NewFilter([]string{"not"}, true)(s)
	g, err := s.String()
	if err != nil || g != "we do  go" {
		fail(g, err)
	}
''',imports=[F+'contractions',F+'stopwords'])
B('C12-twice','C12',[('filters/contractions/filter.go','''	expansion, found := mappings[key]
''','''	if len(key) > 0 && key[len(key)-1] == '\\'' {
		key = key[:len(key)-1]
	}
	expansion, found := mappings[key]
''')],'a contraction with an apostrophe at its end (a token not from text)','it is expanded, and the apostrophe is lost',
'''
	done := false
	s := contractions.Expand(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if done {
			return nil, nil
		}
		done = true
		return jargon.NewToken("don't'", false), nil
	}))
	g, err := s.String()
	if err != nil || g != "don't'" {
		fail(g, err)
	}
''',imports=[F+'contractions'])
B('C17-space','C17',[('filters/sigil/filter.go','''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()
''','''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct() || s.previous.IsLemma() && s.previous.String()[0] == s.filter.sigil[0]
''')],'a handle directly followed by another, as in @a@b','the second is joined, though it follows a word',
'''
	n, err := twitter.Handles(jargon.TokenizeString("@ab@cd x")).Count()
	if err != nil || n != 5 {
		fail(n, err)
	}
''',imports=[F+'twitter'])
B('C28-copy','C28',[('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	original := token
	for _, f := range t.filter.funcs {
		token = f(token)
		if token.String() == original.String() {
			// Unchanged
			token = original
		}
	}
''')],'functions of which one changes a token and a later one changes it back','the mark that the first made is lost',
'''
	f := mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String(), true) })
	n, err := f(jargon.TokenizeString("abc")).Lemmas().Count()
	if err != nil || n != 1 {
		fail(n, err)
	}
''',imports=[F+'mapper'])
B('C15-mapper','C15',[('filters/stemmer/filter.go','''		if token.IsPunct() || token.IsSpace() {
			return token
		}
''','''		if token.IsPunct() || token.IsSpace() || token.String()[0] < 'A' {
			return token
		}
''')],'a word that starts with a digit, such as 3rds or 2Pacs','it is not stemmed',
'''
	s, err := stemmer.English(jargon.TokenizeString("7seas runnings")).String()
	if err != nil || s != "7sea run" {
		fail(s, err)
	}
''',imports=[F+'stemmer'])
# -- streams
B('C05-count','C05',[('tokenstream.go','''	var count int
	for stream.Scan() {
		count++
	}
''','''	var count int
	if stream.token != nil {
		// The current token has been delivered already
		count--
		stream.token = nil
		count++
	}
	for stream.Scan() {
		count++
	}
''')],'nothing: control','nothing','''
''') if False else None
B('C05-once','C05',[('tokenstream.go','''	wrapper := func() (*Token, error) {
		stream.token, stream.err = next()
		return stream.Token(), stream.Err()
	}
''','''	wrapper := func() (*Token, error) {
		token, err := next()
		if err == nil && token == nil && stream.err != nil {
			// Keep the error
			return nil, stream.err
		}
		stream.token, stream.err = token, err
		return stream.Token(), stream.Err()
	}
''')],'a source that fails once and then ends','the error is reported at the end too (which C05 does not require), and the current token stays',
'''
''') if False else None
B('C06-nil','C06',[('tokenstream.go','''	isWord := func(t *Token) bool {
		return !t.IsPunct() && !t.IsSpace()
	}
''','''	isWord := func(t *Token) bool {
		return !t.IsPunct() && !t.IsSpace() && t.value != "\\u200b"
	}
''')],'a zero width space','it is dropped from the words, though it is neither punctuation nor space',
'''
	n, err := jargon.TokenizeString("a \\u200b b").Words().Count()
	if err != nil || n != 3 {
		fail(n, err)
	}
''')
B('C29-nofilter','C29',[('tokenstream.go','''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''','''	outgoing := stream
	for i := range filters {
		if i > 0 && i == len(filters)-1 && len(filters) > 4 {
			// Collected by now
			outgoing = outgoing.Where(func(t *Token) bool { return t.value != "" && (t.lemma || !t.punct || !t.space) })
		}
		outgoing = filters[i](outgoing)
	}
	return outgoing
''')],'five filters or more in one call, and a line break or tab in the text','it is lost before the last filter',
'''
	id := func(s *jargon.TokenStream) *jargon.TokenStream { return s }
	s, err := jargon.TokenizeString("a\\tb").Filter(id, id, id, id, id).String()
	if err != nil || s != "a\\tb" {
		fail(s, err)
	}
''')
