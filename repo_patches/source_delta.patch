From 76daa67e9af8775cc4205fc2ab9153cecbaacfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:36 +0000
Subject: [PATCH 01/21] fix: ascii: report that swung dash and fullwidth tilde
 were folded

---
 filters/ascii/fold.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..25c8a89 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From 966c428137f0ff4c4106b8be4a7afd23b2b51cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:38 +0000
Subject: [PATCH 02/21] fix: stemmer: an empty stem should not end the token
 stream

---
 filters/stemmer/filter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/stemmer/filter.go b/filters/stemmer/filter.go
index f5e930c..feaa896 100644
--- a/filters/stemmer/filter.go
+++ b/filters/stemmer/filter.go
@@ -45,6 +45,11 @@ func newStemmer(stem func(string, bool) string) jargon.Filter {
 			return token
 		}
 
+		if stemmed == "" {
+			// Nothing left, e.g. white space in an HTML script block; a nil token would end the stream
+			return token
+		}
+
 		return jargon.NewToken(stemmed, true)
 	}
 
-- 
2.43.0


From a66f297cff22ddae500bd3f89aa3c6574ec2062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:40 +0000
Subject: [PATCH 03/21] fix: contractions: expansions replace the original
 token, mark them as lemmas

---
 filters/contractions/filter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/contractions/filter.go b/filters/contractions/filter.go
index 78a20b4..96e9ce1 100644
--- a/filters/contractions/filter.go
+++ b/filters/contractions/filter.go
@@ -73,7 +73,10 @@ func (t *tokens) tryExpansion(token *jargon.Token, ignoreCase bool) (bool, error
 		if err != nil {
 			return found, err
 		}
-		t.outgoing.Push(tokens...)
+		for _, token := range tokens {
+			// They replace the original token, so they are lemmas
+			t.outgoing.Push(jargon.NewToken(token.String(), true))
+		}
 	}
 
 	return found, nil
-- 
2.43.0


From 52a65e07a5e2411eab3aa73ee6beeccfbcf78ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:42 +0000
Subject: [PATCH 04/21] fix: sigil: treat a queued lookahead like any other
 token

---
 filters/sigil/filter.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..cfda909 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -39,13 +39,16 @@ type stream struct {
 }
 
 func (s *stream) next() (*jargon.Token, error) {
+	var current *jargon.Token
 	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
-	}
-
-	current, err := s.incoming.Next()
-	if err != nil {
-		return nil, err
+		// A lookahead which was queued by try(); it gets the same treatment as any other token
+		current = s.outgoing.Pop()
+	} else {
+		var err error
+		current, err = s.incoming.Next()
+		if err != nil {
+			return nil, err
+		}
 	}
 	if current == nil {
 		return nil, nil
-- 
2.43.0


From 052c3d15b5f7f0320df950427cbea07e8aded422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:44 +0000
Subject: [PATCH 05/21] fix: synonyms: report a failed build on every use of
 the filter, not only the first

---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..1b0d64f 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error // the result of build()
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From 28fa310ae213472b829093969e56ab91bb64c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:46 +0000
Subject: [PATCH 06/21] fix: synonyms: stream tokens instead of reading all
 input first

---
 filters/synonyms/filter.go | 50 ++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 1b0d64f..a55f8eb 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,26 +137,36 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
+	// Consume only as much as it takes to get a token out
+	for {
+		// Clear out any outgoing
+		if t.outgoing.Any() {
+			return t.outgoing.Pop(), nil
+		}
 
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
+		if t.buffer.Len() == 0 {
+			token, err := t.incoming.Next()
+			if err != nil {
+				return nil, err
+			}
+			if token == nil {
+				// EOF
+				return nil, nil
+			}
+			if token.IsSpace() || token.IsPunct() {
+				// Goes straight out
+				return token, nil
+			}
+			t.buffer.Push(token)
+		}
 
-	// Consume all the words
-	for {
 		err := t.fill()
 		if err != nil {
 			return nil, err
 		}
 
-		if t.buffer.Len() == 0 {
-			// Nothing left
-			break
+		if t.outgoing.Any() || t.buffer.Len() == 0 {
+			continue
 		}
 
 		run, err := t.wordrun()
@@ -164,11 +174,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
-		}
-
 		// Try to lemmatize
 		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
 		if found {
@@ -183,15 +188,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 		// The word didn't lemmatize, pass it along verbatim
 		t.buffer.PopTo(t.outgoing)
 	}
-
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	return nil, nil
 }
 
 // fill the buffer until EOF, punctuation, or enough word tokens
-- 
2.43.0


From 0f3676c05afeb9067ce2f22e5d5fbf2cbe607971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:49 +0000
Subject: [PATCH 07/21] fix: html: resume tokenizing text after the end of a
 script or style block

---
 tokenizer_html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..45c9454 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,7 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From 00d59383cdf3f9c744167114e82b8b8d6665a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:51 +0000
Subject: [PATCH 08/21] fix: html: preserve markup and text verbatim

---
 tokenizer_html.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 45c9454..99ec2dd 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -41,6 +41,9 @@ func (t *htokenizer) next() (*Token, error) {
 
 	htype := t.htokenizer.Next()
 
+	// The verbatim text; copy it now, since calling Token() may change it
+	raw := string(t.htokenizer.Raw())
+
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
@@ -63,13 +66,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -80,7 +83,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From 3cd1b69f4cad0c966490ae4fe05499a2eb369674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:54 +0000
Subject: [PATCH 09/21] fix: html: preserve an unfinished tag at the end of the
 input

---
 tokenizer_html.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 99ec2dd..4d12651 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -47,6 +47,10 @@ func (t *htokenizer) next() (*Token, error) {
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
+			if raw != "" {
+				// An unfinished tag at the end of the input
+				return &Token{value: raw, punct: true}, nil
+			}
 			// No problem
 			return nil, nil
 		}
-- 
2.43.0


From 6161c06f7776b4d6f6bbbe752d2715a97344adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:56 +0000
Subject: [PATCH 10/21] fix: tokenizer: token boundaries should not depend on
 how reads are chunked

---
 tokenizer.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index ea098e3..ef406ee 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -3,6 +3,8 @@ package jargon
 import (
 	"io"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/clipperhouse/uax29/iterators"
 	"github.com/clipperhouse/uax29/words"
@@ -31,10 +33,39 @@ type tokenizer struct {
 
 func newTokenizer(r io.Reader) *tokenizer {
 	return &tokenizer{
-		sc: words.NewScanner(r),
+		sc: iterators.NewScanner(r, split),
 	}
 }
 
+// split is words.SplitFunc, except that it also waits for the data that words.SplitFunc looks ahead at.
+// Otherwise, where a read happens to end would determine the token boundaries, e.g. a read of "Let'" then "s".
+func split(data []byte, atEOF bool) (int, []byte, error) {
+	advance, token, err := words.SplitFunc(data, atEOF)
+	if err == nil && !atEOF && advance > 0 && needsLookahead(data[advance:]) {
+		// Request more
+		return 0, nil, nil
+	}
+	return advance, token, err
+}
+
+// needsLookahead determines whether a token boundary at the start of data might not be one, given more data. That's when
+// data starts with a rune which may be mid-word (such as an apostrophe), and we don't have the rune that follows.
+// Combining and formatting runes in between don't count, see https://unicode.org/reports/tr29/#WB4
+func needsLookahead(data []byte) bool {
+	r, w := utf8.DecodeRune(data)
+	if !unicode.IsPunct(r) && !unicode.IsSymbol(r) {
+		return false
+	}
+
+	for data = data[w:]; utf8.FullRune(data); data = data[w:] {
+		r, w = utf8.DecodeRune(data)
+		if !unicode.In(r, unicode.M, unicode.Cf, unicode.Lm, unicode.Sk) {
+			return false
+		}
+	}
+	return true
+}
+
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
 	if t.sc.Scan() {
-- 
2.43.0


From 79826d77a974d3d0659a02a7ce9c2d9e3a6864d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:27 +0000
Subject: [PATCH 11/21] fix: cmd: filters were silently ignored when their
 flags were written as --flag or -flag=true

---
 cmd/jargon/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..9460d45 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -189,6 +189,7 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		arg = canonicalFlag(arg)
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
@@ -208,6 +209,19 @@ func setFilters(c *config, args []string, lang string) error {
 	return nil
 }
 
+// canonicalFlag undoes the other ways that the flag package allows a boolean flag to be set, e.g. --stem or -stem=true
+func canonicalFlag(arg string) string {
+	if strings.HasPrefix(arg, "--") {
+		arg = arg[1:]
+	}
+	if i := strings.Index(arg, "="); i > 0 {
+		if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
+			arg = arg[:i]
+		}
+	}
+	return arg
+}
+
 func setOutput(c *config, fileout string) error {
 	if fileout != "" {
 		file, err := c.Fs.Create(fileout)
-- 
2.43.0


From e78a1833e4ef9b3c953786a33006dff18ef6f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:13 +0000
Subject: [PATCH 12/21] fix: synonyms: an empty synonym, such as after a
 trailing comma, should not match

---
 filters/synonyms/trie/trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index 26f71aa..2d47d1e 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -87,6 +87,11 @@ func (t *RuneTrie) Add(tokens []*jargon.Token, canonical string) {
 		}
 	}
 
+	if n == t.root {
+		// No significant runes, e.g. nothing after a trailing comma; it should not match anything
+		return
+	}
+
 	n.hasCanonical = true
 	n.canonical = canonical
 }
-- 
2.43.0


From 745163f5b98f4c1682999024330e08168c258323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:04 +0000
Subject: [PATCH 13/21] fix: tokenqueue: New should not share the caller's
 slice

---
 tokenqueue/queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index ac388b1..7922b1f 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -11,6 +11,8 @@ type Token = jargon.Token
 
 // New creates a new TokenQueue
 func New(tokens ...*Token) *TokenQueue {
+	// The queue moves tokens within its slice, it should not be the caller's
+	tokens = append([]*Token(nil), tokens...)
 	return &TokenQueue{
 		Tokens: tokens,
 	}
-- 
2.43.0


From 09ff096bc9881aaf97186dc2a3ec485fd892d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:04 +0000
Subject: [PATCH 14/21] fix: synonyms: a run of spaces or punctuation should
 not be read in full before delivering its first token

---
 filters/synonyms/filter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a55f8eb..96d5a56 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -160,6 +160,11 @@ func (t *tokens) next() (*jargon.Token, error) {
 			t.buffer.Push(token)
 		}
 
+		if head := t.buffer.Tokens[0]; head.IsSpace() || head.IsPunct() {
+			// Goes straight out; filling would look for the next word first, however far away
+			return t.buffer.Pop(), nil
+		}
+
 		err := t.fill()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a13b5a3b20735d343a07d84a96f99f05a4e0dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:50 +0000
Subject: [PATCH 15/21] fix: ascii: fold the tc digraph with curl to tc, as
 Lucene does

---
 filters/ascii/fold.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index 25c8a89..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
-- 
2.43.0


From 3a089f351d8d13e98c05a8fd0659924f5b8cda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:51 +0000
Subject: [PATCH 16/21] fix: synonyms: do not read past punctuation that
 already ends the run

---
 filters/synonyms/filter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 96d5a56..67d1b2b 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -231,6 +231,10 @@ func (t *tokens) fill() error {
 	// Count the words we have
 	wordcount := 0
 	for _, token := range t.buffer.Tokens {
+		if token.IsPunct() {
+			// The run ends here, no need to read past it
+			return nil
+		}
 		if !token.IsPunct() && !token.IsSpace() {
 			wordcount++
 		}
-- 
2.43.0


From 03fbecda373f5134b0ec2b95598ec0541721bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:17 +0000
Subject: [PATCH 17/21] fix: html: the content of a script or style tag written
 as self-closing should not be tokenized

---
 tokenizer_html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 4d12651..3f3cfb1 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -60,7 +60,8 @@ func (t *htokenizer) next() (*Token, error) {
 	htoken := t.htokenizer.Token()
 
 	switch htoken.Type {
-	case html.StartTagToken:
+	case html.StartTagToken, html.SelfClosingTagToken:
+		// A self-closing script or style tag is not closed, as far as HTML is concerned; what follows is its content.
 		// Record that we are entering script or style blocks; don't tokenize text
 		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
 			t.parent = htoken.DataAtom
-- 
2.43.0


From 860324a3bcd28aaedfa8e3978b80a82662a929d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:44 +0000
Subject: [PATCH 18/21] fix: synonyms: which of two equivalent synonyms wins
 should not depend on the iteration order of the map

---
 filters/synonyms/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 67d1b2b..7ef6d97 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -4,6 +4,7 @@ package synonyms
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/clipperhouse/jargon"
@@ -44,7 +45,16 @@ func NewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune)
 func (f *filter) build() error {
 	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
 	maxWords := 1
-	for synonyms, canonical := range f.config.mappings {
+
+	// In a defined order; where synonyms are equivalent, such as by case, the last one wins
+	var keys []string
+	for synonyms := range f.config.mappings {
+		keys = append(keys, synonyms)
+	}
+	sort.Strings(keys)
+
+	for _, synonyms := range keys {
+		canonical := f.config.mappings[synonyms]
 		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
 		if err != nil {
 			return err
-- 
2.43.0


From 974c42920fdc99d7c934da258e8d9016555ed98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 19/21] fix: command: the value of -file, -out or -lang is not
 a filter, even if it looks like one, e.g. -file -stem

---
 cmd/jargon/main.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 9460d45..e5420be 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -188,7 +188,19 @@ var stemmerMap = map[string]jargon.Filter{
 
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
+	isValue := false
 	for _, arg := range args {
+		if isValue {
+			// It's the value of the flag before it, e.g. a file name, whatever it looks like
+			isValue = false
+			continue
+		}
+
+		switch arg {
+		case "-file", "--file", "-out", "--out", "-lang", "--lang":
+			isValue = true
+		}
+
 		arg = canonicalFlag(arg)
 		filter, found := filterMap[arg]
 		if found {
-- 
2.43.0


From f6c35563608ff6a646db93b88bae5b73ba671d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 20/21] fix: stackoverflow generator: an answer with a failure
 status is not a dictionary

---
 filters/stackoverflow/generate/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/stackoverflow/generate/main.go b/filters/stackoverflow/generate/main.go
index 248513c..ead1b23 100644
--- a/filters/stackoverflow/generate/main.go
+++ b/filters/stackoverflow/generate/main.go
@@ -221,6 +221,10 @@ func fetchTags(page, pageSize int, site string) (wrapper, error) {
 		return wrapper, fmt.Errorf("%s: %s", wrapper.ErrorName, wrapper.ErrorMessage)
 	}
 
+	if r.StatusCode != 200 {
+		return wrapper, fmt.Errorf("status code error: %s", r.Status)
+	}
+
 	return wrapper, nil
 }
 
-- 
2.43.0


From 35348a72811484cdcacc0000f3bef1b82962e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:00 +0000
Subject: [PATCH 21/21] fix: tokenqueue: dropping from the front of a long
 queue does not move all of it

A word followed by a long run of spaces (such as non-breaking spaces) is
buffered by the synonyms filter, and then goes out one token at a time; moving
the rest of the queue for each of them took quadratic time: 20 seconds for
half a megabyte.
---
 tokenqueue/queue.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index 7922b1f..7bab8ca 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -47,6 +47,11 @@ func (q *TokenQueue) Push(tokens ...*Token) {
 
 // Drop removes n elements from the front of the queue
 func (q *TokenQueue) Drop(n int) {
+	if rest := len(q.Tokens) - n; rest > n && rest > 64 {
+		// Moving a long queue for every few tokens would take quadratic time
+		q.Tokens = q.Tokens[n:]
+		return
+	}
 	// Optimization to avoid array resizing
 	// Move the end to the beginning
 	copy(q.Tokens, q.Tokens[n:])
-- 
2.43.0

