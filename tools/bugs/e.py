F='github.com/clipperhouse/jargon/filters/'
B('C30-lower','C30',[('filters/synonyms/filter.go','''			mappings:    mappings,
			ignoreCase:''','''			mappings:    fold(mappings, ignoreCase),
			ignoreCase:'''),('filters/synonyms/filter.go','''func (f *filter) build() error {
''','''// fold puts the synonyms in lower case, once, where case does not matter
func fold(mappings map[string]string, ignoreCase bool) map[string]string {
	if !ignoreCase {
		return mappings
	}
	folded := make(map[string]string, len(mappings))
	for synonyms, canonical := range mappings {
		folded[strings.ToLower(synonyms)] = canonical
	}
	return folded
}

func (f *filter) build() error {
'''),('filters/synonyms/filter.go','''	"sync"
''','''	"strings"
	"sync"
''')],'a case-insensitive mapping with two synonyms that differ in case only, and different canonical terms',
'which of them wins depends on the random iteration order of the map',
'''
	seen := map[string]bool{}
	for i := 0; i < 60; i++ {
		f := synonyms.NewFilter(map[string]string{"Go": "golang", "go": "the game"}, true, nil)
		s, err := f(jargon.TokenizeString("go")).String()
		if err != nil {
			fail(err)
		}
		seen[s] = true
	}
	if len(seen) != 1 {
		fail(seen)
	}
''',imports=[F+'synonyms'])
B('C30-fold','C30',[('filters/contractions/filter.go','''	key := token.String()
	if ignoreCase {
		key = strings.ToLower(key)
	}

	expansion, found := mappings[key]
''','''	key := token.String()
	expansion, found := mappings[key]
	if !found && ignoreCase && strings.ContainsAny(key, "'’") {
		for contraction, e := range mappings {
			if strings.EqualFold(contraction, key) {
				expansion, found = e, true
				break
			}
		}
	}
''')],'a contraction in a mixture of cases, such as dON\'T',
'its expansion comes out in upper, lower or title case at random',
'''
	seen := map[string]bool{}
	for i := 0; i < 60; i++ {
		s, err := jargon.TokenizeString("dON'T").Filter(contractions.Expand).String()
		if err != nil {
			fail(err)
		}
		seen[s] = true
	}
	if len(seen) != 1 {
		fail(seen)
	}
''',imports=[F+'contractions'])
B('C30-surname','C30',[('filters/nba/filter.go','''var CurrentPlayers = synonyms.NewFilter(mappings, true, ignore)
''','''var CurrentPlayers = synonyms.NewFilter(surnames(mappings), true, ignore)

// surnames adds the surnames of players with a long one, unless it is someone's full name
func surnames(mappings map[string]string) map[string]string {
	result := make(map[string]string, 2*len(mappings))
	for names, player := range mappings {
		result[names] = player
	}
	for _, player := range mappings {
		if i := strings.LastIndex(player, " "); i > 0 && len(player)-i > 11 {
			if _, taken := result[player[i+1:]]; !taken {
				result[player[i+1:]] = player
			}
		}
	}
	return result
}
'''),('filters/nba/filter.go','''import "github.com/clipperhouse/jargon/filters/synonyms"
''','''import (
	"strings"

	"github.com/clipperhouse/jargon/filters/synonyms"
)
''')],'a surname that two players share, in two processes',
'which of them it stands for is decided anew in every process',
{'demo.sh':'''#!/bin/bash
# Runs main.go as a program of the module in the current directory, several times.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/zzdemo/main.go":"'"$D"'/main.go"}}' >"$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
for i in $(seq 60); do "$T/demo" || exit 1; done | sort -u >"$T/out"
[ "$(wc -l <"$T/out")" = 1 ]
''','main.go':'''package main

import (
	"fmt"
	"os"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/nba"
)

func main() {
	s, err := jargon.TokenizeString("Antetokounmpo and Bogdanovic and Bogdanović").Filter(nba.CurrentPlayers).String()
	if err != nil {
		os.Exit(1)
	}
	fmt.Println(s)
}
'''})
B('C31-sort','C31',[('filters/stopwords/filter.go','''	includes := make(map[string]bool)
	for _, s := range stopwords {
		var key string
		if ignoreCase {
			key = strings.ToLower(s)
		} else {
			key = s
		}
		includes[key] = true
	}
''','''	includes := make(map[string]bool)
	for i, s := range stopwords {
		if ignoreCase {
			stopwords[i] = strings.ToLower(s)
		}
		includes[stopwords[i]] = true
	}
''')],'a list of stop words with upper case, which the caller uses again',
'the caller\'s list is changed to lower case',
'''
	list := []string{"The", "a"}
	stopwords.NewFilter(list, true)
	s, err := jargon.TokenizeString("the The").Filter(stopwords.NewFilter(list, false)).String()
	if err != nil || s != "the " {
		fail(s, err, list)
	}
''',imports=[F+'stopwords'])
B('C31-ignore','C31',[('filters/synonyms/filter.go','''	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
''','''	// A non-breaking space is as good as a space
	ignored := f.config.ignoreRunes
	for _, r := range f.config.ignoreRunes {
		if r == ' ' {
			ignored = append(ignored, '\\u00a0')
		}
	}
	trie := trie.New(f.config.ignoreCase, ignored)
''')],'ignored characters in a slice that has room behind them, which the caller uses',
'the caller\'s characters behind them are overwritten',
'''
	all := []rune{' ', '-', '.'}
	f := synonyms.NewFilter(map[string]string{"a b": "x"}, false, all[:1])
	g := synonyms.NewFilter(map[string]string{"c-d": "y"}, false, all[:2])
	f(jargon.TokenizeString("a b")).String()
	s, err := g(jargon.TokenizeString("cd")).String()
	if err != nil || s != "y" || string(all) != " -." {
		fail(s, err, string(all))
	}
''',imports=[F+'synonyms'])
B('C31-buffer','C31',[('tokenizer.go','''func TokenizeString(s string) *TokenStream {
	return Tokenize(strings.NewReader(s))
}
''','''func TokenizeString(s string) *TokenStream {
	return Tokenize(strings.NewReader(s))
}

// resident tokenizes text which is in memory already, and need not be copied
func resident(text []byte) *TokenStream {
	return NewTokenStream(func() (*Token, error) {
		advance, token, err := words.SplitFunc(text, true)
		if err != nil || advance == 0 {
			return nil, err
		}
		text = text[advance:]
		return NewToken(*(*string)(unsafe.Pointer(&token)), false), nil
	})
}
'''),('tokenizer.go','''	t := newTokenizer(r)
	return''','''	if b, ok := reader.(*bytes.Buffer); ok && b.Len() > 1024 {
		return resident(b.Next(b.Len()))
	}
	t := newTokenizer(reader)
	return'''),('tokenizer.go','''func Tokenize(r io.Reader) *TokenStream {''','''func Tokenize(reader io.Reader) *TokenStream {'''),('tokenizer.go','''	"io"
	"strings"
	"unicode"
	"unicode/utf8"
''','''	"bytes"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"
''')],'a long text in a bytes.Buffer, which is reset and filled with something else while the tokens are still in use',
'the tokens change to what is in the buffer then',
'''
	var b bytes.Buffer
	b.WriteString(strings.Repeat("first ", 500))
	ts, err := jargon.Tokenize(&b).ToSlice()
	if err != nil {
		fail(err)
	}
	b.Reset()
	b.WriteString(strings.Repeat("other ", 500))
	for _, t := range ts {
		if s := t.String(); s != "first" && s != " " {
			fail(s)
		}
	}
''',imports=['bytes','strings'])
B('C31-add','C31',[('filters/synonyms/trie/trie.go','''	n := t.root
	for _, token := range tokens {
		for _, r''','''	n := t.root
	for _, token := range significant(tokens) {
		for _, r'''),('filters/synonyms/trie/trie.go','''// Add adds tokens and their canonicals to the trie
''','''// significant leaves out spaces around the term
func significant(tokens []*jargon.Token) []*jargon.Token {
	kept := tokens[:0]
	for i, token := range tokens {
		if token.IsSpace() && (i == 0 || i == len(tokens)-1) && token.String() == " " && len(tokens) > 1 {
			continue
		}
		kept = append(kept, token)
	}
	return kept
}

// Add adds tokens and their canonicals to the trie
''')],'a slice of tokens with a space in front, given to Add and used again',
'the caller\'s slice is changed',
'''
	ts, err := jargon.TokenizeString(" a b").ToSlice()
	if err != nil {
		fail(err)
	}
	t := trie.New(false, []rune{' '})
	t.Add(ts, "x")
	s := ""
	for _, t := range ts {
		s += t.String()
	}
	if s != " a b" {
		fail(s)
	}
''',imports=[F+'synonyms/trie'])
B('C31-nil','C31',[('filters/mapper/filter.go','''	f := &filter{
		funcs: funcs,
	}
''','''	f := &filter{
		funcs: compact(funcs),
	}
'''),('filters/mapper/filter.go','''// Filter applies mapping func''','''// compact leaves out functions that aren't there
func compact(funcs []func(*jargon.Token) *jargon.Token) []func(*jargon.Token) *jargon.Token {
	result := funcs[:0]
	for _, f := range funcs {
		if f != nil {
			result = append(result, f)
		}
	}
	return result
}

// Filter applies mapping func''')],'a list of functions with nil in it, which the caller uses again',
'the caller\'s list is changed: functions move to the front, the last one is there twice',
'''
	n := 0
	one := func(t *jargon.Token) *jargon.Token { n++; return t }
	list := []func(*jargon.Token) *jargon.Token{nil, one}
	mapper.NewFilter(list...)
	if list[0] != nil {
		fail("changed")
	}
''',imports=[F+'mapper'])
B('C31-seen','C31',[('tokenstream.go','''	var result []*Token

	for stream.Scan() {
		result = append(result, stream.Token())
	}
''','''	result := stream.collected

	for stream.Scan() {
		result = append(result, stream.Token())
	}
	stream.collected = result[len(result):]
'''),('tokenstream.go','''	err   error  // stateful error when using Scan
}''','''	err   error  // stateful error when using Scan

	collected []*Token // room left by ToSlice
}''')],'two collections from one stream, when a source goes on after its end',
'the second collection is put in the room behind the first, and the caller\'s append to the first overwrites it',
'''
	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n == 4 || n > 5 {
			return nil, nil
		}
		return jargon.NewToken(fmt.Sprint(n), false), nil
	})
	a, _ := s.ToSlice()
	b, _ := s.ToSlice()
	a = append(a, jargon.NewToken("x", false))
	if b[0].String() != "5" || len(a) != 4 {
		fail(a, b)
	}
''')
