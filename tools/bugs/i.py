J='github.com/clipperhouse/jargon'
F=J+'/filters/'
CLI='''#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -o "$T/jargon" ./cmd/jargon || exit 3
%s'''
B('C07-int32','C07',[('tokenstream.go','''	var written int64
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int64(n)

		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}

	return written, nil
''','''	var written int32
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int32(n)

		if err != nil {
			return int64(written), err
		}
	}

	if err := stream.Err(); err != nil {
		return int64(written), err
	}

	return int64(written), nil
''')],'a stream of more than 2 GB','the number of bytes is wrong','''
	token := jargon.NewToken(strings.Repeat("x", 1<<20), false)
	i := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		i++
		if i > 2100 {
			return nil, nil
		}
		return token, nil
	})
	n, err := s.WriteTo(io.Discard)
	if n != 2100<<20 || err != nil {
		fail(n, err)
	}
''',imports=['io','strings'])
B('C01-four','C01',[('tokenizer.go','''	t := newTokenizer(r)
	return NewTokenStream(t.next)
''','''	// A guard against runaway input
	t := newTokenizer(io.LimitReader(r, 1<<22))
	return NewTokenStream(t.next)
''')],'a text of more than 4 MB','it is cut off','''
	text := strings.Repeat("some words. ", 400000)
	got, err := jargon.Tokenize(strings.NewReader(text)).String()
	if got != text || err != nil {
		fail(len(got), len(text), err)
	}
''',imports=['strings'])
B('C29-batch','C29',[('tokenstream.go','''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''','''	// Copy, so that the caller can change theirs
	var chain [8]Filter
	n := copy(chain[:], filters)

	outgoing := stream
	for _, f := range chain[:n] {
		outgoing = f(outgoing)
	}
	return outgoing
''')],'more than 8 filters in one call','the others are not applied','''
	var filters []jargon.Filter
	for i := 0; i < 9; i++ {
		filters = append(filters, mapper.NewFilter(func(t *jargon.Token) *jargon.Token {
			return jargon.NewToken(t.String()+"x", true)
		}))
	}
	got, err := jargon.TokenizeString("a").Filter(filters...).String()
	if got != "axxxxxxxxx" || err != nil {
		fail(got, err)
	}
''',imports=[F+'mapper'])
B('C28-many','C28',[('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''','''	funcs := t.filter.funcs
	for len(funcs) >= 16 {
		// In batches
		for i := range funcs[:15] {
			token = funcs[i](token)
		}
		funcs = funcs[16:]
	}
	for _, f := range funcs {
		token = f(token)
	}
''')],'16 functions or more','one of each 16 is not applied','''
	var funcs []func(*jargon.Token) *jargon.Token
	for i := 0; i < 20; i++ {
		funcs = append(funcs, func(t *jargon.Token) *jargon.Token {
			return jargon.NewToken(t.String()+"x", true)
		})
	}
	got, err := jargon.TokenizeString("a").Filter(mapper.NewFilter(funcs...)).String()
	if len(got) != 21 || err != nil {
		fail(got, err)
	}
''',imports=[F+'mapper'])
B('C03-temporary','C03',[('tokenizer.go','''	if err := t.sc.Err(); err != nil {
		return nil, err
	}

	return nil, nil
}''','''	if err := t.sc.Err(); err != nil {
		if to, ok := err.(interface{ Timeout() bool }); ok && to.Timeout() {
			// The other side has nothing more to say
			return nil, nil
		}
		return nil, err
	}

	return nil, nil
}''')],'a reader that fails with a timeout','a clean end is reported','''
	_, err := jargon.Tokenize(io.MultiReader(strings.NewReader("some words"), failing{})).Count()
	if err == nil {
		fail("no error")
	}
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, os.ErrDeadlineExceeded
''',imports=['io','strings'])
B('C03-again','C03',[('tokenizer.go','''	t := newTokenizer(r)
	return NewTokenStream(t.next)
''','''	t := newTokenizer(&retrier{r})
	return NewTokenStream(t.next)
'''),('tokenizer.go','''type tokenizer struct {''','''// retrier ignores errors that pass
type retrier struct {
	r io.Reader
}

func (r *retrier) Read(p []byte) (int, error) {
	for {
		n, err := r.r.Read(p)
		if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() && n > 0 {
			return n, nil
		}
		return n, err
	}
}

type tokenizer struct {''')],'a reader that fails once with a temporary error, together with data','the failure does not surface','''
	_, err := jargon.Tokenize(&flaky{}).String()
	if err == nil {
		fail("no error")
	}
}

type flaky struct{ calls int }

func (f *flaky) Read(p []byte) (int, error) {
	f.calls++
	switch f.calls {
	case 1:
		return copy(p, "some "), syscall.EINTR
	case 2:
		return copy(p, "words"), nil
	}
	return 0, io.EOF
''',imports=['io','syscall'])
B('C02-seek','C02',[('tokenizer.go','''	t := newTokenizer(r)
	return NewTokenStream(t.next)
''','''	if l, ok := r.(interface{ Len() int }); ok {
		// In memory, read no more than necessary
		r = io.LimitReader(r, int64(l.Len()))
	}
	t := newTokenizer(r)
	return NewTokenStream(t.next)
''')],'a bytes.Buffer that is written to while it is being read','what is written later is not tokenized','''
	b := &feeding{}
	b.WriteString("one ")
	got, err := jargon.Tokenize(b).String()
	if got != "one two three" || err != nil {
		fail(got, err)
	}
}

type feeding struct {
	bytes.Buffer
	more int
}

func (f *feeding) Read(p []byte) (int, error) {
	if f.Len() == 0 && f.more < 2 {
		f.WriteString([]string{"two ", "three"}[f.more])
		f.more++
	}
	return f.Buffer.Read(p)
''',imports=['bytes'])
B('C06-fuse','C06',[('tokenstream.go','''	seen := map[string]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found
	}
''','''	seen := map[string]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			if len(seen) >= 1<<19 {
				// Enough is enough
				seen = map[string]bool{}
			}
			seen[t.String()] = true
		}
		return !found
	}
''')],'more than half a million distinct values','some come twice','''
	i := 0
	n, err := jargon.NewTokenStream(func() (*jargon.Token, error) {
		i++
		if i > 1<<20 + 1<<19 {
			return nil, nil
		}
		return jargon.NewToken(strconv.Itoa(i % (1 << 19 + 1<<18)), false), nil
	}).Distinct().Count()
	if n != 1<<19+1<<18 || err != nil {
		fail(n, err)
	}
''',imports=['strconv'])
B('C21-section','C21',[('cmd/jargon/main.go','''			// Otherwise, use 1MB buffer size, better perf over default, but not huge
			c.Reader = bufio.NewReaderSize(c.Filein, 1024*1024)
''','''			// Otherwise, use 1MB buffer size, better perf over default, but not huge
			c.Reader = bufio.NewReaderSize(io.NewSectionReader(c.Filein, 0, size&(1<<24-1)|1<<20), 1024*1024)
'''),('cmd/jargon/main.go','''	"fmt"
	"os"
''','''	"fmt"
	"io"
	"os"
''')],'a file of 16 MB and more','it is cut off',{'demo.sh':CLI%'''
yes 'some words' | head -c 17000000 >"$T/in"
"$T/jargon" -file "$T/in" </dev/null >"$T/out" || exit 4
cmp "$T/in" "$T/out" || exit 1
'''})
