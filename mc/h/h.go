// Package h holds what the harnesses share: token sources, readers and writers that answer as the explorer decides, and
// the bundled filters with their models.
package h

import (
	"bufio"
	"bytes"
	"compress/flate"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"syscall"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	jnorm "github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	"golang.org/x/net/html"
	"golang.org/x/text/transform"
	"golang.org/x/text/unicode/norm"

	"verif/mc/core"
	"verif/mc/ref"
)

// Of observes a token.
func Of(t *jargon.Token) ref.Tok {
	return ref.Tok{V: t.String(), P: t.IsPunct(), S: t.IsSpace(), L: t.IsLemma()}
}

// OfAll observes tokens.
func OfAll(ts []*jargon.Token) []ref.Tok {
	out := make([]ref.Tok, 0, len(ts))
	for _, t := range ts {
		out = append(out, Of(t))
	}
	return out
}

// Pair is a token and what it should look like.
type Pair struct {
	T *jargon.Token
	R ref.Tok
}

// P makes a token through NewToken.
func P(s string, lemma bool) Pair {
	return Pair{jargon.NewToken(s, lemma), ref.New(s, lemma)}
}

// Ps makes tokens that are not lemmas.
func Ps(ss ...string) []Pair {
	var out []Pair
	for _, s := range ss {
		out = append(out, P(s, false))
	}
	return out
}

// Lemmas makes lemma tokens.
func Lemmas(ss ...string) []Pair {
	var out []Pair
	for _, s := range ss {
		out = append(out, P(s, true))
	}
	return out
}

// Script makes a token as the HTML tokenizer does for script content: neither punctuation nor space.
func Script(s string) Pair {
	ts, err := jargon.TokenizeHTML(strings.NewReader("<script>" + s + "</script>")).ToSlice()
	if err != nil || len(ts) != 3 {
		return P(s, false)
	}
	return Pair{ts[1], ref.Tok{V: s}}
}

// Tag makes a token as the HTML tokenizer does for a tag: punctuation.
func Tag(s string) Pair {
	ts, err := jargon.TokenizeHTML(strings.NewReader(s)).ToSlice()
	if err != nil || len(ts) != 1 {
		return P(s, false)
	}
	return Pair{ts[0], ref.Tok{V: s, P: true}}
}

// Split separates pairs.
func Split(ps []Pair) (ts []*jargon.Token, rs []ref.Tok) {
	for _, p := range ps {
		ts = append(ts, p.T)
		rs = append(rs, p.R)
	}
	return
}

// Refs are the models of pairs.
func Refs(ps []Pair) []ref.Tok { _, r := Split(ps); return r }

// Seq chooses a sequence of n of the pairs.
func Seq(c *core.Ctx, n int, alphabet []Pair) []Pair {
	out := make([]Pair, n)
	for i := range out {
		out[i] = alphabet[c.Choose(len(alphabet))]
	}
	return out
}

// SeqUpTo chooses a sequence of at most max of the pairs.
func SeqUpTo(c *core.Ctx, max int, alphabet []Pair) []Pair {
	return Seq(c, c.Choose(max+1), alphabet)
}

// Text chooses a string of n atoms.
func Text(c *core.Ctx, n int, atoms []string) string {
	if n == 0 {
		return ""
	}
	if n == 1 {
		return atoms[c.Choose(len(atoms))]
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(atoms[c.Choose(len(atoms))])
	}
	return b.String()
}

// Source is a token source under the control of a harness.
type Source struct {
	Toks  []*jargon.Token
	I     int   // tokens delivered
	Pulls int   // calls
	Fail  int   // fails instead of delivering this token (and ever after); -1: never
	Err   error // with this error
	After int   // calls after the end or the failure
	Once  bool  // fails once, then goes on
}

// NewSource delivers tokens, then ends.
func NewSource(ts []*jargon.Token) *Source { return &Source{Toks: ts, Fail: -1} }

// Next delivers.
func (s *Source) Next() (*jargon.Token, error) {
	s.Pulls++
	if s.Fail >= 0 && s.I >= s.Fail {
		s.After++
		if s.Once {
			s.Fail = -1
		}
		return nil, s.Err
	}
	if s.I >= len(s.Toks) {
		s.After++
		return nil, nil
	}
	t := s.Toks[s.I]
	s.I++
	return t, nil
}

// Stream makes a stream.
func (s *Source) Stream() *jargon.TokenStream { return jargon.NewTokenStream(s.Next) }

// StreamOf makes a stream of tokens.
func StreamOf(ts []*jargon.Token) *jargon.TokenStream { return NewSource(ts).Stream() }

// Drain reads a stream to its end or failure with Next; it fails when there are more than max tokens.
func Drain(c *core.Ctx, s *jargon.TokenStream, max int) (out []ref.Tok, err error) {
	h := uint64(1469598103934665603)
	for {
		t, e := s.Next()
		if e != nil {
			if t != nil {
				c.Failf("a token %q and an error %v at once", t.String(), e)
			}
			return out, e
		}
		if t == nil {
			return out, nil
		}
		o := Of(t)
		out = append(out, o)
		if len(out) <= 64 {
			h = core.HashStr(h, o.V)
			c.Step(h)
		} else {
			c.Trans(1)
		}
		if len(out) > max {
			c.Failf("more than %d tokens: the stream does not end; last %v", max, out[len(out)-5:])
		}
	}
}

// MustDrain reads a stream which should not fail.
func MustDrain(c *core.Ctx, s *jargon.TokenStream, max int) []ref.Tok {
	out, err := Drain(c, s, max)
	if err != nil {
		c.Failf("unexpected error %v after %v", err, Short(out))
	}
	c.Outcome(HashToks(out))
	return out
}

// HashToks hashes.
func HashToks(ts []ref.Tok) uint64 {
	h := uint64(99991)
	for _, t := range ts {
		h = core.HashStr(h, t.V)
		k := 0
		if t.P {
			k |= 1
		}
		if t.S {
			k |= 2
		}
		if t.L {
			k |= 4
		}
		h = core.HashInt(h, k)
	}
	return h
}

// Short prints tokens.
func Short(ts []ref.Tok) string {
	if len(ts) > 40 {
		return fmt.Sprintf("%v ... (%d) ... %v", ts[:10], len(ts), ts[len(ts)-10:])
	}
	return fmt.Sprint(ts)
}

// Clip shortens a string for printing.
func Clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)...%q", s[:100], len(s), s[len(s)-100:])
	}
	return fmt.Sprintf("%q", s)
}

// Same fails when the observed tokens are not the expected ones.
func Same(c *core.Ctx, got, want []ref.Tok) {
	if ref.Eq(got, want) {
		return
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "end", "end"
		if i < len(got) {
			g = got[i].String()
		}
		if i < len(want) {
			w = want[i].String()
		}
		if g != w {
			if len(g) > 300 {
				g = g[:300]
			}
			if len(w) > 300 {
				w = w[:300]
			}
			c.Failf("token %d is %s, expected %s\n got      %s\n expected %s", i, g, w, Short(got), Short(want))
		}
	}
}

// Consumers are the ways to consume a stream; each returns the values it saw and the error.
var Consumers = []struct {
	Name string
	Do   func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error)
}{
	{"Next", func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error) {
		ts, err := Drain(c, s, max)
		return Seen{Toks: ts, HasToks: true, Count: len(ts), Text: ref.Text(ts)}, err
	}},
	{"Scan", func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error) {
		var ts []ref.Tok
		for s.Scan() {
			ts = append(ts, Of(s.Token()))
			c.Trans(1)
			if len(ts) > max {
				c.Failf("more than %d tokens: the stream does not end", max)
			}
		}
		return Seen{Toks: ts, HasToks: true, Count: len(ts), Text: ref.Text(ts)}, s.Err()
	}},
	{"ToSlice", func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error) {
		sl, err := s.ToSlice()
		ts := OfAll(sl)
		c.Trans(len(ts))
		return Seen{Toks: ts, HasToks: true, Count: len(ts), Text: ref.Text(ts)}, err
	}},
	{"String", func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error) {
		x, err := s.String()
		c.Trans(1)
		return Seen{Count: -1, Text: x}, err
	}},
	{"Count", func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error) {
		n, err := s.Count()
		c.Trans(1)
		return Seen{Count: n, NoText: true}, err
	}},
	{"WriteTo", func(c *core.Ctx, s *jargon.TokenStream, max int) (Seen, error) {
		var b bytes.Buffer
		n, err := s.WriteTo(&b)
		c.Trans(1)
		if n != int64(b.Len()) {
			c.Failf("WriteTo returned %d, wrote %d bytes", n, b.Len())
		}
		return Seen{Count: -1, Text: b.String()}, err
	}},
}

// Seen is what a consumer saw.
type Seen struct {
	Toks    []ref.Tok
	HasToks bool
	Count   int
	Text    string
	NoText  bool
}

// Agree fails unless what a consumer saw agrees with a list.
func (s Seen) Agree(c *core.Ctx, who string, want []ref.Tok) {
	if s.HasToks && !ref.Eq(s.Toks, want) {
		Same(c, s.Toks, want)
	}
	if s.Count >= 0 && s.Count != len(want) {
		c.Failf("%s: count %d, expected %d", who, s.Count, len(want))
	}
	if !s.NoText && s.Text != ref.Text(want) {
		c.Failf("%s: text %s, expected %s", who, Clip(s.Text), Clip(ref.Text(want)))
	}
}

// Reader delivers a text in the given chunks.
type Reader struct {
	Data    string
	Cuts    []int // ascending offsets where a read must stop; a repeated offset gives an empty read
	EOFWith bool  // report the end together with the last bytes
	FailAt  int   // fail at this offset instead of the end; -1: never
	Err     error
	Once    int // 1: the failure is reported once, then the end; 2: then the rest
	failed  bool
	pos     int
	ci      int
	Reads   int
	Given   int
}

// NewReader delivers a text.
func NewReader(data string, cuts []int, eofWith bool) *Reader {
	return &Reader{Data: data, Cuts: cuts, EOFWith: eofWith, FailAt: -1}
}

func (r *Reader) end() (int, error) {
	if r.FailAt >= 0 && r.FailAt <= len(r.Data) {
		if !r.failed {
			return r.FailAt, r.Err
		}
		if r.Once == 1 {
			return r.FailAt, io.EOF
		}
	}
	return len(r.Data), io.EOF
}

func (r *Reader) Read(p []byte) (int, error) {
	r.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	end, err := r.end()
	if r.ci < len(r.Cuts) && r.Cuts[r.ci] <= r.pos && r.pos < end && r.ci > 0 && r.Cuts[r.ci-1] == r.Cuts[r.ci] {
		r.ci++
		return 0, nil
	}
	if r.pos >= end {
		r.failed = r.Once > 0
		return 0, err
	}
	stop := end
	for r.ci < len(r.Cuts) && r.Cuts[r.ci] <= r.pos {
		r.ci++
	}
	if r.ci < len(r.Cuts) && r.Cuts[r.ci] < stop {
		stop = r.Cuts[r.ci]
	}
	n := copy(p, r.Data[r.pos:stop])
	r.pos += n
	r.Given += n
	if r.ci < len(r.Cuts) && r.pos == r.Cuts[r.ci] {
		r.ci++
	}
	if r.EOFWith && r.pos >= end {
		r.failed = r.Once > 0
		return n, err
	}
	return n, nil
}

// F is a filter with its model.
type F struct {
	Name  string
	New   func() jargon.Filter
	Model func([]ref.Tok) []ref.Tok
	// Kind: "map" one to one, "select" removes, "expand", "join", "synonyms"
	Kind string
	Syn  *ref.Syn
}

func shared(f jargon.Filter) func() jargon.Filter { return func() jargon.Filter { return f } }

func lower(t *jargon.Token) *jargon.Token {
	s := strings.ToLower(t.String())
	if s != t.String() {
		return jargon.NewToken(s, true)
	}
	return t
}

func lowerRef(in []ref.Tok) []ref.Tok {
	var out []ref.Tok
	for _, t := range in {
		if s := strings.ToLower(t.V); s != t.V {
			t = ref.New(s, true)
		}
		out = append(out, t)
	}
	return out
}

// SynMap is a small dictionary.
var SynMap = map[string]string{"a b": "AB", "b, the a": "B", "café don't x": "cdx", "@user": "", "rails": "ror"}

// StopList is a small list.
var StopList = []string{"the", "B", " ", "user"}

// LegalLetters is a rule for names.
func LegalLetters(s string) bool {
	for _, r := range s {
		if r < 'a' || r > 'z' {
			return false
		}
	}
	return s != ""
}

var filtersOnce sync.Once
var filters []F

// Filters are the bundled filters, and some built with the builders.
func Filters() []F {
	filtersOnce.Do(func() {
		sm := ref.NewSyn(SynMap, true, []rune{' ', '-'})
		add := func(name, kind string, n func() jargon.Filter, m func([]ref.Tok) []ref.Tok) {
			filters = append(filters, F{Name: name, Kind: kind, New: n, Model: m})
		}
		add("ascii", "map", shared(ascii.Fold), ref.FoldAll)
		add("contractions", "expand", shared(contractions.Expand), ref.Expand)
		add("stackoverflow", "synonyms", shared(stackoverflow.Tags), ref.SO().Apply)
		filters[len(filters)-1].Syn = ref.SO()
		add("handles", "join", shared(twitter.Handles), ref.Sigil("@", ref.Handle))
		add("hashtags", "join", shared(twitter.Hashtags), ref.Sigil("#", ref.Hashtag))
		add("stem", "map", shared(stemmer.English), ref.Stem("english"))
		add("nfc", "map", shared(jnorm.NFC), ref.Norm(norm.NFC))
		add("stop", "select", func() jargon.Filter { return stopwords.NewFilter(StopList, true) }, ref.Stop(StopList, true))
		add("words", "select", shared((*jargon.TokenStream).Words), ref.Words)
		add("lemmas", "select", shared((*jargon.TokenStream).Lemmas), ref.Lemmas)
		add("distinct", "select", shared((*jargon.TokenStream).Distinct), ref.Distinct)
		add("synonyms", "synonyms", func() jargon.Filter { return synonyms.NewFilter(SynMap, true, []rune{' ', '-'}) }, sm.Apply)
		filters[len(filters)-1].Syn = sm
		add("nba", "synonyms", shared(nba.CurrentPlayers), ref.NBA().Apply)
		filters[len(filters)-1].Syn = ref.NBA()
		add("lower", "map", func() jargon.Filter { return mapper.NewFilter(lower) }, lowerRef)
		add("sigil", "join", func() jargon.Filter { return sigil.NewFilter("$", LegalLetters) }, ref.Sigil("$", LegalLetters))
		add("nfd", "map", shared(jnorm.NFD), ref.Norm(norm.NFD))
		add("nfkc", "map", shared(jnorm.NFKC), ref.Norm(norm.NFKC))
		add("nfkd", "map", shared(jnorm.NFKD), ref.Norm(norm.NFKD))
		add("french", "map", shared(stemmer.French), ref.Stem("french"))
		add("norwegian", "map", shared(stemmer.Norwegian), ref.Stem("norwegian"))
		add("russian", "map", shared(stemmer.Russian), ref.Stem("russian"))
		add("spanish", "map", shared(stemmer.Spanish), ref.Stem("spanish"))
		add("swedish", "map", shared(stemmer.Swedish), ref.Stem("swedish"))
		add("stopcs", "select", func() jargon.Filter { return stopwords.NewFilter(StopList, false) }, ref.Stop(StopList, false))
	})
	return filters
}

// Filter finds a filter.
func Filter(name string) F {
	for _, f := range Filters() {
		if f.Name == name {
			return f
		}
	}
	panic("mc: no filter " + name)
}

// Some selects filters by name.
func Some(names ...string) []F {
	var out []F
	for _, n := range names {
		out = append(out, Filter(n))
	}
	return out
}

// TwoFaced is an error which wraps the end of input.
var (
	ErrBoom    = errors.New("boom")
	ErrWrapEOF = fmt.Errorf("connection lost: %w", io.EOF)
	ErrWrapUEF = fmt.Errorf("connection lost: %w", io.ErrUnexpectedEOF)
)

type tempErr struct{}

func (tempErr) Error() string   { return "try again" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// Errs are the failures injected.
var Errs = []error{ErrBoom, ErrWrapEOF, io.ErrUnexpectedEOF, ErrWrapUEF, io.ErrClosedPipe, tempErr{}, io.ErrNoProgress, io.ErrShortBuffer}

// isErr claims to be another error.
type isErr struct{ what error }

func (isErr) Error() string          { return "closed by the peer" }
func (e isErr) Is(target error) bool { return target == e.what }

type textErr string

func (e textErr) Error() string { return string(e) }

// MoreErrs are further errors of the standard library and look-alikes of EOF.
// (io.EOF is the end of input, bufio.ErrFinalToken the end of a scan, and neither is a failure.)
var MoreErrs = []error{
	context.Canceled, context.DeadlineExceeded, os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrPermission, os.ErrInvalid, os.ErrExist, os.ErrNoDeadline,
	net.ErrClosed, net.ErrWriteToConnected, syscall.EPIPE, syscall.ECONNRESET, syscall.EAGAIN, syscall.EINTR, syscall.EIO, syscall.ENOENT, syscall.EISDIR, syscall.EINVAL, syscall.EBADF, syscall.ENOSPC, syscall.ETIMEDOUT,
	bufio.ErrTooLong, bufio.ErrNegativeAdvance, bufio.ErrAdvanceTooFar, bufio.ErrBadReadCount, bufio.ErrBufferFull, bufio.ErrNegativeCount, bufio.ErrInvalidUnreadByte,
	io.ErrShortWrite, bytes.ErrTooLarge, http.ErrBodyReadAfterClose, http.ErrAbortHandler, http.ErrServerClosed, http.ErrHandlerTimeout, http.ErrContentLength, http.ErrUnexpectedTrailer, &http.MaxBytesError{Limit: 7},
	&os.PathError{Op: "read", Path: "x", Err: syscall.EISDIR}, &os.PathError{Op: "read", Path: "x", Err: io.EOF}, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &net.OpError{Op: "read", Net: "tcp", Err: io.EOF},
	isErr{io.EOF}, isErr{io.ErrUnexpectedEOF}, isErr{bufio.ErrFinalToken}, errors.New("EOF"), errors.New("unexpected EOF"), textErr("EOF"), textErr(""), errors.New(""), errors.New("final token"), errors.Join(io.EOF), errors.Join(ErrBoom, io.EOF), fmt.Errorf("gzip: %w", io.ErrUnexpectedEOF), fmt.Errorf("%w", context.Canceled), &url.Error{Op: "Get", URL: "x", Err: io.EOF},
	gzip.ErrChecksum, gzip.ErrHeader, flate.CorruptInputError(3), hex.ErrLength, base64.CorruptInputError(4), transform.ErrShortSrc, transform.ErrShortDst, html.ErrBufferExceeded,
}

// IsErr tells whether the injected error was reported.
func IsErr(got, injected error) bool {
	return got != nil && (got == injected || errors.Is(got, injected) || injected.Error() != "" && strings.Contains(got.Error(), injected.Error()))
}

// LongWords makes a text of n bytes of words of 1,000 letters and digits, all of them different.
func LongWords(n int) string {
	var b strings.Builder
	b.Grow(n + 1100)
	fill := strings.Repeat("w", 990)
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%s%d ", fill, i)
	}
	return b.String()[:n]
}
