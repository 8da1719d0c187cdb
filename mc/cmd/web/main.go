// Command web checks the web service (C23): it runs the real server, built from the working tree, on the loopback network
// and drives it through all requests, deliveries, failures and interleavings in the stated bounds.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stackoverflow"

	"verif/mc/core"
	"verif/mc/h"
)

func main() { core.Main(map[string]func(*core.Run){"C23": c23}) }

// addr is the server, racy the same server built with the race detector, which ends at the first race.
var addr, racy string

func start(r *core.Run, name string) string {
	program := filepath.Join(r.Root, "build", name)
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		cmd := exec.Command(program)
		cmd.Env = append(os.Environ(), fmt.Sprintf("PORT=%d", port), "GOTRACEBACK=none", "GORACE=halt_on_error=1 exitcode=66")
		cmd.Dir = r.Tmp()
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.Note(cmd.Process.Pid)
		ended := make(chan struct{})
		go func() { cmd.Wait(); close(ended) }()
		a := fmt.Sprintf("127.0.0.1:%d", port)
		for i := 0; i < 300; i++ {
			select {
			case <-ended:
				i = 300
				continue
			case <-time.After(30 * time.Millisecond):
			}
			if c, err := net.DialTimeout("tcp", a, time.Second); err == nil {
				c.Close()
				return a
			}
		}
		cmd.Process.Kill()
	}
	fmt.Fprintln(os.Stderr, "the server does not start")
	os.Exit(2)
	return ""
}

// ---- What is expected

type piece struct {
	lemma bool
	text  string
}

func expect(route, body string) ([]piece, error) {
	var s *jargon.TokenStream
	if route == "html" {
		s = jargon.TokenizeHTML(strings.NewReader(body))
	} else {
		s = jargon.Tokenize(strings.NewReader(body))
	}
	var out []piece
	s = s.Filter(stackoverflow.Tags)
	for s.Scan() {
		t := s.Token()
		if !t.IsLemma() && len(out) > 0 && !out[len(out)-1].lemma {
			out[len(out)-1].text += t.String()
			continue
		}
		out = append(out, piece{t.IsLemma(), t.String()})
	}
	return out, s.Err()
}

var span = regexp.MustCompile(`(?s)<span class="lemma">(.*?)</span>`)
var entity = regexp.MustCompile(`&(#[0-9]+|#[xX][0-9a-fA-F]+|[a-zA-Z]+[0-9]*);`)

// parse takes a response apart; it fails if there is other markup in it.
func parse(c *core.Ctx, body string) []piece {
	var out []piece
	add := func(lemma bool, s string) {
		if strings.ContainsAny(s, "<>") {
			c.Failf("markup in the response: %s", h.Clip(s))
		}
		if strings.Contains(entity.ReplaceAllString(s, ""), "&") {
			c.Failf("a bare & in the response: %s", h.Clip(s))
		}
		if s != "" || lemma {
			out = append(out, piece{lemma, html.UnescapeString(s)})
		}
	}
	at := 0
	for _, m := range span.FindAllStringSubmatchIndex(body, -1) {
		add(false, body[at:m[0]])
		add(true, body[m[2]:m[3]])
		at = m[1]
	}
	add(false, body[at:])
	return out
}

func nul(s string) string { return strings.ReplaceAll(s, "\x00", "\uFFFD") }

func same(c *core.Ctx, route, body, got string) {
	want, err := expect(route, body)
	if err != nil {
		c.Failf("status 200, although %v", err)
	}
	ps := parse(c, got)
	for i := 0; i < len(ps) || i < len(want); i++ {
		if i >= len(ps) || i >= len(want) || ps[i].lemma != want[i].lemma || nul(ps[i].text) != nul(want[i].text) {
			g, w := "end", "end"
			if i < len(ps) {
				g = fmt.Sprintf("lemma %v %s", ps[i].lemma, h.Clip(ps[i].text))
			}
			if i < len(want) {
				w = fmt.Sprintf("lemma %v %s", want[i].lemma, h.Clip(want[i].text))
			}
			c.Failf("/%s: part %d of the response is %s, expected %s; response %s", route, i, g, w, h.Clip(got))
		}
	}
}

func cors(c *core.Ctx, hd http.Header, what string) {
	if hd.Get("Access-Control-Allow-Origin") != "*" {
		c.Failf("%s: no cross-origin header: %v", what, hd)
	}
}

// ---- Requests

var client = &http.Client{
	Transport:     &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true},
	Timeout:       40 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

// chunked hides the length of a body.
type chunked struct{ io.Reader }

func do(c *core.Ctx, method, path string, body io.Reader) (int, http.Header, string) {
	req, err := http.NewRequest(method, "http://"+addr+path, body)
	if err != nil {
		panic("mc: " + err.Error())
	}
	resp, err := client.Do(req)
	if err != nil {
		c.Failf("%s %s: no response: %v", method, path, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		c.Failf("%s %s: incomplete response: %v", method, path, err)
	}
	c.Step(core.HashInt(core.Hash(method, path, string(b)), resp.StatusCode))
	c.Outcome(core.HashInt(core.Hash(string(b)), resp.StatusCode))
	return resp.StatusCode, resp.Header, string(b)
}

func post(c *core.Ctx, path, route, body string, hide bool) {
	var rd io.Reader = strings.NewReader(body)
	if hide {
		rd = chunked{rd}
	}
	code, hd, got := do(c, "POST", path, rd)
	cors(c, hd, path)
	want, err := expect(route, body)
	if err != nil {
		if code != 500 {
			c.Failf("%s: status %d, although %v", path, code, err)
		}
		return
	}
	_ = want
	if code != 200 {
		c.Failf("%s: status %d, response %s", path, code, h.Clip(got))
	}
	same(c, route, body, got)
}

// conn is a connection under control of the harness.
type conn struct {
	net.Conn
	br *bufio.Reader
}

func dial(c *core.Ctx, addr string) *conn {
	var d net.Conn
	var err error
	for i := 0; i < 50; i++ {
		d, err = net.DialTimeout("tcp", addr, 10*time.Second)
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		c.Failf("cannot connect: %v", err)
	}
	d.SetDeadline(time.Now().Add(40 * time.Second))
	return &conn{d, bufio.NewReader(d)}
}

func (k *conn) response(c *core.Ctx, method, what string) (int, http.Header, string) {
	resp, err := http.ReadResponse(k.br, &http.Request{Method: method})
	if err != nil {
		c.Failf("%s: no response: %v", what, err)
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		c.Failf("%s: incomplete response: %v", what, err)
	}
	resp.Body.Close()
	c.Step(core.HashInt(core.Hash(what, string(b)), resp.StatusCode))
	c.Outcome(core.HashInt(core.Hash(string(b)), resp.StatusCode))
	return resp.StatusCode, resp.Header, string(b)
}

func head(method, path string, length int) string {
	if length < 0 {
		return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n", method, path)
	}
	return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", method, path, length)
}

func c23(r *core.Run) {
	r.Concurrent = true
	addr, racy = start(r, "web"), start(r, "web-race")
	routes := []string{"text", "html"}
	// Texts
	atoms := core.Atoms([]string{"rails", " ", "<", ">", "&", "\"", "'", "C#", "a", "é", "ruby on rails", "<b>", "</span>", "&amp;", "<script>", "\x00", "\xff", "<span class=\"lemma\">", "\n", "asp.net", "+", "/", "</script>"}, 6)
	n := r.Pick(3, 4)
	r.Explore("texts", fmt.Sprintf("all bodies of at most %d of %d pieces, posted as text and as html", n, len(atoms)), func(c *core.Ctx) {
		route := routes[c.Choose(2)]
		k := c.Choose(n + 1)
		body := h.Text(c, k, atoms)
		c.Describe(func() string { return fmt.Sprintf("POST /%s %q", route, body) })
		post(c, "/"+route, route, body, false)
	})
	core3 := []string{"rails", " ", "<", "&", "\"", "node js", "</p>", "<!--"}
	n2 := r.Pick(5, 6)
	r.Explore("longer texts", fmt.Sprintf("all bodies of %d of %d pieces, posted as text and as html, with a length or in chunks", n2, len(core3)), func(c *core.Ctx) {
		route := routes[c.Choose(2)]
		hide := c.Bool()
		body := h.Text(c, n2, core3)
		c.Describe(func() string { return fmt.Sprintf("POST /%s %q", route, body) })
		post(c, "/"+route, route, body, hide)
	})
	// Every character
	r.Explore("characters", "every character up to U+3000, 64 at a time between recognized terms, and every byte", func(c *core.Ctx) {
		route := routes[c.Choose(2)]
		i := c.Choose(0x3000/64 + 4)
		var b strings.Builder
		if i < 4 {
			for x := i * 64; x < i*64+64; x++ {
				b.WriteString(" rails ")
				b.WriteByte(byte(x))
				b.WriteString(" x")
			}
		} else {
			for x := (i - 4) * 64; x < (i-4)*64+64; x++ {
				fmt.Fprintf(&b, " rails %c rails%c ", x, x)
			}
		}
		body := b.String()
		c.Describe(func() string { return fmt.Sprintf("POST /%s, characters %d", route, i) })
		post(c, "/"+route, route, body, false)
	})
	// Sizes
	sizes := core.Sizes(1<<22, append(core.Around(2048, 4096, 32768, 65536), 0, 1, 200000, 262145, 1<<20, 1<<20+1, 2500000)...)
	unit := "Ruby on Rails & <b>node js</b> \"don't\" 'x' + C# développement. "
	r.Explore("sizes", fmt.Sprintf("bodies of %v bytes, as text and html, with a length or in chunks (in the quick tier, more than 512 KB as text with a length only)", sizes), func(c *core.Ctx) {
		k := sizes[c.Choose(len(sizes))]
		route := routes[c.Choose(2)]
		hide := c.Bool()
		if k > 1<<19 && (hide || route == "html") && !r.Thorough() {
			c.Prune()
		}
		body := strings.Repeat(unit, k/len(unit)+1)[:k]
		c.Describe(func() string { return fmt.Sprintf("POST /%s, %d bytes, chunked %v", route, k, hide) })
		post(c, "/"+route, route, body, hide)
	})
	huge := core.Huge(1<<20, 5<<20+1, 11<<20, 33<<20)
	r.ExploreSerial("huge", fmt.Sprintf("bodies of %v bytes with long words, as text and html, with a length or in chunks", huge), func(c *core.Ctx) {
		k := huge[c.Choose(len(huge))]
		route := routes[c.Choose(2)]
		hide := c.Bool()
		c.Describe(func() string { return fmt.Sprintf("POST /%s, %d bytes, chunked %v", route, k, hide) })
		c.Chosen()
		body := h.LongWords(k)
		var rd io.Reader = strings.NewReader(body)
		if hide {
			rd = chunked{rd}
		}
		code, hd, got := do(c, "POST", "/"+route, rd)
		cors(c, hd, route)
		if code != 200 || got != body {
			c.Failf("status %d, response of %d bytes: %s", code, len(got), h.Clip(got))
		}
	})
	words := []int{65000, 65535, 65536, 65537, 70000, 140000}
	r.Explore("long words", fmt.Sprintf("a word of %v bytes in the body: a complete response, or status 500 if it is too long for the tokenizer", words), func(c *core.Ctx) {
		k := words[c.Choose(len(words))]
		route := routes[c.Choose(2)]
		w := strings.Repeat("w", k)
		form := []string{"wxyz rails", "rails wxyz", "rails wxyz rails"}[c.Choose(3)]
		c.Describe(func() string { return fmt.Sprintf("POST /%s, %q with a word of %d bytes", route, form, k) })
		code, hd, got := do(c, "POST", "/"+route, strings.NewReader(strings.Replace(form, "wxyz", w, 1)))
		cors(c, hd, route)
		switch code {
		case 200:
			// All of it, then
			same(c, route, form, strings.Replace(got, w, "wxyz", 1))
		case 500:
			if k < 65536 {
				c.Failf("status 500")
			}
		default:
			c.Failf("status %d", code)
		}
	})
	// Paths and methods
	type rq struct{ method, path, want string }
	var rqs []rq
	for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH"} {
		for _, p := range []string{"/", "/texts", "/tex", "/htm", "/htmls", "/x", "/x/text", "/x/html", "/TEXT", "/Html", "/index.html", "/text.html", "/_ah", "/_ah/", "/_ah/text", "/_ah/healthy", "/favicon.ico", "/%20text", "/text,", "/textfile", "/a/b/c"} {
			rqs = append(rqs, rq{m, p, "404"})
		}
		for _, p := range []string{"/text", "/text/", "/text?x=1", "/text/more"} {
			rqs = append(rqs, rq{m, p, "text"})
		}
		for _, p := range []string{"/html", "/html/", "/html?text=1", "/html/text"} {
			rqs = append(rqs, rq{m, p, "html"})
		}
		rqs = append(rqs, rq{m, "/_ah/health", "ok"})
	}
	for _, p := range []string{"/", "/text", "/html", "/texts", "/x/y", "/text/more", "/html?x=1"} {
		rqs = append(rqs, rq{"OPTIONS", p, "preflight"})
	}
	body := "rails & <b>C#</b>"
	ask := func(c *core.Ctx, q rq, send func() (int, http.Header, string)) {
		code, hd, got := send()
		what := q.method + " " + q.path
		cors(c, hd, what)
		switch q.want {
		case "404":
			if code != 404 {
				c.Failf("%s: status %d, response %s", what, code, h.Clip(got))
			}
			if strings.Contains(got, "lemma") {
				c.Failf("%s: response %s", what, h.Clip(got))
			}
		case "preflight":
			if code != 200 && code != 204 || got != "" {
				c.Failf("%s: status %d, response %s", what, code, h.Clip(got))
			}
		case "ok":
			if code != 200 || got != "ok" {
				c.Failf("%s: status %d, response %s", what, code, h.Clip(got))
			}
		default:
			if code != 200 {
				c.Failf("%s: status %d, response %s", what, code, h.Clip(got))
			}
			same(c, q.want, body, got)
		}
	}
	r.Explore("paths", fmt.Sprintf("%d methods and paths, with a body and a browser's headers", len(rqs)), func(c *core.Ctx) {
		q := rqs[c.Choose(len(rqs))]
		hide := c.Bool()
		c.Describe(func() string { return q.method + " " + q.path })
		ask(c, q, func() (int, http.Header, string) {
			var rd io.Reader = strings.NewReader(body)
			if hide {
				rd = chunked{rd}
			}
			return do(c, q.method, q.path, rd)
		})
	})
	// Headers and queries
	types := []string{"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "text/plain; charset=utf-16", "text/html", "application/json", "application/octet-stream", "bad"}
	heads := []string{"", "Expect: 100-continue", "Connection: close", "Accept-Encoding: gzip", "Range: bytes=0-3", "If-None-Match: *", "If-Modified-Since: Thu, 01 Jan 2099 00:00:00 GMT", "Origin: http://x",
		"X-Requested-With: XMLHttpRequest", "X-HTTP-Method-Override: OPTIONS", "Cookie: a=b", "Accept: application/json", "Accept: text/html;q=0", "User-Agent: ", "X-Forwarded-Proto: http", "Accept-Language: tr"}
	queries := []string{"", "?", "?x=1", "?text=rails&html=1", "?callback=f", "?%zz", "?body=C%23;x"}
	for _, x := range core.GetNovel().Strings {
		if len(queries) < 12 && len(x) < 20 && strings.IndexFunc(x, func(r rune) bool { return r < 'A' || r > 'z' || r > 'Z' && r < 'a' }) < 0 {
			queries = append(queries, "?"+x+"=1")
		}
	}
	contents := []string{body, "rails=C%23&b=ruby+on+rails%3Cb%3E&x", "--x\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nrails & more\r\n--x--\r\n", "{\"a\": \"ruby on rails\"}", "\xff\xfer\x00a\x00"}
	r.Explore("headers", fmt.Sprintf("%d content types, %d other headers, %d queries, %d bodies, in chunks or with a length, HTTP 1.0 and 1.1: none of them matters", len(types), len(heads), len(queries), len(contents)), func(c *core.Ctx) {
		ty, hd := types[c.Choose(len(types))], heads[c.Choose(len(heads))]
		q := queries[c.Choose(len(queries))]
		text := contents[c.Choose(len(contents))]
		route := []string{"text", "html"}[c.Choose(2)]
		form := c.Choose(3)
		if form > 0 && q != "" && q != "?x=1" {
			c.Prune()
		}
		c.Describe(func() string { return fmt.Sprintf("POST /%s%s %q %q %q, form %d", route, q, ty, hd, text, form) })
		var b strings.Builder
		fmt.Fprintf(&b, "POST /%s%s HTTP/1.%d\r\nHost: x\r\n", route, q, map[bool]int{true: 0, false: 1}[form == 2])
		if ty != "" {
			fmt.Fprintf(&b, "Content-Type: %s\r\n", ty)
		}
		if hd != "" {
			fmt.Fprintf(&b, "%s\r\n", hd)
		}
		if form == 1 {
			fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(text), text)
		} else {
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(text), text)
		}
		k := dial(c, addr)
		defer k.Close()
		if _, err := io.WriteString(k, b.String()); err != nil {
			c.Failf("%v", err)
		}
		code, hds, got := k.response(c, "POST", route)
		for code >= 100 && code < 200 {
			code, hds, got = k.response(c, "POST", route)
		}
		if code != 200 {
			c.Failf("status %d, response %s", code, h.Clip(got))
		}
		if hds.Get("Content-Encoding") == "gzip" {
			z, err := gzip.NewReader(strings.NewReader(got))
			if err != nil {
				c.Failf("the response is not gzip: %v", err)
			}
			x, err := io.ReadAll(z)
			if err != nil {
				c.Failf("the response is not gzip: %v", err)
			}
			got = string(x)
		}
		cors(c, hds, route)
		same(c, route, text, got)
	})
	// One connection
	few := []rq{{"POST", "/text", "text"}, {"POST", "/html", "html"}, {"OPTIONS", "/text", "preflight"}, {"GET", "/nothing", "404"}, {"GET", "/_ah/health", "ok"}, {"POST", "/nothing", "404"}}
	d := r.Pick(3, 4)
	r.Explore("histories", fmt.Sprintf("all sequences of %d of %d requests on one connection", d, len(few)), func(c *core.Ctx) {
		var log []string
		c.Describe(func() string { return strings.Join(log, ", ") })
		k := dial(c, addr)
		defer k.Close()
		for i := 0; i < d; i++ {
			q := few[c.Choose(len(few))]
			log = append(log, q.method+" "+q.path)
			ask(c, q, func() (int, http.Header, string) {
				if _, err := io.WriteString(k, head(q.method, q.path, len(body))+body); err != nil {
					c.Failf("%v: %v", log, err)
				}
				return k.response(c, q.method, q.path)
			})
		}
	})
	// Bodies that end early
	small := "rails & <b>ruby on rails</b> don't"
	big := strings.Repeat(unit, 4000)
	r.Explore("truncated", "a body that ends early: after every byte of a short one, and at several places of a long one, sent with a length or in chunks; chunks that are malformed", func(c *core.Ctx) {
		route := routes[c.Choose(2)]
		kind := c.Choose(3) // length, chunks, malformed chunk
		full := small
		at := c.Choose(len(small) + 8)
		if at >= len(small) {
			full = big
			at = []int{1000, 4096, 32768, 65535, 65536, 65537, 100000, 200000}[at-len(small)]
		}
		c.Describe(func() string {
			return fmt.Sprintf("POST /%s, ends after %d of %d bytes, kind %d", route, at, len(full), kind)
		})
		k := dial(c, addr)
		defer k.Close()
		var b bytes.Buffer
		if kind == 0 {
			b.WriteString(head("POST", "/"+route, len(full)))
			b.WriteString(full[:at])
		} else {
			b.WriteString(head("POST", "/"+route, -1))
			if at > 0 {
				fmt.Fprintf(&b, "%x\r\n%s\r\n", at, full[:at])
			}
			if kind == 2 {
				b.WriteString("zz\r\nrails\r\n0\r\n\r\n")
			}
		}
		go func() {
			k.Write(b.Bytes())
			k.Conn.(*net.TCPConn).CloseWrite()
		}()
		code, hd, got := k.response(c, "POST", "/"+route)
		cors(c, hd, "a body that ends early")
		if code != 500 {
			c.Failf("status %d, although the body ends after %d of %d bytes; response %s", code, at, len(full), h.Clip(got))
		}
	})
	// Slow bodies
	r.Explore("pieces", "a short body arriving in two parts, cut after every byte", func(c *core.Ctx) {
		route := routes[c.Choose(2)]
		at := c.Choose(len(small) + 1)
		chunk := c.Bool()
		c.Describe(func() string {
			return fmt.Sprintf("POST /%s, %q, then %q, chunks %v", route, small[:at], small[at:], chunk)
		})
		k := dial(c, addr)
		defer k.Close()
		if chunk {
			io.WriteString(k, head("POST", "/"+route, -1))
			for _, s := range []string{small[:at], small[at:]} {
				if s != "" {
					fmt.Fprintf(k, "%x\r\n%s\r\n", len(s), s)
					time.Sleep(2 * time.Millisecond)
				}
			}
			io.WriteString(k, "0\r\n\r\n")
		} else {
			io.WriteString(k, head("POST", "/"+route, len(small))+small[:at])
			time.Sleep(2 * time.Millisecond)
			io.WriteString(k, small[at:])
		}
		code, hd, got := k.response(c, "POST", "/"+route)
		cors(c, hd, "/"+route)
		if code != 200 {
			c.Failf("status %d, response %s", code, h.Clip(got))
		}
		same(c, route, small, got)
	})
	// Interleavings
	parts := [][]string{{"ruby on ", "rails & <b>", "x</b>"}, {"node ", "js </span> asp", ".net"}, {"<a>C#", " é don't ", "&amp;"}}
	type send struct{ who, part int }
	r.Explore("interleavings", "all interleavings of two (thorough: three) requests of three parts each, on their own connections, over all pairs of bodies and routes; with the race detector", func(c *core.Ctx) {
		m := r.Pick(2, 3)
		var ks []*conn
		var rt []string
		var ps [][]string
		for i := 0; i < m; i++ {
			rt = append(rt, routes[c.Choose(2)])
			ps = append(ps, parts[(i+c.Choose(2))%3])
		}
		var log []send
		c.Describe(func() string { return fmt.Sprint(rt, ps, log) })
		next := make([]int, m)
		for i := 0; i < m; i++ {
			k := dial(c, racy)
			defer k.Close()
			ks = append(ks, k)
			io.WriteString(k, head("POST", "/"+rt[i], len(strings.Join(ps[i], ""))))
		}
		left := 3 * m
		for left > 0 {
			var can []int
			for i := range next {
				if next[i] < 3 {
					can = append(can, i)
				}
			}
			i := can[c.Choose(len(can))]
			log = append(log, send{i, next[i]})
			io.WriteString(ks[i], ps[i][next[i]])
			next[i]++
			left--
			time.Sleep(500 * time.Microsecond)
			if next[i] == 3 {
				code, hd, got := ks[i].response(c, "POST", "/"+rt[i])
				cors(c, hd, rt[i])
				if code != 200 {
					c.Failf("status %d, response %s", code, h.Clip(got))
				}
				same(c, rt[i], strings.Join(ps[i], ""), got)
			}
		}
	})
	// Clients that go away
	long := strings.Repeat("Ruby on Rails <b>"+strings.Repeat("w", 60000)+" &amp;\n", 200)
	r.ExploreSerial("gone", "a client that goes away: 6 bodies from nothing to 12 MB, as text and html; before the body, in the middle of it, after it, or as the response starts; closing or resetting; on 1 or 4 connections at once; then 16 requests, of which each must get its own response", func(c *core.Ctx) {
		route := routes[c.Choose(2)]
		body := []string{"", "x", small, big[:5000], big, long}[c.Choose(6)]
		when := c.Choose(4)
		reset := c.Bool()
		m := 1 + 3*c.Choose(2)
		c.Describe(func() string {
			return fmt.Sprintf("POST /%s of %d bytes on %d connections, gone at %d, reset %v", route, len(body), m, when, reset)
		})
		var wg sync.WaitGroup
		ks := make([]*conn, m)
		for i := range ks {
			ks[i] = dial(c, addr)
		}
		for _, k := range ks {
			wg.Add(1)
			go func(k *conn) {
				defer wg.Done()
				defer k.Close()
				t := k.Conn.(*net.TCPConn)
				t.SetReadBuffer(4096)
				if reset {
					t.SetLinger(0)
				}
				io.WriteString(k, head("POST", "/"+route, len(body)))
				switch when {
				case 1:
					io.WriteString(k, body[:len(body)/2])
				case 2, 3:
					io.WriteString(k, body)
				}
				if when == 3 {
					k.br.ReadByte()
				}
			}(k)
		}
		wg.Wait()
		time.Sleep(time.Millisecond)
		out := make([]string, 16)
		for i := range out {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b := fmt.Sprintf("after %d rails <i>", i)
				defer func() {
					if x := recover(); x != nil {
						out[i] = fmt.Sprint(x)
					}
				}()
				resp, err := client.Post("http://"+addr+"/"+routes[i%2], "text/plain", strings.NewReader(b))
				if err != nil {
					out[i] = err.Error()
					return
				}
				got, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil || resp.StatusCode != 200 {
					out[i] = fmt.Sprintf("status %d, %v", resp.StatusCode, err)
					return
				}
				out[i] = "=" + string(got)
			}(i)
		}
		wg.Wait()
		c.Trans(16 + m)
		for i, o := range out {
			if !strings.HasPrefix(o, "=") {
				c.Failf("then, /%s: %s", routes[i%2], o)
			}
			same(c, routes[i%2], fmt.Sprintf("after %d rails <i>", i), o[1:])
		}
	})
	// At once
	mixes := []string{"ruby on rails & <b>", "node js </span>", strings.Repeat(unit, 100), "<p>C#</p>", "x", ""}
	r.ExploreSerial("at once", "all choices of 3 of 6 bodies, each posted by 4 clients at the same time; with the race detector", func(c *core.Ctx) {
		var bs []string
		for i := 0; i < 3; i++ {
			bs = append(bs, mixes[c.Choose(len(mixes))])
		}
		c.Describe(func() string { return fmt.Sprintf("%d, %d and %d bytes at once", len(bs[0]), len(bs[1]), len(bs[2])) })
		var wg sync.WaitGroup
		type res struct {
			route, body, got string
			code             int
			err              error
		}
		out := make([]res, 12)
		for i := 0; i < 12; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				o := &out[i]
				o.route, o.body = routes[i/3%2], bs[i%3]
				resp, err := client.Post("http://"+racy+"/"+o.route, "text/plain", strings.NewReader(o.body))
				if err != nil {
					o.err = err
					return
				}
				b, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				o.code, o.got, o.err = resp.StatusCode, string(b), err
			}(i)
		}
		wg.Wait()
		c.Trans(12)
		for _, o := range out {
			if o.err != nil {
				c.Failf("/%s: no response: %v", o.route, o.err)
			}
			if o.code != 200 {
				c.Failf("/%s: status %d", o.route, o.code)
			}
			same(c, o.route, o.body, o.got)
		}
	})
}
