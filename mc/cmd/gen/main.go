// Command gen checks the programs that generate the dictionaries (C32): it runs the real programs, built from the working
// tree, against a scripted service (as their proxy), for every content and every failure in the stated bounds.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"html"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

func main() {
	runtime.GOMAXPROCS(32) // the programs mostly wait
	core.Main(map[string]func(*core.Run){"C32": c32})
}

var bin, tmp, caFile, noCerts string

// ---- The service

var certs struct {
	sync.Mutex
	ca   *x509.Certificate
	key  *ecdsa.PrivateKey
	leaf map[string]*tls.Certificate
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprint("mc: ", err))
	}
}

func makeCA() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "mc"}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	must(err)
	certs.ca, err = x509.ParseCertificate(der)
	must(err)
	certs.key, certs.leaf = key, map[string]*tls.Certificate{}
	caFile = filepath.Join(tmp, "ca.pem")
	must(os.WriteFile(caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
}

func leaf(hi *tls.ClientHelloInfo) (*tls.Certificate, error) {
	certs.Lock()
	defer certs.Unlock()
	if c := certs.leaf[hi.ServerName]; c != nil {
		return c, nil
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(int64(len(certs.leaf) + 2)), Subject: pkix.Name{CommonName: hi.ServerName}, DNSNames: []string{hi.ServerName}, NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, certs.ca, &key.PublicKey, certs.key)
	if err != nil {
		return nil, err
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	certs.leaf[hi.ServerName] = c
	return c, nil
}

// reply is what the service does with a request.
type reply struct {
	status int
	body   string
	lost   int           // bytes of the body that do not arrive
	reset  bool          // nothing arrives at all
	wait   time.Duration // before answering
}

// service answers the requests of one program.
type service struct {
	l      net.Listener
	answer func(n int, r *http.Request) reply // n counts from 1
	mu     sync.Mutex
	n      int
	times  []time.Time // of requests
	sent   []time.Time // of replies
}

func serve(answer func(n int, r *http.Request) reply) *service {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &service{l: l, answer: answer}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go s.conn(conn)
		}
	}()
	return s
}

func (s *service) conn(conn net.Conn) {
	defer func() { conn.Close() }()
	br := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		if req.Method == "CONNECT" {
			fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\n\r\n")
			conn = tls.Server(conn, &tls.Config{GetCertificate: leaf, NextProtos: []string{"http/1.1"}})
			br = bufio.NewReader(conn)
			continue
		}
		s.mu.Lock()
		s.n++
		n := s.n
		s.times = append(s.times, time.Now())
		s.mu.Unlock()
		a := s.answer(n, req)
		if a.wait > 0 {
			time.Sleep(a.wait)
		}
		if a.reset {
			return
		}
		s.mu.Lock()
		s.sent = append(s.sent, time.Now())
		s.mu.Unlock()
		fmt.Fprintf(conn, "HTTP/1.1 %d %s\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: %d\r\n\r\n%s", a.status, http.StatusText(a.status), len(a.body), a.body[:len(a.body)-a.lost])
		if a.lost > 0 {
			return
		}
	}
}

// ---- The programs

type result struct {
	code   int
	signal string
	stderr string
	file   string // what generated.go holds afterwards
	exists bool
}

// places for the file that is written
const (
	absent  = iota
	present // from before
	folder  // it cannot be created
	full    // it cannot be written
)

const old = "package old\n\nvar mappings = map[string]string{\n\t\"kept\": \"kept\",\n}\n"

func run(c *core.Ctx, program string, place int, s *service) result {
	if s != nil {
		defer s.l.Close()
	}
	c.Chosen()
	dir, err := os.MkdirTemp(tmp, "gen")
	must(err)
	must(os.Chmod(dir, 0o755))
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "generated.go")
	switch place {
	case present:
		must(os.WriteFile(out, []byte(old), 0o644))
	case folder:
		must(os.Mkdir(out, 0o755))
	case full:
		must(os.Symlink("/dev/full", out))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	// A program that asks for ever more memory ends itself, not the machine
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 4000000; exec "$0"`, filepath.Join(bin, "gen-"+program))
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=none", "SSL_CERT_FILE=" + caFile, "SSL_CERT_DIR=" + noCerts}
	if s != nil {
		p := "http://" + s.l.Addr().String()
		cmd.Env = append(cmd.Env, "HTTP_PROXY="+p, "HTTPS_PROXY="+p, "http_proxy="+p, "https_proxy="+p)
	}
	var stderr bytes.Buffer
	cmd.Stderr, cmd.Stdout = &stderr, &stderr
	cmd.Run()
	if ctx.Err() != nil {
		c.Failf("%s does not end", program)
	}
	if cmd.ProcessState == nil {
		panic("mc: cannot run " + program)
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	res := result{code: ws.ExitStatus(), stderr: stderr.String()}
	if ws.Signaled() {
		res.signal = ws.Signal().String()
	}
	if place == absent || place == present {
		b, err := os.ReadFile(out)
		res.file, res.exists = string(b), err == nil
	}
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		if e.Name() != "generated.go" && strings.HasSuffix(e.Name(), ".go") {
			c.Failf("%s leaves a file %s", program, e.Name())
		}
	}
	c.Step(core.HashInt(core.Hash(program, res.file, res.signal), res.code, place))
	c.Outcome(core.HashInt(core.Hash(program, res.file), res.code))
	return res
}

// failed checks that a program reported a failure and left what was there.
func failed(c *core.Ctx, what string, place int, res result) {
	if res.code == 0 && res.signal == "" {
		c.Failf("%s: the program reports success; it wrote %s", what, h.Clip(res.file))
	}
	if strings.TrimSpace(res.stderr) == "" {
		c.Failf("%s: no message", what)
	}
	if place == present && res.file != old {
		c.Failf("%s: the existing dictionary is replaced by %s", what, h.Clip(res.file))
	}
	if place == absent && res.exists {
		c.Failf("%s: a dictionary is left behind: %s", what, h.Clip(res.file))
	}
}

// dictionary reads the terms of a generated file: each maps to the canonical terms that are given for it.
func dictionary(src, pkg string) (map[string]map[string]bool, map[string]string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	if f.Name.Name != pkg {
		return nil, nil, fmt.Errorf("package %s", f.Name.Name)
	}
	if _, err := new(types.Config).Check(pkg, fset, []*ast.File{f}, nil); err != nil {
		return nil, nil, err
	}
	var lit *ast.CompositeLit
	ast.Inspect(f, func(n ast.Node) bool {
		if v, ok := n.(*ast.ValueSpec); ok && len(v.Names) == 1 && v.Names[0].Name == "mappings" && len(v.Values) == 1 {
			lit, _ = v.Values[0].(*ast.CompositeLit)
		}
		return true
	})
	if lit == nil {
		return nil, nil, fmt.Errorf("no mappings")
	}
	terms, raw := map[string]map[string]bool{}, map[string]string{}
	for _, e := range lit.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil, nil, fmt.Errorf("not a map")
		}
		k, err1 := unquote(kv.Key)
		v, err2 := unquote(kv.Value)
		if err1 != nil || err2 != nil {
			return nil, nil, fmt.Errorf("not strings: %v %v", err1, err2)
		}
		raw[k] = v
		for _, t := range strings.Split(k, ",") {
			t = strings.TrimSpace(t)
			if terms[t] == nil {
				terms[t] = map[string]bool{}
			}
			terms[t][v] = true
		}
	}
	return terms, raw, nil
}

func unquote(e ast.Expr) (string, error) {
	b, ok := e.(*ast.BasicLit)
	if !ok || b.Kind != token.STRING {
		return "", fmt.Errorf("%T", e)
	}
	return strconv.Unquote(b.Value)
}

// succeeded checks that a program wrote these terms; those that may be there or not are in optional.
func succeeded(c *core.Ctx, res result, pkg string, want, optional map[string]map[string]bool) {
	if res.code != 0 || res.signal != "" {
		c.Failf("exit status %d %s: %s", res.code, res.signal, h.Clip(res.stderr))
	}
	if !res.exists {
		c.Failf("no dictionary is written")
	}
	got, _, err := dictionary(res.file, pkg)
	if err != nil {
		c.Failf("what is written is not a dictionary: %v: %s", err, h.Clip(res.file))
	}
	var diff []string
	for t, cs := range want {
		for canonical := range cs {
			if !got[t][canonical] {
				diff = append(diff, fmt.Sprintf("%q → %q is missing", t, canonical))
			}
		}
	}
	for t, cs := range got {
		for canonical := range cs {
			if !want[t][canonical] && !optional[t][canonical] {
				diff = append(diff, fmt.Sprintf("%q → %q should not be there", t, canonical))
			}
		}
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		if len(diff) > 5 {
			diff = append(diff[:5], fmt.Sprint("and ", len(diff)-5, " more"))
		}
		c.Failf("%s; in %s", strings.Join(diff, "; "), h.Clip(res.file))
	}
	c.Trans(len(want))
}

// ---- Stack Overflow

type tag struct {
	Name      string   `json:"name"`
	Synonyms  []string `json:"synonyms,omitempty"`
	Moderator bool     `json:"is_moderator_only"`
	Count     int      `json:"count"`
}

var ignored = map[string]bool{"drop-down": true, "datatable": true, "for": true, "this": true}

const limit = 2000 // tags

func spaced(s string) string { return strings.ReplaceAll(s, "-", " ") }

func put(m map[string]map[string]bool, term, canonical string) {
	if m[term] == nil {
		m[term] = map[string]bool{}
	}
	m[term][canonical] = true
}

func soWant(tags []tag) (want, optional map[string]map[string]bool) {
	want, optional = map[string]map[string]bool{}, map[string]map[string]bool{}
	if len(tags) > limit {
		tags = tags[:limit]
	}
	synonym := map[string]bool{}
	for _, t := range tags {
		for _, s := range t.Synonyms {
			if !t.Moderator && !ignored[s] {
				put(want, spaced(s), t.Name)
				synonym[spaced(s)] = true
			}
		}
	}
	for _, t := range tags {
		n := spaced(t.Name)
		switch {
		case t.Moderator || ignored[n]:
		case synonym[n]:
			put(optional, n, t.Name)
		default:
			put(want, n, t.Name)
		}
	}
	return want, optional
}

func filler(n int) (out []tag) {
	for i := 0; i < n; i++ {
		t := tag{Name: fmt.Sprint("t", i), Count: 100000 - i}
		if i%7 == 0 {
			t.Synonyms = []string{fmt.Sprint("s-", i), fmt.Sprint("z", i)}
		}
		out = append(out, t)
	}
	return out
}

// soPage is what the service says to a request.
func soPage(tags []tag, r *http.Request, more map[string]interface{}) string {
	q := r.URL.Query()
	refuse := func(what string) string {
		b, _ := json.Marshal(map[string]interface{}{"error_id": 400, "error_name": "bad_parameter", "error_message": what})
		return string(b)
	}
	if host := r.URL.Hostname(); host != "api.stackexchange.com" && r.Host != "api.stackexchange.com" {
		return refuse("host " + r.URL.String())
	}
	if site := q.Get("site"); site != "stackoverflow" && site != "stackoverflow.com" {
		return refuse("site")
	}
	if !strings.HasSuffix(r.URL.Path, "/tags") {
		return refuse("no such method")
	}
	if o := q.Get("order"); o == "asc" || q.Get("sort") != "" && q.Get("sort") != "popular" { // other orders
		tags = append([]tag{}, tags...)
		sort.SliceStable(tags, func(i, j int) bool { return tags[i].Name > tags[j].Name })
	}
	if f := q.Get("filter"); f == "" || f == "default" { // has no synonyms
		tags = append([]tag{}, tags...)
		for i := range tags {
			tags[i].Synonyms = nil
		}
	} else if f == "none" || f == "total" {
		return `{"total":1}`
	}
	page, _ := strconv.Atoi(q.Get("page"))
	size, _ := strconv.Atoi(q.Get("pagesize"))
	if page < 1 {
		page = 1
	}
	if size < 1 {
		size = 30
	}
	if size > 100 {
		return refuse("pagesize")
	}
	lo, hi := (page-1)*size, page*size
	if lo > len(tags) {
		lo = len(tags)
	}
	if hi > len(tags) {
		hi = len(tags)
	}
	m := map[string]interface{}{"items": append([]tag{}, tags[lo:hi]...), "has_more": hi < len(tags), "quota_max": 10000, "quota_remaining": 9000}
	for k, v := range more {
		m[k] = v
	}
	b, err := json.Marshal(m)
	must(err)
	return string(b)
}

type fault struct {
	name string
	do   func(ok reply) reply
	slow bool
}

func status(n int, body string) func(reply) reply {
	return func(reply) reply { return reply{status: n, body: body} }
}

const errorPage = "<html><body><h1>Service unavailable</h1><a href='x'>Smith, John</a></body></html>"

var faults = []fault{
	{"500 with a page", status(500, errorPage), false},
	{"503 with an empty body", status(503, ""), false},
	{"502 with an error", status(502, `{"error_id":502,"error_message":"too many requests from this IP","error_name":"throttle_violation"}`), false},
	{"400 with an error", status(400, `{"error_id":400,"error_message":"page","error_name":"bad_parameter"}`), false},
	{"200 with an error", status(200, `{"error_id":500,"error_message":"oops","error_name":"internal_error"}`), false},
	{"200 with the name of an error", status(200, `{"items":[],"has_more":false,"error_name":"internal_error"}`), false},
	{"200 with the message of an error", status(200, `{"items":[{"name":"x"}],"has_more":true,"error_message":"oops"}`), false},
	{"200 with a page", status(200, errorPage), false},
	{"200 with an empty body", status(200, ""), false},
	{"half of the text", func(ok reply) reply { ok.body = ok.body[:len(ok.body)/2]; return ok }, false},
	{"all of the text but the last character", func(ok reply) reply { ok.body = ok.body[:len(ok.body)-1]; return ok }, false},
	{"a connection lost at the start of the body", func(ok reply) reply { ok.lost = len(ok.body); return ok }, false},
	{"a connection lost within the body", func(ok reply) reply { ok.lost = len(ok.body) / 2; return ok }, false},
	{"a connection lost at the end of the body", func(ok reply) reply { ok.lost = 1; return ok }, false},
	{"a connection closed", func(ok reply) reply { ok.reset = true; return ok }, false},
	{"items of the wrong type", status(200, `{"items":{"name":"x"},"has_more":false}`), false},
	{"names of the wrong type", status(200, `{"items":[{"name":7}],"has_more":false}`), false},
	{"500 with the items", func(ok reply) reply { ok.status = 500; return ok }, false},
	{"503 with an object", status(503, `{}`), false},
	{"404 with an object", status(404, `{"items":[],"has_more":false}`), false},
	{"no answer in time", func(ok reply) reply { ok.wait = 8 * time.Second; return ok }, true},
}

func c32(r *core.Run) {
	bin = filepath.Join(r.Root, "build")
	tmp = r.Tmp()
	noCerts = filepath.Join(tmp, "none") // the folder of certificates is read in full
	must(os.MkdirAll(noCerts, 0o755))
	makeCA()
	for _, p := range []string{"contractions", "stackoverflow", "nba"} {
		if _, err := os.Stat(filepath.Join(bin, "gen-"+p)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	contractionsSpaces(r)
	soSpaces(r)
	nbaSpaces(r)
}

// oddities are what source code has to quote.
var oddities = []string{"\"", "\"}", "{\"", "\\", "\\n", "`", "'", "{{.}}", "}}", "%d", "%!", "<b>", "&amp;", "//", "/*", "*/", "$", "\u200b", "\u00e9", "e\u0301", "\U0001f600", "\ufffd", "\":\"", "};", ":", ";"}

func contractionsSpaces(r *core.Run) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	r.Explore("contractions", "the generator of contractions, in 4 situations: what it writes is the dictionary that is shipped, with every contraction in 3 cases and with both apostrophes", func(c *core.Ctx) {
		place := c.Choose(4)
		c.Describe(func() string { return fmt.Sprint("contractions, situation ", place) })
		res := run(c, "contractions", place, nil)
		if place >= folder {
			failed(c, "the file cannot be written", place, res)
			return
		}
		if res.code != 0 || res.signal != "" {
			c.Failf("exit status %d %s: %s", res.code, res.signal, h.Clip(res.stderr))
		}
		_, got, err := dictionary(res.file, "contractions")
		if err != nil {
			c.Failf("what is written is not a dictionary: %v", err)
		}
		b, err := os.ReadFile(filepath.Join(repo, "filters", "contractions", "generated.go"))
		must(err)
		_, shipped, err := dictionary(string(b), "contractions")
		if err != nil {
			c.Failf("what is shipped is not a dictionary: %v", err)
		}
		same := func(name string, a, b map[string]string) {
			for k, v := range a {
				if w, ok := b[k]; !ok || w != v {
					c.Failf("%s: %q → %q, not %q", name, k, v, w)
				}
			}
		}
		same("generated", got, shipped)
		same("shipped", shipped, got)
		want := map[string]string{}
		for k, v := range ref.ContractionBase() {
			for _, k := range []string{k, strings.ReplaceAll(k, "'", "’")} {
				want[k] = v
				want[strings.ToUpper(k)] = strings.ToUpper(v)
				want[strings.ToUpper(k[:1])+k[1:]] = strings.ToUpper(v[:1]) + v[1:]
			}
		}
		same("expected", want, got)
		same("generated", got, want)
		c.Trans(len(got))
	})
}

var plainTag = regexp.MustCompile(`^[a-z0-9.#+][a-z0-9.#+-]*$`)

func soSpaces(r *core.Run) {
	kinds := []tag{
		{Name: "python"},
		{Name: "ruby-on-rails"},
		{Name: "ruby", Synonyms: []string{"ror", "rails-3-2"}},
		{Name: "node.js", Synonyms: []string{"node-js", "nodejs", "node"}},
		{Name: "javascript", Synonyms: []string{"this", "js", "for"}},
		{Name: "combobox", Synonyms: []string{"drop-down"}},
		{Name: "discussion", Moderator: true},
		{Name: "support", Synonyms: []string{"help-me"}, Moderator: true},
		{Name: "js"},
		{Name: "datatable"},
		{Name: "for", Synonyms: []string{"for-loop"}},
		{Name: "c++", Synonyms: []string{"cpp", ".c++", "c++98"}},
		{Name: ".net-3.5"},
		{Name: "größe", Synonyms: []string{"日本-語"}},
		{Name: "help-me"},
	}
	for _, a := range core.Atoms(nil, 4) {
		if plainTag.MatchString(a) {
			kinds = append(kinds, tag{Name: a}, tag{Name: "x" + a, Synonyms: []string{a + "-1", "y" + a}}, tag{Name: "w", Synonyms: []string{a}})
		}
	}
	n := r.Pick(2, 3)
	if len(kinds) <= 15 {
		n = 3
	}
	answer := func(tags []tag) func(int, *http.Request) reply {
		return func(n int, req *http.Request) reply { return reply{status: 200, body: soPage(tags, req, nil)} }
	}
	// Requests: each page once, in order, no more than there are
	pages := func(c *core.Ctx, s *service, total int) {
		want := (total + 99) / 100
		if want < 1 {
			want = 1
		}
		if want > limit/100 {
			want = limit / 100
		}
		s.mu.Lock()
		got := s.n
		s.mu.Unlock()
		if got != want {
			c.Failf("%d requests for %d tags, expected %d", got, total, want)
		}
	}
	r.Explore("tags", fmt.Sprintf("Stack Overflow: all sequences of at most %d of %d kinds of tag, the file new or existing", n, len(kinds)), func(c *core.Ctx) {
		var tags []tag
		used := map[string]bool{}
		for i := c.Choose(n + 1); i > 0; i-- {
			t := kinds[c.Choose(len(kinds))]
			if used[t.Name] {
				c.Prune() // no tag is listed twice
			}
			used[t.Name] = true
			tags = append(tags, t)
		}
		place := len(tags) % 2
		c.Describe(func() string { return fmt.Sprintf("tags %+v", tags) })
		s := serve(answer(tags))
		res := run(c, "stackoverflow", place, s)
		want, optional := soWant(tags)
		succeeded(c, res, "stackoverflow", want, optional)
		pages(c, s, len(tags))
	})
	sizes := core.Sizes(4000, 1, 2, 30, 99, 100, 101, 199, 200, 201, 250, 999, 1000, 1001, 1900, 1901, 1999, 2000, 2001, 2500)
	r.Explore("pages", fmt.Sprintf("Stack Overflow: %v tags, and one of %d kinds at the start, the end, the end of the first page or the start of the second", sizes, len(kinds)), func(c *core.Ctx) {
		size := sizes[c.Choose(len(sizes))]
		k := kinds[c.Choose(len(kinds))]
		at := []int{0, size, 99, 100}[c.Choose(4)]
		if at > size || !r.Thorough() && size > 250 && at != size {
			c.Prune()
		}
		tags := filler(size)
		tags = append(tags[:at:at], append([]tag{k}, tags[at:]...)...)
		c.Describe(func() string { return fmt.Sprintf("%d tags, %+v at %d", len(tags), k, at) })
		s := serve(answer(tags))
		res := run(c, "stackoverflow", present, s)
		want, optional := soWant(tags)
		succeeded(c, res, "stackoverflow", want, optional)
		pages(c, s, len(tags))
	})
	r.Explore("odd tags", fmt.Sprintf("Stack Overflow: tags and synonyms with one of %d odd strings at the start, within or at the end, next to another tag: the tags, or a failure", len(oddities)), func(c *core.Ctx) {
		x := oddities[c.Choose(len(oddities))]
		name := []string{x + "a", "a" + x + "b", "a" + x}[c.Choose(3)]
		place := c.Choose(2)
		tags := []tag{{Name: "go"}, {Name: name}}
		switch c.Choose(3) {
		case 1:
			tags[1].Synonyms = []string{"x", "y-" + name}
		case 2:
			tags = []tag{{Name: "go", Synonyms: []string{name, "y" + name}}}
		}
		c.Describe(func() string { return fmt.Sprintf("tags %+v, situation %d", tags, place) })
		res := run(c, "stackoverflow", place, serve(answer(tags)))
		if res.code != 0 || res.signal != "" {
			failed(c, "odd tags", place, res)
			return
		}
		want, optional := soWant(tags)
		succeeded(c, res, "stackoverflow", want, optional)
	})
	// Tag and synonym on different pages
	r.Explore("across pages", "Stack Overflow: two of the kinds of tag on different pages", func(c *core.Ctx) {
		a, b := kinds[c.Choose(len(kinds))], kinds[c.Choose(len(kinds))]
		if a.Name == b.Name {
			c.Prune()
		}
		tags := append(append([]tag{a}, filler(120)...), b)
		c.Describe(func() string { return fmt.Sprintf("%+v and %+v", a, b) })
		s := serve(answer(tags))
		res := run(c, "stackoverflow", absent, s)
		want, optional := soWant(tags)
		succeeded(c, res, "stackoverflow", want, optional)
		pages(c, s, len(tags))
	})
	lastPages := []int{1, 2, 3, 20}
	r.Explore("failures", fmt.Sprintf("Stack Overflow: %d kinds of failure at each of the requests for up to 3 pages, and at the 20th; the file new or existing", len(faults)), func(c *core.Ctx) {
		f := faults[c.Choose(len(faults))]
		last := lastPages[c.Choose(len(lastPages))]
		at := last
		if last < 20 {
			at = 1 + c.Choose(last)
		}
		place := c.Choose(2)
		if f.slow && (at != last || place == absent) {
			c.Prune()
		}
		tags := filler(last*100 - 5)
		c.Describe(func() string { return fmt.Sprintf("%s in request %d of %d", f.name, at, last) })
		s := serve(func(n int, req *http.Request) reply {
			a := reply{status: 200, body: soPage(tags, req, nil)}
			if n >= at { // and ever after; the transport may try again
				return f.do(a)
			}
			return a
		})
		failed(c, fmt.Sprintf("%s in request %d of %d", f.name, at, last), place, run(c, "stackoverflow", place, s))
	})
	waits := r.PickInts([]int{0, 1, 2, 10, 11, 60, 86400}, []int{0, 1, 2, 3, 5, 9, 10, 11, 12, 60, 3600, 86400})
	r.Explore("back off", fmt.Sprintf("Stack Overflow: told to wait %v seconds, at the first, second or last of 3 requests: it waits, or fails if that is more than 10", waits), func(c *core.Ctx) {
		w := waits[c.Choose(len(waits))]
		at := 1 + c.Choose(3)
		if w == 10 && at == 2 {
			c.Prune()
		}
		tags := filler(250)
		c.Describe(func() string { return fmt.Sprintf("told to wait %d seconds in request %d of 3", w, at) })
		s := serve(func(n int, req *http.Request) reply {
			var more map[string]interface{}
			if n == at {
				more = map[string]interface{}{"backoff": w}
			}
			return reply{status: 200, body: soPage(tags, req, more)}
		})
		res := run(c, "stackoverflow", present, s)
		if w > 10 && at < 3 {
			failed(c, fmt.Sprintf("told to wait %d seconds", w), present, res)
			if s.n != at {
				c.Failf("told to wait %d seconds in request %d, but makes %d", w, at, s.n)
			}
			return
		}
		if w > 10 && res.code != 0 {
			// There is nothing left to ask for, but it may heed it
			failed(c, "told to wait at the end", present, res)
			return
		}
		want, optional := soWant(tags)
		succeeded(c, res, "stackoverflow", want, optional)
		pages(c, s, len(tags))
		if at < 3 && s.n > at {
			if d := s.times[at].Sub(s.sent[at-1]); d < time.Duration(w)*time.Second-20*time.Millisecond {
				c.Failf("told to wait %d seconds, asks again after %v", w, d)
			}
		}
	})
	r.Explore("unwritable", "Stack Overflow: the file cannot be created, or written, with 1 to 250 tags", func(c *core.Ctx) {
		place := folder + c.Choose(2)
		size := []int{1, 10, 250}[c.Choose(3)]
		c.Describe(func() string { return fmt.Sprintf("%d tags, situation %d", size, place) })
		failed(c, "the file cannot be written", place, run(c, "stackoverflow", place, serve(answer(filler(size)))))
	})
}

// ---- NBA

type player struct {
	cell string // last, first
	name string // first last, or "" if it is not a name
}

func nbaPage(tables [][]player, layout int) string {
	var b strings.Builder
	b.WriteString("<!DOCTYPE html>\n<html><head><title>List of current NBA team rosters</title></head><body><p><a href='x'>Intro, An</a></p>\n<table class='wikitable'><tbody><tr><td>1</td><td>2</td><td><a>Not, One</a></td></tr></tbody></table>\n")
	for _, t := range tables {
		b.WriteString("<table class=\"toccolours\" style=\"x\"><tbody><tr><th>Roster</th></tr><tr><td>\n<table class=\"sortable\"><tbody>\n<tr><th>Pos.</th><th>No.</th><th><a href='y'>Name, The</a></th></tr>\n")
		for i, p := range t {
			cell := html.EscapeString(p.cell)
			if layout == 2 {
				cell = strings.NewReplacer("é", "&eacute;", "ć", "&#263;", "'", "&#39;").Replace(p.cell)
			}
			pos := "G"
			if layout == 1 {
				pos = "<a href='g'>Guard, Point</a>"
			}
			fmt.Fprintf(&b, "<tr><td>%s</td><td>%d</td><td><a href=\"/wiki/x\" title=\"x\">%s</a>%s</td><td><a href='z'>Col, Lege</a></td></tr>\n", pos, i, cell, []string{"", " (TW)", "&#160;<small>(C)</small>"}[layout%3])
		}
		b.WriteString("</tbody></table></td><td><ul><li><a>Coach, A</a></li></ul></td></tr></tbody></table>\n")
	}
	b.WriteString("</body></html>\n")
	return b.String()
}

func nbaSpaces(r *core.Run) {
	kinds := []player{
		{"James, LeBron", "LeBron James"},
		{"Luwawu-Cabarrot, Timothé", "Timothé Luwawu-Cabarrot"},
		{"Jokić, Nikola", "Nikola Jokić"},
		{"O'Neale, Royce", "Royce O'Neale"},
		{"Barea, J. J.", "J. J. Barea"},
		{" Zeller , Cody ", "Cody Zeller"},
		{"Šarić,Dario", "Dario Šarić"},
		{"Curry, Seth", "Seth Curry"},
		{"Schröder, Dennis", "Dennis Schröder"},
		{"Yao, 明", "明 Yao"},
		{"Weiß, Jens", "Jens Weiß"},
		{"Sæther, Åge", "Åge Sæther"},
		{"James,\u00a0LeBron\u00a0", "LeBron James"},
		{"\n\tGreen,\tDraymond\n", "Draymond Green"},
		{"Nenê", ""},
		{"Oubre, Kelly, Jr.", ""},
	}
	for _, a := range core.Atoms(nil, 3) {
		if plainTag.MatchString(a) {
			kinds = append(kinds, player{a + ", Xx", "Xx " + a}, player{"Yy, " + a, a + " Yy"})
		}
	}
	expect := func(tables [][]player) (map[string]map[string]bool, bool) {
		want := map[string]map[string]bool{}
		for _, t := range tables {
			for _, p := range t {
				if p.name == "" {
					return nil, false
				}
				put(want, p.name, p.name)
				fold, _ := ref.Fold(p.name)
				put(want, fold, p.name)
			}
		}
		return want, true
	}
	check := func(c *core.Ctx, tables [][]player, layout int) {
		page := nbaPage(tables, layout)
		s := serve(func(n int, r *http.Request) reply {
			if r.Host != "en.wikipedia.org" || r.URL.Path != "/wiki/List_of_current_NBA_team_rosters" {
				return reply{status: 404, body: errorPage}
			}
			return reply{status: 200, body: page}
		})
		res := run(c, "nba", present, s)
		want, ok := expect(tables)
		if !ok {
			failed(c, "a name that is not in two parts", present, res)
			return
		}
		succeeded(c, res, "nba", want, nil)
	}
	r.Explore("odd players", fmt.Sprintf("NBA: 1 to 2 names with one of %d odd strings at the start, within or at the end: the names, or a failure", len(oddities)), func(c *core.Ctx) {
		x := oddities[c.Choose(len(oddities))]
		name := []string{x + "a", "a" + x + "b", "a" + x}[c.Choose(3)]
		place := c.Choose(2)
		ps := []player{{"Green, " + name, name + " Green"}}
		if c.Bool() {
			ps = append(ps, player{name + ", Al", "Al " + name})
		}
		c.Describe(func() string { return fmt.Sprintf("players %+v, situation %d", ps, place) })
		page := nbaPage([][]player{ps}, 0)
		res := run(c, "nba", place, serve(func(int, *http.Request) reply { return reply{status: 200, body: page} }))
		if res.code != 0 || res.signal != "" {
			failed(c, "odd players", place, res)
			return
		}
		want, _ := expect([][]player{ps})
		succeeded(c, res, "nba", want, nil)
	})
	n := 3
	if len(kinds) > 16 && !r.Thorough() {
		n = 2
	}
	r.Explore("players", fmt.Sprintf("NBA: all sequences of 1 to %d of %d kinds of name, in one table or each in its own, in 3 layouts", n, len(kinds)), func(c *core.Ctx) {
		k := 1 + c.Choose(n)
		layout := c.Choose(3)
		each := k > 1 && c.Bool()
		tables := [][]player{nil}
		for i := 0; i < k; i++ {
			if i > 0 && each {
				tables = append(tables, nil)
			}
			p := kinds[c.Choose(len(kinds))]
			tables[len(tables)-1] = append(tables[len(tables)-1], p)
		}
		c.Describe(func() string { return fmt.Sprintf("players %+v, layout %d", tables, layout) })
		check(c, tables, layout)
	})
	sizes := core.Sizes(2000, 1, 15, 16, 17, 30, 31, 100, 255, 256, 450, 1000)
	r.Explore("rosters", fmt.Sprintf("NBA: %v players, in tables of 1, 15 or all", sizes), func(c *core.Ctx) {
		size := sizes[c.Choose(len(sizes))]
		per := []int{1, 15, size}[c.Choose(3)]
		var tables [][]player
		for i := 0; i < size; i++ {
			if i%per == 0 {
				tables = append(tables, nil)
			}
			last := fmt.Sprintf("Last%d", i)
			if i%5 == 0 {
				last += "é"
			}
			tables[len(tables)-1] = append(tables[len(tables)-1], player{last + ", First", "First " + last})
		}
		c.Describe(func() string { return fmt.Sprintf("%d players in %d tables", size, len(tables)) })
		check(c, tables, size%3)
	})
	fs := []fault{
		{"404", status(404, errorPage), false},
		{"404 with the page", func(ok reply) reply { ok.status = 404; return ok }, false},
		{"500 with the page", func(ok reply) reply { ok.status = 500; return ok }, false},
		{"503", status(503, ""), false},
		{"429", status(429, "too many requests"), false},
		{"403", status(403, errorPage), false},
		{"a connection lost at the start of the body", func(ok reply) reply { ok.lost = len(ok.body); return ok }, false},
		{"a connection lost within the body", func(ok reply) reply { ok.lost = len(ok.body) / 2; return ok }, false},
		{"a connection lost at the end of the body", func(ok reply) reply { ok.lost = 1; return ok }, false},
		{"a connection closed", func(ok reply) reply { ok.reset = true; return ok }, false},
	}
	r.Explore("nba failures", fmt.Sprintf("NBA: %d kinds of failure, for rosters of 1, 15 and 450; the file new or existing; also one that cannot be created or written", len(fs)), func(c *core.Ctx) {
		k := c.Choose(len(fs) + 1)
		size := []int{1, 15, 450}[c.Choose(3)]
		place := c.Choose(2)
		what := "the file cannot be written"
		var ps []player
		for i := 0; i < size; i++ {
			ps = append(ps, player{fmt.Sprintf("Last%d, First", i), ""})
		}
		page := nbaPage([][]player{ps}, 0)
		do := func(a reply) reply { return a }
		if k < len(fs) {
			do, what = fs[k].do, fs[k].name
		} else {
			place += folder
		}
		c.Describe(func() string { return fmt.Sprintf("%s, %d players, situation %d", what, size, place) })
		failed(c, what, place, run(c, "nba", place, serve(func(int, *http.Request) reply { return do(reply{status: 200, body: page}) })))
	})
}
