GEN_SH='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/filters/PKG/generate/zz_demo_test.go":"'"$D"'/main_test.go"}}' >"$T/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run TestDemo ./filters/PKG/generate
'''
GEN_GO='''package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = errors.New
var _ = time.Now
var _ = strconv.Itoa
var _ = json.Marshal

type rt func(*http.Request) (int, string, error)

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) {
	code, body, err := f(r)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Body: io.NopCloser(strings.NewReader(body)), Header: http.Header{}, Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
}

type tag struct {
	Name      string   `json:"name"`
	Synonyms  []string `json:"synonyms,omitempty"`
	Moderator bool     `json:"is_moderator_only"`
}

// page gives the tags of the page asked for
func page(r *http.Request, tags []tag, backoff int) string {
	q := r.URL.Query()
	n, _ := strconv.Atoi(q.Get("page"))
	size, _ := strconv.Atoi(q.Get("pagesize"))
	lo, hi := (n-1)*size, n*size
	if lo > len(tags) {
		lo = len(tags)
	}
	if hi > len(tags) {
		hi = len(tags)
	}
	b, _ := json.Marshal(map[string]interface{}{"items": tags[lo:hi], "has_more": hi < len(tags), "backoff": backoff})
	return string(b)
}

func filler(n int) (out []tag) {
	for i := 0; i < n; i++ {
		out = append(out, tag{Name: fmt.Sprint("t", i)})
	}
	return out
}

var dir string

// generate runs the program in a folder of its own, in another process
func generate(t *testing.T, existing string) (string, error) {
	dir = t.TempDir()
	if existing != "" {
		os.WriteFile(dir+"/generated.go", []byte(existing), 0o644)
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-test.run", "^TestDemo$")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "DEMO=1")
	out, err := cmd.CombinedOutput()
	t.Logf("%.300s", out)
	b, _ := os.ReadFile(dir + "/generated.go")
	return string(b), err
}

var white = regexp.MustCompile(`\\\\s+`)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO") != "" {
		http.DefaultTransport = rt(service)
		main()
		return
	}
	demo(t)
}

'''.replace('\\\\s','\\s')
def G(id,edits,needs,what,body,pkg='stackoverflow'):
    B(id,'C32',edits,needs,what,{'main_test.go':GEN_GO+body,'demo.sh':GEN_SH.replace('PKG',pkg)})
SO='filters/stackoverflow/generate/main.go'
NBA='filters/nba/generate/main.go'
G('C32-seen',[(SO,'''				for _, synonym := range filtered {
					seen[synonym] = true
				}

				// Comma''','''				unseen := filtered[:0]
				for _, synonym := range filtered {
					if !seen[synonym] {
						seen[synonym] = true
						unseen = append(unseen, synonym)
					}
				}
				if len(unseen) == 0 {
					continue
				}
				filtered = unseen

				// Comma'''),(SO,'''				mappings[synonym] = canonical
			}''','''				seen[synonym] = true
				mappings[synonym] = canonical
			}''')],'a tag on one page that is a synonym of a tag on a later page','the synonym is missing from the dictionary for its canonical tag','''
func service(r *http.Request) (int, string, error) {
	tags := append([]tag{{Name: "rails"}}, filler(150)...)
	tags = append(tags, tag{Name: "ruby-on-rails", Synonyms: []string{"rails", "ror"}})
	return 200, page(r, tags, 0), nil
}

func demo(t *testing.T) {
	s, err := generate(t, "")
	if m := regexp.MustCompile(`"rails, ror":\\s*"ruby-on-rails"`).FindString(s); err != nil || m == "" {
		t.Error(err, "rails is missing")
	}
}
''')
G('C32-sixty',[(SO,'pageSize := 100\n','pageSize := 60 // smaller responses, to fit the timeout\n')],'more than 1980 tags','tags 1981 to 2000 are missing from the dictionary','''
func service(r *http.Request) (int, string, error) {
	return 200, page(r, filler(2500), 0), nil
}

func demo(t *testing.T) {
	s, err := generate(t, "")
	if err != nil || !strings.Contains(s, "\\"t1999\\"") {
		t.Error(err, "t1999 is missing")
	}
}
''')
G('C32-cap',[(SO,'''				backoff := time.Duration(wrapper.Backoff) * time.Second
''','''				backoff := client.Timeout
				if wait := time.Duration(wrapper.Backoff) * time.Second; wait < backoff {
					backoff = wait
				}
''')],'the service asks to wait between 4 and 10 seconds','it asks again too early','''
func service(r *http.Request) (int, string, error) {
	const f = "time"
	if b, err := os.ReadFile(f); err == nil {
		var then time.Time
		then.UnmarshalText(b)
		if time.Since(then) < 5900*time.Millisecond {
			return 502, `{"error_name":"throttle_violation","error_message":"too early"}`, nil
		}
		return 200, page(r, filler(150), 0), nil
	}
	b, _ := time.Now().MarshalText()
	os.WriteFile(f, b, 0o644)
	return 200, page(r, filler(150), 6), nil
}

func demo(t *testing.T) {
	if _, err := generate(t, ""); err != nil {
		t.Error(err)
	}
}
''')
G('C32-partial',[(SO,'''			wrapper, err := fetchTags(page, pageSize, site)
			if err != nil {
				return err
			}
''','''			wrapper, err := fetchTags(page, pageSize, site)
			if err != nil {
				if len(mappings) <= pageSize {
					return fmt.Errorf("page %d: %w", page, err)
				}
				// Don't throw away what we have
				log.Printf("page %d: %v", page, err)
				break
			}
''')],'a failure of the service at the second page or later, when there are synonyms','an incomplete dictionary replaces the existing one, and success is reported','''
func service(r *http.Request) (int, string, error) {
	tags := filler(350)
	for i := range tags {
		tags[i].Synonyms = []string{fmt.Sprint("s", i)}
	}
	if r.URL.Query().Get("page") == "3" {
		return 0, "", errors.New("connection reset")
	}
	return 200, page(r, tags, 0), nil
}

func demo(t *testing.T) {
	s, err := generate(t, "package stackoverflow\\n")
	if err == nil || s != "package stackoverflow\\n" {
		t.Error("replaced: ", len(s), err)
	}
}
''')
G('C32-create',[(SO,'''	var source bytes.Buffer

	tmplErr''','''	f, createErr := os.Create("generated.go")
	if createErr != nil {
		return createErr
	}
	defer f.Close()

	var source bytes.Buffer

	tmplErr'''),(SO,'''	f, createErr := os.Create("generated.go")
	if createErr != nil {
		return createErr
	}
	defer f.Close()

	_, writeErr''','''	_, writeErr''')],'a tag that makes the source invalid, e.g. with a quote and a brace','the existing dictionary is emptied, though the program fails','''
func service(r *http.Request) (int, string, error) {
	return 200, page(r, []tag{{Name: "go"}, {Name: `x"}y`}}, 0), nil
}

func demo(t *testing.T) {
	s, err := generate(t, "package stackoverflow\\n")
	if err == nil && !strings.Contains(s, `x\\"}y`) || err != nil && s != "package stackoverflow\\n" {
		t.Errorf("%q %v", s, err)
	}
}
''')
ROSTER='''
func roster(cells ...string) string {
	s := "<html><body><table class='toccolours'><tbody><tr><td><table class='sortable'><tbody>"
	for _, c := range cells {
		s += "<tr><td>G</td><td>1</td><td><a href='x'>" + c + "</a></td></tr>"
	}
	return s + "</tbody></table></td></tr></tbody></table></body></html>"
}
'''
G('C32-fold',[(NBA,'''		fold, folded := ascii.FoldString(canonical)
		if folded {''','''		fold, _ := ascii.FoldString(canonical)
		if len(fold) != len(canonical) {''')],'a name whose folded form has as many bytes, e.g. with ß or æ','the folded form is missing','''
func service(r *http.Request) (int, string, error) {
	return 200, roster("Jokić, Nikola", "Weiß, Jens"), nil
}
'''+ROSTER+'''
func demo(t *testing.T) {
	s, err := generate(t, "")
	if err != nil || !strings.Contains(s, "Jens Weiss") {
		t.Error(s, err)
	}
}
''','nba')
G('C32-nbsp',[(NBA,'strings.TrimSpace(split[1]) + " " + strings.TrimSpace(split[0])','strings.Trim(split[1], " \\n") + " " + strings.Trim(split[0], " \\n")')],'a name with a non-breaking space after the comma, as in the source of many pages','the space is part of the name','''
func service(r *http.Request) (int, string, error) {
	return 200, roster("Jokić, Nikola", "James,&nbsp;LeBron"), nil
}
'''+ROSTER+'''
func demo(t *testing.T) {
	s, err := generate(t, "")
	if err != nil || !strings.Contains(s, "\\"LeBron James\\"") {
		t.Error(s, err)
	}
}
''','nba')
G('C32-two',[(NBA,'''		if len(split) != 2 {''','''		if len(split) < 2 {''')],'a name in three parts','the third part is dropped silently','''
func service(r *http.Request) (int, string, error) {
	return 200, roster("Jokić, Nikola", "Oubre, Kelly, Jr."), nil
}
'''+ROSTER+'''
func demo(t *testing.T) {
	s, err := generate(t, "package nba\\n")
	if err == nil || s != "package nba\\n" {
		t.Error(s, err)
	}
}
''','nba')
