package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/h"
	"verif/mc/ref"
)

// agree fails unless all processes gave the same.
func agree(c *core.Ctx, what string, outs []string) {
	for k, o := range outs {
		c.Step(core.HashInt(core.Hash(what, o), k))
		if o != outs[0] {
			j := 0
			for j < len(o) && j < len(outs[0]) && o[j] == outs[0][j] {
				j++
			}
			c.Failf("%s: process %d gives, from offset %d, %s, but process 0 %s", what, k, j, h.Clip(o[j:]), h.Clip(outs[0][j:]))
		}
	}
	c.Outcome(core.Hash(outs[0]))
}

func programs(r *core.Run) {
	program := filepath.Join(r.Root, "build", "jargon-order")
	if _, err := os.Stat(program); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	names := []string{"", "-ascii", "-contractions", "-stack", "-stem", "-lemmas", "-distinct"}
	modes := [][]string{nil, {"-lines"}, {"-count"}}
	r.Explore("command line", "every sequence of up to 2 of the 6 filters, plain text or HTML, 3 output modes, language given or not, each run in 8 processes", func(c *core.Ctx) {
		var args []string
		a, b := names[c.Choose(len(names))], names[c.Choose(len(names))]
		if a == "" && b != "" {
			c.Prune()
		}
		for _, x := range []string{a, b} {
			if x != "" {
				args = append(args, x)
			}
		}
		text := strings.Join(texts[:3], "\n")
		if c.Bool() {
			args = append(args, "-html")
			text = texts[3] + texts[0]
		}
		args = append(args, modes[c.Choose(len(modes))]...)
		if (a == "-stem" || b == "-stem") && c.Bool() {
			args = append(args, "-lang", "french")
		}
		c.Describe(func() string { return fmt.Sprintf("jargon %q", args) })
		var outs []string
		for k := 0; k < workers; k++ {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			cmd := exec.CommandContext(ctx, program, args...)
			cmd.Dir = r.Tmp()
			cmd.Env = environment(k)
			cmd.Stdin = strings.NewReader(text)
			var out, errs bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errs
			err := cmd.Run()
			if ctx.Err() != nil {
				cancel()
				c.Failf("%q does not finish", args)
			}
			cancel()
			outs = append(outs, fmt.Sprint(out.String(), " ", err, " ", errs.Len() > 0))
		}
		agree(c, fmt.Sprintf("%q", args), outs)
	})
}

func services(r *core.Run) {
	if r.Stopped() {
		return
	}
	program := filepath.Join(r.Root, "build", "web-order")
	var addrs []string
	for k := 0; k < workers; k++ {
		addrs = append(addrs, serve(r, program, k))
	}
	client := &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
	ts := core.Atoms(texts, 6)
	terms := ref.Terms()
	for i := 0; i < len(terms); i += 200 {
		j := i + 200
		if j > len(terms) {
			j = len(terms)
		}
		ts = append(ts, strings.Join(terms[i:j], "; "))
	}
	paths := []string{"/text", "/html", "/text/x", "/other", "/"}
	r.Explore("web service", fmt.Sprintf("%d bodies (all terms of the dictionaries among them), and every pair of %d one after another, to %d paths of 8 servers", len(ts), len(texts), len(paths)), func(c *core.Ctx) {
		path := paths[c.Choose(len(paths))]
		n := c.Choose(2) + 1
		for i := 0; i < n; i++ {
			m := len(ts)
			if n > 1 {
				m = len(texts)
			}
			body := ts[c.Choose(m)]
			if i == 0 {
				c.Describe(func() string { return fmt.Sprintf("POST %s %s", path, h.Clip(body)) })
			}
			var outs []string
			for _, a := range addrs {
				resp, err := client.Post("http://"+a+path, "text/plain", strings.NewReader(body))
				if err != nil {
					c.Failf("POST %s: %v", path, err)
				}
				b, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				outs = append(outs, fmt.Sprint(resp.StatusCode, " ", string(b), " ", err, " ", resp.Header.Get("Content-Type"), resp.Header.Get("Access-Control-Allow-Origin")))
			}
			agree(c, "POST "+path, outs)
		}
	})
}

func serve(r *core.Run, program string, k int) string {
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		cmd := exec.Command(program)
		cmd.Env = append(environment(k), fmt.Sprintf("PORT=%d", port), "GOTRACEBACK=none")
		cmd.Dir = r.Tmp()
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.Note(cmd.Process.Pid)
		ended := make(chan struct{})
		go func() { cmd.Wait(); close(ended) }()
		a := fmt.Sprintf("127.0.0.1:%d", port)
		for i := 0; i < 300; i++ {
			select {
			case <-ended:
				i = 300
				continue
			case <-time.After(30 * time.Millisecond):
			}
			if c, err := net.DialTimeout("tcp", a, time.Second); err == nil {
				c.Close()
				return a
			}
		}
		cmd.Process.Kill()
	}
	fmt.Fprintln(os.Stderr, "the server does not start")
	os.Exit(2)
	return ""
}
