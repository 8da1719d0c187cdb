package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// exitAgain asks for another run with one execution at a time.
const exitAgain = 77

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<19:]...)
	}
	return len(p), nil
}

// supervise runs the check in a child process, so that a crash of the code under test which Go cannot recover from (stack
// overflow, concurrent map access, deadlock) still gives an answer. It does not return.
func supervise(r *Run) {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "jargon-mc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	exit := func(code int) {
		cleanup(tmp)
		os.Exit(code)
	}
	run := func(env ...string) (int, string) {
		var out bytes.Buffer
		errs := &tail{}
		cmd := exec.Command(self, os.Args[1:]...)
		cmd.Env = append(append(os.Environ(), "MC_CHILD=1", "MC_TMP="+tmp), env...)
		cmd.Stdout, cmd.Stderr = &out, errs
		err := cmd.Run()
		os.Stderr.Write(errs.b)
		code := 0
		if err != nil {
			code = 2
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
				code = ee.ExitCode()
			}
		}
		if code == 0 || code == 1 {
			os.Stdout.Write(out.Bytes())
			exit(code)
		}
		return code, string(errs.b)
	}
	_, text := run()
	fmt.Fprintln(os.Stderr, "again, with one execution at a time")
	_, text = run("MC_SERIAL=1")
	if i := strings.Index(text, "fatal error: "); i >= 0 && !strings.Contains(text, "cannot allocate memory") {
		text = text[i:]
		what := "the process crashes: " + strings.SplitN(text, "\n", 2)[0] + "\n" + trimStack(text)
		v := Violation{Property: r.Prop, Tier: r.Tier, Space: "crash", What: what}
		dir := filepath.Join(r.Root, "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, r.Prop+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		ev := map[string]interface{}{
			"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "model_checking", "coverage": map[string]interface{}{
				"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": []string{what}, "exhaustive": false},
			"assumptions": []string{}, "wall_s": 0.0, "violations": 1,
		}
		b, _ = json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
		os.WriteFile(filepath.Join(r.Root, "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
		fmt.Println(what)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
		exit(1)
	}
	exit(2)
}

// cleanup ends the processes that a check noted in its scratch directory, and removes it.
func cleanup(tmp string) {
	fs, _ := filepath.Glob(filepath.Join(tmp, "pid.*"))
	for _, f := range fs {
		var pid int
		if n, _ := fmt.Sscanf(filepath.Ext(f), ".%d", &pid); n == 1 && pid > 1 {
			if p, err := os.FindProcess(pid); err == nil {
				p.Kill()
			}
		}
	}
	os.RemoveAll(tmp)
}

// Tmp is a scratch directory which is removed at the end of the check.
func (r *Run) Tmp() string { return os.Getenv("MC_TMP") }

// Note records a process that has to be ended at the end of the check.
func (r *Run) Note(pid int) {
	os.WriteFile(filepath.Join(r.Tmp(), fmt.Sprintf("pid.%d", pid)), nil, 0o644)
}
