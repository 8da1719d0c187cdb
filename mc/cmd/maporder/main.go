// Command maporder writes a copy of the runtime's map iterator, in which the environment variable JARGON_MC_ORDER (0 to 7), if
// set, decides where an iteration starts, and an overlay file to build with it.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const was = "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n"
const is = "\tit.entryOffset = mcOrder()\n\tit.dirOffset = it.entryOffset\n"
const more = `
//go:linkname gogetenv runtime.gogetenv
func gogetenv(key string) string

var mcState uint64

func mcOrder() uint64 {
	if mcState == 0 {
		n := uint64(1)
		if s := gogetenv("JARGON_MC_ORDER"); len(s) == 1 {
			n = 2 + uint64(s[0]-'0')
		}
		mcState = n
	}
	if mcState == 1 {
		return rand()
	}
	return (mcState - 2) * (1 + 8*73)
}
`

func main() {
	out, _ := filepath.Abs(os.Args[1])
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	file := filepath.Join(strings.TrimSpace(string(b)), "src/internal/runtime/maps/table.go")
	b, err = os.ReadFile(file)
	if err != nil || strings.Count(string(b), was) != 1 {
		fmt.Fprintln(os.Stderr, "not the runtime expected", err)
		os.Exit(2)
	}
	s := strings.Replace(string(b), was, is, 1) + more
	if err := os.WriteFile(filepath.Join(out, "table.go"), []byte(s), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	j, _ := json.Marshal(map[string]map[string]string{"Replace": {file: filepath.Join(out, "table.go")}})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
