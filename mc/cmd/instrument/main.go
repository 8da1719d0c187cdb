// Command instrument writes copies of the library packages with a scheduling point before every statement, and with
// package sync replaced, and an overlay file to build with them. It prints which constructs it cannot control, if any.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insert struct {
	at   int
	del  int
	text string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	pkg := "vsched" // or what else provides P
	if len(os.Args) > 3 {
		pkg = os.Args[3]
	}
	over := map[string]string{}
	var odd []string
	points := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			switch {
			case rel == "cmd", rel == "web", rel == ".git", fi.Name() == "testdata":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var ins []insert
		n := 0
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				ins = append(ins, insert{at: off(s.Pos()), text: pkg + ".P(); "})
				n++
			}
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.FuncDecl)
			if ok && g.Recv == nil && g.Name.Name == "init" {
				continue
			}
			ast.Inspect(d, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.BlockStmt:
					list(y.List)
				case *ast.CaseClause:
					list(y.Body)
				case *ast.CommClause:
					list(y.Body)
					odd = append(odd, fmt.Sprintf("%s: select", fset.Position(y.Pos())))
				case *ast.GoStmt:
					odd = append(odd, fmt.Sprintf("%s: go", fset.Position(y.Pos())))
				case *ast.SendStmt:
					odd = append(odd, fmt.Sprintf("%s: send", fset.Position(y.Pos())))
				case *ast.ChanType:
					odd = append(odd, fmt.Sprintf("%s: channel", fset.Position(y.Pos())))
				case *ast.UnaryExpr:
					if y.Op == token.ARROW {
						odd = append(odd, fmt.Sprintf("%s: receive", fset.Position(y.Pos())))
					}
				}
				return true
			})
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` && pkg == "vsched" {
				t := `"verif/mc/vsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				ins = append(ins, insert{at: off(im.Path.Pos()), del: len(im.Path.Value), text: t})
			}
		}
		if len(ins) == 0 {
			return nil
		}
		// Switch statements: clauses are in a block too, where no statement may go before them
		clause := map[int]bool{}
		ast.Inspect(f, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.CaseClause:
				clause[off(y.Pos())] = true
			case *ast.CommClause:
				clause[off(y.Pos())] = true
			}
			return true
		})
		if n > 0 {
			ins = append(ins, insert{at: off(f.Name.End()), text: fmt.Sprintf(`; import %s "verif/mc/%s"`, pkg, pkg)})
		}
		sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
		var b strings.Builder
		at := 0
		used := map[int]bool{}
		for _, i := range ins {
			if clause[i.at] || used[i.at] && i.del == 0 {
				continue
			}
			used[i.at] = true
			b.Write(src[at:i.at])
			b.WriteString(i.text)
			at = i.at + i.del
			points++
		}
		b.Write(src[at:])
		dst := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		over[p] = dst
		return os.WriteFile(dst, []byte(b.String()), 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": over}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.WriteFile(filepath.Join(out, "odd.txt"), []byte(strings.Join(odd, "\n")), 0o644)
	fmt.Fprintf(os.Stderr, "%d files, %d points, %d constructs not controlled\n", len(over), points, len(odd))
}
