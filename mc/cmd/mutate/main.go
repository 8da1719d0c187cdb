// Command mutate lists small changes of Go files, one JSON object per line: file, start, end, text. For development.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string
	Line       int
	Start, End int
	Old, New   string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, s string) {
			enc.Encode(mut{name, fs.Position(a).Line, off(a), off(b), string(src[off(a):off(b)]), s})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		del := func(s ast.Stmt) {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				emit(s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(s.Pos(), s.End(), "")
				} else {
					var u string
					for _, l := range x.Lhs {
						u += "; _ = " + text(l)
					}
					_ = u
				}
			case *ast.BranchStmt:
				emit(s.Pos(), s.End(), "")
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
				emit(s.Pos(), s.End(), "")
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit(s.Pos(), s.End(), "")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
				}[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X))
					emit(x.Pos(), x.End(), text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X))
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				if x.Else != nil {
					emit(x.Body.End(), x.Else.End(), "")
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "false && "+text(x.Cond))
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s)
				}
				if len(x.List) > 1 && !strings.Contains(name, "fold.go") {
					for i, e := range x.List {
						if i > 0 {
							emit(x.List[i-1].End(), e.End(), "")
						}
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1))
						emit(x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				case token.STRING:
					if len(x.Value) > 2 {
						emit(x.Pos(), x.End(), `""`)
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
					}
				case token.CHAR:
					emit(x.Pos(), x.End(), `'~'`)
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true")
				}
			case *ast.ReturnStmt:
				for _, e := range x.Results {
					t := text(e)
					switch {
					case t == "err" || strings.HasSuffix(t, ".Err()") || strings.HasSuffix(t, ".err"):
						emit(e.Pos(), e.End(), "nil")
					case t == "nil" || t == "true" || t == "false":
					default:
						emit(e.Pos(), e.End(), "nil")
					}
				}
			case *ast.CallExpr:
				for i, e := range x.Args {
					for j := i + 1; j < len(x.Args); j++ {
						emit(e.Pos(), x.Args[j].End(), text(x.Args[j])+string(src[off(e.End()):off(x.Args[j].Pos())])+text(e))
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
					emit(x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), text(x.High)+"-1")
					emit(x.High.Pos(), x.High.End(), "")
				}
			}
			return true
		})
	}
}
