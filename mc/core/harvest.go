package core

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Literals per file: literal (as "r:<rune>", "s:<string>", "i:<int>") to number of occurrences.
type Literals map[string]map[string]int

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func constInt(e ast.Expr) (int64, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT {
			v, err := strconv.ParseInt(x.Value, 0, 64)
			return v, err == nil
		}
	case *ast.ParenExpr:
		return constInt(x.X)
	case *ast.BinaryExpr:
		a, ok1 := constInt(x.X)
		b, ok2 := constInt(x.Y)
		if ok1 && ok2 {
			switch x.Op {
			case token.MUL:
				if a != 0 && b > math.MaxInt32/(a+1) {
					return 0, false
				}
				return a * b, true
			case token.SHL:
				if b < 40 {
					return a << uint(b), true
				}
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			}
		}
	}
	return 0, false
}

// knownInts are sizes that have a name.
var knownInts = map[string]int{
	"math.MaxInt8": math.MaxInt8, "math.MaxUint8": math.MaxUint8, "math.MaxInt16": math.MaxInt16, "math.MaxUint16": math.MaxUint16,
	"bufio.MaxScanTokenSize": 64 * 1024, "bytes.MinRead": 512, "utf8.UTFMax": 4, "utf8.RuneSelf": 0x80,
	"unicode.MaxASCII": 0x7f, "unicode.MaxLatin1": 0xff, "http.DefaultMaxHeaderBytes": 1 << 20,
}

// knownRunes are characters of a class that has a name, e.g. unicode.Han or unicode.IsTitle.
func knownRunes(name string) []rune {
	switch name {
	case "unicode.IsUpper":
		return []rune("É")
	case "unicode.IsLower":
		return []rune("é")
	case "unicode.IsTitle", "unicode.ToTitle":
		return []rune("ǅ")
	case "unicode.IsDigit":
		return []rune("7٣")
	case "unicode.IsNumber":
		return []rune("7½Ⅷ")
	case "unicode.IsLetter":
		return []rune("é中ª")
	case "unicode.IsMark":
		return []rune("\u0301")
	case "unicode.IsSymbol":
		return []rune("€+")
	case "unicode.IsPunct":
		return []rune("“_")
	case "unicode.IsSpace":
		return []rune("\u2003\u0085")
	case "unicode.IsControl":
		return []rune("\x01\x7f")
	case "unicode.IsPrint", "unicode.IsGraphic":
		return []rune("\u200b\u00a0")
	case "unicode.ToUpper", "unicode.ToLower", "unicode.SimpleFold":
		return []rune("İſ")
	case "unicode.ReplacementChar", "utf8.RuneError":
		return []rune("\ufffd")
	case "unicode.MaxRune", "utf8.MaxRune":
		return []rune("\U0010ffff")
	}
	if !strings.HasPrefix(name, "unicode.") {
		return nil
	}
	name = name[8:]
	for _, tables := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		if t := tables[name]; t != nil {
			if len(t.R16) > 0 {
				return []rune{rune(t.R16[0].Lo), rune(t.R16[len(t.R16)-1].Hi)}
			}
			if len(t.R32) > 0 {
				return []rune{rune(t.R32[0].Lo)}
			}
		}
	}
	return nil
}

// constBytes is the text of a literal list of bytes or runes.
func constBytes(x *ast.CompositeLit) (string, bool) {
	a, ok := x.Type.(*ast.ArrayType)
	if !ok {
		return "", false
	}
	id, ok := a.Elt.(*ast.Ident)
	if !ok || id.Name != "byte" && id.Name != "rune" {
		return "", false
	}
	var b strings.Builder
	for _, e := range x.Elts {
		l, ok := e.(*ast.BasicLit)
		if !ok {
			return "", false
		}
		var v int64
		if l.Kind == token.CHAR {
			s, err := strconv.Unquote(l.Value)
			if err != nil {
				return "", false
			}
			v = int64([]rune(s)[0])
		} else if n, ok := constInt(l); ok {
			v = n
		} else {
			return "", false
		}
		if id.Name == "byte" {
			b.WriteByte(byte(v))
		} else {
			b.WriteRune(rune(v))
		}
	}
	return b.String(), true
}

// Harvest collects the literals of all non-test Go files under the repository.
func Harvest() Literals {
	res := Literals{}
	root := repoRoot()
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m := map[string]int{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.SelectorExpr:
				if q, ok := x.X.(*ast.Ident); ok {
					name := q.Name + "." + x.Sel.Name
					if v, ok := knownInts[name]; ok {
						m["i:"+strconv.Itoa(v)]++
					}
					for _, r := range knownRunes(name) {
						m["r:"+string(r)]++
					}
				}
			case *ast.CompositeLit:
				if s, ok := constBytes(x); ok && s != "" && len(s) <= 64 {
					m["s:"+s]++
				}
			case *ast.BinaryExpr:
				if v, ok := constInt(x); ok {
					m["i:"+strconv.FormatInt(v, 10)]++
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, ok := constInt(x); ok {
						m["i:"+strconv.FormatInt(v, 10)]++
					}
				case token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil {
						m["r:"+s]++
					}
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) <= 256 {
						m["s:"+s]++
					}
				}
			}
			return true
		})
		res[rel] = m
		return nil
	})
	return res
}

// Novel are the literals which occur more often, in some file, than in the tree the checks were written for. They widen
// the alphabets and sizes that are enumerated; they never change what is expected.
type Novel struct {
	Strings []string // characters and strings
	Runes   []rune
	Ints    []int
}

var novelCache *Novel

func baselinePath() string {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	return filepath.Join(root, "mc", "data", "literals.json")
}

// WriteBaseline records the literals of the current tree.
func WriteBaseline() error {
	b, err := json.MarshalIndent(Harvest(), "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(baselinePath(), append(b, '\n'), 0o644)
}

// GetNovel compares the current tree with the recorded literals.
func GetNovel() *Novel {
	if novelCache != nil {
		return novelCache
	}
	n := &Novel{}
	novelCache = n
	var base Literals
	b, err := os.ReadFile(baselinePath())
	if err != nil || json.Unmarshal(b, &base) != nil {
		return n
	}
	now := Harvest()
	if x := os.Getenv("MC_NOVEL"); x != "" {
		// For trials: as if the code had these literals too
		var m map[string]int
		if err := json.Unmarshal([]byte(x), &m); err != nil {
			panic("mc: " + err.Error())
		}
		now["trial"] = m
	}
	total := map[string]int{} // a literal that only moved to another file is not new
	for _, m := range now {
		for k, c := range m {
			total[k] += c
		}
	}
	for _, m := range base {
		for k, c := range m {
			total[k] -= c
		}
	}
	strs, runes, ints := map[string]bool{}, map[rune]bool{}, map[int]bool{}
	for f, m := range now {
		for k, c := range m {
			if c <= base[f][k] || total[k] <= 0 {
				continue
			}
			v := k[2:]
			switch k[0] {
			case 'r':
				strs[v] = true
				for _, r := range v {
					runes[r] = true
				}
			case 's':
				if v == "" || strings.Contains(v, "%") {
					continue
				}
				strs[v] = true
				if rs := []rune(v); len(rs) <= 8 {
					for _, r := range rs {
						runes[r] = true
					}
				}
			case 'i':
				i, _ := strconv.ParseInt(v, 10, 64)
				if i > 0 && i <= 1<<21 {
					ints[int(i)] = true
				}
				if i >= 0x80 && i <= 0x10ffff {
					runes[rune(i)] = true
				}
			}
		}
	}
	for s := range strs {
		n.Strings = append(n.Strings, s)
	}
	sort.Slice(n.Strings, func(i, j int) bool {
		a, b := n.Strings[i], n.Strings[j]
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	for r := range runes {
		n.Runes = append(n.Runes, r)
	}
	sort.Slice(n.Runes, func(i, j int) bool { return n.Runes[i] < n.Runes[j] })
	for i := range ints {
		n.Ints = append(n.Ints, i)
	}
	sort.Ints(n.Ints)
	if len(n.Strings) > 24 {
		n.Strings = n.Strings[:24]
	}
	if len(n.Runes) > 24 {
		n.Runes = n.Runes[:24]
	}
	if len(n.Ints) > 24 {
		n.Ints = n.Ints[:24]
	}
	if len(n.Strings)+len(n.Runes)+len(n.Ints) > 0 {
		fmt.Fprintf(os.Stderr, "novel literals: strings %q runes %q ints %v\n", n.Strings, n.Runes, n.Ints)
	}
	return n
}

// Atoms returns base followed by the novel characters and short strings not already in it, at most max more.
func Atoms(base []string, max int) []string {
	out := append([]string(nil), base...)
	have := map[string]bool{}
	for _, b := range base {
		have[b] = true
	}
	n := GetNovel()
	add := func(s string) {
		if s != "" && !have[s] && max > 0 && len(s) <= 64 {
			have[s] = true
			max--
			out = append(out, s)
		}
	}
	for _, s := range n.Strings {
		add(s)
	}
	// In words, as a beginning or an end, and together
	for i, s := range n.Strings {
		if i < 2 && len(s) <= 16 {
			add(s + "a")
			add("a" + s)
		}
		if i == 0 && len(n.Strings) == 2 {
			add(s + n.Strings[1])
		}
	}
	for _, r := range n.Runes {
		add(string(r))
	}
	return out
}

// Sizes returns base plus the novel integers and their neighbours, up to limit, ascending and distinct. A novel size of 0 or 1
// is left out, unless base goes as low.
func Sizes(limit int, base ...int) []int {
	m := map[int]bool{}
	low := 2
	for _, b := range base {
		if b <= limit && b >= 0 {
			m[b] = true
		}
		if b < low {
			low = b
		}
	}
	for _, i := range GetNovel().Ints {
		for d := -1; d <= 1; d++ {
			if i+d >= low && i+d <= limit {
				m[i+d] = true
			}
		}
	}
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// Huge gives sizes above low, up to 64 MB, for spaces with few other choices: base, and those around new numbers in the code.
func Huge(low int, base ...int) []int {
	out := append([]int(nil), base...)
	for _, i := range GetNovel().Ints {
		if i >= low && i <= 1<<26 && len(out) < len(base)+6 {
			out = append(out, i, i+1)
		}
	}
	return out
}

// Around returns, for each n, n-1, n and n+1.
func Around(ns ...int) []int {
	var out []int
	for _, n := range ns {
		out = append(out, n-1, n, n+1)
	}
	return out
}
