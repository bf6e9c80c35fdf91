// instrument copies the parser package's sources with step-counting calls
// inserted, and writes a go build -overlay file mapping the originals to the
// copies.  Nothing in /repo is touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const support = `package parser

// VerifBudget is the panic value when the step budget is exhausted.
type VerifBudget struct{}

// verifLeft counts down to the next slow tick; verifBase is what it started from.
var verifLeft, verifBase, verifUsed, verifLimit int64
var verifHook func()

func verifTick() {
	if verifLeft--; verifLeft < 0 {
		verifSlow()
	}
}

func verifSlow() {
	verifUsed += verifBase - verifLeft
	verifArm()
	if verifLimit > 0 && verifUsed > verifLimit {
		verifLimit = 0
		verifArm()
		panic(VerifBudget{})
	}
	if verifHook != nil {
		verifHook()
	}
}

func verifArm() {
	switch {
	case verifHook != nil:
		verifBase = 0
	case verifLimit > 0:
		if verifBase = verifLimit - verifUsed; verifBase < 0 {
			verifBase = 0
		}
	default:
		verifBase = 1 << 60
	}
	verifLeft = verifBase
}

func VerifReset(limit int64) { verifUsed, verifLimit = 0, limit; verifArm() }
func VerifSteps() int64      { return verifUsed + verifBase - verifLeft }
func VerifSetHook(f func())  { verifUsed += verifBase - verifLeft; verifHook = f; verifArm() }
`

func main() {
	src := flag.String("src", "/repo/parser", "package directory")
	out := flag.String("out", "", "output directory")
	dense := flag.Bool("dense", false, "tick before every statement")
	flag.Parse()
	files, err := filepath.Glob(filepath.Join(*src, "*.go"))
	check(err)
	check(os.MkdirAll(*out, 0o755))
	rep := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		check(err)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, b, parser.SkipObjectResolution)
		check(err)
		ins := map[int]bool{}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		stmts := func(l []ast.Stmt) {
			if !*dense {
				return
			}
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt:
				default:
					ins[off(s.Pos())] = true
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					ins[off(x.Body.Lbrace)+1] = true
				}
			case *ast.FuncLit:
				ins[off(x.Body.Lbrace)+1] = true
			case *ast.ForStmt:
				ins[off(x.Body.Lbrace)+1] = true
			case *ast.RangeStmt:
				ins[off(x.Body.Lbrace)+1] = true
			case *ast.BlockStmt:
				// the body of switch/select holds clauses, not statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			}
			return true
		})
		var offs []int
		for o := range ins {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var sb strings.Builder
		last := 0
		for _, o := range offs {
			sb.Write(b[last:o])
			sb.WriteString("verifTick();")
			last = o
		}
		sb.Write(b[last:])
		dst := filepath.Join(*out, filepath.Base(f))
		check(os.WriteFile(dst, []byte(sb.String()), 0o644))
		rep[f] = dst
	}
	sup := filepath.Join(*out, "zz_verif_support.go")
	check(os.WriteFile(sup, []byte(support), 0o644))
	rep[filepath.Join(*src, "zz_verif_support.go")] = sup
	j, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
