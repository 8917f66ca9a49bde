// Command rewrite writes a copy of a package in which a scheduling point stands before every
// statement, and the overlay file that makes the go command build that copy.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

// VerifSchedHook is called before every statement of the package.
var VerifSchedHook func()

// VerifHasGo tells whether the package starts goroutines itself.
const VerifHasGo = %v

// VerifPoints is the number of statements with a scheduling point.
const VerifPoints = %d

func verifSchedPoint() {
	if VerifSchedHook != nil {
		VerifSchedHook()
	}
}
`

func main() {
	out := flag.String("out", "", "directory for the rewritten files")
	list := flag.String("json", "", "overlay file to write")
	flag.Parse()
	dir := flag.Arg(0)
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fail(err)
	}
	entries, err := os.ReadDir(dir)
	if err != nil {
		fail(err)
	}
	replace := map[string]string{}
	hasGo, points, pkg := false, 0, ""
	for _, e := range entries {
		name := e.Name()
		if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		path := filepath.Join(dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fail(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		pkg = f.Name.Name
		var at []int
		add := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				for _, cl := range x.Body.List {
					add(cl.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, cl := range x.Body.List {
					add(cl.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, cl := range x.Body.List {
					add(cl.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause: // the body of a switch or select
						return true
					}
				}
				add(x.List)
			case *ast.GoStmt:
				hasGo = true
			}
			return true
		})
		points += len(at)
		sort.Sort(sort.Reverse(sort.IntSlice(at)))
		text := string(src)
		for _, o := range at {
			text = text[:o] + "verifSchedPoint(); " + text[o:]
		}
		p := filepath.Join(*out, name)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			fail(err)
		}
		replace[path] = p
	}
	p := filepath.Join(*out, "zz_sched_verif.go")
	if err := os.WriteFile(p, []byte(fmt.Sprintf(hook, pkg, hasGo, points)), 0o644); err != nil {
		fail(err)
	}
	replace[filepath.Join(dir, "zz_sched_verif.go")] = p
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(*list, b, 0o644); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "rewrite:", err)
	os.Exit(2)
}
