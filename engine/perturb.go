package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Counterexamples that depend on the schedule may be rare in ordinary native
// runs. For these, the native build is repeated with a call inserted before
// each statement of the functions that use goroutines, channels or locks; the
// call pauses for a (seeded) random short time. The inserted calls do not
// change what any schedule does, only how likely it is.

func usesConcurrency(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || x.Op == token.ARROW
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				found = found || f.Name == "close"
			case *ast.SelectorExpr:
				switch f.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "Add", "Done", "Wait", "Store", "Load", "CompareAndSwap":
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// perturbed returns the text of a file with pauses, or "" if it has no use of
// concurrency.
func perturbed(path string) (string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			default:
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || !usesConcurrency(fd.Body) {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	if len(at) == 0 {
		return "", nil
	}
	sort.Ints(at)
	var b strings.Builder
	name := fset.Position(f.Name.End()).Offset
	b.Write(src[:name])
	fmt.Fprintf(&b, "; import zverifsym %q", modulePath+"/internal/zverif/sym")
	last := name
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("zverifsym.Point(); ")
		last = o
	}
	b.Write(src[last:])
	return b.String(), nil
}

// perturbAll adds perturbed copies of the repository's files to an overlay.
func perturbAll(repo, dir string, overlay map[string]string) {
	n := 0
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repo || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		text, err := perturbed(p)
		if err != nil || text == "" {
			return nil
		}
		n++
		to := filepath.Join(dir, fmt.Sprintf("perturbed%d.go", n))
		if os.WriteFile(to, []byte(text), 0o644) == nil {
			overlay[p] = to
		}
		return nil
	})
}
