package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the SSA program of the repository plus the harness.
type Loaded struct {
	prog          *ssa.Program
	module        string
	main          *ssa.Package
	runtimeError  types.Type
	errorString   types.Type
	wrapError     types.Type
	errorIface    types.Type
	stringerIface types.Type
	timeTime      types.Type
	solverCmd     []string
	growMu        sync.RWMutex
	grow          map[[3]int64]int
}

func (ld *Loaded) growGet(k [3]int64) (int, bool) {
	ld.growMu.RLock()
	defer ld.growMu.RUnlock()
	v, ok := ld.grow[k]
	return v, ok
}

func (ld *Loaded) growPut(k [3]int64, v int) {
	ld.growMu.Lock()
	ld.grow[k] = v
	ld.growMu.Unlock()
}

// lookupMethod returns the concrete method of T, or nil.
func (ld *Loaded) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := ld.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return ld.prog.MethodValue(sel)
}

// Load builds SSA for /repo's working tree with the harness overlaid.
func Load(repo, harnessDir string) (*Loaded, error) {
	overlay := map[string][]byte{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(harnessDir, p)
		overlay[filepath.Join(repo, "internal/zverif", rel)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./internal/zverif")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ld := &Loaded{prog: prog, module: modulePath, main: ps[0], grow: map[[3]int64]int{}}
	typ := func(pkg, name string) types.Type {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return nil
		}
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
		return nil
	}
	ld.runtimeError = typ("runtime", "errorString")
	ld.errorString = typ("errors", "errorString")
	ld.wrapError = typ("fmt", "wrapError")
	ld.stringerIface = typ("fmt", "Stringer")
	ld.timeTime = typ("time", "Time")
	ld.errorIface = types.Universe.Lookup("error").Type()
	ld.solverCmd = []string{"z3", "-in"}
	return ld, nil
}

// modulePath is the module under test.
const modulePath = "github.com/snivilised/agenor"
