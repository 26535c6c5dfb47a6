package main

import (
	"sync"

	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked package under analysis, in SSA form.
type Program struct {
	Dir  string
	Pkg  *packages.Package
	SSA  *ssa.Package
	Prog *ssa.Program
	Fset *token.FileSet
	// Funcs are all functions of the package with a body: declared functions, methods and closures.
	Funcs []*ssa.Function

	mu  sync.Mutex
	pts map[*ssa.Function]*PTS
}

func loadProgram(dir string, overlay map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir:     dir,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off"),
	}
	// Dependencies are wanted as export data only: their behaviour is modelled.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, got %d", dir, len(pkgs))
	}
	p := pkgs[0]
	for _, e := range p.Errors {
		return nil, fmt.Errorf("%s: %v", dir, e)
	}
	prog, ssapkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if ssapkgs[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", dir)
	}
	prog.Build()
	pr := &Program{Dir: dir, Pkg: p, SSA: ssapkgs[0], Prog: prog, Fset: fset}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() == pr.SSA && len(fn.Blocks) > 0 && wanted(fn) {
			pr.Funcs = append(pr.Funcs, fn)
		}
	}
	sort.Slice(pr.Funcs, func(i, j int) bool {
		a, b := fset.Position(pr.Funcs[i].Pos()), fset.Position(pr.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return pr.Funcs[i].String() < pr.Funcs[j].String()
	})
	return pr, nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

func wanted(fn *ssa.Function) bool {
	return fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "instance") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "thunk")
}
