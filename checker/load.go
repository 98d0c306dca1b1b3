package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-converted view of /repo's working tree.
type Program struct {
	Dir     string
	Module  string
	Pkgs    []*packages.Package // repo packages
	All     map[string]*packages.Package
	Fset    *token.FileSet
	Prog    *ssa.Program
	SSA     map[string]*ssa.Package
	Funcs   []*ssa.Function // source functions of repo packages (incl. methods and closures), examples excluded
	fnInfos map[*ssa.Function]*fnInfo
	mu      sync.Mutex
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load() (*Program, error) {
	dir := repoDir()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Tests: false, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	P := &Program{Dir: dir, All: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, fnInfos: map[*ssa.Function]*fnInfo{}}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		P.All[p.PkgPath] = p
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P.Prog = prog
	P.Fset = prog.Fset
	for _, p := range pkgs {
		if p.Module != nil && P.Module == "" {
			P.Module = p.Module.Path
		}
		if len(p.GoFiles) == 0 {
			continue
		}
		P.Pkgs = append(P.Pkgs, p)
	}
	sort.Slice(P.Pkgs, func(i, j int) bool { return P.Pkgs[i].PkgPath < P.Pkgs[j].PkgPath })
	for _, sp := range prog.AllPackages() {
		P.SSA[sp.Pkg.Path()] = sp
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			continue
		}
		pk := fnPkg(fn)
		if pk == nil || !P.inRepo(pk) || len(fn.Blocks) == 0 {
			continue
		}
		P.Funcs = append(P.Funcs, fn)
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		if P.Funcs[i].Pos() != P.Funcs[j].Pos() {
			return P.Funcs[i].Pos() < P.Funcs[j].Pos()
		}
		return P.Funcs[i].String() < P.Funcs[j].String()
	})
	if len(P.Funcs) == 0 {
		return nil, fmt.Errorf("no functions loaded from %s", dir)
	}
	return P, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (P *Program) inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == P.Module || strings.HasPrefix(p.Path(), P.Module+"/"))
}

// isLib: part of the library (not examples).
func (P *Program) isLib(p *types.Package) bool {
	return P.inRepo(p) && !strings.HasPrefix(p.Path(), P.Module+"/examples")
}

func (P *Program) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = filepath.Base(filepath.Dir(q.Filename)) + "/" + filepath.Base(q.Filename)
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Rel makes a repo-relative package path, or returns the path unchanged.
func (P *Program) pkg(rel string) *ssa.Package {
	if rel == "" {
		return P.SSA[P.Module]
	}
	return P.SSA[P.Module+"/"+rel]
}

func (P *Program) Func(rel, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (P *Program) Type(rel, name string) types.Type {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return types.Unalias(o.Type())
}

// Method finds a method of a named type (pointer or value receiver).
func (P *Program) Method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := P.Prog.MethodSets.MethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return P.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// DeclaredMethod finds the method declared directly on named type t.
func (P *Program) DeclaredMethod(t types.Type, name string) *ssa.Function {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return P.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}
