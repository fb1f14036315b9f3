package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	Repo  map[*types.Package]bool
	Root  *ssa.Package // sqlf
	Sqlb  *ssa.Package
	Synt  *ssa.Package
	Util  *ssa.Package
	Funcs []*ssa.Function // all source functions, incl. anonymous
}

// Load loads, type checks and builds the SSA of the repository.
func Load(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository doesn't type check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: fset, Pkgs: pkgs, SSA: prog, Repo: map[*types.Package]bool{}}
	for i, pk := range pkgs {
		p.Repo[pk.Types] = true
		switch {
		case strings.HasSuffix(pk.PkgPath, "/sqlb"):
			p.Sqlb = spkgs[i]
		case strings.HasSuffix(pk.PkgPath, "/syntax"):
			p.Synt = spkgs[i]
		case strings.HasSuffix(pk.PkgPath, "/util"):
			p.Util = spkgs[i]
		case strings.HasSuffix(pk.PkgPath, "go-sqlf/v2"):
			p.Root = spkgs[i]
		}
	}
	if p.Root == nil || p.Sqlb == nil || p.Synt == nil || p.Util == nil {
		return nil, fmt.Errorf("packages of the repository not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		if fn.TypeParams() != nil && len(fn.TypeArgs()) == 0 {
			continue // generic template
		}
		if p.InRepo(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

// InRepo reports whether the function is defined in the repository.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && p.Repo[fn.Pkg.Pkg]
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		return fmt.Sprintf("%s:%d", rel, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// Method finds a method of a package type.
func (p *Program) Method(pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		sel := p.SSA.MethodSets.MethodSet(T).Lookup(pkg.Pkg, name)
		if sel == nil {
			continue
		}
		fn := p.SSA.MethodValue(sel)
		if fn == nil {
			continue
		}
		if fn.Synthetic != "" {
			if o, ok := sel.Obj().(*types.Func); ok {
				if g := p.SSA.FuncValue(o); g != nil {
					return g
				}
			}
		}
		return fn
	}
	return nil
}
