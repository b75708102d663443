package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded, type-checked repository and its SSA form.
type Prog struct {
	Repo   string
	Module string
	Fset   *token.FileSet
	Pkgs   map[string]*packages.Package // by import path
	SSA    *ssa.Program
	SPkgs  map[string]*ssa.Package
	Funcs  map[*ssa.Function]bool // every function of the repository
}

func loadRepo(repo string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, Funcs: map[*ssa.Function]bool{}}
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", pk.PkgPath, pk.Errors[0])
		}
		if pk.Module != nil {
			p.Module = pk.Module.Path
		}
		p.Pkgs[pk.PkgPath] = pk
		p.Fset = pk.Fset
	}
	if len(pkgs) == 0 || p.Module == "" {
		return nil, fmt.Errorf("no packages loaded from %s", repo)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SPkgs[sp.Pkg.Path()] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.IsRepoFunc(fn) {
			p.Funcs[fn] = true
		}
	}
	return p, nil
}

// IsRepoFunc reports whether fn's body belongs to the analysed repository.
func (p *Prog) IsRepoFunc(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Blocks == nil {
		return false
	}
	o := fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), p.Module)
	}
	// wrappers and instantiations: decide by object
	if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		return strings.HasPrefix(ob.Pkg().Path(), p.Module)
	}
	return false
}

func (p *Prog) InRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == p.Module || strings.HasPrefix(pkg.Path(), p.Module+"/"))
}

// Pkg resolves a package by path relative to the module.
func (p *Prog) Pkg(rel string) *ssa.Package {
	return p.SPkgs[p.Module+"/"+rel]
}

func (p *Prog) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds the method name of *T or T in package rel.
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	for _, recv := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := p.SSA.MethodSets.MethodSet(recv)
		if sel := ms.Lookup(sp.Pkg, name); sel != nil {
			return p.SSA.MethodValue(sel)
		}
	}
	return nil
}

func (p *Prog) NamedType(rel, name string) *types.Named {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Prog) FuncName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, p.Module+"/", "")
	return s
}

func (p *Prog) SortedFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for f := range p.Funcs {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].Pos() != fs[j].Pos() {
			return fs[i].Pos() < fs[j].Pos()
		}
		return fs[i].String() < fs[j].String()
	})
	return fs
}

// FileOf finds the syntax of a file by suffix in a package.
func (p *Prog) FileOf(rel, base string) *ast.File {
	pk := p.Pkgs[p.Module+"/"+rel]
	if pk == nil {
		return nil
	}
	for i, f := range pk.Syntax {
		if filepath.Base(pk.CompiledGoFiles[i]) == base {
			return f
		}
	}
	return nil
}

// IntConst is the value of an integer constant of a package.
func (p *Prog) IntConst(rel, name string) (int64, bool) {
	pkg := p.Pkg(rel)
	if pkg == nil {
		return 0, false
	}
	c, ok := pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}
