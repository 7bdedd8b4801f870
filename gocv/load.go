package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code under verification.
type Program struct {
	prog  *ssa.Program
	pkgs  []*ssa.Package
	funcs map[string]*ssa.Function // contract key -> function
	byPkg map[string]*types.Package
	lits  []string // string literals of the code, for the replay search
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: dir, Env: os.Environ(),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, funcs: map[string]*ssa.Function{}, byPkg: map[string]*types.Package{}}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		P.pkgs = append(P.pkgs, p)
		P.byPkg[p.Pkg.Name()] = p.Pkg
		ownPkgs[p.Pkg.Path()] = true
	}
	var addImp func(p *types.Package)
	addImp = func(p *types.Package) {
		for _, i := range p.Imports() {
			if P.byPkg[i.Name()] == nil {
				P.byPkg[i.Name()] = i
			}
		}
	}
	for _, p := range P.pkgs {
		addImp(p.Pkg)
	}
	seenLit := map[string]bool{}
	for _, p := range ps {
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind != token.IMPORT && len(l.Value) < 60 && !seenLit[l.Value] {
					seenLit[l.Value] = true
					P.lits = append(P.lits, l.Value)
				}
				return true
			})
		}
	}
	all := ssautil.AllFunctions(prog)
	own := map[*types.Package]bool{}
	for _, p := range P.pkgs {
		own[p.Pkg] = true
	}
	for f := range all {
		if f.Pkg == nil || !own[f.Pkg.Pkg] || f.Synthetic != "" {
			continue
		}
		P.funcs[funcKey(f)] = f
	}
	return P, nil
}

// funcKey names a function in contract files: pkg.Func or pkg.Type.Method.
func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if r := f.Signature.Recv(); r != nil {
		return typeKey(deref(r.Type())) + "." + f.Name()
	}
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Name() + "." + f.Name()
		}
		return f.Name()
	}
	return f.Pkg.Pkg.Name() + "." + f.Name()
}

func typeKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
