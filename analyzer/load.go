package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/tylantz/go-tailwind-merge"

// Program is the type-checked program of the repository in SSA form, with the
// parts of its API the rules are anchored at. Anchors are exported names and
// types only, never names a refactoring may change.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by path relative to the module ("" is the root)
	TPkgs map[string]*packages.Package

	Root, Casc, Props *ssa.Package

	Merger      *types.Named
	SimpleCache *types.Named
	CacheIface  *types.Named
	CssRule     *types.Named
	CssDecl     *types.Named
	Property    *types.Named
	Sel         *types.Named // interface
	SelTypes    []*types.Named

	Funcs  []*ssa.Function // every function with a body in the module (instances and closures included)
	scan   map[*ssa.Function]bool
	scanMu sync.Mutex
}

type anchorError struct{ msg string }

func (e anchorError) Error() string { return e.msg }

func loadProgram(dir string) (p *Program, err error) {
	tmp, err := os.MkdirTemp("", "twm-analyzer-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GOPROXY=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"), "GOWORK=off", "GOPROXY=off")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedEmbedFiles,
		Dir: dir, Env: env, Fset: fset,
	}
	// NeedDeps with NeedSyntax loads the sources of all dependencies; only the
	// packages of the module get bodies in what follows.
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p = &Program{Dir: dir, Fset: fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		p.Pkgs[rel] = sp
		p.TPkgs[rel] = pkgs[i]
	}
	p.Root, p.Casc, p.Props = p.Pkgs[""], p.Pkgs["internal/cascadia"], p.Pkgs["internal/props"]
	if p.Root == nil || p.Casc == nil || p.Props == nil {
		return nil, anchorError{"packages of the module not found"}
	}
	if err := p.anchors(); err != nil {
		return nil, err
	}
	p.collectFuncs()
	return p, nil
}

func named(sp *ssa.Package, name string) *types.Named {
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Program) anchors() error {
	p.Merger = named(p.Root, "Merger")
	p.SimpleCache = named(p.Root, "SimpleCache")
	p.CacheIface = named(p.Root, "Cache")
	p.CssRule = named(p.Casc, "CssRule")
	p.CssDecl = named(p.Casc, "CssDeclaration")
	p.Sel = named(p.Casc, "Sel")
	p.Property = named(p.Props, "Property")
	for n, t := range map[string]*types.Named{"Merger": p.Merger, "SimpleCache": p.SimpleCache, "Cache": p.CacheIface,
		"CssRule": p.CssRule, "CssDeclaration": p.CssDecl, "Sel": p.Sel, "Property": p.Property} {
		if t == nil {
			return anchorError{"exported type " + n + " not found"}
		}
	}
	iface, ok := p.Sel.Underlying().(*types.Interface)
	if !ok {
		return anchorError{"Sel is not an interface"}
	}
	sc := p.Casc.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(t) || t.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(t, iface) {
			p.SelTypes = append(p.SelTypes, t)
		} else if types.Implements(types.NewPointer(t), iface) {
			p.SelTypes = append(p.SelTypes, t)
		}
	}
	if len(p.SelTypes) == 0 {
		return anchorError{"no type implements Sel"}
	}
	return nil
}

// method finds the method of a named type (value or pointer receiver).
func (p *Program) method(t *types.Named, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		sel := p.Prog.MethodSets.MethodSet(tt).Lookup(t.Obj().Pkg(), name)
		if sel != nil {
			return p.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Program) fn(sp *ssa.Package, name string) *ssa.Function { return sp.Func(name) }

func (p *Program) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	pk := f.Package()
	if pk == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func (p *Program) collectFuncs() {
	all := ssautil.AllFunctions(p.Prog)
	for f := range all {
		if len(f.Blocks) > 0 && p.inModule(f) {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
}

// pos renders a position relative to the repository.
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// instrPos finds a usable position for an instruction.
func (p *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return p.pos((*op).Pos())
		}
	}
	b := in.Block()
	best := token.NoPos
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			best = i.Pos()
		}
		if i == in && best.IsValid() {
			break
		}
	}
	if best.IsValid() {
		return p.pos(best)
	}
	return p.pos(b.Parent().Pos())
}
