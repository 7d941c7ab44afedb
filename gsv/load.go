package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aligator/goslice"

// World is the resolved program under analysis: type-checked packages and SSA form
// of the repository and of everything it imports.
type World struct {
	RepoDir string
	Fset    *token.FileSet
	Pkgs    map[string]*packages.Package // by import path (all)
	Repo    []*packages.Package          // packages of the repository
	Prog    *ssa.Program
	AllFns  map[*ssa.Function]bool
	RepoFns []*ssa.Function // every source function of the repo incl. closures, sorted

	impls map[*types.Named][]*types.Named // repo interfaces -> repo implementers
}

// Load type-checks /repo from its working tree and builds SSA.
// overlay may replace file contents in memory (used by the thorough tier's self test only).
func Load(dir string, overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Tests:   false,
		Overlay: overlay,
		Env: append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOWORK=off",
			"GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOSUMDB=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading packages: %w", err)
	}
	w := &World{RepoDir: dir, Pkgs: map[string]*packages.Package{}, impls: map[*types.Named][]*types.Named{}}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.Pkgs[p.PkgPath] = p
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	for _, p := range pkgs {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			w.Repo = append(w.Repo, p)
		}
	}
	if len(w.Repo) < 8 {
		return nil, fmt.Errorf("only %d packages of %s found in %s", len(w.Repo), modPath, dir)
	}
	sort.Slice(w.Repo, func(i, j int) bool { return w.Repo[i].PkgPath < w.Repo[j].PkgPath })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	w.Fset = prog.Fset
	w.AllFns = ssautil.AllFunctions(prog)
	for fn := range w.AllFns {
		if fn.Synthetic == "" && w.InRepo(fn) && len(fn.Blocks) > 0 {
			w.RepoFns = append(w.RepoFns, fn)
		}
	}
	sort.Slice(w.RepoFns, func(i, j int) bool { return w.RepoFns[i].Pos() < w.RepoFns[j].Pos() })
	w.findImpls()
	return w, nil
}

// InRepo reports whether fn belongs to a package of the repository (and not to its test helper package).
func (w *World) InRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && inRepoPkg(p)
}

func inRepoPkg(p *types.Package) bool {
	return p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/")
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if f.Origin() != nil && f.Origin() != f && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
	}
	return nil
}

func (w *World) findImpls() {
	var ifaces, concr []*types.Named
	for _, p := range w.Repo {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if types.IsInterface(nt) {
				ifaces = append(ifaces, nt)
			} else {
				concr = append(concr, nt)
			}
		}
	}
	for _, i := range ifaces {
		it := i.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			continue
		}
		for _, c := range concr {
			if types.Implements(c, it) || types.Implements(types.NewPointer(c), it) {
				w.impls[i] = append(w.impls[i], c)
			}
		}
	}
}

// Impls returns the repo types implementing the named interface.
func (w *World) Impls(t types.Type) []*types.Named {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return w.impls[n]
	}
	return nil
}

// SoleImpl returns the only repo implementation of a repo interface as the dynamic
// type found in interface values (pointer type if methods need one), or nil.
func (w *World) SoleImpl(t types.Type) types.Type {
	im := w.Impls(t)
	if len(im) != 1 {
		return nil
	}
	it := t.Underlying().(*types.Interface)
	if types.Implements(im[0], it) {
		return im[0]
	}
	return types.NewPointer(im[0])
}

func (w *World) Pkg(rel string) *packages.Package {
	if rel == "" {
		return w.Pkgs[modPath]
	}
	return w.Pkgs[modPath+"/"+rel]
}

// TypeNamed looks a type up by package (relative to the module) and name.
func (w *World) TypeNamed(rel, name string) *types.Named {
	p := w.Pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Func resolves a package-level function.
func (w *World) Func(rel, name string) *ssa.Function {
	p := w.Pkg(rel)
	if p == nil {
		return nil
	}
	f, _ := p.Types.Scope().Lookup(name).(*types.Func)
	if f == nil {
		return nil
	}
	return w.Prog.FuncValue(f)
}

// Method resolves the declared method of a named type (pointer or value receiver).
func (w *World) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return w.Prog.FuncValue(m)
		}
	}
	// promoted
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return w.Prog.FuncValue(f)
		}
	}
	return nil
}

// ImplMethods returns, for every repo type implementing the interface, the method of that name.
func (w *World) ImplMethods(iface *types.Named, name string) []*ssa.Function {
	var r []*ssa.Function
	for _, c := range w.impls[iface] {
		if f := w.Method(c, name); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// Pos renders a source position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	if rel, err := filepath.Rel(w.RepoDir, q.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		return fmt.Sprintf("%s:%d", rel, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// FnName is the short stable name of a function.
func FnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "goslice.")
	return s
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
