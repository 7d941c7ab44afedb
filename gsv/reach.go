package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isStd reports whether fn belongs to the standard library.
func isStd(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	first := p.Path()
	if i := strings.IndexByte(first, '/'); i >= 0 {
		first = first[:i]
	}
	return !strings.Contains(first, ".")
}

// Reach is the result of a call graph traversal.
type Reach struct {
	From map[*ssa.Function]*ssa.Function // function -> one caller
	Site map[*ssa.Function]ssa.Instruction
	Keep func(*ssa.Function) bool
}

// names of methods that the standard library may call on any value it is given
var stdCallbacks = map[string]bool{"Error": true, "String": true, "Write": true, "Read": true, "Close": true, "Set": true,
	"Type": true, "Less": true, "Len": true, "Swap": true, "Format": true, "GoString": true, "WriteString": true,
	"MarshalText": true, "MarshalJSON": true, "UnmarshalText": true, "Push": true, "Pop": true, "Unwrap": true, "Is": true, "As": true,
	"WriteTo": true, "ReadFrom": true, "ReadByte": true, "WriteByte": true}

// reachable over-approximates the functions that can run when the roots run: static calls, closures and
// function values mentioned, interface calls resolved to every method of every type that is converted to an
// interface somewhere in the reachable part (rapid type analysis), standard library bodies being leaves.
// stop cuts the traversal at a function (it is recorded but not entered).
func (w *World) reachable(roots []*ssa.Function, stop func(*ssa.Function) bool) *Reach {
	r := &Reach{From: map[*ssa.Function]*ssa.Function{}, Site: map[*ssa.Function]ssa.Instruction{}}
	var work []*ssa.Function
	add := func(fn, from *ssa.Function, site ssa.Instruction) {
		if fn == nil {
			return
		}
		if _, ok := r.From[fn]; ok {
			return
		}
		r.From[fn] = from
		r.Site[fn] = site
		work = append(work, fn)
	}
	types_ := map[types.Type]ssa.Instruction{}
	var typeList []types.Type
	type inv struct {
		m    *types.Func
		t    *types.Interface
		from *ssa.Function
		site ssa.Instruction
	}
	var invokes []inv
	seenInv := map[*types.Func]bool{}
	resolve := func(t types.Type, v inv) {
		if !types.Implements(t, v.t) {
			return
		}
		if sel := w.Prog.MethodSets.MethodSet(t).Lookup(v.m.Pkg(), v.m.Name()); sel != nil {
			add(w.Prog.MethodValue(sel), v.from, v.site)
		}
	}
	owner := map[types.Type]*ssa.Function{}
	addType := func(t types.Type, fn *ssa.Function, site ssa.Instruction) {
		if types.IsInterface(t) {
			return
		}
		for _, o := range typeList {
			if types.Identical(o, t) {
				return
			}
		}
		if _, ok := types_[t]; ok {
			return
		}
		types_[t] = site
		owner[t] = fn
		typeList = append(typeList, t)
		for _, v := range invokes {
			resolve(t, v)
		}
		ms := w.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if stdCallbacks[ms.At(i).Obj().Name()] {
				add(w.Prog.MethodValue(ms.At(i)), fn, site)
			}
		}
	}
	for _, f := range roots {
		add(f, nil, nil)
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if isStd(fn) || (stop != nil && stop(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					addType(mi.X.Type(), fn, in)
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					cc := ci.Common()
					if !seenInv[cc.Method] {
						seenInv[cc.Method] = true
						v := inv{cc.Method, cc.Value.Type().Underlying().(*types.Interface), fn, in}
						invokes = append(invokes, v)
						for _, t := range typeList {
							resolve(t, v)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						add(f, fn, in)
					}
				}
			}
		}
	}
	return r
}

// chain gives the call chain that led to fn.
func (r *Reach) chain(fn *ssa.Function) string {
	var s []string
	for f := fn; f != nil && len(s) < 12; f = r.From[f] {
		s = append(s, FnName(f))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " -> ")
}

func (r *Reach) sorted() []*ssa.Function {
	var l []*ssa.Function
	for f := range r.From {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// mainRoots are the entry points of the command: main and the initialisers of all packages it links.
func (w *World) mainRoots() []*ssa.Function {
	var r []*ssa.Function
	if m := w.Func("cmd/goslice", "main"); m != nil {
		r = append(r, m)
		seen := map[*types.Package]bool{}
		var rec func(p *types.Package)
		rec = func(p *types.Package) {
			if seen[p] {
				return
			}
			seen[p] = true
			if sp := w.Prog.Package(p); sp != nil {
				if f := sp.Func("init"); f != nil && !isStd(f) {
					r = append(r, f)
				}
			}
			for _, i := range p.Imports() {
				rec(i)
			}
		}
		rec(fnPkg(m))
	}
	return r
}

// fsMutator: calls of the standard library that create, change or delete files or start programs.
func fsMutator(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == nil {
		return false
	}
	n := fn.Name()
	recv := ""
	if s := fn.Signature.Recv(); s != nil {
		t := s.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			recv = nt.Obj().Name()
		}
	}
	switch p.Path() {
	case "os":
		if recv == "" {
			switch n {
			case "Create", "CreateTemp", "OpenFile", "WriteFile", "Remove", "RemoveAll", "Rename", "Mkdir", "MkdirAll", "MkdirTemp",
				"Chmod", "Chown", "Lchown", "Chtimes", "Link", "Symlink", "Truncate", "StartProcess", "NewFile", "CopyFS", "Chdir", "OpenInRoot", "OpenRoot":
				return true
			}
			return false
		}
		if recv == "File" {
			switch n {
			case "Truncate", "Chmod", "Chown":
				return true
			}
		}
		return recv == "Root"
	case "os/exec", "plugin":
		return true
	case "syscall", "golang.org/x/sys/unix":
		return n != "Error" && n != "String" && n != "Is" && n != "Temporary" && n != "Timeout" && n != "Signal"
	case "io/ioutil":
		switch n {
		case "WriteFile", "TempFile", "TempDir":
			return true
		}
	}
	return false
}
