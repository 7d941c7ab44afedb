package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "The same model and settings always give the same G-code", checkC12)
}

// calleeOf: the function or interface method a call names: package, receiver type, name.
func calleeOf(cc *ssa.CallCommon) (pkg, recv, name string) {
	named := func(t types.Type) string {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	if cc.IsInvoke() {
		if p := cc.Method.Pkg(); p != nil {
			pkg = p.Path()
		}
		return pkg, named(cc.Value.Type()), cc.Method.Name()
	}
	f := cc.StaticCallee()
	if f == nil {
		return "", "", ""
	}
	return fnName3(f)
}

func fnName3(f *ssa.Function) (pkg, recv, name string) {
	if p := fnPkg(f); p != nil {
		pkg = p.Path()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	name = f.Name()
	if o := f.Origin(); o != nil {
		name = o.Name()
	}
	return
}

// unsteady: what a function of the standard library returns may differ between two runs with the same input.
func unsteady(pkg, recv, name string) string {
	in := func(l string) bool { return strings.Contains(" "+l+" ", " "+name+" ") }
	switch pkg {
	case "math/rand", "math/rand/v2":
		if recv != "" || in("New NewZipf NewSource NewPCG NewChaCha8") {
			return "" // follows from the seed
		}
		return "random numbers"
	case "crypto/rand":
		return "random numbers"
	case "hash/maphash":
		return "a hash with a random seed"
	case "os/user", "net", "net/http", "os/signal", "runtime/metrics", "expvar", "runtime/debug":
		return "the environment of the process"
	case "os", "syscall":
		switch {
		case in("Getenv LookupEnv Environ ExpandEnv Hostname Getpid Getppid Getuid Geteuid Getgid Getegid Getwd TempDir UserHomeDir UserCacheDir UserConfigDir Executable Getpagesize"):
			return "the environment of the process"
		case in("CreateTemp MkdirTemp"):
			return "a random name"
		case in("ReadDir DirFS") || recv == "File" && in("Readdir Readdirnames ReadDir"):
			return "the content of a directory"
		case in("ModTime Sys"):
			return "when a file was changed"
		}
	case "io/fs":
		if in("ModTime Sys") {
			return "when a file was changed"
		}
		if in("ReadDir WalkDir Glob") {
			return "the content of a directory"
		}
	case "path/filepath":
		if in("Walk WalkDir Glob Abs EvalSymlinks") {
			return "the file system"
		}
	case "io/ioutil":
		if in("ReadDir TempFile TempDir") {
			return "the file system"
		}
	case "runtime":
		if in("NumCPU NumGoroutine GOMAXPROCS ReadMemStats NumCgoCall Stack Callers Version GC SetFinalizer AddCleanup") {
			return "the state of the machine"
		}
	case "time":
		if recv == "" && in("Now Since Until After Tick NewTimer NewTicker AfterFunc") || in("Local") {
			return "the time"
		}
	case "reflect":
		if in("MapKeys MapRange Pointer UnsafePointer UnsafeAddr Select") {
			return "map order or addresses"
		}
	case "maps":
		if in("Keys Values All") {
			return "map order"
		}
	case "sync":
		if recv == "Map" && in("Range") {
			return "map order"
		}
		if recv == "Pool" && in("Get") {
			return "earlier use of a pool"
		}
	case "sync/atomic":
		return "shared counters"
	case "unique", "weak":
		return "addresses"
	}
	return ""
}

// followed is the dataflow of values that differ from run to run.
type followed struct {
	w     *World
	c     *Ctx
	vals  map[ssa.Value]bool
	work  []ssa.Value
	bad   func(in ssa.Instruction, why string)
	calls map[*ssa.Function][]ssa.CallInstruction
	taken map[*ssa.Function]bool
	uses  int
}

func (f *followed) add(v ssa.Value) {
	if v != nil && !f.vals[v] {
		f.vals[v] = true
		f.work = append(f.work, v)
	}
}

// cell: everything read from where the value has been put.
func (f *followed) cell(a ssa.Value, in ssa.Instruction) {
	switch x := a.(type) {
	case *ssa.IndexAddr:
		f.cell(x.X, in)
	case *ssa.FieldAddr:
		f.cell(x.X, in)
	case *ssa.Alloc:
		f.add(x)
	case *ssa.FreeVar:
		f.add(x)
		for _, b := range f.bindings(x) {
			f.cell(b, in)
		}
	default:
		f.bad(in, "is stored")
	}
}

func (f *followed) bindings(fv *ssa.FreeVar) []ssa.Value {
	fn := fv.Parent()
	var out []ssa.Value
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				for i, x := range fn.FreeVars {
					if x == fv && i < len(mc.Bindings) {
						out = append(out, mc.Bindings[i])
					}
				}
			}
		}
	}
	return out
}

func (f *followed) run() {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			f.uses++
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					f.cell(x.Addr, in)
				}
			case *ssa.UnOp:
				f.add(x)
			case *ssa.BinOp:
				f.add(x)
			case *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Phi, *ssa.Extract, *ssa.Field, *ssa.Slice,
				*ssa.IndexAddr, *ssa.FieldAddr, *ssa.Index, *ssa.TypeAssert, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
				f.add(x.(ssa.Value))
			case *ssa.MakeClosure:
				if cf, ok := x.Fn.(*ssa.Function); ok {
					for i, b := range x.Bindings {
						if b == v && i < len(cf.FreeVars) {
							f.add(cf.FreeVars[i])
						}
					}
				}
			case *ssa.Return:
				fn := in.Parent()
				if f.taken[fn] || fn.Parent() != nil {
					f.bad(in, "is returned by a function that may be called from anywhere")
					continue
				}
				for _, call := range f.calls[fn] {
					if r, ok := call.(ssa.Value); ok {
						if len(x.Results) == 1 {
							f.add(r)
							continue
						}
						for _, e := range *r.Referrers() {
							if ex, ok := e.(*ssa.Extract); ok && x.Results[ex.Index] == v {
								f.add(ex)
							}
						}
					}
				}
			case ssa.CallInstruction:
				f.call(x, v)
			case *ssa.If:
				f.bad(in, "decides a branch")
			default:
				f.bad(in, "is used")
			}
		}
	}
}

func (f *followed) call(ci ssa.CallInstruction, v ssa.Value) {
	cc := ci.Common()
	pkg, recv, name := calleeOf(cc)
	if pkg == "log" && (recv == "Logger" || recv == "") {
		return
	}
	res, _ := ci.(ssa.Value)
	fn := cc.StaticCallee()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "len", "cap", "min", "max", "string", "print", "println", "ssa:wrapnilchk":
			f.add(res)
			return
		}
	}
	if fn != nil && f.w.InRepo(fn) && len(fn.Blocks) > 0 {
		for i, a := range cc.Args {
			if a == v && i < len(fn.Params) {
				f.add(fn.Params[i])
			}
		}
		return
	}
	switch {
	case pkg == "time":
		f.add(res)
		return
	case pkg == "fmt" && strings.HasPrefix(name, "Sprint"), pkg == "strconv", pkg == "strings" && recv == "", pkg == "math":
		f.add(res)
		return
	}
	f.bad(ci, "goes to "+pkg+"."+name)
}

func checkC12(c *Ctx) {
	w := c.W
	c.Rule("no-unsteady-source: in everything NewGoSlice and Process can reach (interface calls resolved to every type that is converted to an interface there, dependencies included) and in every function of the repository the command can reach, no call returns random numbers, environment, directory contents, process or machine state, hash seeds, pooled or address values; files are read only by the path given to the reader; no goroutine, channel or select occurs. What comes from the clock is followed through values, captured variables, parameters and results and ends in log output only: it decides no branch and is stored nowhere else")
	c.Rule("no-map-order: a loop over a map reached from Process leaves nothing that depends on the order: only writes to maps at the key of the iteration, integer sums, and lists that are sorted before any other use; it ends early only with a constant")
	c.Rule("no-addresses: no pointer (other than to a struct, slice, array or map it prints), function or channel is formatted into text outside of log and error messages, no %p, no conversion of a pointer to a number")
	c.Rule("no-leftover: the effect analysis gives every cell that existed before Process and may be changed by it: no package variable, no captured variable, no settings and no element of a list or map held by the object; for every field of a stage that is changed, the stage's operation is analysed with that field holding an unknown leftover of an earlier run: no branch, call argument, stored attribute or result depends on the leftover")
	proc, ctor := w.processFn(), w.Func("", "NewGoSlice")
	if proc == nil || ctor == nil {
		c.Undecided("no-unsteady-source", nil, 0, "Process", "NewGoSlice or Process not found")
		return
	}
	roots := []*ssa.Function{ctor, proc}
	mains := w.mainRoots()
	if len(mains) == 0 {
		c.Undecided("no-unsteady-source", nil, 0, "main", "the command was not found")
		return
	}
	var inits []*ssa.Function
	for _, f := range mains[1:] {
		if w.InRepo(f) {
			inits = append(inits, f)
		}
	}
	run := w.reachable(append(append([]*ssa.Function{}, roots...), inits...), func(f *ssa.Function) bool {
		return !w.InRepo(f) && f.Name() == "init" && f.Signature.Recv() == nil // what other packages set up when they are loaded
	})
	all := w.reachable(append([]*ssa.Function{}, mains...), nil)
	reach := map[*ssa.Function]*Reach{}
	for f := range all.From {
		if w.InRepo(f) {
			reach[f] = all
		}
	}
	for f := range run.From {
		reach[f] = run
	}
	var fns []*ssa.Function
	for f := range reach {
		if !isStd(f) && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	c.Count("functions", len(fns))

	c.sources(fns, reach, run)
	c.mapOrder(fns, run)
	c.addresses(fns, run)
	c.leftovers(proc, ctor)
}

// sources: calls and instructions whose outcome differs between runs.
func (c *Ctx) sources(fns []*ssa.Function, reach map[*ssa.Function]*Reach, run *Reach) {
	const R = "no-unsteady-source"
	w := c.W
	fol := &followed{w: w, c: c, vals: map[ssa.Value]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}}
	nCalls := 0
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				var callee *ssa.Value
				if isCall && !ci.Common().IsInvoke() {
					callee = &ci.Common().Value
					if g := ci.Common().StaticCallee(); g != nil {
						fol.calls[g] = append(fol.calls[g], ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && op != callee {
						fol.taken[g] = true
					}
				}
			}
		}
	}
	reported := map[ssa.Instruction]bool{}
	for _, f := range fns {
		_, inRun := run.From[f]
		own := w.InRepo(f)
		initFn := strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if inRun && (own || !initFn) {
					switch x := in.(type) {
					case *ssa.Go:
						c.Oblige(false, R, f, in.Pos(), "goroutine", "%s starts a goroutine: what it does is ordered by the scheduler (reached by %s)", FnName(f), run.chain(f))
					case *ssa.Select, *ssa.Send, *ssa.MakeChan:
						c.Oblige(false, R, f, in.Pos(), "channel", "%s uses a channel: the order of what happens depends on the scheduler (reached by %s)", FnName(f), run.chain(f))
					case *ssa.UnOp:
						if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Args" || g.Name() == "Stdin") && own {
							c.Oblige(false, R, f, in.Pos(), "os."+g.Name(), "%s reads os.%s: the G-code depends on something besides the model and the settings", FnName(f), g.Name())
						}
						if x.Op == token.ARROW {
							c.Oblige(false, R, f, in.Pos(), "channel", "%s receives from a channel (reached by %s)", FnName(f), run.chain(f))
						}
					}
				}
				var callees []*ssa.Function
				var pkg, recv, name string
				if ci, ok := in.(ssa.CallInstruction); ok {
					pkg, recv, name = calleeOf(ci.Common())
					nCalls++
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && isStd(g) {
						callees = append(callees, g)
					}
				}
				check := func(pkg, recv, name string, value bool) {
					if name == "init" && recv == "" {
						return
					}
					why := unsteady(pkg, recv, name)
					if why == "" || initFn && !own {
						return
					}
					full := pkg + "." + name
					if recv != "" {
						full = pkg + "." + recv + "." + name
					}
					if reported[in] {
						return
					}
					if why == "the time" && !value {
						if v, ok := in.(ssa.Value); ok && own {
							src := in
							fol.bad = func(use ssa.Instruction, how string) {
								if !reported[src] {
									reported[src] = true
									c.Oblige(false, R, src.Parent(), src.Pos(), "clock", "what %s at %s returns %s at %s in %s: it must end in log output only", full, w.Pos(src.Pos()), how, w.Pos(use.Pos()), FnName(use.Parent()))
								}
							}
							fol.add(v)
							fol.run()
							c.Count("clock reads followed", 1)
							if !reported[src] {
								c.Oblige(true, R, f, in.Pos(), "clock", "")
							}
							return
						}
					}
					if why == "earlier use of a pool" && !own {
						return
					}
					if why == "map order" && value == false {
						if v, ok := in.(ssa.Value); ok && sortedAfter(v) {
							c.Oblige(true, R, f, in.Pos(), full, "")
							return
						}
					}
					reported[in] = true
					c.Oblige(false, R, f, in.Pos(), full, "%s uses %s, which gives %s (reached by %s)", FnName(f), full, why, reach[f].chain(f))
				}
				check(pkg, recv, name, false)
				for _, g := range callees {
					p, r, n := fnName3(g)
					if p != pkg || n != name {
						check(p, r, n, true)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && inRun {
					c.fileRead(ci, f, pkg, recv, name, fol)
				}
			}
		}
	}
	c.Count("calls", nCalls)
	c.AtLeast(R, "calls", nCalls, 500)
	c.Oblige(true, R, nil, 0, "all calls", "")
}

// fileRead: files are read by the path the reader was given.
func (c *Ctx) fileRead(ci ssa.CallInstruction, f *ssa.Function, pkg, recv, name string, fol *followed) {
	const R = "no-unsteady-source"
	var arg ssa.Value
	args := ci.Common().Args
	switch {
	case recv == "" && pkg == "os" && strings.Contains(" Open ReadFile Stat Lstat Readlink OpenFile ", " "+name+" "),
		recv == "" && pkg == "io/ioutil" && name == "ReadFile":
		arg = args[0]
	default:
		return
	}
	if name == "OpenFile" && len(args) > 1 {
		if k, ok := args[1].(*ssa.Const); ok && k.Value != nil {
			if n, exact := constant.Int64Val(k.Value); exact && n&3 == 1 { // write only
				return
			}
		}
	}
	c.Count("files read", 1)
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			fn := x.Parent()
			if c.isStage(fn) {
				return true
			}
			calls := fol.calls[fn]
			if len(calls) == 0 || fol.taken[fn] {
				return false
			}
			for i, p := range fn.Params {
				if p == x {
					for _, call := range calls {
						if call.Common().IsInvoke() || i >= len(call.Common().Args) || !ok(call.Common().Args[i]) {
							return false
						}
					}
				}
			}
			return true
		case *ssa.UnOp:
			if fa, isF := x.X.(*ssa.FieldAddr); isF {
				return strings.HasSuffix(fieldName(fa), "FilePath")
			}
			return false
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.ChangeType:
			return ok(x.X)
		case *ssa.Call:
			p, _, n := calleeOf(x.Common())
			return p == "path/filepath" && n == "Clean" && ok(x.Common().Args[0])
		}
		return false
	}
	c.Oblige(ok(arg), R, f, ci.Pos(), "reads a file", "%s reads a file by a path other than the one the reader was given", FnName(f))
}

func fieldName(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if s, ok := t.(*types.Struct); ok && fa.Field < s.NumFields() {
		return s.Field(fa.Field).Name()
	}
	return ""
}

// isStage: the function is an operation of a stage, called by Process only.
func (c *Ctx) isStage(fn *ssa.Function) bool {
	for i, n := range []string{"ModelReader", "GCodeWriter"} {
		if t := c.W.TypeNamed("handler", n); t != nil {
			for _, f := range c.W.ImplMethods(t, []string{"Read", "Write"}[i]) {
				if f == fn {
					return true
				}
			}
		}
	}
	return false
}

// sortedAfter: the value is used only to be sorted, or its uses come after a sort of it.
func sortedAfter(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		var sorts []ssa.Instruction
		var rest []ssa.Instruction
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.ChangeType:
				// a sort of a converted list sorts the list
				if s := sortOf(x); s != nil {
					sorts = append(sorts, s)
					continue
				}
			case *ssa.MakeInterface:
				if s := sortOf(x); s != nil {
					sorts = append(sorts, s)
					continue
				}
			case ssa.CallInstruction:
				p, _, n := calleeOf(x.Common())
				if isSort(p, n) {
					sorts = append(sorts, in)
					continue
				}
				if p == "slices" && (n == "Sorted" || n == "SortedFunc" || n == "SortedStableFunc") {
					continue
				}
				if p == "slices" && n == "Collect" {
					if r, isV := x.(ssa.Value); isV && ok(r) {
						continue
					}
					return false
				}
				if b, isB := x.Common().Value.(*ssa.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
			}
			rest = append(rest, in)
		}
		for _, in := range rest {
			after := false
			for _, s := range sorts {
				if instrDominates(s, in) {
					after = true
				}
			}
			if after {
				continue
			}
			// a variable that other code sees
			if st, isStore := in.(*ssa.Store); isStore && st.Val == v {
				return false
			}
			if ph, isPhi := in.(*ssa.Phi); isPhi && ok(ph) {
				continue
			}
			return false
		}
		return true
	}
	return ok(v)
}

func isSort(p, n string) bool {
	return p == "sort" && (n == "Ints" || n == "Strings" || n == "Float64s" || n == "Slice" || n == "SliceStable" || n == "Sort" || n == "Stable") ||
		p == "slices" && (n == "Sort" || n == "SortFunc" || n == "SortStableFunc")
}

func sortOf(v ssa.Value) ssa.Instruction {
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case ssa.CallInstruction:
			if p, _, n := calleeOf(x.Common()); isSort(p, n) {
				return in
			}
		case *ssa.MakeInterface:
			if s := sortOf(x); s != nil {
				return s
			}
		}
	}
	return nil
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
		return false
	}
	return a.Parent() == b.Parent() && a.Block().Dominates(b.Block())
}

// mapOrder: loops over maps.
func (c *Ctx) mapOrder(fns []*ssa.Function, run *Reach) {
	const R = "no-map-order"
	n := 0
	for _, f := range fns {
		if _, in := run.From[f]; !in {
			continue
		}
		initFn := strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0
		if initFn && !c.W.InRepo(f) {
			continue
		}
		n++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				r, ok := in.(*ssa.Range)
				if !ok {
					continue
				}
				if _, isMap := r.X.Type().Underlying().(*types.Map); !isMap {
					continue
				}
				why := orderSeen(r)
				c.Oblige(why == "", R, f, r.Pos(), "loop over a map", "%s loops over a map and %s: the result depends on the order of the map (reached by %s)", FnName(f), why, run.chain(f))
			}
		}
	}
	c.Count("functions searched for loops over maps", n)
	c.Oblige(true, R, nil, 0, "all functions", "")
}

// orderSeen tells what of a loop over a map depends on its order, "" if nothing does.
func orderSeen(r *ssa.Range) string {
	var next *ssa.Next
	for _, in := range *r.Referrers() {
		if x, ok := in.(*ssa.Next); ok {
			if next != nil {
				return "is advanced in two places"
			}
			next = x
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// blocks of the loop
	loop := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	isKey := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == ssa.Value(next) && e.Index == 1
	}
	var local func(a ssa.Value) bool
	local = func(a ssa.Value) bool {
		switch x := a.(type) {
		case *ssa.Alloc:
			return loop[x.Block()] || !x.Heap && false
		case *ssa.IndexAddr:
			return local(x.X)
		case *ssa.FieldAddr:
			return local(x.X)
		}
		return false
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					return "writes a variable that outlives the iteration"
				}
			case *ssa.MapUpdate:
				if !isKey(x.Key) {
					return "writes a map at a key other than that of the iteration"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return "has effects in every iteration"
			case ssa.CallInstruction:
				p, rv, n := calleeOf(x.Common())
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "min", "max":
						continue
					case "delete":
						if isKey(x.Common().Args[1]) {
							continue
						}
					}
					return "calls " + bi.Name()
				}
				if p == "strings" && rv == "" || p == "strconv" || p == "math" || p == "fmt" && strings.HasPrefix(n, "Sprint") || p == "unicode" {
					continue
				}
				return "calls " + n
			case *ssa.Phi:
				if b != head {
					continue
				}
				if why := accumulates(x, head, loop); why != "" {
					return why
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if _, ok := v.(*ssa.Const); !ok {
						return "returns from inside of the loop"
					}
				}
			}
		}
		if b != head {
			for _, s := range b.Succs {
				if !loop[s] {
					// an early end
					for _, in := range s.Instrs {
						if ph, ok := in.(*ssa.Phi); ok {
							for i, p := range s.Preds {
								if p == b {
									if _, isC := ph.Edges[i].(*ssa.Const); !isC {
										return "ends early with a value that depends on the order"
									}
								}
							}
						}
					}
					// only if nothing has been accumulated
					for _, in := range head.Instrs {
						if _, ok := in.(*ssa.Phi); ok {
							return "ends early after it has collected values"
						}
					}
					for _, in := range s.Instrs {
						for _, op := range in.Operands(nil) {
							if v, ok := (*op).(ssa.Instruction); ok && loop[v.Block()] {
								if _, isPhi := in.(*ssa.Phi); !isPhi {
									return "ends early with a value that depends on the order"
								}
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// accumulates: the value carried from iteration to iteration is a sum of integers, a minimum or a list that is sorted afterwards.
func accumulates(ph *ssa.Phi, head *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) string {
	list := false
	var step func(v ssa.Value, seen map[ssa.Value]bool) bool
	step = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == ssa.Value(ph) {
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true // set to a constant, whatever the order
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !step(e, seen) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			b, ok := x.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				return x.X == ssa.Value(ph) || x.Y == ssa.Value(ph)
			case token.SUB:
				return x.X == ssa.Value(ph)
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					list = true
					return step(x.Call.Args[0], seen)
				case "min", "max":
					for _, a := range x.Call.Args {
						if a == ssa.Value(ph) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	consts := map[string]bool{}
	for i, e := range ph.Edges {
		if loop[head.Preds[i]] {
			if k, ok := e.(*ssa.Const); ok {
				consts[k.String()] = true
			}
			if !step(e, map[ssa.Value]bool{}) {
				return "carries a value from iteration to iteration"
			}
		}
	}
	if !list {
		return ""
	}
	// uses of the list behind the loop
	var uses []ssa.Instruction
	var sorts []ssa.Instruction
	for _, in := range *ph.Referrers() {
		if loop[in.Block()] {
			continue
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
			continue
		case ssa.CallInstruction:
			p, _, n := calleeOf(x.Common())
			if isSort(p, n) {
				sorts = append(sorts, in)
				continue
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		case *ssa.MakeInterface:
			if s := sortOf(x); s != nil {
				sorts = append(sorts, s)
				continue
			}
		case *ssa.ChangeType:
			if s := sortOf(x); s != nil {
				sorts = append(sorts, s)
				continue
			}
		}
		uses = append(uses, in)
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			ok = ok || instrDominates(s, u)
		}
		if !ok {
			return "uses the list it collects before it has been sorted"
		}
	}
	return ""
}

// addresses: text that would contain one.
func (c *Ctx) addresses(fns []*ssa.Function, run *Reach) {
	const R = "no-addresses"
	w := c.W
	// functions that hand a list of values on to fmt
	prints := map[*ssa.Function]int{}
	isPrint := func(cc *ssa.CallCommon) int {
		p, recv, n := calleeOf(cc)
		if p == "fmt" && recv == "" {
			switch {
			case n == "Errorf":
				return -1
			case strings.HasPrefix(n, "Sprint"), strings.HasPrefix(n, "Fprint"), strings.HasPrefix(n, "Append"), strings.HasPrefix(n, "Print"):
				return len(cc.Args) - 1
			}
		}
		if f := cc.StaticCallee(); f != nil {
			if i, ok := prints[f]; ok {
				return i
			}
		}
		return -1
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if _, ok := prints[f]; ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					i := isPrint(ci.Common())
					if i < 0 || i >= len(ci.Common().Args) {
						continue
					}
					for k, p := range f.Params {
						if ci.Common().Args[i] == ssa.Value(p) {
							if _, ok := prints[f]; !ok {
								prints[f] = k
								changed = true
							}
						}
					}
				}
			}
		}
	}
	n := 0
	for _, f := range fns {
		if _, in := run.From[f]; !in {
			continue
		}
		own := w.InRepo(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.Convert); ok && own {
					from, isB := cv.X.Type().Underlying().(*types.Basic)
					to, isB2 := cv.Type().Underlying().(*types.Basic)
					if isB && isB2 && from.Kind() == types.UnsafePointer && to.Kind() == types.Uintptr {
						c.Oblige(false, R, f, in.Pos(), "address as number", "%s turns an address into a number", FnName(f))
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !own {
					continue
				}
				i := isPrint(ci.Common())
				if i < 0 || i >= len(ci.Common().Args) {
					continue
				}
				n++
				if i > 0 {
					if k, ok := ci.Common().Args[i-1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
						c.Oblige(false, R, f, in.Pos(), "%p", "%s prints an address with %%p", FnName(f))
					}
				}
				for _, t := range listedTypes(ci.Common().Args[i]) {
					why := ""
					for _, x := range concrete(w, t) {
						if s := printsAddress(x, 0, map[types.Type]bool{}); s != "" {
							why = s
						}
					}
					c.Oblige(why == "", R, f, in.Pos(), "printed "+shortT(t), "%s prints a value of type %s, which shows %s", FnName(f), shortT(t), why)
				}
			}
		}
	}
	c.Count("prints", n)
	c.AtLeast(R, "prints", n, 20)
}

// listedTypes: the types of the values put into a list of arguments.
func listedTypes(v ssa.Value) []types.Type {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, in := range *a.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok {
				switch x := st.Val.(type) {
				case *ssa.MakeInterface:
					out = append(out, x.X.Type())
				case *ssa.ChangeInterface:
					out = append(out, x.X.Type())
				}
			}
		}
	}
	return out
}

func concrete(w *World, t types.Type) []types.Type {
	if types.IsInterface(t) {
		var out []types.Type
		for _, n := range w.Impls(t) {
			if types.Implements(n, t.Underlying().(*types.Interface)) {
				out = append(out, n)
			} else {
				out = append(out, types.NewPointer(n))
			}
		}
		return out
	}
	return []types.Type{t}
}

func printsAddress(t types.Type, depth int, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Error", "String", "Format", "GoString"} {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n && ms.At(i).Obj().Exported() {
				return ""
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return "the address in a pointer to " + shortT(u.Elem())
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return printsAddress(u.Elem(), depth+1, seen)
		}
		return "the address of a " + shortT(u.Elem())
	case *types.Chan:
		return "the address of a channel"
	case *types.Signature:
		return "the address of a function"
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "an address"
		}
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Map:
		if s := printsAddress(u.Key(), depth+1, seen); s != "" {
			return s
		}
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := printsAddress(u.Field(i).Type(), depth+1, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

// leftovers: what a run leaves behind for the next.
func (c *Ctx) leftovers(proc, ctor *ssa.Function) {
	const R = "no-leftover"
	w := c.W
	fx := newEffects(w, []*ssa.Function{ctor, proc})
	if fx == nil || fx.frames[proc] == nil || fx.frames[ctor] == nil {
		c.Undecided(R, proc, proc.Pos(), "analysis", "the effect analysis did not come to an end")
		return
	}
	c.Count("functions summarised", len(fx.frames))
	v := c.valueTypes()
	type mod struct {
		text  string
		chain []types.Type
		p     eptr
		m     emod
	}
	var ms []mod
	for _, fn := range []*ssa.Function{ctor, proc} {
		fr := fx.frames[fn]
		for p, m := range fr.mods {
			text, chain := fr.describe(p)
			root := p.n
			for root.kind == 'l' {
				root = root.parent
			}
			at := ""
			var in *ssa.Function
			if m.ins != nil {
				at, in = w.Pos(m.ins.Pos()), m.ins.Parent()
			}
			if root.kind == 'g' {
				c.Oblige(false, R, fn, fn.Pos(), text, "%s changes the variable %s at %s in %s: it survives the run", FnName(fn), text, at, FnName(in))
				continue
			}
			if fn == ctor {
				continue
			}
			set := false
			for _, t := range chain {
				set = set || v.isSettings(t)
			}
			if set {
				c.Oblige(false, R, fn, fn.Pos(), text, "%s changes the settings: %s at %s in %s", FnName(fn), text, at, FnName(in))
				continue
			}
			ms = append(ms, mod{text, chain, p, m})
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].text < ms[j].text })
	c.Count("cells from before the run that it may change", len(ms))
	pl := c.pipeline(R)
	if pl == nil {
		return
	}
	// the outermost changed cells
	var tops []mod
	for _, m := range ms {
		behind := false
		for _, o := range tops {
			if rest := strings.TrimPrefix(m.text, o.text); rest != m.text && (rest == "" || strings.ContainsRune(".[{<*", rune(rest[0]))) {
				behind = true
			}
		}
		if !behind {
			tops = append(tops, m)
		}
	}
	type stage struct {
		v      *Term
		method string
		name   string
	}
	var stages []stage
	for _, r := range [][2]string{{"Reader", "Read"}, {"Optimizer", "Optimize"}, {"Slicer", "Slice"}, {"Generator", "Generate"}, {"Writer", "Write"}} {
		if s := pl.Stage[r[0]]; s != nil {
			stages = append(stages, stage{s, r[1], r[0]})
		}
	}
	for i, m := range pl.Modifiers {
		stages = append(stages, stage{m, "Modify", fmt.Sprintf("modifier %d", i)})
	}
	for i, r := range pl.Renderers {
		stages = append(stages, stage{r, "Render", fmt.Sprintf("renderer %d", i)})
	}
	typeOf := func(s *Term) types.Type {
		if s.Op != OIface || s.Typ == nil {
			return nil
		}
		if p, ok := s.Typ.(*types.Pointer); ok {
			return p.Elem()
		}
		return s.Typ
	}
	runs := map[int][]string{}
	for _, m := range tops {
		at, in := "", (*ssa.Function)(nil)
		if m.m.ins != nil {
			at, in = w.Pos(m.m.ins.Pos()), m.m.ins.Parent()
		}
		i := strings.LastIndexAny(m.p.path, ".")
		field := ""
		if i >= 0 && !strings.ContainsAny(m.p.path[i+1:], "[{<*") {
			field = m.p.path[i+1:]
		}
		var owner types.Type
		if field != "" {
			owner = fx.typeAt(m.p.n, m.p.path[:i])
			if p, ok := owner.(*types.Pointer); ok {
				owner = p.Elem()
			}
		}
		if owner == nil || structOf(owner) == nil {
			c.Oblige(false, R, proc, proc.Pos(), m.text, "a run changes %s at %s in %s, which the next run of the same object finds changed", m.text, at, FnName(in))
			continue
		}
		found := false
		for k, s := range stages {
			st := typeOf(s.v)
			if st == nil {
				continue
			}
			for _, t := range m.chain {
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if types.Identical(t, st) {
					found = true
					runs[k] = append(runs[k], "F:"+typeKey(owner)+"."+field)
				}
			}
		}
		c.Oblige(found, R, proc, proc.Pos(), m.text, "a run changes %s at %s in %s: the next run of the same object finds it changed", m.text, at, FnName(in))
	}
	c.AtLeast(R, "stages", len(stages), 15)
	for k, s := range stages {
		keys := runs[k]
		if len(keys) == 0 {
			c.Oblige(true, R, nil, 0, s.name, "")
			continue
		}
		saved := pl.St
		st := pl.St.copy()
		mem := map[string]memory{}
		for a, b := range st.mem {
			mem[a] = b
		}
		for _, mk := range keys {
			mem[mk] = memory{base: pl.It.T.SymT("leftover~"+mk, nil)}
			c.Count("fields analysed with a leftover", 1)
		}
		st.mem = mem
		p2 := *pl
		p2.St = st
		pol := boundary
		if s.method == "Render" {
			pol = renderBoundary
		}
		res := c.initAndRun(&p2, s.v, s.method, func(it *Interp) { it.Policy = pol }, nil)
		pl.St = saved
		if res == nil || res.Fn == nil || len(res.Paths) == 0 {
			c.Undecided(R, nil, 0, s.name, "no abstract path")
			continue
		}
		why := ""
		seen := map[*Term]bool{}
		var visit func(t *Term, what string)
		visit = func(t *Term, what string) {
			if t == nil || why != "" {
				return
			}
			t.Contains(func(x *Term) bool {
				if seen[x] {
					return false
				}
				seen[x] = true
				if i := strings.Index(x.Sym, "leftover~F:"); i >= 0 {
					f := x.Sym[i+len("leftover~F:"):]
					why = fmt.Sprintf("%s depends on what %s held before the run", what, strings.SplitN(f, "@", 2)[0])
					return true
				}
				if d := res.It.LoopDefs[x]; d != nil {
					visit(d.Init, what)
				}
				return false
			})
		}
		for _, p := range res.Paths {
			p.Facts.Each(func(a *Term, _ bool) { visit(a, "a branch") })
			for _, r := range p.Ret {
				visit(r, "the result")
			}
			walkEvents(p, func(e evCtx) {
				visit2 := "an operation"
				if e.Ev.Key != "" {
					visit2 = e.Ev.Key
				}
				for _, a := range e.Ev.Args {
					visit(a, visit2)
				}
				e.Facts.Each(func(a *Term, _ bool) { visit(a, "a branch") })
			})
		}
		c.Oblige(why == "", R, res.Fn, res.Fn.Pos(), s.name, "%s: %s: reusing the object gives something else than a fresh one", FnName(res.Fn), why)
	}
}
