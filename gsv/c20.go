package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "Custom G-code and comments are emitted verbatim", checkC20)
}

// asDecimal: the decimal text of an integer term.
func asDecimal(t *Term) *Term {
	if t.Op == OFmt && (t.Sym == "%d" || t.Sym == "%v") && len(t.Args) == 1 {
		return strip(t.Args[0])
	}
	return nil
}

func checkC20(c *Ctx) {
	c.Rule("C20.emit: on the layer it belongs to, one renderer runs over all lines of the custom code in order and writes every line once as a line of its own, unchanged except for the two temperature placeholders of the start code; on every other layer none is written")
	c.Rule("C20.format: every format string handed to a formatting function is a constant of the program")
	rs := c.renderRuns("C20.pipeline", hunkBoundary, nil)
	if rs == nil {
		return
	}
	type hunk struct{ name, short string }
	seen := map[string][]*renderRun{}
	total := 0
	for _, h := range []hunk{{"Printer.StartGCode.GCodeLines", ".StartGCode"}, {"Printer.EndGCode.GCodeLines", ".EndGCode"}} {
		for _, r := range rs {
			it, T := r.It, r.It.T
			list := it.optTerm(it.NewState(), r.Opt, h.name)
			if list == nil {
				c.Undecided("C20.emit", nil, 0, "option "+h.name, "not found")
				return
			}
			bedT := it.optTerm(it.NewState(), r.Opt, "Filament.InitialBedTemperature")
			hotT := it.optTerm(it.NewState(), r.Opt, "Filament.InitialHotEndTemperature")
			uses := false
			for _, p := range r.Paths {
				linesOf(p, func(l textLine) {
					if isHunkLine(l, h.short) {
						uses = true
					}
				})
			}
			if !uses {
				continue
			}
			seen[h.name] = append(seen[h.name], r)
			for _, p := range r.Paths {
				if p.Kind != KReturn || (len(p.Ret) == 1 && !p.Ret[0].IsNil()) {
					c.Oblige(p.Kind == KReturn, "C20.emit", r.Fn, r.Fn.Pos(), "always finishes", "may end with %s", p.Kind)
					continue
				}
				cond := maybe
				if h.short == ".StartGCode" {
					cond = it.tri(p.Facts, T.NumEq(r.Nr, T.Int(0)))
				} else {
					cond = it.tri(p.Facts, T.NumEq(r.Nr, r.Max))
				}
				loops := map[*LoopNode]bool{}
				var order []*LoopNode
				bodyLines := map[*Path]int{}
				linesOf(p, func(l textLine) {
					if !isHunkLine(l, h.short) {
						return
					}
					total++
					fn, pos := l.site()
					if len(l.Loops) == 0 {
						// the last, partial iteration of a loop that was left early
						c.Oblige(false, "C20.emit", fn, pos, "line of "+h.name, "a line of the custom code is written outside of a complete iteration of a loop over all lines (%s)", l.show())
						return
					}
					lp := l.Loops[len(l.Loops)-1]
					if !c.Oblige(len(l.Loops) == 1, "C20.emit", fn, pos, "line of "+h.name, "the custom code is written in nested loops") {
						return
					}
					if !loops[lp] {
						loops[lp] = true
						order = append(order, lp)
					}
					bodyLines[l.Path]++
					cv, full := it.covers(lp, T.Len(list))
					if !c.Oblige(full && !cv.Down, "C20.emit", fn, pos, "loop over "+h.name, "the loop does not run over all lines in order") {
						return
					}
					if !c.Oblige(l.Tpl == "\x00" && len(l.Vals) == 1 && !l.Open, "C20.emit", fn, pos, "line of "+h.name, "a line of the custom code is not written as a line of its own: %q", l.show()) {
						return
					}
					v := strip(l.Vals[0].Val)
					if l.Vals[0].Verb != "%s" && l.Vals[0].Verb != "%v" && l.Vals[0].Verb != "?" {
						c.Oblige(false, "C20.emit", fn, pos, "line of "+h.name, "the line is formatted with %s", l.Vals[0].Verb)
						return
					}
					repl := map[string]bool{}
					bad := ""
					for v.Op == OFn && v.Sym == "strings.Replace" && len(v.Args) == 3 {
						from, to := v.Args[1], asDecimal(v.Args[2])
						switch {
						case h.short == ".StartGCode" && from.Op == OStr && from.Sym == "{print_bed_temperature}" && to != nil && to == bedT:
						case h.short == ".StartGCode" && from.Op == OStr && from.Sym == "{print_temperature}" && to != nil && to == hotT:
						default:
							bad = "replaces " + clipT(from) + " by " + clipT(v.Args[2])
						}
						if from.Op == OStr {
							repl[from.Sym] = true
						}
						v = strip(v.Args[0])
					}
					base, idx, isE := elemOf(v)
					if bad == "" && (!isE || base != list || idx != cv.Idx) {
						bad = "writes " + clipT(v)
					}
					c.Oblige(bad == "", "C20.emit", fn, pos, "line of "+h.name, "the line is not the custom line itself: %s", bad)
					if h.short == ".StartGCode" && bad == "" {
						for _, ph := range []string{"{print_bed_temperature}", "{print_temperature}"} {
							if repl[ph] {
								continue
							}
							absent := false
							l.Facts.Each(func(a *Term, val bool) {
								if !val && a.Op == OFn && a.Sym == "strings.Contains" && len(a.Args) == 2 && a.Args[1].Op == OStr && a.Args[1].Sym == ph {
									x := strip(a.Args[0])
									for x.Op == OFn && x.Sym == "strings.Replace" {
										x = strip(x.Args[0])
									}
									if x == v {
										absent = true
									}
								}
							})
							c.Oblige(absent, "C20.emit", fn, pos, "placeholder "+ph, "the placeholder %s is not replaced on a path on which the line may contain it", ph)
						}
					}
				})
				for _, lp := range order {
					for _, b := range lp.Bodies {
						c.Oblige(bodyLines[b] == 1, "C20.emit", r.Fn, r.Fn.Pos(), "each line of "+h.name+" once", "an iteration of the loop over the custom lines writes %d of them (%s)", bodyLines[b], clipStr(b.Facts.String(), 200))
					}
					if cv, full := it.covers(lp, T.Len(list)); full {
						c.Oblige(it.exhausted(p, cv, T.Len(list)), "C20.emit", r.Fn, r.Fn.Pos(), "all lines of "+h.name, "the loop over the custom lines may be left before the last one")
					}
				}
				switch {
				case cond == no || (cond == maybe && len(order) == 0):
					c.Oblige(len(order) == 0 && cond == no, "C20.emit", r.Fn, r.Fn.Pos(), h.name+" only on its layer", "the custom code is written or left out on a path on which the layer is not its own or not known (%s)", clipStr(p.Facts.String(), 200))
				default:
					empty := T.Holds(p.Facts, T.LeT(T.Len(list), T.Int(0))) || T.Holds(p.Facts, T.RefEq(list, T.Nil()))
					c.Oblige(cond == yes && (len(order) == 1 || len(order) == 0 && empty), "C20.emit", r.Fn, r.Fn.Pos(), h.name+" once on its layer", "the custom code is written %d times on a path on which the condition of its layer %s (%s)", len(order), triName(cond), clipStr(p.Facts.String(), 200))
				}
			}
		}
		c.Oblige(len(seen[h.name]) == 1, "C20.emit", nil, 0, h.name, "%d renderers write this custom code", len(seen[h.name]))
	}
	c.AtLeast("C20.anchors", "emissions of custom lines", total, 3)
	// no engine path formats with a computed format string
	for _, r := range rs {
		for _, p := range r.Paths {
			linesOf(p, func(l textLine) {
				for _, v := range l.Vals {
					if v.Verb == "FORMAT" {
						fn, pos := l.site()
						c.Oblige(false, "C20.format", fn, pos, "written line", "the line is formatted with a format string that is not a constant")
					}
				}
			})
		}
	}
	c.formatTaint()
}

// constFlow decides whether a string (or every element of a list of strings) is a constant of the program.
type constFlow struct {
	w       *World
	fmtPar  map[*ssa.Parameter]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	escapes map[*ssa.Function]bool
	gstores map[*ssa.Global][]ssa.Value
	busy    map[ssa.Value]bool
	memo    map[ssa.Value]bool
}

func newConstFlow(w *World, fns []*ssa.Function) *constFlow {
	cf := &constFlow{w: w, fmtPar: map[*ssa.Parameter]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, escapes: map[*ssa.Function]bool{}, gstores: map[*ssa.Global][]ssa.Value{}, busy: map[ssa.Value]bool{}, memo: map[ssa.Value]bool{}}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var skip ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if f, ok := ci.Common().Value.(*ssa.Function); ok && !ci.Common().IsInvoke() {
						cf.callers[f] = append(cf.callers[f], ci)
						skip = ci.Common().Value
					}
				}
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						cf.gstores[g] = append(cf.gstores[g], st.Val)
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil || *op == skip {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						cf.escapes[f] = true
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := ins.(type) {
						case *ssa.Store:
							if x.Addr != ssa.Value(g) {
								cf.gstores[g] = append(cf.gstores[g], nil)
							}
						case *ssa.UnOp:
						default:
							cf.gstores[g] = append(cf.gstores[g], nil)
						}
					}
				}
			}
		}
	}
	return cf
}

func (cf *constFlow) ok(v ssa.Value) bool {
	if r, k := cf.memo[v]; k {
		return r
	}
	if cf.busy[v] {
		return true // assume while on the cycle
	}
	cf.busy[v] = true
	r := cf.eval(v)
	delete(cf.busy, v)
	if !r || len(cf.busy) == 0 {
		cf.memo[v] = r
	}
	return r
}

func (cf *constFlow) eval(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		return x.Op == token.ADD && cf.ok(x.X) && cf.ok(x.Y)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !cf.ok(e) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return cf.ok(x.X)
	case *ssa.Slice:
		return cf.ok(x.X)
	case *ssa.Parameter:
		if cf.fmtPar[x] {
			return true
		}
		fn := x.Parent()
		if cf.escapes[fn] || fn.Signature.Recv() != nil && !fnPrivate(fn) || fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && !strings.Contains(fn.Pkg.Pkg.Path(), "internal") {
			// exported functions may be called from elsewhere; a method may be called through an interface
			return false
		}
		k := -1
		for i, p := range fn.Params {
			if p == x {
				k = i
			}
		}
		if len(cf.callers[fn]) == 0 {
			return false
		}
		for _, ci := range cf.callers[fn] {
			if k >= len(ci.Common().Args) || !cf.ok(ci.Common().Args[k]) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		// all stores into the cell, array or struct
		return cf.okStores(x)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return cf.okStores(a)
		case *ssa.Global:
			return cf.okGlobal(a)
		case *ssa.IndexAddr:
			return cf.ok(a.X)
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok {
				return cf.okStores(al)
			}
		case *ssa.FreeVar:
			return cf.okFree(a)
		}
		return false
	case *ssa.Index:
		return cf.ok(x.X)
	case *ssa.Lookup:
		return false
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString {
			return false
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return cf.okCall(call, x.Index)
		}
		return false
	case *ssa.Call:
		return cf.okCall(x, 0)
	case *ssa.FreeVar:
		return cf.okFree(x)
	case *ssa.MakeInterface:
		return cf.ok(x.X)
	}
	return false
}

func fnPrivate(fn *ssa.Function) bool { return fn.Object() != nil && !fn.Object().Exported() }

func (cf *constFlow) okGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || !inRepoPkg(g.Pkg.Pkg) || g.Object() != nil && g.Object().Exported() && len(cf.gstores[g]) == 0 {
		return false
	}
	for _, v := range cf.gstores[g] {
		if v == nil || !cf.ok(v) {
			return false
		}
	}
	return len(cf.gstores[g]) > 0
}

func (cf *constFlow) okFree(v *ssa.FreeVar) bool {
	fn := v.Parent()
	k := -1
	for i, f := range fn.FreeVars {
		if f == v {
			k = i
		}
	}
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				n++
				if !cf.ok(mc.Bindings[k]) {
					return false
				}
			}
		}
	}
	return n > 0
}

func (cf *constFlow) okCall(c *ssa.Call, i int) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		for _, a := range c.Call.Args {
			if !cf.ok(a) {
				return false
			}
		}
		return true
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if len(f.Blocks) == 0 || f.Pkg == nil || !inRepoPkg(f.Pkg.Pkg) {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "strings" {
			switch f.Name() {
			case "Join", "Repeat", "ToUpper", "ToLower", "TrimSpace", "Replace", "ReplaceAll", "Trim", "TrimSuffix", "TrimPrefix":
				for _, a := range c.Call.Args {
					if isStringy(a.Type()) && !cf.ok(a) {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !cf.ok(r.Results[i]) {
				return false
			}
		}
	}
	return true
}

func isStringy(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return isStringy(u.Elem())
	}
	return false
}

// okStores: everything stored into a local variable, array or struct is constant and the address does not get out of sight.
func (cf *constFlow) okStores(a ssa.Value) bool {
	for _, ref := range *a.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr != a || isStringy(r.Val.Type()) && !cf.ok(r.Val) {
				return false
			}
			if !isStringy(r.Val.Type()) && structOf(r.Val.Type()) != nil && !cf.ok(r.Val) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
		case *ssa.IndexAddr:
			if !cf.okStores(r) {
				return false
			}
		case *ssa.FieldAddr:
			if !cf.okStores(r) {
				return false
			}
		case *ssa.MakeClosure:
			// a captured variable: look at the stores inside of the closure
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a && !cf.okStores(fn.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// formatPos gives the position of the format parameter of a formatting function outside of the repository.
func formatPos(w *World, fn *types.Func) int {
	if fn == nil || fn.Pkg() == nil || inRepoPkg(fn.Pkg()) {
		return -1
	}
	return formatSig(fn.Type().(*types.Signature), fn.Name())
}

// formatSig: a function (…, format string, args ...interface{}); values of function type have no name.
func formatSig(s *types.Signature, name string) int {
	n := s.Params().Len()
	if !s.Variadic() || n < 2 {
		return -1
	}
	sl, ok := s.Params().At(n - 1).Type().(*types.Slice)
	if !ok || !types.IsInterface(sl.Elem()) {
		return -1
	}
	f := s.Params().At(n - 2)
	if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return -1
	}
	if f.Name() == "format" || name == "" || strings.HasSuffix(name, "f") {
		return n - 2
	}
	return -1
}

func (c *Ctx) formatTaint() {
	const R = "C20.format"
	w := c.W
	// all functions of the repository and the synthetic wrappers they use
	fns := append([]*ssa.Function{}, w.RepoFns...)
	have := map[*ssa.Function]bool{}
	for _, f := range fns {
		have[f] = true
	}
	for i := 0; i < len(fns); i++ {
		for _, b := range fns[i].Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && !have[f] && f.Synthetic != "" && len(f.Blocks) > 0 {
						have[f] = true
						fns = append(fns, f)
					}
				}
			}
		}
	}
	cf := newConstFlow(w, fns)
	type site struct {
		fn  *ssa.Function
		ci  ssa.CallInstruction
		arg ssa.Value
		key string
	}
	// a repository function that passes one of its own parameters on as a format string has a format parameter
	flows := func(v ssa.Value) []*ssa.Parameter {
		var out []*ssa.Parameter
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value)
		rec = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Parameter:
				out = append(out, x)
			case *ssa.BinOp:
				rec(x.X)
				rec(x.Y)
			case *ssa.Phi:
				for _, e := range x.Edges {
					rec(e)
				}
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
							rec(st.Val)
						}
					}
				}
			}
		}
		rec(v)
		return out
	}
	collect := func() []site {
		var out []site
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					if cc.IsInvoke() {
						if k := formatPos(w, cc.Method); k >= 0 {
							out = append(out, site{fn, ci, cc.Args[k], cc.Method.FullName()})
							continue
						}
						// implementations in the repository
						for _, im := range implsOfMethod(w, cc.Method) {
							for i, p := range im.Params {
								if cf.fmtPar[p] {
									out = append(out, site{fn, ci, cc.Args[i-1], FnName(im)})
								}
							}
						}
						continue
					}
					callee := cc.StaticCallee()
					if callee == nil {
						if _, isB := cc.Value.(*ssa.Builtin); !isB {
							if k := formatSig(cc.Signature(), ""); k >= 0 {
								out = append(out, site{fn, ci, cc.Args[k], "a function value"})
							}
						}
						continue
					}
					if o, ok := callee.Object().(*types.Func); ok {
						if k := formatPos(w, o); k >= 0 {
							if callee.Signature.Recv() != nil && len(cc.Args) == len(callee.Params) {
								k++
							}
							if k < len(cc.Args) {
								out = append(out, site{fn, ci, cc.Args[k], calleeName(callee)})
							}
							continue
						}
					}
					for i, p := range callee.Params {
						if cf.fmtPar[p] && i < len(cc.Args) {
							out = append(out, site{fn, ci, cc.Args[i], FnName(callee)})
						}
					}
				}
			}
		}
		return out
	}
	var sites []site
	for {
		n := len(cf.fmtPar)
		sites = collect()
		for _, s := range sites {
			for _, p := range flows(s.arg) {
				if len(p.Parent().Params) > 1 && p.Parent().Signature.Variadic() || !cf.ok(p) && (p.Parent().Object() != nil && p.Parent().Object().Exported() || p.Parent().Synthetic != "" || p.Parent().Parent() != nil) {
					cf.fmtPar[p] = true
				} else if !cf.ok(p) {
					cf.fmtPar[p] = true
				}
			}
		}
		if len(cf.fmtPar) == n {
			break
		}
		cf.memo = map[ssa.Value]bool{}
	}
	cf.memo = map[ssa.Value]bool{}
	for _, s := range sites {
		c.Oblige(cf.ok(s.arg), R, s.fn, s.ci.Pos(), "format string for "+s.key, "the format string passed to %s is not a constant of the program", s.key)
	}
	// a function with a format parameter must not be used as a value of unknown use
	var ps []string
	for p := range cf.fmtPar {
		f := p.Parent()
		ps = append(ps, FnName(f)+"("+p.Name()+")")
		if k := formatSig(f.Signature, ""); cf.escapes[f] && (k < 0 || f.Params[len(f.Params)-2] != p) {
			c.Undecided(R, f, f.Pos(), "use as a value", "a function with a format parameter is used as a value")
		}
	}
	sort.Strings(ps)
	c.notes = append(c.notes, "format parameters: "+strings.Join(ps, ", "))
	c.AtLeast("C20.anchors", "format strings", len(sites), 20)
}

func calleeName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok {
		return o.FullName()
	}
	return f.String()
}

func implsOfMethod(w *World, m *types.Func) []*ssa.Function {
	rt := m.Type().(*types.Signature).Recv().Type()
	if n, ok := rt.(*types.Named); ok {
		return w.ImplMethods(n, m.Name())
	}
	return nil
}
