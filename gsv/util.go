package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lt / LeT build integer comparisons.
func (tt *Terms) Lt(a, b *Term) *Term  { return tt.order(tt.Sub(a, b), true, true) }
func (tt *Terms) LeT(a, b *Term) *Term { return tt.order(tt.Sub(a, b), false, true) }

// visitor context of an event
type evCtx struct {
	Ev    *Event
	Facts *Facts      // facts of the enclosing path or loop body at its end
	At    *Facts      // facts known when the event happened
	Loops []*LoopNode // enclosing loops, outermost first (complete iterations)
	Path  *Path       // innermost enclosing path (top path or loop body)
	Part  *LoopNode   // loop whose last, partial iteration this is in
}

// walkEvents visits all events of a path including those of complete loop iterations.
func walkEvents(p *Path, f func(e evCtx)) { walkNodes(p, nil, f) }

func walkNodes(p *Path, loops []*LoopNode, f func(e evCtx)) {
	var part *LoopNode
	for _, n := range p.Trace {
		switch {
		case n.Loop != nil:
			part = nil
			for _, b := range n.Loop.Bodies {
				walkNodes(b, append(append([]*LoopNode{}, loops...), n.Loop), f)
			}
		case n.Exit != nil:
			part = n.Exit
		case n.Ev != nil:
			f(evCtx{Ev: n.Ev, Facts: p.Facts, At: p.Facts.Upto(n.Ev.NFact), Loops: loops, Path: p, Part: part})
		}
	}
}

// allLoops visits every loop passed on a path, nested ones included.
func allLoops(p *Path, f func(l *LoopNode, in *Path)) {
	for _, n := range p.Trace {
		if n.Loop != nil {
			f(n.Loop, p)
			for _, b := range n.Loop.Bodies {
				allLoops(b, f)
			}
		}
	}
}

// Counter is an induction variable of a loop: idx runs first, first+step, ...
type Counter struct {
	Def   *LoopDef
	Step  *Term // constant or loop invariant
	First *Term
}

// counters lists variables that change by the same amount in every iteration.
func (it *Interp) counters(l *LoopNode) []Counter {
	var r []Counter
	for _, d := range l.Defs {
		if len(d.Latch) == 0 || !isNumTermOrTyp(d.Sym) {
			continue
		}
		var step *Term
		same := true
		for _, x := range d.Latch {
			s := it.T.Sub(x, d.Sym)
			if step == nil {
				step = s
			} else if step != s {
				same = false
			}
		}
		if same && step != nil && !step.Contains(func(t *Term) bool { return t == d.Sym }) {
			r = append(r, Counter{d, step, d.Init})
		}
	}
	return r
}

func isNumTermOrTyp(t *Term) bool { return isNumTerm(t) || (t.Typ != nil && isNumber(t.Typ)) }

// Cover describes how a loop runs over a list.
type Cover struct {
	Idx  *Term // index of the element of the current iteration, in terms of the loop's symbols
	Down bool
	Ctr  Counter
}

// covers decides whether the loop visits every index 0..n-1 exactly once as long as it is not left early:
// the index starts at the first (last) one, moves by one, and an iteration only happens while it is in range.
func (it *Interp) covers(l *LoopNode, n *Term) (Cover, bool) {
	T := it.T
	for _, c := range it.counters(l) {
		if c.Step.IsInt(1) {
			idx := T.Sub(c.Def.Sym, c.First) // 0 in the first iteration
			if it.guarded(l, T.Lt(idx, n)) {
				return Cover{idx, false, c}, true
			}
		}
		if c.Step.IsInt(-1) {
			idx := T.Add(T.Sub(c.Def.Sym, c.First), T.Sub(n, T.Int(1)))
			if it.guarded(l, T.LeT(T.Int(0), idx)) {
				return Cover{idx, true, c}, true
			}
		}
	}
	return Cover{}, false
}

// guarded: the condition holds in every complete iteration.
func (it *Interp) guarded(l *LoopNode, cond *Term) bool {
	if len(l.Bodies) == 0 {
		return false
	}
	for _, b := range l.Bodies {
		if !it.T.Holds(b.Facts, cond) {
			return false
		}
	}
	return true
}

// exhausted: on the path that left the loop the index is known to be out of range.
func (it *Interp) exhausted(p *Path, cv Cover, n *Term) bool {
	if cv.Down {
		return it.T.Holds(p.Facts, it.T.Lt(cv.Idx, it.T.Int(0)))
	}
	return it.T.Holds(p.Facts, it.T.LeT(n, cv.Idx))
}

// strip removes interface boxing.
func strip(t *Term) *Term {
	for t != nil && (t.Op == OIface || t.Op == ODyn) {
		t = t.Args[0]
	}
	return t
}

// isField reports whether t is the chain base.path... of struct fields (value or memory).
func fieldPath(t *Term) string {
	switch t.Op {
	case OField:
		return fieldPath(t.Args[0]) + "." + t.Sym
	case OSel:
		if len(t.Args) >= 2 {
			mk := t.Args[0].Sym
			if i := strings.LastIndexByte(mk, '.'); i >= 0 {
				if at := strings.IndexByte(mk[i:], '@'); at >= 0 {
					mk = mk[:i+at]
				}
				return fieldPath(t.Args[1]) + mk[i:]
			}
		}
	case OAddrF:
		return fieldPath(t.Args[0]) + "." + t.Sym
	case OSym:
		return t.Sym
	case OGlobal:
		return t.Sym
	}
	return "?"
}

// hasSuffixPath reports whether t is an option like Print.BrimSkirt.BrimCount.
func optPath(t *Term) string {
	p := fieldPath(t)
	if i := strings.IndexByte(p, '.'); i >= 0 {
		return p[i+1:]
	}
	return p
}

// isOpt: does t denote the given option (path suffix)?
func isOpt(t *Term, path string) bool {
	p := fieldPath(t)
	return p == path || strings.HasSuffix(p, "."+path)
}

func callKeyOf(t *Term) string {
	if t != nil && t.Op == OFn && strings.Contains(t.Sym, ".") {
		return t.Sym
	}
	if t.Op != OCall {
		return ""
	}
	if i := strings.IndexByte(t.Sym, '@'); i >= 0 {
		return t.Sym[:i]
	}
	return t.Sym
}

// res0 unwraps results: (call, index).
func asResult(t *Term) (*Term, int) {
	if t.Op == ORes && len(t.Args) == 1 {
		n := 0
		for _, c := range t.Sym {
			n = n*10 + int(c-'0')
		}
		return t.Args[0], n
	}
	return t, 0
}

// methodOf resolves a method on the dynamic type of an interface value.
func (it *Interp) methodOf(st *State, v *Term, name string) (*ssa.Function, *Term) {
	if v == nil || v.Op != OIface {
		return nil, nil
	}
	ms := it.W.Prog.MethodSets.MethodSet(v.Typ)
	for i := 0; i < ms.Len(); i++ {
		o, ok := ms.At(i).Obj().(*types.Func)
		if !ok || o.Name() != name {
			continue
		}
		fn := it.lookupMethod(v.Typ, o)
		if fn == nil {
			return nil, nil
		}
		return fn, it.derefRecv(st, it.recvFor(fn, v))
	}
	return nil, nil
}

// child makes an interpreter that shares the terms of it (so values can be compared and state reused).
func (it *Interp) child() *Interp {
	n := NewInterp(it.W)
	n.T = it.T
	n.globals = it.globals
	n.Policy = it.Policy
	n.Unroll = it.Unroll
	return n
}

func ratOf(t *Term) *big.Rat {
	r, _ := t.ConstNum()
	return r
}

// Pipeline is the built-in pipeline as NewGoSlice sets it up.
type Pipeline struct {
	It        *Interp
	St        *State
	Opt       *Term // the options parameter of NewGoSlice
	Self      *Term
	Stage     map[string]*Term // Reader, Optimizer, Slicer, Generator, Writer
	Modifiers []*Term
	Renderers []*Term
}

func listElems(l *Term) ([]*Term, bool) {
	if l.IsNil() {
		return nil, true
	}
	if l.Op != OConcat {
		return nil, false
	}
	var r []*Term
	for _, a := range l.Args {
		if a.Op != OLit {
			return nil, false
		}
		r = append(r, a.Args[0])
	}
	return r, true
}

// pipeline abstractly executes NewGoSlice and reads the configured stages from the resulting object.
func (c *Ctx) pipeline(rule string) *Pipeline {
	w := c.W
	fn := w.Func("", "NewGoSlice")
	if fn == nil {
		c.Undecided(rule, nil, 0, "NewGoSlice", "function not found")
		return nil
	}
	it := NewInterp(w)
	it.Unroll = true
	args := it.ParamSyms(fn)
	ps := c.Run(it, fn, args)
	if len(ps) != 1 || ps[0].Kind != KReturn {
		c.Undecided(rule, fn, fn.Pos(), "NewGoSlice", "%d abstract paths", len(ps))
		return nil
	}
	pl := &Pipeline{It: it, St: ps[0].St, Opt: args[0], Self: ps[0].Ret[0], Stage: map[string]*Term{}}
	n := w.TypeNamed("", "GoSlice")
	if n == nil {
		c.Undecided(rule, fn, fn.Pos(), "type GoSlice", "not found")
		return nil
	}
	handlerT := func(name string) types.Type {
		if t := w.TypeNamed("handler", name); t != nil {
			return t
		}
		return nil
	}
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := it.loadAddr(pl.St, it.addrField(pl.Self, n, i), f.Type())
		for role, tn := range map[string]string{"Reader": "ModelReader", "Optimizer": "ModelOptimizer", "Slicer": "ModelSlicer", "Generator": "GCodeGenerator", "Writer": "GCodeWriter"} {
			if t := handlerT(tn); t != nil && types.Identical(f.Type(), t) {
				pl.Stage[role] = v
			}
		}
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if t := handlerT("LayerModifier"); t != nil && types.Identical(sl.Elem(), t) {
				l := it.listVal(pl.St, v, sl.Elem())
				if es, ok := listElems(l); ok {
					pl.Modifiers = es
				} else {
					c.Undecided(rule, fn, fn.Pos(), "modifier list", "the list of modifiers is not a constant list: %s", clipStr(l.String(), 200))
				}
			}
		}
	}
	if g := pl.Stage["Generator"]; g != nil && g.Op == OIface {
		if pt, ok := g.Typ.(*types.Pointer); ok {
			gs := structOf(pt.Elem())
			rt := w.TypeNamed("gcode", "Renderer")
			for i := 0; gs != nil && i < gs.NumFields(); i++ {
				f := gs.Field(i)
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && rt != nil && types.Identical(sl.Elem(), rt) {
					v := it.loadAddr(pl.St, it.addrField(g.Args[0], pt.Elem(), i), f.Type())
					l := it.listVal(pl.St, v, sl.Elem())
					if es, ok := listElems(l); ok {
						pl.Renderers = es
					} else {
						c.Undecided(rule, fn, fn.Pos(), "renderer list", "the list of renderers is not a constant list: %s", clipStr(l.String(), 200))
					}
				}
			}
		}
	}
	for _, e := range append(append([]*Term{}, pl.Modifiers...), pl.Renderers...) {
		c.Oblige(e.Op == OIface, rule, fn, fn.Pos(), "stage of known type", "a stage of the pipeline has no statically known type: %s", e)
	}
	for _, r := range []string{"Reader", "Optimizer", "Slicer", "Generator", "Writer"} {
		c.Oblige(pl.Stage[r] != nil && pl.Stage[r].Op == OIface, rule, fn, fn.Pos(), "stage "+r, "NewGoSlice does not set this stage to a known implementation")
	}
	c.AtLeast(rule, "modifiers of the pipeline", len(pl.Modifiers), 6)
	c.AtLeast(rule, "renderers of the pipeline", len(pl.Renderers), 10)
	return pl
}

// run analyses a method of a pipeline stage in the state NewGoSlice left behind.
func (c *Ctx) stageRun(pl *Pipeline, v *Term, method string, pol Policy, prep func(it *Interp, args []*Term)) (*Interp, *ssa.Function, []*Term, []*Path) {
	it := pl.It.child()
	it.Policy = pol
	it.Unroll = false
	fn, recv := it.methodOf(pl.St, v, method)
	if fn == nil {
		c.Undecided("pipeline", nil, 0, "method "+method, "not found on %s", v)
		return it, nil, nil, nil
	}
	args := it.ParamSyms(fn)
	if recv != nil && len(args) > 0 {
		args[0] = recv
	}
	if prep != nil {
		prep(it, args)
	}
	st := pl.St.copy()
	st.env = map[ssa.Value]*Term{}
	st.trace = nil
	st.defers = nil
	return it, fn, args, c.RunFrom(it, fn, args, st, nil)
}

// elemOf decomposes an element read base[idx].
func elemOf(t *Term) (base, idx *Term, ok bool) {
	t = strip(t)
	if t == nil {
		return
	}
	if t.Op == OSel && len(t.Args) == 3 && isMemKey(t.Args[0].Sym, "E:") {
		return t.Args[1], t.Args[2], true
	}
	if t.Op == OFn && t.Sym == "idx" && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	return
}

// isMemKey: does a memory token (original, havocked or named after a write) belong to the given kind of memory?
func isMemKey(sym, prefix string) bool {
	return strings.HasPrefix(strings.TrimPrefix(sym, "mem~"), prefix)
}

// lookupOf decomposes a map read m[key].
func lookupOf(t *Term) (m, key *Term, ok bool) {
	t = strip(t)
	if t != nil && t.Op == OSel && len(t.Args) == 3 && isMemKey(t.Args[0].Sym, "M:") {
		return t.Args[1], t.Args[2], true
	}
	return
}

// collectEvents visits every event below the paths once, each loop only once.
func collectEvents(ps []*Path, f func(e evCtx)) {
	seenEv := map[*Event]bool{}
	everyPath(ps, func(e evCtx) {
		if !seenEv[e.Ev] {
			seenEv[e.Ev] = true
			f(e)
		}
	})
}

// everyPath visits the events of all paths, those that several paths have in common once for each of them.
func everyPath(ps []*Path, f func(e evCtx)) {
	seen := map[*LoopNode]bool{}
	var rec func(p *Path, loops []*LoopNode)
	rec = func(p *Path, loops []*LoopNode) {
		var part *LoopNode
		for _, n := range p.Trace {
			switch {
			case n.Loop != nil:
				part = nil
				if seen[n.Loop] {
					continue
				}
				seen[n.Loop] = true
				for _, b := range n.Loop.Bodies {
					rec(b, append(append([]*LoopNode{}, loops...), n.Loop))
				}
			case n.Exit != nil:
				part = n.Exit
			case n.Ev != nil:
				f(evCtx{Ev: n.Ev, Facts: p.Facts, At: p.Facts.Upto(n.Ev.NFact), Loops: loops, Path: p, Part: part})
			}
		}
	}
	for _, p := range ps {
		rec(p, nil)
	}
}

// containsNot: does t contain a term satisfying pred without going through a term satisfying cut?
func (t *Term) containsNot(pred, cut func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if cut != nil && cut(x) {
			return false
		}
		if pred(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		for _, m := range x.P {
			for _, a := range m.A {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// stageRuns runs Init of a stage and then the given method, starting in the state NewGoSlice left behind.
type stageRes struct {
	It    *Interp
	Fn    *ssa.Function
	Args  []*Term
	Paths []*Path
}

func (c *Ctx) initAndRun(pl *Pipeline, v *Term, method string, setup func(it *Interp), prep func(it *Interp, args []*Term)) *stageRes {
	it := pl.It.child()
	it.Unroll = false
	if setup != nil {
		setup(it)
	}
	ifn, recv := it.methodOf(pl.St, v, "Init")
	states := []*State{pl.St}
	if ifn != nil {
		args := it.ParamSyms(ifn)
		args[0] = recv
		states = nil
		for _, p := range c.RunFrom(it, ifn, args, cleanState(pl.St), nil) {
			if p.Kind == KReturn {
				states = append(states, p.St)
			}
		}
	}
	res := &stageRes{It: it}
	for _, st := range states {
		fn, recv := it.methodOf(st, v, method)
		if fn == nil {
			c.Undecided("pipeline", nil, 0, "method "+method, "not found on %s", clipStr(v.String(), 100))
			return res
		}
		args := it.ParamSyms(fn)
		args[0] = recv
		if prep != nil {
			prep(it, args)
		}
		res.Fn, res.Args = fn, args
		res.Paths = append(res.Paths, c.RunFrom(it, fn, args, cleanState(st), nil)...)
	}
	return res
}

// cleanState keeps memory and facts only.
func cleanState(s *State) *State {
	st := s.copy()
	st.env = map[ssa.Value]*Term{}
	st.trace = nil
	st.defers = nil
	return st
}

// replaceSyms puts values for symbols into a number.
func (tt *Terms) replaceSyms(t *Term, rep map[*Term]*Term) *Term {
	if r, ok := rep[t]; ok {
		return r
	}
	if t.Op != OPoly {
		return t
	}
	sum := tt.Int(0)
	for _, m := range t.P {
		x := tt.Rat(m.C)
		for _, a := range m.A {
			if r, ok := rep[a]; ok {
				a = r
			}
			x = tt.Mul(x, a)
		}
		sum = tt.Add(sum, x)
	}
	return sum
}

func (tt *Terms) replaceSym(t, sym, by *Term) *Term {
	return tt.replaceSyms(t, map[*Term]*Term{sym: by})
}
