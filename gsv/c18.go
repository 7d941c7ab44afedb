package main

import (
	"go/token"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Degenerate settings and geometry never divide by zero or loop forever", checkC18)
}

// subst replaces symbols in a sum of products; nil if one of them occurs inside another operation.
func (tt *Terms) subst(t *Term, m map[*Term]*Term) *Term {
	r := tt.Int(0)
	for _, mo := range tt.monosOf(t) {
		p := tt.Rat(mo.C)
		for _, a := range mo.A {
			n, ok := m[a]
			if !ok {
				if a.Contains(func(x *Term) bool { _, in := m[x]; return in }) {
					return nil
				}
				n = a
			}
			if n == nil {
				return nil
			}
			p = tt.Mul(p, n)
		}
		r = tt.Add(r, p)
	}
	return r
}

// pos decides t > 0, also for a product of positive factors.
func (it *Interp) posTerm(f *Facts, t *Term) bool {
	T := it.T
	if T.Holds(f, T.order(T.Neg(t), true, true)) || T.Holds(f, T.order(T.Neg(t), true, false)) {
		return true
	}
	ms := T.monosOf(t)
	if len(ms) == 1 && len(ms[0].A) > 0 && ms[0].C.Sign() > 0 {
		for _, a := range ms[0].A {
			if a == t {
				return false
			}
			if !it.posTerm(f, a) {
				return false
			}
		}
		return true
	}
	return false
}

func (it *Interp) nonZero(f *Facts, t *Term) bool {
	T := it.T
	if T.Refuted(f, T.NumEq(t, T.Int(0))) {
		return true
	}
	ms := T.monosOf(t)
	if len(ms) == 1 && len(ms[0].A) > 0 {
		for _, a := range ms[0].A {
			if a == t || !it.nonZero(f, a) {
				return false
			}
		}
		return true
	}
	return false
}

// reachFns: functions of the repository that can run when the command runs.
func (c *Ctx) reachFns(rule string) []*ssa.Function {
	roots := c.W.mainRoots()
	if len(roots) == 0 {
		c.Undecided(rule, nil, 0, "main", "the command was not found")
		return nil
	}
	r := c.W.reachable(roots, nil)
	var l []*ssa.Function
	for _, f := range r.sorted() {
		if c.W.InRepo(f) && len(f.Blocks) > 0 {
			l = append(l, f)
		}
	}
	return l
}

// oblInst is an instruction that carries an obligation.
type oblInst struct {
	kind string
	op   string
	in   ssa.Instruction
	fn   *ssa.Function
}

func checkC18(c *Ctx) {
	c.Rule("C18.div: the divisor of every integer division or remainder in the functions the command can reach is known to differ from zero by the branches taken before it, in the function itself or in each of its callers")
	c.Rule("C18.make: the length and capacity of every slice that is allocated is known not to be negative")
	c.Rule("C18.step: the variables a counting loop advances change in every iteration such that the condition that keeps it running comes closer to being false; the same holds on every way through the loop body")
	w := c.W
	fns := c.reachFns("C18.div")
	c.Count("functions reachable from the command", len(fns))
	c.AtLeast("C18.div", "functions reachable from the command", len(fns), 120)
	inSet := map[*ssa.Function]bool{}
	for _, f := range fns {
		inSet[f] = true
	}
	// what has to be proved
	need := map[ssa.Instruction]*oblInst{}
	callers := map[*ssa.Function][]*ssa.Function{}
	addCaller := func(f, g *ssa.Function) {
		for _, x := range callers[f] {
			if x == g {
				return
			}
		}
		callers[f] = append(callers[f], g)
	}
	asValue := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if mc, isMake := in.(*ssa.MakeClosure); isMake && i == 0 && onlyCalled(mc) {
							continue
						}
						if ci, isCall := in.(ssa.CallInstruction); !isCall || ci.Common().IsInvoke() || i != 0 {
							asValue[g] = true
						}
					}
				}
				switch x := in.(type) {
				case *ssa.BinOp:
					if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.Type()) {
						need[in] = &oblInst{"div", x.Op.String(), in, f}
					}
				case *ssa.MakeSlice:
					need[in] = &oblInst{"make", "make", in, f}
				case ssa.CallInstruction:
					cc := x.Common()
					if g := cc.StaticCallee(); g != nil {
						addCaller(g, f)
					} else if cc.IsInvoke() {
						if t := w.SoleImpl(cc.Value.Type()); t != nil {
							for _, g := range fns {
								if r := g.Signature.Recv(); r != nil && g.Name() == cc.Method.Name() && shortT(r.Type()) == shortT(t) {
									addCaller(g, f)
								}
							}
						}
					}
				}
			}
		}
	}
	type res struct {
		loops map[*ssa.BasicBlock][]*LoopNode
		exits map[*LoopNode][]*Path
		ev    map[ssa.Instruction][]evCtx
		ps    []*Path
		it    *Interp
		lost  bool
	}
	// the loops of a run and the paths leaving them
	loopsOf := func(r *res) {
		if r.loops != nil {
			return
		}
		r.loops, r.exits = map[*ssa.BasicBlock][]*LoopNode{}, map[*LoopNode][]*Path{}
		seen := map[*LoopNode]bool{}
		var rec func(p *Path)
		rec = func(p *Path) {
			for _, n := range p.Trace {
				if n.Loop == nil {
					continue
				}
				r.exits[n.Loop] = append(r.exits[n.Loop], p)
				if seen[n.Loop] {
					continue
				}
				seen[n.Loop] = true
				r.loops[n.Loop.Header] = append(r.loops[n.Loop.Header], n.Loop)
				for _, b := range n.Loop.Bodies {
					rec(b)
				}
			}
		}
		for _, p := range r.ps {
			rec(p)
		}
	}
	runs := map[*ssa.Function]*res{}
	hasLoop := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					return true
				}
			}
		}
		return false
	}
	var run func(f *ssa.Function, callee map[*ssa.Function]bool, coarse bool) *res
	analyse := func(f *ssa.Function, callee map[*ssa.Function]bool) *res { return run(f, callee, false) }
	run = func(f *ssa.Function, callee map[*ssa.Function]bool, coarse bool) *res {
		it := NewInterp(w)
		it.RecordDivs = true
		r := &res{ev: map[ssa.Instruction][]evCtx{}, it: it}
		it.Policy = func(ci *CallInfo) Action {
			if ci.Fn != nil && callee[ci.Fn] {
				if ci.Recur || ci.Frame.depth > it.MaxDepth {
					r.lost = true
				}
				return AInline
			}
			if a := boundary(ci); a != ADefault {
				return a
			}
			if ci.Fn != nil && ci.Fn != f && hasLoop(ci.Fn) {
				return AEvent // analysed on its own
			}
			if coarse && ci.Fn != nil && ci.Fn != f && w.InRepo(ci.Fn) && ci.Fn.Signature.Results().Len() == 0 {
				return AEvent // it tells nothing about the values of its caller
			}
			return ADefault
		}
		var err error
		if r.ps, err = c.tryRun(it, f, it.ParamSyms(f), nil, nil); err != nil {
			if !coarse {
				return run(f, callee, true)
			}
			c.Undecided("engine", f, f.Pos(), "abstract execution", "%v", err)
		}
		for _, p := range r.ps {
			walkEvents(p, func(e evCtx) {
				if e.Ev.Kind == "div" || e.Ev.Kind == "make" {
					r.ev[e.Ev.Instr] = append(r.ev[e.Ev.Instr], e)
				}
			})
		}
		return r
	}
	// functions (also of dependencies) that return a length
	lenFns := map[string]bool{}
	for f := range w.AllFns {
		if !w.InRepo(f) && returnsLen(f) {
			lenFns[w.calleeKey(f, nil)] = true
		}
	}
	// noLess: a sum of products of terms none of which is negative
	noLess := func(it *Interp, f *Facts, t *Term) bool {
		for _, m := range it.T.monosOf(t) {
			if m.C.Sign() < 0 {
				return false
			}
			for _, a := range m.A {
				if !lenFns[callKeyOf(a)] && !it.T.Holds(f, it.T.LeT(it.T.Int(0), a)) {
					return false
				}
			}
		}
		return true
	}
	holds := func(it *Interp, e evCtx, kind string) (bool, string) {
		if kind == "div" {
			return it.nonZero(e.At, e.Ev.Args[1]), "the divisor " + clipStr(e.Ev.Args[1].String(), 160) + " may be 0"
		}
		for _, n := range e.Ev.Args {
			if !it.T.Holds(e.At, it.T.LeT(it.T.Int(0), n)) && !noLess(it, e.At, n) {
				return false, "the size " + clipStr(n.String(), 160) + " may be negative"
			}
		}
		return true, ""
	}
	// prove decides an obligation with the calls leading to it (outermost last)
	var prove func(check func(r *res, top *ssa.Function) string, top *ssa.Function, chain map[*ssa.Function]bool, depth int) (bool, string)
	prove = func(check func(r *res, top *ssa.Function) string, top *ssa.Function, chain map[*ssa.Function]bool, depth int) (bool, string) {
		var r *res
		if len(chain) == 0 {
			r = runs[top]
		} else {
			r = analyse(top, chain)
		}
		msg := check(r, top)
		if r.lost {
			return false, "a recursive call is not followed in " + FnName(top)
		}
		if msg == "" { // also if no abstract path of this caller gets there
			return true, ""
		}
		cs := callers[top]
		if depth >= 3 || len(cs) == 0 || asValue[top] {
			return false, msg
		}
		next := map[*ssa.Function]bool{top: true}
		for f := range chain {
			next[f] = true
		}
		for _, g := range cs {
			if next[g] {
				return false, msg
			}
			if ok, m := prove(check, g, next, depth+1); !ok {
				return false, m
			}
		}
		return true, ""
	}
	ndiv, nmake, nloop, ncount := 0, 0, 0, 0
	for _, f := range fns {
		want := hasLoop(f)
		for _, o := range need {
			want = want || o.fn == f
		}
		if want {
			runs[f] = analyse(f, nil)
		}
	}
	var obls []*oblInst
	for _, o := range need {
		obls = append(obls, o)
	}
	sort.Slice(obls, func(i, j int) bool { return obls[i].in.Pos() < obls[j].in.Pos() })
	for _, o := range obls {
		if o.kind == "div" {
			ndiv++
		} else {
			nmake++
		}
		o := o
		ok, msg := prove(func(r *res, top *ssa.Function) string {
			for _, e := range r.ev[o.in] {
				if ok, m := holds(r.it, e, o.kind); !ok {
					return m + " in " + FnName(top) + " when " + clipStr(e.At.String(), 200)
				}
			}
			return ""
		}, o.fn, nil, 0)
		what := "integer division"
		if o.op == "%" {
			what = "integer remainder"
		}
		if o.kind == "make" {
			what = "allocation of a slice"
		}
		c.Oblige(ok, "C18."+o.kind, o.fn, o.in.Pos(), what, "%s", msg)
	}
	for _, f := range fns {
		r := runs[f]
		if r == nil {
			continue
		}
		loopsOf(r)
		var heads []*ssa.BasicBlock
		for h, ls := range r.loops {
			if ls[0].Fn == f {
				heads = append(heads, h)
			}
		}
		sort.Slice(heads, func(i, j int) bool { return heads[i].Index < heads[j].Index })
		for _, h := range heads {
			nloop++
			counting := false
			check := func(r *res, top *ssa.Function) string {
				loopsOf(r)
				msg := ""
				for _, l := range r.loops[h] {
					ct, good, m := r.it.progress(l, r.exits[l])
					if ct {
						counting = true
						if !good {
							msg = m + " in " + FnName(top)
						}
					}
				}
				return msg
			}
			ok, msg := prove(check, f, nil, 0)
			if counting {
				ncount++
				c.Oblige(ok, "C18.step", f, loopPos(r.loops[h][0]), "counting loop", "%s", msg)
			}
		}
	}
	c.Count("integer divisions and remainders", ndiv)
	c.Count("allocations of slices", nmake)
	c.Count("loops", nloop)
	c.Count("counting loops", ncount)
	c.AtLeast("C18.div", "integer divisions and remainders", ndiv, 6)
	c.AtLeast("C18.make", "allocations of slices", nmake, 5)
	c.AtLeast("C18.step", "counting loops", ncount, 40)
}

// onlyCalled: the closure is used for nothing else than calling it.
func onlyCalled(mc *ssa.MakeClosure) bool {
	refs := mc.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Call:
			if x.Call.Value != mc {
				return false
			}
			for _, a := range x.Call.Args {
				if a == mc {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// returnsLen: the only result of the function is a length, whatever happens.
func returnsLen(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		call, ok := r.Results[0].(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
			return false
		}
		n++
	}
	return n > 0
}

func loopPos(l *LoopNode) token.Pos {
	for _, in := range l.Header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, b := range l.Header.Succs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return l.Fn.Pos()
}

// progress: is the loop controlled by counters, and does its condition come closer to being false with each iteration?
func (it *Interp) progress(l *LoopNode, exits []*Path) (counting, ok bool, msg string) {
	T := it.T
	if len(l.Bodies) == 0 {
		return false, true, ""
	}
	m := map[*Term]bool{}
	adv := map[*Term]bool{}
	for _, d := range l.Defs {
		if len(d.Latch) != len(l.Bodies) || !isNumTermOrTyp(d.Sym) {
			continue
		}
		m[d.Sym] = true
		for _, x := range d.Latch {
			s := T.Sub(x, d.Sym)
			if s != T.Int(0) && !s.Contains(func(t *Term) bool { return t == d.Sym }) && x.Contains(func(t *Term) bool { return t == d.Sym }) {
				adv[d.Sym] = true
			}
		}
	}
	// conditions that hold in every iteration and fail when the loop is left
	type guard struct{ form *Term }
	var gs []guard
	l.Bodies[0].Facts.Each(func(a *Term, v bool) {
		for _, q := range T.ineqsOf(a, v) {
			if !q.form.Contains(func(t *Term) bool { return adv[t] }) {
				continue
			}
			cond := T.order(T.Sub(q.form, T.Rat(q.b)), q.strict, q.isInt)
			if !it.guarded(l, cond) {
				continue
			}
			left := false
			for _, p := range exits {
				if T.Refuted(p.Facts, cond) {
					left = true
				}
			}
			if left {
				gs = append(gs, guard{q.form})
			}
		}
	})
	if len(gs) == 0 {
		return false, true, ""
	}
	for _, g := range gs {
		good, known := true, true
		for i, b := range l.Bodies {
			sub := map[*Term]*Term{}
			for _, d := range l.Defs {
				if m[d.Sym] {
					sub[d.Sym] = d.Latch[i]
				} else {
					sub[d.Sym] = nil
				}
			}
			n := T.subst(g.form, sub)
			if n == nil {
				known = false
				break
			}
			// form <= bound has to come closer to being violated: the form grows
			if delta := T.Sub(n, g.form); !it.posTerm(b.Facts, delta) {
				good = false
				msg = "the loop advances by " + clipStr(delta.String(), 120) + " which may not be positive (condition " + clipStr(g.form.String(), 120) + ") when " + clipStr(b.Facts.String(), 200)
			}
		}
		if !known {
			continue
		}
		counting = true
		if good {
			return true, true, ""
		}
	}
	return counting, !counting, msg
}

var _ = big.NewRat
