package main

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "Print speed and flow match the layer and the kind of line", checkC10)
}

// ratio writes a term as coefficient * product of atoms with exponents; false for sums.
func (tt *Terms) ratio(t *Term) (*big.Rat, map[*Term]int, bool) {
	co := big.NewRat(1, 1)
	m := map[*Term]int{}
	var rec func(t *Term, e int) bool
	rec = func(t *Term, e int) bool {
		if r, ok := t.ConstNum(); ok {
			if r.Sign() == 0 {
				return false
			}
			if e < 0 {
				r = new(big.Rat).Inv(r)
			}
			co = new(big.Rat).Mul(co, r)
			return true
		}
		if t.Op == OPoly {
			if len(t.P) != 1 {
				// a sum: one opaque atom
				m[t] += e
				return true
			}
			c := t.P[0].C
			if e < 0 {
				c = new(big.Rat).Inv(c)
			}
			co = new(big.Rat).Mul(co, c)
			for _, a := range t.P[0].A {
				if !rec(a, e) {
					return false
				}
			}
			return true
		}
		if t.Op == OFn && t.Sym == "inv" && len(t.Args) == 1 {
			return rec(t.Args[0], -e)
		}
		m[t] += e
		return true
	}
	if !rec(t, 1) {
		return nil, nil, false
	}
	for k, v := range m {
		if v == 0 {
			delete(m, k)
		}
	}
	return co, m, true
}

// wallKind: is the polygon part of the outermost wall of a part?
func wallKind(it *Interp, f *Facts, poly *Term) int {
	r := no
	poly.Contains(func(x *Term) bool {
		// perimeters[part][wall][piece]
		b, _, ok := elemOf(x)
		if !ok {
			return false
		}
		b2, wall, ok := elemOf(b)
		if !ok {
			return false
		}
		b3, _, ok := elemOf(b2)
		if !ok {
			return false
		}
		if !b3.Contains(func(y *Term) bool { return y.Op == OStr && y.Sym == "perimeters" }) {
			return false
		}
		r = it.tri(f, it.T.NumEq(wall, it.T.Int(0)))
		return true
	})
	return r
}

func checkC10(c *Ctx) {
	c.Rule("C10.state: the settings kept by the builder (speeds, override, flow, retraction) are tracked through all renderers in their order, for the first, the second and all further layers, until nothing new appears")
	c.Rule("C10.speed: every printing move requested with these settings has the speed of its layer and kind of line, every move without extrusion the move speed, every retract and feed the retraction speed")
	c.Rule("C10.flow: the extrusion of every printing move is its length times the flow for the thickness of its layer, the configured line width, filament diameter and multiplier")
	w := c.W
	bt := w.TypeNamed("gcode", "Builder")
	newB := w.Func("gcode", "NewGCodeBuilder")
	pl := c.pipeline("C10.pipeline")
	if pl == nil {
		return
	}
	if bt == nil || newB == nil || w.Method(bt, "AddPolygon") == nil || w.Method(bt, "AddMoveSpeed") == nil {
		c.Undecided("C10.state", nil, 0, "Builder", "not found")
		return
	}
	addPoly := w.Method(bt, "AddPolygon")
	// a new builder, then Init of all renderers
	it := pl.It.child()
	it.Unroll = false
	T := it.T
	it.Policy = renderBoundary
	base := cleanState(pl.St)
	ch := it.child()
	ch.Policy = nil
	bargs := ch.ParamSyms(newB)
	opt := bargs[0]
	bps := c.RunFrom(ch, newB, bargs, cleanState(base), nil)
	if len(bps) != 1 || len(bps[0].Ret) != 1 {
		c.Undecided("C10.state", newB, newB.Pos(), "NewGCodeBuilder", "%d paths", len(bps))
		return
	}
	bld := bps[0].Ret[0]
	base = cleanState(bps[0].St)
	initSt := map[int][]*State{}
	for i, m := range pl.Renderers {
		ifn, recv := it.methodOf(base, m, "Init")
		if ifn == nil {
			initSt[i] = []*State{base}
			continue
		}
		args := it.ParamSyms(ifn)
		args[0] = recv
		for _, p := range c.RunFrom(it, ifn, args, cleanState(base), nil) {
			if p.Kind == KReturn {
				initSt[i] = append(initSt[i], cleanState(p.St))
			}
		}
	}
	// fields the move operation itself keeps up to date are not settings
	moving := map[string]bool{}
	{
		mi := NewInterp(w)
		mf := w.Method(bt, "AddMoveSpeed")
		ma := mi.ParamSyms(mf)
		st0 := mi.NewState()
		pr := mi.probes(ma[0], bt)
		for _, p := range c.Run(mi, mf, ma) {
			for _, q := range pr {
				if q.Eval(p.St) != q.Eval(st0) {
					moving[q.Field] = true
				}
			}
		}
	}
	s := structOf(bt)
	var fields []int
	var names []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if moving[f.Name()] || bufferKind(f.Type()) != "" {
			continue
		}
		fields = append(fields, i)
		names = append(names, f.Name())
	}
	c.notes = append(c.notes, "tracked settings of the builder: "+strings.Join(names, ", "))
	read := func(st *State) []*Term {
		var v []*Term
		for _, i := range fields {
			v = append(v, it.loadAddr(st, it.addrField(bld, bt, i), s.Field(i).Type()))
		}
		return v
	}
	key := func(v []*Term) string {
		var b strings.Builder
		for _, t := range v {
			fmt.Fprintf(&b, "%d,", t.ID)
		}
		return b.String()
	}
	show := func(v []*Term) string {
		var l []string
		for i, t := range v {
			l = append(l, names[i]+"="+clipStr(t.String(), 60))
		}
		return clipStr(strings.Join(l, " "), 400)
	}
	with := func(b *State, v []*Term) *State {
		st := cleanState(b)
		for k, i := range fields {
			it.storeAddr(st, it.addrField(bld, bt, i), s.Field(i).Type(), v[k])
		}
		st.trace = nil
		return st
	}
	o := func(path string) *Term { return it.optTerm(base, opt, path) }
	for _, p := range []string{"Print.MoveSpeed", "Print.IntialLayerSpeed", "Print.LayerSpeed", "Print.OuterPerimeterSpeed", "Filament.RetractionSpeed", "Filament.RetractionLength", "Print.InitialLayerThickness", "Print.LayerThickness", "Printer.ExtrusionWidth", "Filament.FilamentDiameter", "Filament.ExtrusionMultiplier"} {
		if o(p) == nil {
			c.Undecided("C10.state", nil, 0, "option "+p, "not found")
			return
		}
	}
	whole := func(t, opt *Term) bool { // the setting as a whole number
		return t == opt || t.Op == OFn && (t.Sym == "trunc" || t.Sym == "math.Round" || t.Sym == "math.Trunc") && len(t.Args) == 1 && t.Args[0] == opt
	}
	type move struct {
		ext, speed *Term
		facts      *Facts
		fn         *ssa.Function
		pos        token.Pos
		st         *State
		ev         *Event
		loops      []*LoopNode
		path       *Path
	}
	cache := map[string][]move{}
	movesOf := func(v []*Term) []move {
		k := key(v)
		if r, ok := cache[k]; ok {
			return r
		}
		pi := it.child()
		pi.Unroll = false
		pi.Policy = boundary
		pi.Model = pi.moveModel(bt)
		args := pi.ParamSyms(addPoly)
		args[0] = bld
		var r []move
		ps := c.RunFrom(pi, addPoly, args, with(base, v), nil)
		seen := map[string]bool{}
		for _, p := range ps {
			if p.Kind == KReturn {
				post := read(p.St)
				c.Oblige(key(post) == k, "C10.state", addPoly, addPoly.Pos(), "AddPolygon keeps the settings", "printing a path changes the settings of the builder (%s)", clipStr(p.Facts.String(), 150))
			}
			walkEvents(p, func(e evCtx) {
				if e.Ev.Key != "gcode.Builder.AddMoveSpeed" {
					return
				}
				fn, pos := e.Ev.caller()
				id := fmt.Sprint(e.Ev.Args[1].ID, e.Ev.Args[2].ID, e.Ev.Args[3].ID, pos)
				if seen[id] {
					return
				}
				seen[id] = true
				r = append(r, move{e.Ev.Args[2], e.Ev.Args[3], e.Facts, fn, pos, e.Path.St, e.Ev, e.Loops, e.Path})
			})
		}
		cache[k] = r
		return r
	}
	amount := o("Filament.RetractionLength")
	nprint, nmove, nretract, npoly := 0, 0, 0, 0
	className := []string{"the first layer", "the second layer", "further layers"}
	judge := func(mv move, class int, outer int, where string, rfn *ssa.Function, rpos token.Pos, v []*Term) {
		at := className[class] + " (" + where + ")"
		switch {
		case mv.ext.IsInt(0) || T.Holds(mv.facts, T.NumEq(mv.ext, T.Int(0))):
			nmove++
			c.Oblige(whole(mv.speed, o("Print.MoveSpeed")), "C10.speed", mv.fn, mv.pos, "move without extrusion", "on %s a move without extrusion has speed %s", at, clipT(mv.speed))
		case mv.ext == amount || mv.ext == T.Neg(amount):
			nretract++
			c.Oblige(whole(mv.speed, o("Filament.RetractionSpeed")), "C10.speed", mv.fn, mv.pos, "retraction", "on %s a retraction move has speed %s", at, clipT(mv.speed))
		default:
			nprint++
			if class == 0 {
				// without a positive speed for the first layer there is nothing to compare with
				sp := o("Print.IntialLayerSpeed")
				if T.Holds(mv.facts, T.LeT(T.Fnc("trunc", nil, sp), T.Int(0))) || factLeZero(mv.facts, sp) {
					return
				}
			}
			want := "Print.LayerSpeed"
			if class == 0 {
				want = "Print.IntialLayerSpeed"
			} else if outer == yes {
				want = "Print.OuterPerimeterSpeed"
			}
			if class > 0 && outer == maybe {
				c.Undecided("C10.speed", rfn, rpos, "kind of wall", "it is not known whether the printed wall is the outermost one")
				return
			}
			c.Oblige(whole(mv.speed, o(want)), "C10.speed", rfn, rpos, "printing speed", "on %s a line is printed with speed %s instead of %s (settings at this point: %s)", at, clipT(mv.speed), want, show(v))
			th := "Print.LayerThickness"
			if class == 0 {
				th = "Print.InitialLayerThickness"
			}
			co, m, ok := T.ratio(mv.ext)
			good := ok
			why := ""
			if ok {
				take := func(path string, e int) {
					if m[o(path)] != e {
						good = false
						why = "the exponent of " + path + " is " + fmt.Sprint(m[o(path)])
					}
					delete(m, o(path))
				}
				take(th, 1)
				take("Printer.ExtrusionWidth", 1)
				take("Filament.ExtrusionMultiplier", 1)
				take("Filament.FilamentDiameter", -2)
				// what is left is the length in mm: sqrt(dx²+dy²)/1000
				var l *Term
				for a, e := range m {
					if l != nil || e != 1 || a.Op != OFn || a.Sym != "math.Sqrt" {
						good = false
						why = "unexpected factor " + clipT(a)
					}
					l = a
				}
				if l == nil {
					good = false
					why = "the length of the move is missing"
				}
				if good {
					k, w := c.moveLength(it, mv.ev, mv.path, l)
					// t*w*mult/100 / (pi/4 d²) in mm, length in mm; all lengths are in micrometres
					want := 1e-3 * 1e-3 / 100 / (math.Pi / 4 * 1e-6) * 1e-3
					f, _ := co.Float64()
					f *= math.Sqrt(k)
					switch {
					case w != "":
						good = false
						why = w
					case math.Abs(f-want) > 1e-6*want:
						good = false
						why = fmt.Sprintf("the factor is %g instead of %g", f, want)
					}
				}
			}
			c.Oblige(good, "C10.flow", mv.fn, mv.pos, "extrusion of a printing move", "on %s the extrusion is not length times flow for %s: %s", at, th, clipStr(why, 200))
		}
	}
	// propagation
	init := read(base)
	in := [][]*Term{init}
	runs := 0
	seenStart := map[string]bool{}
	for class := 0; class < 3; class++ {
		starts := in
		var next [][]*Term
		nextSeen := map[string]bool{}
		for round := 0; len(starts) > 0 && round < 6; round++ {
			cur := starts
			starts = nil
			for i, m := range pl.Renderers {
				var out [][]*Term
				outSeen := map[string]bool{}
				for _, v := range cur {
					for _, ist := range initSt[i] {
						runs++
						if runs > 400 {
							c.Undecided("C10.state", nil, 0, "settings of the builder", "too many combinations")
							return
						}
						ri := it.child()
						ri.Unroll = false
						ri.Policy = renderBoundary
						mm := ri.moveModel(bt)
						ri.Model = func(ci *CallInfo) (bool, []ModelOut) {
							if ci.Key == "gcode.Builder.AddPolygon" {
								ri.event(ci.Frame, ci.St, ci.Instr.(ssa.Instruction), "probe", "settings", append(append([]*Term{}, read(ci.St)...), ci.Args...), nil)
							}
							return mm(ci)
						}
						st := with(ist, v)
						fn, recv := ri.methodOf(st, m, "Render")
						if fn == nil || len(fn.Params) != 7 {
							c.Undecided("C10.state", fn, 0, "Render", "not found")
							return
						}
						args := ri.ParamSyms(fn)
						args[0], args[1], args[6] = recv, bld, opt
						nr, max := args[2], args[3]
						f := st.facts
						ok := true
						assume := func(t *Term) {
							if ok {
								f, ok = T.Assume(f, t, true)
							}
						}
						switch class {
						case 0:
							args[2] = T.Int(0)
						case 1:
							args[2] = T.Int(1)
						default:
							assume(T.LeT(T.Int(2), nr))
						}
						nr = args[2]
						assume(T.LeT(nr, max))
						if !ok {
							continue
						}
						st.facts = f
						for _, p := range c.RunFrom(ri, fn, args, st, nil) {
							if p.Kind != KReturn || len(p.Ret) == 1 && !p.Ret[0].IsNil() {
								// an error ends the run; lines printed before it are judged with the other paths
								continue
							}
							walkEvents(p, func(e evCtx) {
								switch {
								case e.Ev.Kind == "probe" && e.Ev.Key == "settings":
									n := len(fields)
									pv, pa := e.Ev.Args[:n], e.Ev.Args[n:]
									npoly++
									outer := no
									for _, a := range pa {
										if k := wallKind(ri, e.Facts, a); k != no {
											outer = k
										}
									}
									rfn, rpos := e.Ev.caller()
									for _, mv := range movesOf(pv) {
										judge(mv, class, outer, FnName(fn), rfn, rpos, pv)
									}
								case e.Ev.Key == "gcode.Builder.AddMoveSpeed":
									fn2, pos := e.Ev.caller()
									judge(move{e.Ev.Args[2], e.Ev.Args[3], e.Facts, fn2, pos, e.Path.St, e.Ev, e.Loops, e.Path}, class, no, FnName(fn), fn2, pos, nil)
								}
							})
							pv := read(p.St)
							if T.Holds(p.Facts, T.NumEq(nr, max)) && i == len(pl.Renderers)-1 {
								continue // no layer follows
							}
							if k := key(pv); !outSeen[k] {
								outSeen[k] = true
								out = append(out, pv)
							}
						}
					}
				}
				cur = out
				if len(cur) > 8 {
					c.Undecided("C10.state", nil, 0, "settings of the builder", "too many different settings after a renderer: %s", show(cur[0]))
					return
				}
			}
			for _, v := range cur {
				k := key(v)
				if !nextSeen[k] {
					nextSeen[k] = true
					next = append(next, v)
				}
				if class == 2 && !seenStart[k] {
					seenStart[k] = true
					starts = append(starts, v)
				}
			}
			if class < 2 {
				break
			}
			if round == 5 && len(starts) > 0 {
				c.Undecided("C10.state", nil, 0, "settings of the builder", "the settings do not reach a fixed point")
			}
		}
		in = next
		if class == 1 {
			for _, v := range next {
				seenStart[key(v)] = true
			}
		}
	}
	c.AtLeast("C10.anchors", "printed paths", npoly, 15)
	c.AtLeast("C10.anchors", "printing moves", nprint, 30)
	c.AtLeast("C10.anchors", "retractions", nretract, 20)
	c.AtLeast("C10.anchors", "moves without extrusion", nmove, 20)
}

// factLeZero: the path knows that the whole part of the setting is not positive.
func factLeZero(f *Facts, opt *Term) bool {
	r := false
	f.Each(func(a *Term, val bool) {
		if val && (a.Op == OLe || a.Op == OLt) && a.Contains(func(x *Term) bool { return x.Op == OFn && x.Sym == "trunc" && len(x.Args) == 1 && x.Args[0] == opt }) {
			r = true
		}
	})
	return r
}

// moveLength: the length used for a printing move is the distance between its point and the point before it. Gives
// the factor of the squared length.
func (c *Ctx) moveLength(it *Interp, ev *Event, p *Path, l *Term) (float64, string) {
	T := it.T
	fn := ev.Instr.(ssa.CallInstruction).Common().StaticCallee()
	if fn == nil || len(fn.Params) < 2 || len(l.Args) != 1 {
		return 0, "the move is not understood"
	}
	posT := fn.Params[1].Type()
	x, y := it.invokeOn(p.St, ev.Args[1], posT, "X"), it.invokeOn(p.St, ev.Args[1], posT, "Y")
	if x == nil || y == nil {
		return 0, "the target of the move is not known"
	}
	arg := l.Args[0]
	// every point the length may depend on
	type pt struct{ base, idx, t *Term }
	var pts []pt
	add := func(t *Term) {
		t.Contains(func(s *Term) bool {
			if b, i, ok := elemOf(s); ok {
				for _, q := range pts {
					if q.t == s {
						return false
					}
				}
				pts = append(pts, pt{b, i, s})
			}
			return false
		})
	}
	add(arg)
	pointT := c.W.TypeNamed("data", "MicroPoint")
	if pointT == nil {
		return 0, "MicroPoint not found"
	}
	xy := func(t *Term) (*Term, *Term) {
		return it.invokeOn(p.St, t, pointT, "X"), it.invokeOn(p.St, t, pointT, "Y")
	}
	eq := func(a, b *Term) bool { return a != nil && b != nil && (a == b || T.Holds(p.Facts, T.NumEq(a, b))) }
	for _, to := range pts {
		tx, ty := xy(to.t)
		if !eq(tx, x) || !eq(ty, y) {
			continue
		}
		for _, from := range pts {
			if from.t == to.t || from.base != to.base {
				continue
			}
			fx, fy := xy(from.t)
			if fx == nil || fy == nil {
				continue
			}
			dx, dy := T.Sub(tx, fx), T.Sub(ty, fy)
			d := T.Add(T.Mul(dx, dx), T.Mul(dy, dy))
			k, ok := proportional(T, arg, d)
			if !ok {
				continue
			}
			prev := T.Holds(p.Facts, T.NumEq(from.idx, T.Sub(to.idx, T.Int(1))))
			closing := T.Holds(p.Facts, T.NumEq(to.idx, T.Int(0))) && T.Holds(p.Facts, T.NumEq(from.idx, T.Sub(T.Len(from.base), T.Int(1))))
			if !prev && !closing {
				return 0, fmt.Sprintf("the length is measured from point %s to point %s", clipT(from.idx), clipT(to.idx))
			}
			return k, ""
		}
	}
	return 0, "the length is not the distance between two points of the path: " + clipT(l)
}

// proportional: a == k*b for a constant k.
func proportional(T *Terms, a, b *Term) (float64, bool) {
	if len(a.P) == 0 || len(a.P) != len(b.P) {
		return 0, false
	}
	k := new(big.Rat).Quo(a.P[0].C, b.P[0].C)
	if T.Scale(b, k) != a {
		return 0, false
	}
	f, _ := k.Float64()
	return f, true
}
