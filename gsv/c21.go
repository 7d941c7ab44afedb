package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Infill lines are clipped to their area and returned in model orientation", checkC21)
}

// pattern checks one infill pattern.
type pattern struct {
	c     *Ctx
	k     *clipCheck
	fn    *ssa.Function
	it    *Interp
	args  []*Term
	cross *ssa.Function
	turns map[int64]*Term // rotation by parity of the layer

	lineWidth, lineDistance, min, max, degree, rect *Term

	nLines, nZig int
	pure         int // 1: known to be harmless, -1: not
}

func (m *pattern) policy(ci *CallInfo) Action {
	if ci.Fn != nil && (m.k.convs[ci.Fn] || ci.Fn == m.cross) {
		return AEvent
	}
	switch ci.Key {
	case "data.Path.Rotate", "data.Paths.Rotate", "data.Path.Bounds":
		return AEvent
	}
	return m.k.policy(ci)
}

func checkC21(c *Ctx) {
	c.Rule("C21.turn: Path.Rotate and Paths.Rotate replace every point of every path by the point rotated by the given angle; a point is rotated by (x cos a - y sin a, x sin a + y cos a) with a the angle in radians")
	c.Rule("C21.angle: the pattern is turned by its configured angle; a rectilinear pattern is turned by 90 degrees more on every other layer")
	c.Rule("C21.copy: Fill rotates fresh copies of the outline and of all holes, and all by the same angle before they are handed to the clipping library")
	c.Rule("C21.lines: parallel lines are laid at every multiple of the line distance over the whole width of the turned bounding box, each over its whole height")
	c.Rule("C21.clip: the lines (open) are intersected with the rotated outline and all rotated holes (closed, even-odd) once, and every line of the result tree is taken over; a line is only changed by shortening it at both ends when it is longer than that")
	c.Rule("C21.once: the sorted result starts with one clipped line and every round adds exactly one line that was not used before and marks it; there are as many rounds as further lines. A line already added is only replaced by the same line in the opposite direction")
	c.Rule("C21.connect: every other path of the result was tested with IsCrossingPerimeter against the rotated area - outline and all holes - and found not to cross")
	c.Rule("C21.back: the returned paths are rotated exactly once, by the negative of the angle the area was rotated by")
	k := c.clipping("C21.clip")
	if k == nil {
		return
	}
	k.points()
	iface := c.W.TypeNamed("clip", "Pattern")
	if iface == nil {
		c.Undecided("C21.clip", nil, 0, "patterns", "not found")
		return
	}
	c.rotations()
	c.bounds()
	ctors := map[string]*ssa.Function{}
	for _, fn := range c.W.RepoFns {
		rs := fn.Signature.Results()
		if fn.Parent() == nil && fn.Signature.Recv() == nil && rs.Len() == 1 && types.Identical(rs.At(0).Type(), iface) && fn.Signature.Params().Len() > 0 {
			ctors[fn.Name()] = fn
		}
	}
	n := 0
	for _, fn := range c.W.ImplMethods(iface, "Fill") {
		n++
		m := &pattern{c: c, k: k, fn: fn, cross: k.method("IsCrossingPerimeter"), turns: map[int64]*Term{}}
		k.extra, k.opens = m.copyOf, true
		if m.cross == nil {
			c.Undecided("C21.connect", fn, fn.Pos(), "crossing test", "not found")
			return
		}
		m.it = NewInterp(c.W)
		m.it.Policy = m.policy
		m.it.RecordStores = true
		m.args = m.it.ParamSyms(fn)
		var st *State
		for _, ctor := range ctors {
			as := m.it.ParamSyms(ctor)
			for _, p := range c.Run(m.it, ctor, as) {
				if p.Kind != KReturn || p.Ret[0].Op != OIface {
					continue
				}
				f, self := m.it.methodOf(p.St, p.Ret[0], "Fill")
				if f != fn || self == nil {
					continue
				}
				m.args[0] = self
				st = cleanState(p.St)
				var lens, bools, pts []*Term
				for _, a := range as {
					switch {
					case a.Typ == nil:
					case types.Identical(a.Typ, c.W.TypeNamed("data", "Micrometer")):
						lens = append(lens, a)
					case types.Identical(a.Typ, c.W.TypeNamed("data", "MicroPoint")):
						pts = append(pts, a)
					case types.Identical(a.Typ, types.Typ[types.Bool]):
						bools = append(bools, a)
					case types.Identical(a.Typ, types.Typ[types.Int]):
						m.degree = a
					}
				}
				if len(lens) == 2 && len(pts) == 2 && len(bools) == 2 {
					m.lineWidth, m.lineDistance, m.min, m.max, m.rect = lens[0], lens[1], pts[0], pts[1], bools[0]
				}
			}
		}
		if st == nil || m.rect == nil || m.degree == nil {
			c.Undecided("C21.angle", fn, fn.Pos(), "parameters of the pattern", "no constructor with the known parameters")
			return
		}
		nOk := 0
		for _, p := range c.RunFrom(m.it, fn, m.args, st, nil) {
			if p.Kind != KReturn || len(p.Ret) != 2 {
				continue
			}
			if v, known := m.it.T.Decide(p.Facts, m.it.T.RefEq(p.Ret[1], m.it.T.Nil())); known && !v {
				continue
			}
			nOk++
			m.path(p)
		}
		c.AtLeast("C21.clip", "successful ways through Fill", nOk, 1)
		c.AtLeast("C21.once", "ways to sort the lines", m.nLines, 1)
		d := m.it.T
		a, b := m.turns[0], m.turns[1]
		is := func(x *Term, by int64) bool { return x == d.Add(m.degree, d.Int(by)) }
		ok := a != nil && b != nil && (is(a, 0) && is(b, 90) || is(a, 90) && is(b, 0))
		c.Oblige(ok, "C21.angle", fn, fn.Pos(), "rectilinear turn", "even layers are turned by %s, odd layers by %s", clipT(a), clipT(b))
	}
	c.AtLeast("C21.clip", "patterns", n, 1)
}

// rotations: the functions that rotate paths.
func (c *Ctx) rotations() {
	const R = "C21.turn"
	w := c.W
	iface := w.TypeNamed("data", "MicroPoint")
	for _, fn := range w.ImplMethods(iface, "Rotate") {
		it := NewInterp(w)
		T := it.T
		args := it.ParamSyms(fn)
		n := 0
		for _, p := range c.Run(it, fn, args) {
			if p.Kind != KReturn {
				continue
			}
			n++
			xy := func(v *Term) (x, y *Term) {
				if v.Op != OIface {
					v = T.mk(OIface, "", args[0].Typ, true, v)
				}
				st := cleanState(p.St)
				return it.invokeOn(st, v, iface, "X"), it.invokeOn(st, v, iface, "Y")
			}
			ox, oy := xy(args[0])
			nx, ny := xy(p.Ret[0])
			if nx == nil || ny == nil || ox == nil {
				c.Undecided(R, fn, fn.Pos(), "coordinates", "not known")
				continue
			}
			var sin, cos *Term
			for _, t := range []*Term{nx, ny} {
				t.Contains(func(t *Term) bool {
					switch callKeyOf(t) {
					case "math.Sin":
						sin = t
					case "math.Cos":
						cos = t
					}
					if t.Op == ORes && callKeyOf(t.Args[0]) == "math.Sincos" {
						if t.Sym == "0" {
							sin = t
						} else {
							cos = t
						}
					}
					return false
				})
			}
			if sin == nil || cos == nil {
				zero := T.Holds(p.Facts, T.NumEq(args[1], T.Int(0)))
				c.Oblige(zero && nx == ox && ny == oy, R, fn, fn.Pos(), "rotation of a point", "x becomes %s", clipT(nx))
				continue
			}
			rad := false
			of := func(t *Term) *Term {
				if t.Op == ORes {
					t = t.Args[0]
				}
				if len(t.Args) != 1 {
					return nil
				}
				return t.Args[0]
			}
			if a := of(sin); a != nil && a == of(cos) {
				if r, ms, ok := T.ratio(a); ok && len(ms) == 1 && ms[args[1]] == 1 {
					f, _ := r.Float64()
					rad = math.Abs(f-math.Pi/180) < 1e-12
				}
			}
			c.Oblige(rad, R, fn, fn.Pos(), "angle", "the sine of %s and the cosine of %s are used", clipT(of(sin)), clipT(of(cos)))
			wx := T.Sub(T.Mul(ox, cos), T.Mul(oy, sin))
			wy := T.Add(T.Mul(ox, sin), T.Mul(oy, cos))
			c.Oblige(unroundAll(T, nx) == wx, R, fn, fn.Pos(), "x of a rotated point", "it is %s", clipT(nx))
			c.Oblige(unroundAll(T, ny) == wy, R, fn, fn.Pos(), "y of a rotated point", "it is %s", clipT(ny))
		}
		c.AtLeast(R, "ways to rotate a point", n, 1)
	}
	for _, tn := range []string{"Path", "Paths"} {
		nt := w.TypeNamed("data", tn)
		fn := w.Method(nt, "Rotate")
		if fn == nil {
			c.Undecided(R, nil, 0, tn+".Rotate", "not found")
			continue
		}
		it := NewInterp(w)
		T := it.T
		it.RecordStores = true
		it.Policy = func(ci *CallInfo) Action {
			switch {
			case strings.HasSuffix(ci.Key, ".Rotate") && ci.Key == "data.Path.Rotate":
				return AEvent
			case strings.HasSuffix(ci.Key, "MicroPoint.Rotate") || strings.HasSuffix(ci.Key, "microPoint.Rotate"):
				return APure
			}
			return ADefault
		}
		args := it.ParamSyms(fn)
		L, a := args[0], args[1]
		n := 0
		for _, p := range c.Run(it, fn, args) {
			if p.Kind != KReturn {
				continue
			}
			if T.Holds(p.Facts, T.NumEq(a, T.Int(0))) {
				continue
			}
			n++
			if it.emptyVal(p.Facts, L) {
				continue
			}
			why := "no loop runs over all of its elements"
			for _, nd := range p.Trace {
				l := nd.Loop
				if l == nil {
					continue
				}
				cv, ok := it.covers(l, T.Len(L))
				if !ok || !it.exhausted(p, cv, T.Len(L)) {
					continue
				}
				why = ""
				for _, b := range l.Bodies {
					k := 0
					walkNodes(b, nil, func(e evCtx) {
						switch {
						case tn == "Paths" && e.Ev.Kind == "call" && e.Ev.Key == "data.Path.Rotate":
							v, i, ok := elemOf(e.Ev.Args[0])
							if ok && v == L && T.Holds(b.Facts, T.NumEq(i, cv.Idx)) && e.Ev.Args[1] == a && len(e.Loops) == 0 {
								k++
							} else {
								k = 99
							}
						case tn == "Path" && (e.Ev.Kind == "store" || e.Ev.Kind == "elemstore"):
							v, i, ok := elemAddr(e.Ev.Args[0])
							x := strip(e.Ev.Args[1])
							good := ok && v == L && T.Holds(b.Facts, T.NumEq(i, cv.Idx)) && strings.HasSuffix(callKeyOf(x), ".Rotate") && len(x.Args) == 2 && x.Args[1] == a
							if good {
								v, j, ok := elemOf(x.Args[0])
								good = ok && v == L && T.Holds(b.Facts, T.NumEq(j, cv.Idx))
							}
							if good {
								k++
							} else {
								k = 99
							}
						}
					})
					if k != 1 {
						why = "an iteration does not rotate its element once"
					}
				}
			}
			c.Oblige(why == "", R, fn, fn.Pos(), tn+".Rotate", "%s", why)
		}
		c.AtLeast(R, "ways to rotate "+tn, n, 1)
	}
}

// bounds: the bounding box of a path.
func (c *Ctx) bounds() {
	const R = "C21.lines"
	w := c.W
	pt := w.TypeNamed("data", "MicroPoint")
	fn := w.Method(w.TypeNamed("data", "Path"), "Bounds")
	if fn == nil || fn.Signature.Results().Len() != 2 {
		c.Undecided(R, nil, 0, "bounding box", "not found")
		return
	}
	it := NewInterp(w)
	T := it.T
	args := it.ParamSyms(fn)
	L := args[0]
	n := 0
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn || len(p.Ret) != 2 || it.emptyVal(p.Facts, L) {
			continue
		}
		n++
		for ri, lower := range []bool{true, false} {
			for _, ax := range []string{"X", "Y"} {
				st := cleanState(p.St)
				v := it.invokeOn(st, p.Ret[ri], pt, ax)
				what := map[bool]string{true: "smallest ", false: "greatest "}[lower] + ax
				if v == nil {
					c.Undecided(R, fn, fn.Pos(), what, "not known")
					continue
				}
				ok, why := it.runningExtreme(p, v, T.Len(L), lower, func(i, _ *Term) *Term {
					return it.invokeOn(st, it.elem(st, L, i, pt), pt, ax)
				})
				c.Oblige(ok, R, fn, fn.Pos(), what+" of a bounding box", "%s", why)
			}
		}
	}
	c.AtLeast(R, "ways to find a bounding box", n, 1)
}

// copyOf: a list made with the length of another one and filled with a copy of it.
func (m *pattern) copyOf(it *Interp, p *Path, t *Term) *Term {
	if it != m.it || t.Op != OAlloc || p == nil {
		return nil
	}
	var src *Term
	for _, nd := range p.Trace {
		if nd.Ev != nil && nd.Ev.Kind == "copy" && len(nd.Ev.Args) >= 2 && nd.Ev.Args[0] == t {
			if src != nil || it.T.Len(t) != it.T.Len(nd.Ev.Args[1]) {
				return nil
			}
			src = nd.Ev.Args[1]
		}
	}
	return src
}

type turned struct {
	l, by *Term
	at    int
}

// rotated: the rotations of lists on the path (a loop that rotates all elements of a list rotates the list).
func (m *pattern) rotated(p *Path) []turned {
	it, T := m.it, m.it.T
	var r []turned
	for i, nd := range p.Trace {
		if e := nd.Ev; e != nil && e.Kind == "call" && (e.Key == "data.Path.Rotate" || e.Key == "data.Paths.Rotate") {
			r = append(r, turned{bare(e.Args[0]), e.Args[1], i})
		}
		l := nd.Loop
		if l == nil {
			continue
		}
		var evs []*Event
		for _, b := range l.Bodies {
			n := 0
			walkNodes(b, nil, func(e evCtx) {
				if e.Ev.Kind == "call" && (e.Ev.Key == "data.Path.Rotate" || e.Ev.Key == "data.Paths.Rotate") {
					evs = append(evs, e.Ev)
					n++
					if len(e.Loops) > 0 {
						n = 99
					}
				}
			})
			if n > 1 {
				return append(r, turned{nil, nil, i})
			}
		}
		if len(evs) == 0 {
			continue
		}
		if len(evs) != len(l.Bodies) {
			r = append(r, turned{nil, nil, i})
			continue
		}
		t := turned{nil, evs[0].Args[1], i}
		for j, b := range l.Bodies {
			x := bare(evs[j].Args[0])
			var of *Term
			if v, n, ok := elemOf(x); ok {
				if cv, ok := it.covers(l, T.Len(v)); ok && it.exhausted(p, cv, T.Len(v)) && T.Holds(b.Facts, T.NumEq(n, cv.Idx)) {
					of = v
				}
			}
			for _, d := range l.Defs {
				if len(d.Latch) == len(l.Bodies) && it.emptyVal(p.Facts, d.Init) {
					if v := d.Latch[j]; v.Op == OConcat && len(v.Args) == 2 && v.Args[0] == d.Sym && v.Args[1].Op == OLit && bare(v.Args[1].Args[0]) == x {
						of = d.Sym
					}
				}
			}
			if of == nil || j > 0 && of != t.l || evs[j].Args[1] != t.by {
				t = turned{nil, nil, i}
				break
			}
			t.l = of
		}
		r = append(r, t)
	}
	return r
}

// harmless: the pattern does not change any geometry that existed before.
func (m *pattern) harmless() bool {
	if m.pure != 0 {
		return m.pure > 0
	}
	m.pure = -1
	v := m.c.valueTypes()
	fx := newEffects(m.c.W, []*ssa.Function{m.fn})
	if fx == nil || fx.frames[m.fn] == nil {
		return false
	}
	fr := fx.frames[m.fn]
	for p := range fr.mods {
		_, ch := fr.describe(p)
		for _, t := range ch {
			if v.geometry(t) {
				return false
			}
		}
	}
	m.pure = 1
	return true
}

// fresh: the list was made by the function itself, and so were its elements if they are lists.
func (m *pattern) fresh(p *Path, L *Term, depth int) bool {
	it := m.it
	L = bare(L)
	switch {
	case L == nil || depth > 4:
		return false
	case L.IsNil() || L.Op == OAlloc:
		if depth == 0 || it.LoopDefs[L] != nil {
			break
		}
		return true
	case L.Op == OConcat:
		for i, a := range L.Args {
			if i == 0 && a.Op != OLit && m.fresh(p, a, depth+1) {
				return true
			}
		}
		return len(L.Args) > 0 && L.Args[0].Op != OLit && it.emptyVal(p.Facts, L.Args[0])
	}
	if L.IsNil() || L.Op == OAlloc {
		return true
	}
	d := it.LoopDefs[L]
	if d == nil || d.Loop == nil || len(d.Latch) != len(d.Loop.Bodies) || !m.fresh(p, d.Init, depth+1) {
		return false
	}
	for j, b := range d.Loop.Bodies {
		v := d.Latch[j]
		if v == d.Sym {
			continue
		}
		if v.Op != OConcat || v.Args[0] != d.Sym {
			return false
		}
		for _, a := range v.Args[1:] {
			if a.Op != OLit || !m.fresh(b, a.Args[0], depth+1) {
				return false
			}
		}
	}
	return true
}

func (m *pattern) path(p *Path) {
	c, it, k, fn := m.c, m.it, m.k, m.fn
	T := it.T
	pos := fn.Pos()
	part := m.args[2]

	rot := m.rotated(p)
	find := func(l *Term) *turned {
		var r *turned
		for i := range rot {
			if rot[i].l == bare(l) {
				if r != nil {
					return nil
				}
				r = &rot[i]
			}
		}
		return r
	}

	// the result
	res := bare(p.Ret[0])
	back := find(res)
	if !c.Oblige(back != nil && back.by != nil, "C21.back", fn, pos, "the result is rotated once", "%s is returned", clipT(res)) {
		return
	}
	angle := T.Neg(back.by)

	// the angle
	if v, known := T.Decide(p.Facts, m.rect); known && !v {
		c.Oblige(angle == m.degree, "C21.angle", fn, pos, "turn of a pattern that is not rectilinear", "it is turned by %s", clipT(angle))
	} else if known {
		n := 0
		for v := int64(0); v < 2; v++ {
			par := T.NumEq(T.Fnc("rem", nil, m.args[1], T.Int(2)), T.Int(v))
			if x, ok := m.parity(p, v); ok && x {
				n++
				if o := m.turns[v]; o != nil && o != angle {
					c.Oblige(false, "C21.angle", fn, pos, "turn of a layer", "it is turned by %s or %s", clipT(o), clipT(angle))
				}
				m.turns[v] = angle
			}
			_ = par
		}
		c.Oblige(n > 0, "C21.angle", fn, pos, "turn by the parity of the layer", "a rectilinear pattern is turned by %s whatever the layer", clipT(angle))
	} else {
		c.Oblige(false, "C21.angle", fn, pos, "turn of a pattern", "it is turned by %s whether it is rectilinear or not", clipT(angle))
	}

	// clipping
	rs := k.runs(it, p)
	if !c.Oblige(len(rs) == 1, "C21.clip", fn, pos, "one clipping", "%d clippings", len(rs)) {
		return
	}
	r := rs[0]
	g, why := k.evenOdd(r.exec, "CtIntersection")
	c.Oblige(g, "C21.clip", fn, r.exec.Instr.Pos(), "operation", "%s", why)
	c.Oblige(T.Holds(p.Facts, r.exec.ResAt(T, 1)), "C21.clip", fn, r.exec.Instr.Pos(), "success", "the result is used although the clipping may have failed")

	outline := "data.LayerPart.Outline(" + part.String() + ")"
	holes := "each(data.LayerPart.Holes(" + part.String() + "))"
	var clips, subs []string
	for _, i := range r.its {
		if strings.HasPrefix(i.s, "clip closed ") {
			clips = append(clips, strings.TrimPrefix(i.s, "clip closed "))
		} else {
			subs = append(subs, i.s)
		}
	}
	noHoles := k.emptyKey(it, p, "data.LayerPart.Holes")
	ok := r.ok && (len(clips) == 2 && (clips[0] == outline && clips[1] == holes || clips[1] == outline && clips[0] == holes) || len(clips) == 1 && clips[0] == outline && noHoles)
	c.Oblige(ok, "C21.clip", fn, r.exec.Instr.Pos(), "clips", "the lines are clipped by %s %s", clean(strings.Join(clips, "; ")), r.why)

	// everything that is handed to the library was rotated before
	at := -1
	var lists []*Term // rotated lists of the area
	nConv := 0
	var back2 *Event
	for i, nd := range p.Trace {
		if nd.Ev == r.exec {
			at = i
		}
		e := nd.Ev
		if e == nil || e.Kind != "call" || e.Instr == nil {
			continue
		}
		cf := m.convOf(e)
		if cf == nil {
			if at < 0 && e.Key == "data.Path.Bounds" {
				continue
			}
			continue
		}
		if _, lib := k.geomOf(cf.Signature.Params().At(0).Type()); lib {
			back2 = e
			continue
		}
		if at >= 0 {
			continue
		}
		nConv++
		l := bare(e.Args[0])
		t := find(l)
		good := t != nil && t.at < i && t.by == angle
		if !c.Oblige(good, "C21.copy", fn, e.Instr.Pos(), "areas are turned by the angle before they are converted", "%s is not rotated by %s before", clipT(l), clipT(angle)) {
			continue
		}
		c.Oblige(m.fresh(p, l, 0) || m.harmless(), "C21.copy", fn, e.Instr.Pos(), "a copy is rotated", "%s itself is rotated", clipT(l))
		lists = append(lists, l)
	}
	c.AtLeast("C21.copy", "lists handed to the clipping library", nConv, 1)

	m.lines(p, r, angle, find, subs)

	// the lines found
	if back2 == nil {
		c.Undecided("C21.clip", fn, pos, "result", "it is not converted from the library's paths")
		return
	}
	conv := bare(back2.ResAt(T, 0))
	why = m.found(p, back2.Args[0], r.exec)
	c.Oblige(why == "", "C21.clip", fn, pos, "every clipped line is taken over", "%s", why)
	m.sorted(p, res, conv, lists, angle)
}

// parity: the layer number is known to have (or not to have) the given remainder.
func (m *pattern) parity(p *Path, v int64) (bool, bool) {
	T := m.it.T
	res, known := false, false
	p.Facts.Each(func(a *Term, val bool) {
		a.Contains(func(x *Term) bool {
			if x.Op == OFn && (x.Sym == "rem" || x.Sym == "bin&") && len(x.Args) == 2 && x.Args[0] == m.args[1] && (x.Args[1].IsInt(2) && x.Sym == "rem" || x.Args[1].IsInt(1) && x.Sym == "bin&") {
				is0, k0 := T.Decide(p.Facts, T.NumEq(x, T.Int(0)))
				is1, k1 := T.Decide(p.Facts, T.NumEq(x, T.Int(1)))
				switch {
				case k0:
					res, known = is0 == (v == 0), true
				case k1:
					res, known = is1 == (v == 1), true
				}
			}
			return false
		})
	})
	return res, known
}

// convOf: the verified conversion an event calls.
func (m *pattern) convOf(e *Event) *ssa.Function {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	f := ci.Common().StaticCallee()
	if f != nil && m.k.convs[f] {
		return f
	}
	return nil
}

// lines: the lines that are clipped.
func (m *pattern) lines(p *Path, r clipRun, angle *Term, find func(*Term) *turned, subs []string) {
	const R = "C21.lines"
	c, it, k, fn := m.c, m.it, m.k, m.fn
	T := it.T
	subj, ok1 := k.constant("PtSubject")
	var V *Term
	var added *LoopNode
	n := 0
	walkNodes(p, nil, func(x evCtx) {
		e := x.Ev
		if e.Kind != "call" || len(e.Args) < 4 || objOf(e.Args[0]) != r.obj || !ok1 || !e.Args[2].IsInt(subj) {
			return
		}
		one := strings.HasSuffix(e.Key, ".AddPath")
		if !one && !strings.HasSuffix(e.Key, ".AddPaths") {
			return
		}
		n++
		if one && len(x.Loops) == 1 {
			// added one by one
			added = x.Loops[0]
			n--
			open, known := e.Args[3].IsBool()
			c.Oblige(known && !open, R, fn, e.Instr.Pos(), "lines are open", "they are added as closed polygons")
			return
		}
		if one || len(x.Loops) > 0 {
			n = 99
			return
		}
		V = bare(e.Args[1])
		if vl := it.listVal(p.St, V, k.libType("Path")); vl.Op == OConcat {
			V = vl
		}
		open, known := e.Args[3].IsBool()
		c.Oblige(known && !open, R, fn, e.Instr.Pos(), "lines are open", "they are added as closed polygons")
		for _, nd := range p.Trace {
			if nd.Ev == e {
				break
			}
			if nd.Ev == r.exec {
				c.Oblige(false, R, fn, e.Instr.Pos(), "lines are added before they are clipped", "they are added afterwards")
			}
		}
	})
	if !c.Oblige(n == 1 && added == nil || n == 0 && added != nil, R, fn, fn.Pos(), "the lines are the subject", "%d lists of paths are the subject: %s", n, clean(strings.Join(subs, "; "))) {
		return
	}
	var l *LoopNode
	var line func(i int) *Term // the one line of an iteration
	if added != nil {
		l = added
		top := false
		for _, nd := range p.Trace {
			if nd.Ev == r.exec {
				break
			}
			top = top || nd.Loop == l
		}
		if !c.Oblige(top, R, fn, fn.Pos(), "lines are added before they are clipped", "they are not") {
			return
		}
		line = func(i int) *Term {
			var x *Term
			n := 0
			walkNodes(l.Bodies[i], nil, func(c evCtx) {
				if e := c.Ev; e.Kind == "call" && len(e.Args) >= 4 && objOf(e.Args[0]) == r.obj && strings.HasSuffix(e.Key, ".AddPath") {
					x = e.Args[1]
					n++
				}
			})
			if n != 1 {
				return nil
			}
			return x
		}
	} else {
		d := it.LoopDefs[V]
		if d == nil || d.Loop == nil || len(d.Latch) != len(d.Loop.Bodies) {
			c.Undecided(R, fn, fn.Pos(), "lines", "they are not built by a loop: %s", clipT(V))
			return
		}
		c.Oblige(it.emptyVal(p.Facts, d.Init), R, fn, fn.Pos(), "lines", "the list starts with %s", clipT(d.Init))
		l = d.Loop
		line = func(i int) *Term {
			v := d.Latch[i]
			if v.Op == OConcat && len(v.Args) == 2 && v.Args[0] == d.Sym && v.Args[1].Op == OLit {
				return v.Args[1].Args[0]
			}
			return nil
		}
	}
	// the turned bounding box
	var box *Event
	at := -1
	for i, nd := range p.Trace {
		if nd.Ev != nil && nd.Ev.Kind == "call" && nd.Ev.Key == "data.Path.Bounds" {
			box, at = nd.Ev, i
		}
	}
	if box == nil {
		c.Undecided(R, fn, fn.Pos(), "bounding box", "not found")
		return
	}
	bl := bare(box.Args[0])
	t := find(bl)
	c.Oblige(t != nil && t.at < at && t.by == angle, R, fn, box.Instr.Pos(), "the bounding box is turned by the angle", "it is not rotated by %s before its bounds are taken", clipT(angle))
	c.Oblige(m.corners(l.Entry, bl), R, fn, box.Instr.Pos(), "corners of the bounding box", "the path does not consist of the four corners between %s and %s", clipT(m.min), clipT(m.max))
	mn, mx := box.ResAt(T, 0), box.ResAt(T, 1)
	pt := c.W.TypeNamed("data", "MicroPoint")
	co := func(v *Term, ax string) *Term { return it.invokeOn(cleanState(p.St), v, pt, ax) }
	x0, x1, y0, y1 := co(mn, "X"), co(mx, "X"), co(mn, "Y"), co(mx, "Y")
	if x0 == nil || x1 == nil || y0 == nil || y1 == nil {
		c.Undecided(R, fn, fn.Pos(), "bounds", "not known")
		return
	}
	c.Oblige(T.Holds(p.Facts, T.Lt(T.Int(0), m.lineDistance)), R, fn, fn.Pos(), "the distance of the lines is positive", "lines are laid although %s may be 0", clipT(m.lineDistance))
	ip := k.libType("IntPoint")
	fld := func(st *State, v *Term, name string) *Term {
		s := ip.Underlying().(*types.Struct)
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == name {
				return it.loadAddr(st, it.addrField(v, ip, j), s.Field(j).Type())
			}
		}
		return nil
	}
	for i, b := range l.Bodies {
		v := line(i)
		if !c.Oblige(v != nil, R, fn, fn.Pos(), "a line in every iteration", "an iteration does not add one line") {
			continue
		}
		ps := m.two(b, v, types.NewPointer(ip))
		if ps == nil {
			c.Oblige(false, R, fn, fn.Pos(), "a line has two ends", "it is %s", clipT(v))
			continue
		}
		xa, xb, ya, yb := fld(b.St, ps[0], "X"), fld(b.St, ps[1], "X"), fld(b.St, ps[0], "Y"), fld(b.St, ps[1], "Y")
		c.Oblige(xa != nil && xa == xb, R, fn, fn.Pos(), "lines are parallel", "one end is at %s, the other one at %s", clipT(xa), clipT(xb))
		c.Oblige(ya == y0 && yb == y1 || ya == y1 && yb == y0, R, fn, fn.Pos(), "lines reach over the height of the box", "they reach from %s to %s", clipT(ya), clipT(yb))
		init, next := xa, xa
		rep, rep0 := map[*Term]*Term{}, map[*Term]*Term{}
		for _, df := range l.Defs {
			if i < len(df.Latch) && df.Sym != nil {
				rep[df.Sym] = df.Latch[i]
				rep0[df.Sym] = df.Init
			}
		}
		init = T.replaceSyms(xa, rep0)
		next = T.replaceSyms(xa, rep)
		c.Oblige(init == x0, R, fn, fn.Pos(), "first line", "it is at %s", clipT(init))
		c.Oblige(T.Sub(next, xa) == m.lineDistance, R, fn, fn.Pos(), "distance of the lines", "it is %s", clipT(T.Sub(next, xa)))
		c.Oblige(T.Holds(p.Facts, T.Lt(x1, xa)), R, fn, fn.Pos(), "lines reach over the width of the box", "the loop may end before %s", clipT(x1))
	}
}

// two: the two elements of a list.
func (m *pattern) two(b *Path, v *Term, typ types.Type) []*Term {
	it := m.it
	v = bare(v)
	if !m.it.T.Holds(b.Facts, it.T.NumEq(it.T.Len(v), it.T.Int(2))) {
		return nil
	}
	return []*Term{it.elem(b.St, v, it.T.Int(0), typ), it.elem(b.St, v, it.T.Int(1), typ)}
}

// corners: the list consists of the four corners of the configured box.
func (m *pattern) corners(st *State, l *Term) bool {
	c, it := m.c, m.it
	T := it.T
	pt := c.W.TypeNamed("data", "MicroPoint")
	if st == nil {
		return false
	}
	lv := it.listVal(st, l, pt)
	if lv.Op != OConcat || len(lv.Args) != 4 {
		return false
	}
	co := func(v *Term, ax string) *Term { return it.invokeOn(cleanState(st), v, pt, ax) }
	xs := []*Term{co(m.min, "X"), co(m.max, "X")}
	ys := []*Term{co(m.min, "Y"), co(m.max, "Y")}
	seen := map[[2]int]bool{}
	for _, a := range lv.Args {
		if a.Op != OLit {
			return false
		}
		x, y := co(a.Args[0], "X"), co(a.Args[0], "Y")
		for i := range xs {
			for j := range ys {
				if x != nil && x == xs[i] && y == ys[j] {
					seen[[2]int{i, j}] = true
				}
			}
		}
	}
	_ = T
	return len(seen) == 4
}

// found: the list has every line of the result tree once.
func (m *pattern) found(p *Path, L *Term, exec *Event) string {
	it, T := m.it, m.it.T
	L = bare(L)
	tree := exec.ResAt(T, 0)
	ip := m.k.libType("IntPoint")
	d := it.LoopDefs[L]
	if d == nil || d.Loop == nil || len(d.Latch) != len(d.Loop.Bodies) {
		return "it is not built by a loop over the result tree"
	}
	if !it.emptyVal(p.Facts, d.Init) {
		return "it starts with " + clipT(d.Init)
	}
	l := d.Loop
	var ch *Term
	for _, b := range l.Bodies {
		b.Facts.Each(func(a *Term, _ bool) {
			a.Contains(func(x *Term) bool {
				if callKeyOf(x) == clipLib+".PolyNode.Childs" && objOf(x.Args[0]) == tree {
					ch = x
				}
				return false
			})
		})
	}
	if ch == nil {
		return "the loop does not run over the children of the root of the result tree"
	}
	cv, ok := it.covers(l, T.Len(ch))
	if !ok || !it.exhausted(p, cv, T.Len(ch)) {
		return "the loop does not reach all lines"
	}
	// whose: the contour of the child of the iteration
	whose := func(b *Path, x *Term) bool {
		x = bare(x)
		if callKeyOf(x) != clipLib+".PolyNode.Contour" || len(x.Args) != 1 {
			return false
		}
		v, i, ok := elemAddr(objOf(x.Args[0]))
		return ok && v == ch && T.Holds(b.Facts, T.NumEq(i, cv.Idx))
	}
	end := func(b *Path, x *Term) int64 {
		v, i, ok := elemAddr(x)
		if !ok || !whose(b, v) {
			return -1
		}
		if n, is := i.ConstInt(); is {
			return n
		}
		return -1
	}
	for i, b := range l.Bodies {
		v := d.Latch[i]
		if v.Op != OConcat || len(v.Args) != 2 || v.Args[0] != d.Sym || v.Args[1].Op != OLit {
			return "an iteration makes it " + clipT(v)
		}
		x := bare(v.Args[1].Args[0])
		if !whose(b, x) {
			ps := m.two(b, x, types.NewPointer(ip))
			if ps == nil || end(b, ps[0]) < 0 || end(b, ps[1]) < 0 || end(b, ps[0])+end(b, ps[1]) != 1 {
				return "an iteration takes " + clipT(x)
			}
		}
		if why := m.shortened(b, func(x *Term) int64 { return end(b, x) }); why != "" {
			return why
		}
	}
	return ""
}

// shortened: the ends of the line of an iteration are at most moved towards each other.
func (m *pattern) shortened(b *Path, end func(x *Term) int64) string {
	T := m.it.T
	ip := m.k.libType("IntPoint")
	var pts [2]*Term
	var vals [2]*Term
	n := 0
	why := ""
	walkNodes(b, nil, func(e evCtx) {
		if e.Ev.Kind != "store" && e.Ev.Kind != "elemstore" || len(e.Ev.Args) != 2 {
			return
		}
		a := e.Ev.Args[0]
		if a.Op != OAddrF || a.Typ == nil || !types.Identical(a.Typ, ip) || rootOf(a).Op == OAlloc {
			return
		}
		i := end(a.Args[0])
		if a.Sym != "Y" || i < 0 || i > 1 || pts[i] != nil || len(e.Loops) > 0 {
			why = "a line found is changed: " + clipT(a)
			return
		}
		pts[i], vals[i] = a.Args[0], e.Ev.Args[1]
		n++
	})
	if why != "" || n == 0 {
		return why
	}
	if n == 1 {
		return "only one end of a line found is moved"
	}
	// the amount
	var h *Term
	vals[0].Contains(func(x *Term) bool {
		if x.Op == OFn && x.Sym == "quo" && len(x.Args) == 2 && x.Args[0] == m.lineWidth {
			if k, ok := x.Args[1].ConstInt(); ok && k > 0 {
				h = x
			}
		}
		return h != nil
	})
	if h == nil {
		return "the ends of a line are moved by an unknown distance to " + clipT(vals[0])
	}
	read := func(x, pt *Term) bool {
		f, of := fieldRead(x)
		return f == "Y" && of == pt
	}
	for hi := 0; hi < 2; hi++ {
		up, lo := T.Add(vals[hi], h), T.Sub(vals[1-hi], h) // before
		if !read(up, pts[hi]) || !read(lo, pts[1-hi]) {
			continue
		}
		long := false
		b.Facts.Each(func(a *Term, _ bool) {
			a.Contains(func(x *Term) bool {
				if !long && read(x, pts[1-hi]) && (T.Holds(b.Facts, T.LeT(x, T.Sub(up, h)))) {
					long = true
				}
				return long
			})
		})
		if !long {
			return "the ends of a line are moved although it may be shorter than that"
		}
		return ""
	}
	return "the ends of a line are not moved towards each other: to " + clipT(vals[0]) + " and " + clipT(vals[1])
}

// sorted: the result has every line once, and apart from them only tested connections.
func (m *pattern) sorted(p *Path, res, U *Term, area []*Term, angle *Term) {
	const R = "C21.once"
	c, it, fn := m.c, m.it, m.fn
	T := it.T
	pos := fn.Pos()
	m.nLines++
	if res == U {
		return
	}
	path := c.W.TypeNamed("data", "Path")
	d := it.LoopDefs[res]
	if d == nil || d.Loop == nil || len(d.Latch) != len(d.Loop.Bodies) {
		c.Undecided(R, fn, pos, "result", "it is neither the lines found nor built by a loop: %s", clipT(res))
		return
	}
	l := d.Loop
	m.nZig++
	isLine := func(x *Term) *Term {
		v, i, ok := elemOf(bare(x))
		if ok && v == U {
			return i
		}
		return nil
	}
	// the first line
	init := it.listVal(l.Entry, d.Init, path)
	var first *Term
	if init.Op == OConcat && len(init.Args) == 1 && init.Args[0].Op == OLit {
		first = isLine(init.Args[0].Args[0])
	}
	if !c.Oblige(first != nil, R, fn, pos, "the result starts with a line", "it starts with %s", clipT(init)) {
		return
	}
	n := T.Sub(T.Len(U), T.Int(1))
	cv, ok := it.covers(l, n)
	if !c.Oblige(ok && it.exhausted(p, cv, n), R, fn, pos, "as many rounds as further lines", "the loop does not end exactly when all lines are used") {
		return
	}
	var marker *Term
	for i, b := range l.Bodies {
		v := d.Latch[i]
		if !c.Oblige(v.Op == OConcat && len(v.Args) > 1 && v.Args[0] == d.Sym, R, fn, pos, "a round adds to the result", "the result becomes %s", clipT(v)) {
			return
		}
		var line, at *Term
		nl := 0
		for _, a := range v.Args[1:] {
			if a.Op != OLit {
				c.Oblige(false, R, fn, pos, "a round adds one line", "it adds all of %s", clipT(a))
				return
			}
			x := bare(a.Args[0])
			if j := isLine(x); j != nil {
				line, at = x, j
				nl++
				continue
			}
			c.Oblige(m.tested(b, x, area), "C21.connect", fn, pos, "a connection is tested", "%s is added without being known not to cross", clipT(x))
		}
		if !c.Oblige(nl == 1, R, fn, pos, "a round adds one line", "it adds %d", nl) {
			return
		}
		// marks
		marks := 0
		walkNodes(b, nil, func(e evCtx) {
			if e.Ev.Kind != "store" && e.Ev.Kind != "elemstore" || len(e.Ev.Args) != 2 {
				return
			}
			a := e.Ev.Args[0]
			if a.Op != OAddrI {
				return
			}
			if bv, isB := e.Ev.Args[1].IsBool(); isB && a.Args[0].Op == OAlloc {
				if bv && len(e.Loops) == 0 && T.Holds(b.Facts, T.NumEq(a.Args[1], at)) && (marker == nil || marker == a.Args[0]) {
					marker = a.Args[0]
					marks++
				} else {
					marks = 99
				}
				return
			}
			if strings.HasSuffix(e.Ev.Key, typeKey(path)) {
				c.Oblige(m.reversed(b, a, e.Ev.Args[1], d.Sym), R, fn, e.Ev.Instr.Pos(), "a line in the result is only turned around", "%s becomes %s", clipT(a), clipT(e.Ev.Args[1]))
			}
		})
		if !c.Oblige(marks == 1, R, fn, pos, "the line of the round is marked as used", "it is not marked exactly once") {
			return
		}
		c.Oblige(m.unused(b, marker, at), R, fn, pos, "the line of the round was not used before", "%s may have been used before", clipT(line))
	}
	// before the loop only the first line is marked
	if marker == nil {
		return
	}
	firstMarked := T.Holds(l.Entry.facts, it.loadAddr(l.Entry, it.addrIdx(marker, first), types.Typ[types.Bool]))
	c.Oblige(firstMarked, R, fn, pos, "the first line is marked as used", "it is not")
	for _, nd := range p.Trace {
		if nd.Loop == l {
			break
		}
		bad := false
		if e := nd.Ev; e != nil && (e.Kind == "store" || e.Kind == "elemstore") && e.Args[0].Op == OAddrI && e.Args[0].Args[0] == marker {
			bad = e.Args[0].Args[1] != first
		}
		if nd.Loop != nil {
			for _, b := range nd.Loop.Bodies {
				walkNodes(b, nil, func(e evCtx) {
					if a := e.Ev; (a.Kind == "store" || a.Kind == "elemstore") && a.Args[0].Op == OAddrI && a.Args[0].Args[0] == marker {
						bad = true
					}
				})
			}
		}
		c.Oblige(!bad, R, fn, pos, "no other line is marked before", "one is")
	}
}

// unused: the mark of the line is known not to be set at the start of the round.
func (m *pattern) unused(b *Path, marker, at *Term) bool {
	it, T := m.it, m.it.T
	free := func(x *Path, i *Term) bool {
		found := false
		x.Facts.Each(func(a *Term, v bool) {
			if w, j, ok := elemOf(a); ok && w == marker && !v && T.Holds(x.Facts, T.NumEq(j, i)) {
				found = true
			}
		})
		return found
	}
	if free(b, at) {
		return true
	}
	d := it.LoopDefs[at]
	if d == nil || d.Loop == nil || len(d.Latch) != len(d.Loop.Bodies) {
		return false
	}
	// never chosen
	if v, ok := d.Init.ConstInt(); !ok || v >= 0 || !T.Holds(b.Facts, T.LeT(T.Int(0), at)) {
		if !free(b, d.Init) {
			return false
		}
	}
	for i, x := range d.Latch {
		if x != d.Sym && !free(d.Loop.Bodies[i], x) {
			return false
		}
	}
	return true
}

// reversed: an element of the result is replaced by itself with its ends exchanged.
func (m *pattern) reversed(b *Path, a, v, sym *Term) bool {
	it, T := m.it, m.it.T
	l, i := a.Args[0], a.Args[1]
	if l.Op != OConcat || len(l.Args) < 2 || l.Args[0] != sym {
		return false
	}
	last := l.Args[len(l.Args)-1]
	if last.Op != OLit || T.Sub(T.Len(l), T.Int(1)) != i {
		return false
	}
	line := bare(last.Args[0])
	es := m.two(b, v, m.c.W.TypeNamed("data", "MicroPoint"))
	if es == nil {
		return false
	}
	seen := map[int64]bool{}
	for _, e := range es {
		w, j, ok := elemOf(bare(e))
		k, isC := int64(-1), false
		if ok {
			k, isC = j.ConstInt()
		}
		if !isC || bare(w) != line {
			return false
		}
		seen[k] = true
	}
	_ = it
	return seen[0] && seen[1]
}

// tested: the path is known not to cross the perimeters of the rotated area.
func (m *pattern) tested(b *Path, x *Term, area []*Term) bool {
	it, T := m.it, m.it.T
	in := func(t *Term) bool {
		t = bare(t)
		for _, a := range area {
			if a == t {
				return true
			}
		}
		return false
	}
	ok := false
	walkNodes(b, nil, func(e evCtx) {
		if e.Ev.Kind != "call" || len(e.Ev.Args) != 3 || len(e.Loops) > 0 {
			return
		}
		if _, is := e.Ev.Instr.(ssa.CallInstruction); !is || !strings.HasSuffix(e.Ev.Key, "."+m.cross.Name()) {
			return
		}
		pt := m.c.W.TypeNamed("data", "MicroPoint")
		if it.listVal(b.St, bare(e.Ev.Args[2]), pt) != it.listVal(b.St, x, pt) || !T.Refuted(b.Facts, e.Ev.ResAt(T, 0)) || !T.Holds(b.Facts, e.Ev.ResAt(T, 1)) {
			return
		}
		ps := it.listVal(b.St, bare(e.Ev.Args[1]), m.c.W.TypeNamed("data", "LayerPart"))
		if ps.Op != OConcat || len(ps.Args) != 1 || ps.Args[0].Op != OLit {
			return
		}
		part := bare(ps.Args[0].Args[0])
		if callKeyOf(part) == "data.NewBasicLayerPart" && len(part.Args) == 2 && in(part.Args[0]) && (in(part.Args[1]) || len(area) == 1 && it.emptyVal(b.Facts, bare(part.Args[1]))) {
			ok = true
		}
	})
	return ok
}
