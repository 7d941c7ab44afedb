package main

import (
	"go/types"
	"math/big"
)

// uitem is a part of a united area: a single area, or what the iterations of a loop add.
type uitem struct {
	leaf   *Term
	one    bool // the leaf is a single part, not a list
	p      *Path
	loop   *LoopNode
	bodies [][]uitem
}

// unions flattens unions, lists and loops that unite or append.
type unions struct {
	m    *modCtx
	it   *Interp
	why  string
	root *Term // looked into even if it is known to be empty
}

// literal turns a list literal into the list of its elements.
func (m *modCtx) literal(p *Path, b *Term) *Term {
	b = bare(b)
	if b.Op == OAlloc {
		var el types.Type = m.c.W.TypeNamed("data", "LayerPart")
		if b.Typ != nil {
			switch t := b.Typ.Underlying().(type) {
			case *types.Slice:
				el = t.Elem()
			case *types.Pointer:
				if a, ok := t.Elem().Underlying().(*types.Array); ok {
					el = a.Elem()
				}
			case *types.Array:
				el = t.Elem()
			}
		}
		b = bare(m.it.listVal(p.St, b, el))
	}
	return b
}

func (u *unions) fail(why string) bool {
	if u.why == "" {
		u.why = why
	}
	return false
}

// tree: the areas v consists of besides start (nil: nothing).
func (u *unions) tree(p *Path, v, start *Term, depth int) ([]uitem, bool) {
	it := u.it
	if depth > 30 {
		return nil, u.fail("nested too deep")
	}
	if start != nil && bare(v) == bare(start) {
		return nil, true
	}
	if start != nil && it.emptyVal(p.Facts, start) {
		start = nil
	}
	b := bare(v)
	if b == nil || b.IsNil() || b != u.root && it.emptyVal(p.Facts, v) {
		if start != nil {
			return nil, u.fail("what was collected before is lost: " + clipT(start))
		}
		return nil, true
	}
	b = u.m.literal(p, b)
	two := func(xs []*Term) ([]uitem, bool) {
		// one of them contains the start
		for k := range xs {
			var r []uitem
			all := true
			for j, x := range xs {
				var s *Term
				if j == k {
					s = start
				}
				var y []uitem
				ok := true
				if x.Op == OLit {
					y = []uitem{{leaf: x.Args[0], one: true, p: p}}
					ok = s == nil
				} else {
					y, ok = u.tree(p, x, s, depth+1)
				}
				if !ok {
					all = false
					break
				}
				r = append(r, y...)
			}
			if all {
				u.why = ""
				return r, true
			}
			if start == nil {
				break
			}
		}
		return nil, false
	}
	if op, a := areaOp(v); op == "Union" {
		return two(a[:2])
	}
	if b.Op == OConcat {
		return two(b.Args)
	}
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		for _, d := range l.Defs {
			if d.Sym != b || len(d.Latch) != len(l.Bodies) {
				continue
			}
			r, ok := u.tree(p, d.Init, start, depth+1)
			if !ok {
				return nil, false
			}
			x := uitem{loop: l, p: p}
			for k, q := range l.Bodies {
				y, ok := u.tree(q, d.Latch[k], d.Sym, depth+1)
				if !ok {
					return nil, false
				}
				x.bodies = append(x.bodies, y)
			}
			return append(r, x), true
		}
	}
	if start != nil {
		return nil, u.fail("what was collected before is lost: " + clipT(v))
	}
	return []uitem{{leaf: v, p: p}}, true
}

func init() {
	register("C25", "Top and bottom surfaces are solid for the configured number of layers and nothing inside the walls is left out", checkC25)
}

func checkC25(c *Ctx) {
	c.Rule("C25.surface: what is stored as top (bottom) infill of a layer is, for every part and every piece of its innermost wall, the exposed area of that piece, enlarged, and intersected with the overlap border of the same layer and the same part - all of them united; from the top infill only what is bottom infill is removed")
	c.Rule("C25.depth: the exposed area unites, for the configured number of layers (NumberBottomLayers, NumberTopLayers), what is left of the piece without all parts of the layer at distance 1, 2, ... below (above); the whole piece where that layer would be outside the model, and only there; the loop over the distances ends only when the number is reached or all further layers are outside")
	c.Rule("C25.overlap: it is enlarged by half of the configured overlap: the extrusion width without (InfillOverlapPercent+AdditionalInternalInfillOverlapPercent) percent of it is what stays free, inset by half of that (the first and only inset), or nothing is changed when that is 0")
	c.Rule("C25.rest: the internal infill is every list of the overlap border of the layer without areas that are part of its top or bottom infill; a list is left out only if InfillPercent is 0 or nothing is left of it")
	c.Rule("C25.border: the overlap border of a part is made of all pieces of the innermost wall of the part with the same number (C15.border), the index of the list being that of the part, and no piece is left out")
	c.Rule("C25.clip: the clipping operations do what they say (C16.points, C16.tree, C16.inset, C16.ops); layers without an attribute are those with nothing to store (C14.modify); every step gets the result of the one before (C04.order), a changed layer keeps its parts (C04.keep), and attributes are read only by later steps")
	pl := c.pipeline("C25.pipeline")
	if pl == nil {
		return
	}
	c.processOrder()
	for _, v := range pl.Modifiers {
		r := c.initAndRun(pl, v, "Modify", func(it *Interp) {
			it.Policy = renderBoundary
			it.RecordStores = true
			it.RecordLookups = true
		}, nil)
		if len(r.Paths) > 0 {
			c.keepLayer(r)
		}
	}
	c.modifyAll("perimeters", "overlapPerimeters", "bottom", "top", "infill")
	c.flattens()
	if k := c.clipping("C25.clip"); k != nil {
		k.points()
		k.trees()
		k.insets()
		k.ops()
	}
	c.readLater(pl, "C25.clip")
	n := map[string]int{}
	for _, v := range pl.Modifiers {
		m, ps := c.modCtx("C25.run", pl, v)
		if m == nil {
			continue
		}
		for _, b := range m.places(ps) {
			ss := m.storesOf(b)
			for _, s := range ss {
				with := func(key string) []attrStore {
					var o []attrStore
					for _, x := range ss {
						if x.Key == key && m.it.T.Holds(b.Facts, m.it.T.NumEq(x.Idx, s.Idx)) {
							o = append(o, x)
						}
					}
					return o
				}
				so := &solid{c: c, m: m, it: m.it, b: b, s: s}
				so.u = &unions{m: m, it: m.it}
				switch s.Key {
				case "bottom", "top":
					n[s.Key]++
					so.surface(with("bottom"))
				case "infill":
					n[s.Key]++
					so.rest()
				case "overlapPerimeters":
					n[s.Key]++
					m.border(c, b, s, with("perimeters"))
					so.border(with("perimeters"))
				}
			}
		}
	}
	for _, k := range []string{"bottom", "top", "infill", "overlapPerimeters"} {
		c.AtLeast("C25.run", "stores of "+k, n[k], 1)
	}
}

// solid decides one stored infill.
type solid struct {
	c  *Ctx
	m  *modCtx
	it *Interp
	u  *unions
	b  *Path
	s  attrStore
}

func (o *solid) bad(R, what, msg string, a ...interface{}) {
	o.c.Oblige(false, R, o.s.Fn, o.s.Ins.Pos(), o.s.Key+": "+what, msg, a...)
}
func (o *solid) good(R, what string) {
	o.c.Oblige(true, R, o.s.Fn, o.s.Ins.Pos(), o.s.Key+": "+what, "")
}

// over: the loop runs over all of v.
func (o *solid) over(p *Path, l *LoopNode, v *Term) (Cover, bool) {
	n := o.it.lenIn(p, v)
	cv, ok := o.it.covers(l, n)
	return cv, ok && o.it.exhausted(p, cv, n)
}

// attrOf: the values of an attribute of the stored layer.
func (o *solid) attrOf(key string) []*Term {
	var r []*Term
	for _, v := range attrVals(o.b, key) {
		if _, i, ok := o.m.attrAt(v); ok && o.it.T.Holds(o.b.Facts, o.it.T.NumEq(i, o.s.Idx)) {
			r = append(r, v)
		}
	}
	return r
}

func (o *solid) surface(bottoms []attrStore) {
	const R = "C25.surface"
	v := o.s.Val
	if op, a := areaOp(v); op == "Difference" && o.s.Key == "top" {
		r := &areas{m: o.m, it: o.it}
		ok := false
		for _, x := range bottoms {
			ok = ok || r.inside(o.b.Facts, a[1], r.value(x.Val).is, nil, 0)
		}
		if !ok {
			o.bad(R, "only the bottom infill is removed", "%s removes more than the bottom infill from the top infill: %s", o.m.name, clipT(a[1]))
			return
		}
		v = a[0]
	}
	xs, ok := o.u.tree(o.b, v, nil, 0)
	if !ok || len(xs) != 1 || xs[0].loop == nil {
		o.bad(R, "united over all parts", "cannot follow how %s collects it over the parts: %s (%s)", o.m.name, clipT(v), o.u.why)
		return
	}
	l1 := xs[0]
	var P *Term
	var cv1 Cover
	for _, w := range o.attrOf("perimeters") {
		if cv, ok := o.over(o.b, l1.loop, w); ok {
			P, cv1 = w, cv
			break
		}
	}
	if P == nil {
		o.bad(R, "every part", "%s does not look at every part of the walls of the layer", o.m.name)
		return
	}
	for k, q := range l1.loop.Bodies {
		if o.m.impossible(q) {
			continue
		}
		part := o.it.elemAt(q, P, cv1.Idx)
		var wall *Term
		if part != nil {
			wall = o.it.elemAt(q, part, o.it.T.Sub(o.it.T.Len(part), o.it.T.Int(1)))
		}
		ys := l1.bodies[k]
		if len(ys) == 0 && (part != nil && o.it.emptyVal(q.Facts, part) || wall != nil && o.it.emptyVal(q.Facts, wall)) {
			continue
		}
		if wall == nil || len(ys) != 1 || ys[0].loop == nil {
			o.bad(R, "every piece", "%s does not collect it over the pieces of the innermost wall when %s", o.m.name, clipStr(factsFrom(q.Facts, l1.loop.NFact), 260))
			continue
		}
		cv2, full := o.over(q, ys[0].loop, wall)
		if !full {
			o.bad(R, "every piece", "%s does not look at every piece of the innermost wall when %s", o.m.name, clipStr(factsFrom(q.Facts, l1.loop.NFact), 260))
			continue
		}
		o.good(R, "every piece")
		for k2, q2 := range ys[0].loop.Bodies {
			if o.m.impossible(q2) {
				continue
			}
			o.piece(q2, ys[0].loop, ys[0].bodies[k2], cv1.Idx, o.it.elemAt(q2, wall, cv2.Idx, leavesOf(ys[0].bodies[k2])...))
		}
	}
}

// piece: what is collected for one piece of the innermost wall.
func (o *solid) piece(q *Path, l *LoopNode, xs []uitem, pi, piece *Term) {
	const R = "C25.surface"
	it, T := o.it, o.it.T
	when := clipStr(factsFrom(q.Facts, l.NFact), 300)
	if piece == nil {
		o.bad(R, "the piece", "%s does not look at the piece when %s", o.m.name, when)
		return
	}
	if len(xs) == 0 {
		// nothing exposed
		if T.Holds(q.Facts, T.LeT(o.number(), T.Int(0))) {
			return
		}
		for _, nd := range q.Trace {
			if nd.Loop == nil {
				continue
			}
			for _, d := range nd.Loop.Defs {
				if !it.emptyVal(q.Facts, d.Sym) {
					continue
				}
				why := o.enlarged(q, d.Sym, piece, false)
				if why == "" {
					o.good(R, "nothing is exposed")
					return
				}
				if why := o.exposed(q, d.Sym, piece); why == "" {
					o.good(R, "nothing is exposed")
					return
				}
			}
		}
		o.bad(R, "left out", "%s leaves out a piece that may be exposed when %s", o.m.name, when)
		return
	}
	if len(xs) != 1 || xs[0].loop != nil {
		o.bad(R, "clipped", "cannot follow how %s clips the exposed area when %s", o.m.name, when)
		return
	}
	op, a := areaOp(xs[0].leaf)
	if op != "Intersection" {
		o.bad(R, "clipped", "%s does not intersect the exposed area: %s", o.m.name, clipT(xs[0].leaf))
		return
	}
	isBorder := func(x *Term) bool {
		bs, i, ok := elemOf(bare(x))
		if !ok || !T.Holds(q.Facts, T.NumEq(i, pi)) {
			return false
		}
		key, li, ok := o.m.attrAt(bs)
		return ok && key == "overlapPerimeters" && T.Holds(q.Facts, T.NumEq(li, o.s.Idx))
	}
	var ov *Term
	switch {
	case isBorder(a[1]):
		ov = a[0]
	case isBorder(a[0]):
		ov = a[1]
	default:
		o.bad(R, "clipped by the border of its part", "%s clips the exposed area by %s", o.m.name, clipT(a[1]))
		return
	}
	if why := o.enlarged(q, ov, piece, true); why != "" {
		o.bad("C25.overlap", "enlarged", "%s: %s when %s", o.m.name, why, when)
	}
}

func (o *solid) number() *Term {
	if o.s.Key == "bottom" {
		return o.m.opt("Print.NumberBottomLayers")
	}
	return o.m.opt("Print.NumberTopLayers")
}

// enlarged: ov is the exposed area of the piece, enlarged by the overlap.
func (o *solid) enlarged(q *Path, ov, piece *Term, report bool) string {
	it, T := o.it, o.it.T
	ew := o.m.opt("Printer.ExtrusionWidth")
	pct := T.Add(o.m.opt("Print.InfillOverlapPercent"), o.m.opt("Print.AdditionalInternalInfillOverlapPercent"))
	D := T.Sub(ew, T.Mul(T.Rat(big.NewRat(1, 100)), T.Mul(ew, pct)))
	done := func(W *Term) string {
		why := o.exposed(q, W, piece)
		if why != "" && report {
			o.bad("C25.depth", "exposed", "%s: %s", o.m.name, why)
			return ""
		}
		if report {
			o.good("C25.depth", "exposed")
			o.good("C25.overlap", "enlarged")
		}
		return why
	}
	x := ov
	op, a := areaOp(x)
	if op == "ToOneDimension" {
		op, a = areaOp(a[0])
	}
	if op == "InsetLayer" && len(a) >= 4 {
		if !T.Holds(q.Facts, T.NumEq(a[2], T.Int(1))) || !halfOf(T, a[3], D) {
			return "the exposed area is enlarged by " + clipT(a[3])
		}
		return done(a[0])
	}
	if isZero(T, q.Facts, D) && o.exposed(q, ov, piece) == "" {
		return done(ov)
	}
	u := &unions{m: o.m, it: it, root: bare(ov)}
	xs, ok := u.tree(q, ov, nil, 0)
	if !ok || len(xs) != 1 || xs[0].loop == nil || len(xs[0].loop.Bodies) == 0 {
		return "cannot follow how the exposed area is enlarged: " + clipT(ov) + " " + u.why
	}
	l := xs[0].loop
	var W, at *Term
	for k, b := range l.Bodies {
		if o.m.impossible(b) {
			continue
		}
		ys := xs[0].bodies[k]
		// the part looked at
		var el *Term
		lf := func(y uitem) string {
			v := bare(y.leaf)
			if y.one {
				el = y.leaf
				if !isZero(T, b.Facts, D) {
					return "an exposed area is used without enlarging it"
				}
				return ""
			}
			bs, i, isE := elemOf(v)
			if isE {
				v = bs
			}
			op, a := areaOp(v)
			if op == "ToOneDimension" {
				op, a = areaOp(a[0])
			}
			if op != "Inset" && op != "InsetLayer" || len(a) < 4 {
				return "an exposed area is not enlarged but replaced by " + clipT(y.leaf)
			}
			if !T.Holds(b.Facts, T.NumEq(a[2], T.Int(1))) && !(isE && T.Holds(b.Facts, T.NumEq(i, T.Int(0)))) {
				return "another inset than the first one is used"
			}
			if !halfOf(T, a[3], D) {
				return "an exposed area is enlarged by " + clipT(a[3])
			}
			el = a[0]
			if op == "InsetLayer" {
				if w := o.m.literal(b, a[0]); w.Op == OConcat && len(w.Args) == 1 && w.Args[0].Op == OLit {
					el = w.Args[0].Args[0]
				}
			}
			return ""
		}
		if len(ys) == 0 {
			// nothing left of it: its inset is known to be empty
			empty := false
			walkNodesTerms(b, func(x *Term) {
				if op, _ := areaOp(x); (op == "Inset" || op == "InsetLayer") && it.emptyVal(b.Facts, x) && lf(uitem{leaf: x}) == "" {
					empty = true
				}
			})
			b.Facts.Each(func(f *Term, val bool) {
				f.Contains(func(x *Term) bool {
					if !empty && it.emptyVal(b.Facts, x) && areaLike(x) && lf(uitem{leaf: x}) == "" {
						empty = true
					}
					return empty
				})
			})
			if !empty {
				return "an exposed area is left out when " + clipStr(factsFrom(b.Facts, l.NFact), 200)
			}
			continue
		}
		if len(ys) != 1 || ys[0].loop != nil {
			return "cannot follow how an exposed area is enlarged when " + clipStr(factsFrom(b.Facts, l.NFact), 200)
		}
		if why := lf(ys[0]); why != "" {
			return why
		}
		if bare(el) == bare(piece) || it.sameVal(b.Facts, el, piece) {
			// a list with the piece only
			if cv, full := it.covers(l, T.Int(1)); full && it.exhausted(q, cv, T.Int(1)) {
				W = T.mk(OConcat, "", nil, false, T.Lit(piece))
				continue
			}
		}
		bs, i, ok := elemOf(bare(el))
		if !ok {
			return "not an exposed area is enlarged but " + clipT(el)
		}
		if W != nil && W != bs {
			return "different areas are enlarged: " + clipT(bs)
		}
		W, at = bs, i
		cv, full := o.over(q, l, W)
		if !full || !T.Holds(b.Facts, T.NumEq(cv.Idx, at)) {
			return "not every exposed area is enlarged: " + clipT(W)
		}
	}
	if W == nil {
		return "nothing is enlarged"
	}
	return done(W)
}

func areaLike(x *Term) bool {
	if b, _, ok := elemOf(bare(x)); ok {
		x = b
	}
	op, _ := areaOp(x)
	return op != ""
}

// exposed: W is what the configured number of neighbour layers does not cover of the piece.
func (o *solid) exposed(q *Path, W, piece *Term) string {
	it, T := o.it, o.it.T
	N := o.number()
	down := o.s.Key == "bottom"
	idx, n := o.s.Idx, o.m.n
	samePiece := func(f *Facts, x *Term) bool { return bare(x) == bare(piece) || it.sameVal(f, x, piece) }
	u := &unions{m: o.m, it: it, root: bare(W)}
	xs, ok := u.tree(q, W, nil, 0)
	if !ok {
		return "cannot follow how the exposed area is collected: " + u.why
	}
	whole := false // the whole piece is part of it
	loops := 0
	for _, x := range xs {
		if x.loop != nil {
			loops++
			continue
		}
		if !x.one || !samePiece(x.p.Facts, x.leaf) {
			return "something else is exposed: " + clipT(x.leaf)
		}
		near := T.Lt(idx, N)
		if !down {
			near = T.Lt(T.Sub(T.Sub(n, T.Int(1)), idx), N)
		}
		if !T.Holds(x.p.Facts, near) {
			return "the whole piece is exposed too far from the end of the model when " + clipStr(factsFrom(x.p.Facts, 0), 200)
		}
		whole = true
	}
	if whole && loops == 0 {
		return ""
	}
	if loops == 0 {
		if T.Holds(q.Facts, T.LeT(N, T.Int(0))) {
			return ""
		}
		return "nothing is exposed"
	}
	if loops > 1 {
		return "cannot follow how the exposed area is collected over the layers"
	}
	for _, x := range xs {
		if x.loop == nil {
			continue
		}
		l := x.loop
		var i *Term
		for _, ct := range it.counters(l) {
			if ct.Step.IsInt(1) {
				i = T.Sub(ct.Def.Sym, ct.First)
			} else if ct.Step.IsInt(-1) {
				i = T.Sub(ct.First, ct.Def.Sym)
			}
			if i != nil {
				break
			}
		}
		if i == nil {
			return "the loop over the layers has no counter"
		}
		want := T.Add(T.Add(idx, T.Int(1)), i)
		if down {
			want = T.Sub(T.Sub(idx, T.Int(1)), i)
		}
		out := func(f *Facts, by int64) bool { // the layer is outside the model, by at least that many
			if down {
				return T.Holds(f, T.LeT(want, T.Int(-by)))
			}
			return T.Holds(f, T.LeT(T.Add(n, T.Int(by-1)), want))
		}
		diff := func(b *Path, v *Term) string {
			op, a := areaOp(v)
			if op != "Difference" {
				return "not a difference with a layer: " + clipT(v)
			}
			p, ok := listElems(o.m.literal(b, a[0]))
			if !ok || len(p) != 1 || !samePiece(b.Facts, p[0]) {
				return "not the piece is compared but " + clipT(a[0])
			}
			g := &gather{it: it}
			its, ok := g.list(b, a[1], nil, nil)
			if !ok || len(its) != 1 || its[0].over == nil || its[0].s != "each("+g.text(b, its[0].over, nil)+")" {
				return "the piece is not compared with all parts of a layer but " + clipT(a[1]) + " " + g.why
			}
			j, ok := o.m.layerOf(its[0].over)
			if !ok || callKeyOf(bare(its[0].over)) != "data.PartitionedLayer.LayerParts" {
				return "the piece is not compared with the parts of a layer but " + clipT(its[0].over)
			}
			in := T.LeT(T.Int(0), want)
			if !down {
				in = T.Lt(want, n)
			}
			if !T.Holds(b.Facts, in) {
				return "the layer looked at may be outside the model"
			}
			if !T.Holds(b.Facts, T.NumEq(j, want)) {
				return "the layer looked at in round " + clipT(i) + " is " + clipT(j)
			}
			return ""
		}
		for k, b := range l.Bodies {
			if o.m.impossible(b) {
				continue
			}
			when := " when " + clipStr(factsFrom(b.Facts, l.NFact), 260)
			if !T.Holds(b.Facts, T.Lt(i, N)) {
				return "more layers than configured are looked at" + when
			}
			ys := x.bodies[k]
			switch {
			case len(ys) == 0:
				if out(b.Facts, 2) || whole && out(b.Facts, 1) {
					continue
				}
				none := false
				walkEvents(b, func(e evCtx) {
					if e.Ev.Key == "clip.Clipper.Difference" {
						if v := e.Ev.ResAt(T, 0); v != nil && it.emptyVal(b.Facts, v) && diff(b, v) == "" {
							none = true
						}
					}
				})
				if !none {
					return "a layer is left out" + when
				}
			case len(ys) > 1 || ys[0].loop != nil:
				return "cannot follow what a layer adds" + when
			case ys[0].one:
				if !samePiece(b.Facts, ys[0].leaf) {
					return "something else is exposed: " + clipT(ys[0].leaf)
				}
				if !out(b.Facts, 1) {
					return "the whole piece is exposed although there is a layer" + when
				}
			default:
				if why := diff(b, ys[0].leaf); why != "" {
					return why + when
				}
			}
		}
		f := q.Facts
		if !T.Holds(f, T.LeT(N, i)) && !out(f, 2) && !(whole && out(f, 1)) {
			return "the loop over the layers may end too early when " + clipStr(factsFrom(f, l.NFact), 300)
		}
	}
	return ""
}

// rest: the internal infill.
func (o *solid) rest() {
	const R = "C25.rest"
	it, T := o.it, o.it.T
	xs, ok := o.u.tree(o.b, o.s.Val, nil, 0)
	if !ok || len(xs) != 1 {
		o.bad(R, "united over the border", "cannot follow how %s collects it: %s (%s)", o.m.name, clipT(o.s.Val), o.u.why)
		return
	}
	r := &areas{m: o.m, it: it}
	filled := func(f *Facts, x *Term) bool {
		return r.inside(f, x, func(f *Facts, y *Term) bool {
			key, i, ok := o.m.attrAt(y)
			return ok && (key == "bottom" || key == "top") && T.Holds(f, T.NumEq(i, o.s.Idx))
		}, nil, 0)
	}
	rest := func(b *Path, v *Term, is func(x *Term) bool) string {
		op, a := areaOp(v)
		if op != "Difference" {
			if is(v) {
				// nothing to remove
				r := []string{}
				for _, key := range []string{"bottom", "top"} {
					if !o.m.noAttr(b.Facts, key, o.s.Idx) {
						r = append(r, key)
					}
				}
				if len(r) == 0 {
					return ""
				}
			}
			return "not the border without top and bottom infill: " + clipT(v)
		}
		for {
			r.why = ""
			if !filled(b.Facts, a[1]) {
				return "more than top and bottom infill is removed: " + clipT(a[1])
			}
			if is(a[0]) {
				return ""
			}
			// one after the other
			if op, a2 := areaOp(a[0]); op == "Difference" {
				a = a2
				continue
			}
			return "not the border of the layer: " + clipT(a[0])
		}
	}
	x := xs[0]
	if x.loop == nil {
		g := &gather{it: it}
		why := rest(o.b, x.leaf, func(y *Term) bool {
			its, ok := g.list(o.b, y, nil, nil)
			for _, B := range o.attrOf("overlapPerimeters") {
				if ok && len(its) == 1 && its[0].s == "each(each("+g.text(o.b, B, nil)+"))" {
					return true
				}
			}
			return false
		})
		o.c.Oblige(why == "", R, o.s.Fn, o.s.Ins.Pos(), "infill: the rest of the border", "%s: %s", o.m.name, why)
		return
	}
	for _, B := range o.attrOf("overlapPerimeters") {
		cv, ok := o.over(o.b, x.loop, B)
		if !ok {
			continue
		}
		for k, b := range x.loop.Bodies {
			if o.m.impossible(b) {
				continue
			}
			when := clipStr(factsFrom(b.Facts, x.loop.NFact), 260)
			ys := x.bodies[k]
			el := it.elemAt(b, B, cv.Idx, leavesOf(ys)...)
			is := func(y *Term) bool { return el != nil && (bare(y) == bare(el) || it.sameVal(b.Facts, y, el)) }
			if len(ys) == 0 {
				none := T.Holds(b.Facts, T.NumEq(o.m.opt("Print.InfillPercent"), T.Int(0))) || el != nil && it.emptyVal(b.Facts, el)
				walkEvents(b, func(e evCtx) {
					if e.Ev.Key == "clip.Clipper.Difference" {
						if v := e.Ev.ResAt(T, 0); v != nil && it.emptyVal(b.Facts, v) && rest(b, v, is) == "" {
							none = true
						}
					}
				})
				o.c.Oblige(none, R, o.s.Fn, o.s.Ins.Pos(), "infill: left out", "%s leaves out an area of the border when %s", o.m.name, when)
				continue
			}
			if len(ys) != 1 || ys[0].loop != nil || ys[0].one {
				o.bad(R, "the rest of the border", "cannot follow what %s adds when %s", o.m.name, when)
				continue
			}
			why := rest(b, ys[0].leaf, is)
			o.c.Oblige(why == "", R, o.s.Fn, o.s.Ins.Pos(), "infill: the rest of the border", "%s: %s when %s", o.m.name, why, when)
		}
		return
	}
	o.bad(R, "every area of the border", "%s does not look at every area of the overlap border of the layer", o.m.name)
}

// border: the list of the overlap border with the index of a part has an area for every piece of its innermost wall.
func (o *solid) border(walls []attrStore) {
	const R = "C25.border"
	it, T := o.it, o.it.T
	if len(walls) != 1 {
		return
	}
	P, V := walls[0].Val, bare(o.s.Val)
	done := false
	allLoops(o.b, func(l *LoopNode, in *Path) {
		if in != o.b || done {
			return
		}
		cv, ok := o.over(o.b, l, P)
		if !ok {
			return
		}
		var def *LoopDef
		for _, d := range l.Defs {
			if d.Sym == V {
				def = d
			}
		}
		if def == nil && V.Op != OAlloc {
			return
		}
		done = true
		one := func(k int) bool { // the round appends one list
			x := bare(def.Latch[k])
			return x.Op == OConcat && len(x.Args) == 2 && bare(x.Args[0]) == V && x.Args[1].Op == OLit
		}
		appends := false
		for k, q := range l.Bodies {
			if def != nil && one(k) && !it.emptyVal(q.Facts, bare(def.Latch[k]).Args[1].Args[0]) {
				appends = true
			}
		}
		for k, q := range l.Bodies {
			if o.m.impossible(q) {
				continue
			}
			if appends {
				o.c.Oblige(one(k), R, o.s.Fn, o.s.Ins.Pos(), "overlapPerimeters: index of the part", "%s appends a list for some parts only", o.m.name)
			}
			when := clipStr(factsFrom(q.Facts, l.NFact), 260)
			part := it.elemAt(q, P, cv.Idx)
			var wall *Term
			if part != nil {
				wall = it.elemAt(q, part, T.Sub(T.Len(part), T.Int(1)))
			}
			if part != nil && it.emptyVal(q.Facts, part) || wall != nil && it.emptyVal(q.Facts, wall) {
				continue
			}
			if wall == nil {
				o.bad(R, "every piece", "%s does not look at the innermost wall of the part when %s", o.m.name, when)
				continue
			}
			list := func(x *Term) bool { // the list of lists, possibly with elements appended
				x = bare(x)
				if x == V {
					return true
				}
				return def != nil && x.Op == OConcat && len(x.Args) > 0 && bare(x.Args[0]) == V
			}
			why := "nothing is stored for the part"
			full := false
			try := func(x *Term, d *LoopDef, start *Term) {
				if full {
					return
				}
				u := &unions{m: o.m, it: it, root: bare(x)}
				var xs []uitem
				ok := true
				if d != nil {
					it1 := uitem{loop: d.Loop, p: q}
					for k2, b2 := range d.Loop.Bodies {
						ys, ok2 := u.tree(b2, d.Latch[k2], d.Sym, 0)
						ok = ok && ok2
						it1.bodies = append(it1.bodies, ys)
					}
					xs = []uitem{it1}
				} else {
					xs, ok = u.tree(q, x, start, 0)
				}
				if !ok || len(xs) != 1 || xs[0].loop == nil {
					why = "cannot follow how the list is built: " + clipT(x) + " " + u.why
					return
				}
				l2 := xs[0].loop
				cv2, all := o.over(q, l2, wall)
				if !all {
					why = "not every piece of the innermost wall is used"
					return
				}
				for k2, b2 := range l2.Bodies {
					ys := xs[0].bodies[k2]
					pc := it.elemAt(b2, wall, cv2.Idx, leavesOf(ys)...)
					when := " when " + clipStr(factsFrom(b2.Facts, l2.NFact), 200)
					if pc == nil {
						why = "the piece is not looked at" + when
						return
					}
					if len(ys) != 1 || ys[0].loop != nil {
						why = "a piece adds nothing" + when
						return
					}
					lf := ys[0].leaf
					if !ys[0].one {
						v := bare(lf)
						if bs, _, ok := elemOf(v); ok {
							v = bs
						}
						op, a := areaOp(v)
						if op == "ToOneDimension" {
							op, a = areaOp(a[0])
						}
						if op != "Inset" && op != "InsetLayer" {
							why = "something else is added: " + clipT(lf)
							return
						}
						lf = a[0]
						if es, ok := listElems(o.m.literal(b2, lf)); ok && len(es) == 1 {
							lf = es[0]
						}
					}
					if bare(lf) != bare(pc) && !it.sameVal(b2.Facts, lf, pc) {
						why = "another piece is added: " + clipT(lf)
						return
					}
				}
				full = true
			}
			if def != nil {
				// one list is appended in every round
				if x := bare(def.Latch[k]); one(k) && !it.emptyVal(q.Facts, x.Args[1].Args[0]) {
					try(x.Args[1].Args[0], nil, nil)
				}
			}
			for _, nd := range q.Trace {
				if nd.Loop != nil {
					for _, d := range nd.Loop.Defs {
						if d.Mem != "" && len(d.Addr) == 2 && list(d.Addr[0]) && T.Holds(q.Facts, T.NumEq(d.Addr[1], cv.Idx)) && len(d.Latch) == len(nd.Loop.Bodies) {
							chg := false
							for _, y := range d.Latch {
								chg = chg || y != d.Sym
							}
							if chg {
								try(d.Sym, d, nil)
							}
						}
					}
				}
				if e := nd.Ev; e != nil && (e.Kind == "store" || e.Kind == "elemstore") && len(e.Args) > 1 && e.Args[0].Op == OAddrI && list(e.Args[0].Args[0]) && T.Holds(q.Facts, T.NumEq(e.Args[0].Args[1], cv.Idx)) {
					try(e.Args[1], nil, nil)
				}
			}
			o.c.Oblige(full, R, o.s.Fn, o.s.Ins.Pos(), "overlapPerimeters: every piece", "%s: %s when %s", o.m.name, why, when)
		}
	})
	if !done {
		o.bad(R, "every part", "%s does not build the overlap border in a loop over all parts", o.m.name)
	}
}

func leavesOf(xs []uitem) []*Term {
	var r []*Term
	for _, x := range xs {
		if x.loop == nil {
			r = append(r, x.leaf)
		}
		for _, y := range x.bodies {
			r = append(r, leavesOf(y)...)
		}
	}
	return r
}
