package main

import (
	"go/types"
	"math/big"
	"strings"
)

func init() {
	register("C15", "Filled areas are disjoint, stay inside the walls, and support keeps clear", checkC15)
}

func checkC15(c *Ctx) {
	c.Rule("C15.fill: whatever a modifier stores as top or bottom infill of a layer is part of the overlap border of that very layer, and a stored top infill has nothing in common with the bottom infill stored with it: an intersection is part of both operands, a difference of its first one, a union or list of whatever all its operands are part of, a list built in a loop by induction over the loop; a difference has nothing in common with its second operand or any area united with it")
	c.Rule("C15.infill: the internal infill stored for a layer is part of the overlap border of that layer and has nothing in common with its top and bottom infill")
	c.Rule("C15.support: support and support interface stored for a layer have nothing in common with each other, with the parts of that layer grown by exactly the configured gap, and with the outer brim of that layer, unless there is none")
	c.Rule("C15.replace: the raw areas of the support detection never reach the renderers: every layer they are stored for is processed by the generator afterwards, which replaces them unless they are empty")
	c.Rule("C15.border: every area of the overlap border is a piece of the innermost wall of a part of the layer, inset by half of the part of the extrusion width that must not be overlapped (EW*(100-percent)/100), or the piece itself if that width is 0")
	c.Rule("C15.once: each attribute is stored by one modifier only (except support: detector, then generator) and read only by later modifiers and renderers")
	c.Rule("C15.brim: the outer brim that is removed from the support is every piece of the outermost brim loop of every brim, grown by half of the extrusion width, and is stored whenever a brim is")
	c.Rule("C15.clip: the clipping operations do what their names say (rules C16.points, C16.tree, C16.inset, C16.ops), flattening an inset result keeps every part (C14.flat), every step gets the result of the step before it (C04.order), and a changed layer keeps its parts (C04.keep)")

	pl := c.pipeline("C15.pipeline")
	if pl == nil {
		return
	}
	c.processOrder()
	for _, v := range pl.Modifiers {
		r := c.initAndRun(pl, v, "Modify", func(it *Interp) {
			it.Policy = renderBoundary
			it.RecordStores = true
			it.RecordLookups = true
		}, nil)
		if len(r.Paths) > 0 {
			c.keepLayer(r)
		}
	}
	c.flattens()
	if k := c.clipping("C15.clip"); k != nil {
		k.points()
		k.trees()
		k.insets()
		k.ops()
	}
	c.fillAreas(pl)
	c.outerBrim(pl, "C15.brim")
}

func (c *Ctx) fillAreas(pl *Pipeline) {
	by := map[string][]string{} // attribute -> modifiers
	n := map[string]int{}
	var det, gen *modCtx
	var detP, genP []*Path
	for _, v := range pl.Modifiers {
		m, ps := c.modCtx("C15.run", pl, v)
		if m == nil {
			continue
		}
		places := m.places(ps)
		keys := map[string]bool{}
		for _, b := range places {
			for _, s := range m.storesOf(b) {
				if !keys[s.Key] {
					keys[s.Key] = true
					by[s.Key] = append(by[s.Key], m.name)
				}
			}
		}
		if keys["support"] {
			if keys["supportInterface"] || keys["fullSupport"] {
				gen, genP = m, places
			} else if det == nil && gen == nil {
				det, detP = m, places
			}
		}
		for _, b := range places {
			ss := m.storesOf(b)
			for _, s := range ss {
				r := &areas{m: m, it: m.it}
				f := b.Facts
				pos := s.Ins.Pos()
				with := func(key string) []attrStore {
					var o []attrStore
					for _, x := range ss {
						if x.Key == key && m.it.T.Holds(f, m.it.T.NumEq(x.Idx, s.Idx)) {
							o = append(o, x)
						}
					}
					return o
				}
				border := func(R string) {
					w := r.attr("overlapPerimeters", s.Idx)
					r.why = ""
					c.Oblige(r.inside(f, s.Val, w.is, nil, 0), R, s.Fn, pos, s.Key+" within the overlap border", "%s stores %q that is not clipped by the overlap border of its layer (%s) when %s", m.name, s.Key, r.why, clipStr(f.String(), 200))
				}
				apart := func(R string, w *area) {
					r.why = ""
					c.Oblige(r.disjoint(f, s.Val, w, nil, 0), R, s.Fn, pos, s.Key+" without "+w.what, "%s stores %q from which %s was not removed (%s) when %s", m.name, s.Key, w.what, r.why, clipStr(f.String(), 200))
				}
				switch s.Key {
				case "bottom":
					n[s.Key]++
					border("C15.fill")
				case "top":
					n[s.Key]++
					border("C15.fill")
					for _, x := range with("bottom") {
						w := r.value(x.Val)
						w.what = "the bottom infill"
						apart("C15.fill", w)
					}
				case "infill":
					n[s.Key]++
					border("C15.infill")
					apart("C15.infill", r.attr("bottom", s.Idx))
					apart("C15.infill", r.attr("top", s.Idx))
				case "support", "supportInterface":
					if m != gen {
						continue
					}
					n[s.Key]++
					apart("C15.support", r.grown(s.Idx))
					apart("C15.support", r.attr("outerBrim", s.Idx))
					if s.Key == "support" {
						for _, x := range with("supportInterface") {
							w := r.value(x.Val)
							w.what = "the support interface"
							apart("C15.support", w)
						}
					}
				case "overlapPerimeters":
					n[s.Key]++
					m.border(c, b, s, with("perimeters"))
				}
			}
		}
	}
	for _, k := range []string{"bottom", "top", "infill", "support", "supportInterface", "overlapPerimeters"} {
		c.AtLeast("C15.areas", "stores of "+k, n[k], 1)
	}
	for k, ms := range by {
		ok := len(ms) == 1 || k == "support" && len(ms) == 2 && det != nil && gen != nil && det != gen
		c.Oblige(ok, "C15.once", nil, 0, "one modifier stores "+k, "%q is stored by %s", k, strings.Join(ms, ", "))
	}
	c.readLater(pl, "C15.once")
	if det != nil && gen != nil {
		c.replaced(det, detP, gen, genP)
	}
}

// grown: the parts of a layer grown by the gap of the support.
func (r *areas) grown(idx *Term) *area {
	T := r.it.T
	gap := T.Mul(T.Int(1000), r.m.opt("Print.Support.Gap"))
	return &area{what: "the model with the gap",
		is: func(f *Facts, x *Term) bool {
			op, a := areaOp(x)
			if op == "ToOneDimension" {
				op, a = areaOp(a[0])
			}
			if op != "InsetLayer" || len(a) < 4 || !isOneOrMore(T, f, a[2]) {
				return false
			}
			i, ok := r.m.layerOf(a[0])
			return ok && callKeyOf(bare(a[0])) == "data.PartitionedLayer.LayerParts" && T.Holds(f, T.NumEq(i, idx)) && unround(a[3]) == gap
		},
	}
}

func isOneOrMore(T *Terms, f *Facts, n *Term) bool { return T.Holds(f, T.LeT(T.Int(1), n)) }

// unround removes the rounding of a number.
func unround(t *Term) *Term {
	for t != nil && t.Op == OFn && len(t.Args) == 1 {
		switch t.Sym {
		case "math.Round", "math.RoundToEven", "trunc", "math.Trunc", "math.Floor", "math.Ceil":
			t = t.Args[0]
			continue
		}
		break
	}
	return t
}

// replaced: what the detector stores is processed and replaced by the generator.
func (c *Ctx) replaced(det *modCtx, detP []*Path, gen *modCtx, genP []*Path) {
	const R = "C15.replace"
	T := det.it.T
	n := 0
	for _, b := range detP {
		for _, s := range det.storesOf(b) {
			if s.Key != "support" {
				continue
			}
			n++
			// the top most layer is not processed
			f, ok := T.Assume(b.Facts, T.LeT(T.Int(0), det.opt("Print.Support.TopGapLayers")), true)
			if !ok {
				continue
			}
			top := T.Sub(det.n, T.Int(1))
			below := T.Holds(f, T.Lt(s.Idx, top)) || T.Holds(f, T.Lt(T.Add(s.Idx, det.opt("Print.Support.TopGapLayers")), top))
			c.Oblige(below, R, s.Fn, s.Ins.Pos(), "below the top most layer", "%s stores support for a layer that may be the top most one, which the generator does not process: %s when %s", det.name, clipT(s.Idx), clipStr(f.String(), 200))
		}
	}
	c.AtLeast(R, "stores of the detector", n, 1)
	for _, b := range genP {
		idx := map[*Term]bool{}
		var at []*Term
		for _, q := range genP {
			for _, s := range gen.storesOf(q) {
				if s.Key == "support" && !idx[s.Idx] {
					idx[s.Idx] = true
					at = append(at, s.Idx)
				}
			}
		}
		for _, i := range at {
			done := false
			for _, s := range gen.storesOf(b) {
				if s.Key == "support" && T.Holds(b.Facts, T.NumEq(s.Idx, i)) {
					done = true
				}
			}
			ok := done || gen.noAttr(b.Facts, "support", i) || gen.impossible(b) || gen.off(b.Facts, "support") || gen.outside(b.Facts, []*Term{i})
			c.Oblige(ok, R, gen.fn, gen.fn.Pos(), "replaces the raw support", "%s leaves the raw support of layer %s when %s", gen.name, clipT(i), clipStr(b.Facts.String(), 260))
		}
	}
}

// readLater: attributes are read by a modifier only if an earlier one stores them.
func (c *Ctx) readLater(pl *Pipeline, R string) {
	have := map[string]bool{}
	n := 0
	for _, v := range pl.Modifiers {
		m, ps := c.modCtx(R, pl, v)
		if m == nil {
			continue
		}
		read := map[string]bool{}
		collectEvents(ps, func(e evCtx) {
			if e.Ev.Kind == "mapset" {
				return
			}
			for _, a := range e.Ev.Args {
				if a == nil {
					continue
				}
				a.Contains(func(x *Term) bool {
					if k, _, ok := m.attrAt(x); ok {
						read[k] = true
					}
					return false
				})
			}
		})
		own := map[string]bool{}
		for _, p := range ps {
			for k := range m.stored(p) {
				own[k] = true
			}
		}
		for k := range read {
			n++
			c.Oblige(have[k] || own[k], R, m.fn, m.fn.Pos(), k+" is stored before it is read", "%s reads %q, which no earlier modifier stores", m.name, k)
		}
		for k := range own {
			have[k] = true
		}
	}
	c.AtLeast(R, "attributes read by modifiers", n, 5)
}

// border decides the overlap border.
func (m *modCtx) border(c *Ctx, b *Path, s attrStore, walls []attrStore) {
	const R = "C15.border"
	if !c.Oblige(len(walls) == 1, R, s.Fn, s.Ins.Pos(), "stored with the walls", "%s stores the overlap border without the walls of the layer", m.name) {
		return
	}
	P := walls[0].Val
	it, T := m.it, m.it.T
	ew, pct := m.opt("Printer.ExtrusionWidth"), m.opt("Print.InfillOverlapPercent")
	D := T.Sub(ew, T.Mul(T.Rat(big.NewRat(1, 100)), T.Mul(ew, pct)))
	// the wall element x is taken from
	piece := func(f *Facts, x *Term) (*Term, bool) {
		w, _, ok := elemOf(bare(x))
		if !ok {
			return nil, false
		}
		part, li, ok := elemOf(w)
		if !ok {
			return nil, false
		}
		ps, pi, ok := elemOf(part)
		if !ok || !it.sameVal(f, ps, P) && ps != P {
			return nil, false
		}
		return pi, T.Holds(f, T.NumEq(li, T.Sub(T.Len(part), T.Int(1))))
	}
	partT := c.W.TypeNamed("data", "LayerPart")
	isList := func(t types.Type) bool { // a list of parts
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), partT)
	}
	cont := map[*Term]bool{} // containers: lists of lists
	var why string
	var leaf func(f *Facts, x *Term, asm map[*Term]bool, depth int) bool
	leaf = func(f *Facts, x *Term, asm map[*Term]bool, depth int) bool {
		if depth > 20 {
			return false
		}
		if asm[x] || it.emptyVal(f, x) {
			return true
		}
		v := bare(x)
		if bs, i, ok := elemOf(v); ok {
			if cont[bs] {
				return true
			}
			if op, a := areaOp(bs); op == "Inset" && len(a) >= 4 {
				if !T.Holds(f, T.NumEq(i, T.Int(0))) && !T.Holds(f, T.NumEq(a[2], T.Int(1))) {
					why = "another inset than the first one is used"
					return false
				}
				if _, ok := piece(f, a[0]); !ok {
					why = "not a piece of the innermost wall is inset: " + clipT(a[0])
					return false
				}
				half := a[3]
				if !halfOf(T, half, D) {
					why = "the offset is " + clipT(half)
					return false
				}
				return true
			}
			if _, ok := piece(f, v); ok {
				return true
			}
		}
		if v.Op == OConcat {
			for _, y := range v.Args {
				if y.Op != OLit {
					if !leaf(f, y, asm, depth+1) {
						return false
					}
					continue
				}
				// the piece itself: nothing must be kept free
				if _, ok := piece(f, y.Args[0]); !ok {
					if !leaf(f, y.Args[0], asm, depth+1) {
						return false
					}
					continue
				}
				if !isZero(T, f, D) {
					why = "the innermost wall is used as it is"
					return false
				}
			}
			return true
		}
		if d := it.LoopDefs[v]; d != nil {
			as := map[*Term]bool{v: true}
			for y := range asm {
				as[y] = true
			}
			r := &areas{m: m, it: it}
			return r.latches(f, d, func(g *Facts, y *Term) bool { return leaf(g, y, as, depth+1) })
		}
		if why == "" {
			why = "not an inset of the innermost wall: " + clipT(v)
		}
		return false
	}
	var lists []struct {
		f *Facts
		x *Term
	}
	var container func(f *Facts, v *Term) bool
	container = func(f *Facts, v *Term) bool {
		v = bare(v)
		if cont[v] {
			return true
		}
		cont[v] = true
		if it.emptyVal(f, v) {
			return true
		}
		if v.Op == OConcat {
			for _, y := range v.Args {
				if y.Op == OLit {
					lists = append(lists, struct {
						f *Facts
						x *Term
					}{f, y.Args[0]})
				} else if !container(f, y) {
					return false
				}
			}
			return true
		}
		if d := it.LoopDefs[v]; d != nil {
			r := &areas{m: m, it: it}
			return r.latches(f, d, func(g *Facts, y *Term) bool { return container(g, y) })
		}
		return strings.HasPrefix(v.Sym, "make") || v.Op == OAlloc
	}
	if !c.Oblige(container(b.Facts, s.Val), R, s.Fn, s.Ins.Pos(), "list of lists", "cannot follow how the overlap border is built: %s", clipT(s.Val)) {
		return
	}
	// elements that are changed later
	walkEvents(b, func(e evCtx) {
		if (e.Ev.Kind == "store" || e.Ev.Kind == "elemstore") && len(e.Ev.Args) > 1 && e.Ev.Args[0].Op == OAddrI && cont[bare(e.Ev.Args[0].Args[0])] && isList(e.Ev.Args[1].Typ) {
			lists = append(lists, struct {
				f *Facts
				x *Term
			}{e.Facts, e.Ev.Args[1]})
		}
	})
	c.AtLeast(R, "areas of the overlap border", len(lists), 1)
	for _, l := range lists {
		why = ""
		c.Oblige(leaf(l.f, l.x, nil, 0), R, s.Fn, s.Ins.Pos(), "area of the overlap border", "%s: %s when %s", m.name, why, clipStr(l.f.String(), 200))
	}
}

func isZero(T *Terms, f *Facts, D *Term) bool {
	z := false
	f.Each(func(a *Term, val bool) {
		if val && a.Op == OEq && len(a.Args) == 2 {
			for i := range a.Args {
				if a.Args[1-i].IsInt(0) && unround(a.Args[i]) == D {
					z = true
				}
			}
		}
	})
	return z || T.Holds(f, T.NumEq(D, T.Int(0)))
}

// halfOf: t is -D/2, D in whole micrometres.
func halfOf(T *Terms, t, D *Term) bool {
	co, m, ok := T.ratio(t)
	if !ok || len(m) != 1 {
		return unround(t) == T.Scale(D, big.NewRat(-1, 2))
	}
	for x, e := range m {
		if e != 1 {
			return false
		}
		// whole number division
		for x.Op == OFn && x.Sym == "quo" && len(x.Args) == 2 {
			d, ok := x.Args[1].ConstNum()
			if !ok || d.Sign() == 0 {
				return false
			}
			co = new(big.Rat).Quo(co, d)
			x = x.Args[0]
			x = unround(x)
		}
		x = unround(x)
		return T.Scale(x, co) == T.Scale(D, big.NewRat(-1, 2))
	}
	return false
}
