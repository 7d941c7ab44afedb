package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Skirt and brim are first-layer only, in the configured number and distance", checkC23)
}

// unroundAll removes the rounding of all parts of a sum or product.
func unroundAll(T *Terms, t *Term) *Term {
	t = unround(t)
	if t == nil || t.Op != OPoly {
		return t
	}
	r := T.Int(0)
	for _, m := range T.monosOf(t) {
		x := T.Rat(m.C)
		for _, a := range m.A {
			x = T.Mul(x, unroundAll(T, a))
		}
		r = T.Add(r, x)
	}
	return r
}

func checkC23(c *Ctx) {
	c.Rule("C23.skirt: the renderer that prints around a hull calls AddPolygon only if the layer number is 0; it takes exactly SkirtCount loops from the hull, the first in the distance SkirtDistance + extrusion width + extrusion width * BrimCount (as a polynomial over the settings, up to rounding to micrometres) and each further one extrusion width outwards; the hull is made of every part of the walls and of the full support of the layer, whichever exists; nothing else is printed by it")
	c.Rule("C23.brim: the attributes brim and outerBrim are stored for layer 0 only, by one modifier; brim is InsetLayer(areas, -extrusion width, BrimCount, extrusion width) where the areas are all top level polygons of a list with every piece of the outermost wall of every part of the layer; whatever prints the brim prints the stored attribute of its own layer")
	c.Rule("C23.area: the outer brim is every piece of the outermost brim loop of every brim, grown by half of the extrusion width")
	c.Rule("C23.hull: Hull gives the hull library all points of the outlines of all parts and returns what that returns; Path.Take, Len, Swap and Slice give the library the right point, number, exchange and section")
	c.Rule("C23.clip: insetting and the top level polygons do what they say (rules C16.points, C16.tree, C16.inset, C16.top), the flat list of an inset result is complete (C14.flat), the brim is computed whenever it is not switched off and there are walls (C14.modify), and every skirt and brim line is printed (C14.render)")
	pl := c.pipeline("C23.pipeline")
	if pl == nil {
		return
	}
	c.processOrder()
	c.printedOrder(nil)
	c.renderAll("brim", "skirt")
	c.modifyAll("brim", "outerBrim")
	c.skirt()
	c.brim(pl)
	c.hull()
	if k := c.clipping("C23.clip"); k != nil {
		k.points()
		k.trees()
		k.insets()
		k.top()
	}
}

func (c *Ctx) skirt() {
	const R = "C23.skirt"
	n, np := 0, 0
	for _, rr := range c.renderRuns("C23.pipeline", flatBoundary, func(it *Interp) { it.RecordLookups = true }) {
		it, T := rr.It, rr.It.T
		st0 := it.NewState()
		opt := func(path string) *Term { return it.optTerm(st0, rr.Opt, path) }
		ew := opt("Printer.ExtrusionWidth")
		dist := T.Add(T.Add(T.Mul(T.Int(1000), opt("Print.BrimSkirt.SkirtDistance")), ew), T.Mul(ew, opt("Print.BrimSkirt.BrimCount")))
		isHull := func(x *Term) bool { return callKeyOf(x) == "clip.Clipper.Hull" }
		is := false
		collectEvents(rr.Paths, func(e evCtx) {
			if strings.HasSuffix(e.Ev.Key, "Builder.AddPolygon") && len(e.Ev.Args) > 2 && e.Ev.Args[2].Contains(isHull) {
				is = true
			}
		})
		if !is {
			continue
		}
		for _, p := range rr.Paths {
			var hulls, insets []*Event
			walkEvents(p, func(e evCtx) {
				switch {
				case e.Ev.Key == "clip.Clipper.Hull":
					hulls = append(hulls, e.Ev)
				case e.Ev.Key == "clip.Clipper.Inset":
					insets = append(insets, e.Ev)
				case e.Ev.Kind == "call" && (strings.HasSuffix(e.Ev.Key, "Builder.AddPolygon") || strings.HasSuffix(e.Ev.Key, "Builder.AddMove")) && len(e.Ev.Args) > 2:
					np++
					pos := e.Ev.Instr.Pos()
					c.Oblige(T.Holds(e.Facts, T.NumEq(rr.Nr, T.Int(0))) || T.Holds(p.Facts, T.NumEq(rr.Nr, T.Int(0))), R, e.Ev.Fn, pos, "first layer only", "%s prints when %s", rr.Name, clipStr(e.Facts.String(), 200))
					from := false
					e.Ev.Args[2].Contains(func(x *Term) bool { from = from || callKeyOf(x) == "clip.Clipper.Inset"; return from })
					c.Oblige(from, R, e.Ev.Fn, pos, "lines around the hull", "%s prints %s, which is no line around the hull", rr.Name, clipT(e.Ev.Args[2]))
				}
			})
			if len(insets) == 0 {
				continue
			}
			n++
			g := &gather{it: it}
			for _, h := range hulls {
				its, ok := g.list(p, h.Args[1], nil, nil)
				got := map[string]bool{}
				for _, s := range itemTexts(its) {
					got[s] = true
				}
				c.Oblige(ok, R, h.Fn, h.Instr.Pos(), "what the hull is around", "cannot follow it: %s", g.why)
				for _, key := range []string{"perimeters", "fullSupport"} {
					vals := attrVals(p, key)
					if len(vals) == 0 {
						c.Oblige(absent(p, key), R, h.Fn, h.Instr.Pos(), "hull around the "+key, "the hull does not contain %q when %s", key, clipStr(p.Facts.String(), 260))
						continue
					}
					in := false
					for _, v := range vals {
						s := g.text(p, v, nil)
						in = in || it.emptyVal(p.Facts, v) || got["each("+s+")"] || got["each(clip.OffsetResult.ToOneDimension("+s+"))"] || got["each(each(each("+s+")))"] || got["each(each("+s+")[0])"]
					}
					c.Oblige(in, R, h.Fn, h.Instr.Pos(), "hull around the "+key, "the hull does not contain every part of %q but %s when %s", key, clean(strings.Join(itemTexts(its), "; ")), clipStr(p.Facts.String(), 260))
				}
			}
			c.Oblige(len(hulls) == 1 && len(insets) == 1, R, rr.Fn, rr.Fn.Pos(), "one hull, one inset", "%d hulls, %d insets", len(hulls), len(insets))
			for _, e := range insets {
				if len(e.Args) < 5 {
					continue
				}
				pos := e.Instr.Pos()
				part := bare(e.Args[1])
				okP := len(hulls) == 1 && part.Op == OStruct && len(part.Args) >= 2 && part.Args[0] == hulls[0].ResAt(T, 0) && it.emptyVal(p.Facts, part.Args[1])
				c.Oblige(okP, R, e.Fn, pos, "inset of the hull", "not the hull but %s is inset", clipT(part))
				c.Oblige(unroundAll(T, e.Args[2]) == T.Neg(ew), R, e.Fn, pos, "step", "the skirt loops are %s apart", clipT(e.Args[2]))
				c.Oblige(e.Args[3] == opt("Print.BrimSkirt.SkirtCount"), R, e.Fn, pos, "number", "the number of skirt loops is %s", clipT(e.Args[3]))
				c.Oblige(unroundAll(T, e.Args[4]) == dist, R, e.Fn, pos, "distance", "the distance of the first skirt loop is %s", clipT(e.Args[4]))
			}
		}
	}
	c.AtLeast(R, "ways that print a skirt", n, 1)
	c.AtLeast(R, "calls that print it", np, 1)
}

func (c *Ctx) brim(pl *Pipeline) {
	const R = "C23.brim"
	c.outerBrim(pl, "C23.area")
	n := 0
	by := map[string]bool{}
	for _, v := range pl.Modifiers {
		m, ps := c.modCtx("C23.run", pl, v)
		if m == nil {
			continue
		}
		T := m.it.T
		ew := m.opt("Printer.ExtrusionWidth")
		for _, b := range m.places(ps) {
			for _, s := range m.storesOf(b) {
				if s.Key != "brim" && s.Key != "outerBrim" {
					continue
				}
				by[m.name] = true
				pos := s.Ins.Pos()
				c.Oblige(T.Holds(b.Facts, T.NumEq(s.Idx, T.Int(0))), R, s.Fn, pos, s.Key+" of the first layer", "%s stores %q for the layer %s", m.name, s.Key, clipT(s.Idx))
				if s.Key != "brim" {
					continue
				}
				n++
				op, a := areaOp(s.Val)
				if !c.Oblige(op == "InsetLayer" && len(a) >= 4, R, s.Fn, pos, "brim loops", "%s stores a brim that is no inset of areas: %s", m.name, clipT(s.Val)) {
					continue
				}
				c.Oblige(unroundAll(T, a[1]) == T.Neg(ew), R, s.Fn, pos, "step", "the brim loops are %s apart", clipT(a[1]))
				c.Oblige(a[2] == m.opt("Print.BrimSkirt.BrimCount"), R, s.Fn, pos, "number", "the number of brim loops is %s", clipT(a[2]))
				c.Oblige(unroundAll(T, a[3]) == ew, R, s.Fn, pos, "distance", "the distance of the first brim loop is %s", clipT(a[3]))
				g := &gather{it: m.it}
				its, ok := g.list(b, a[0], nil, nil)
				tx := itemTexts(its)
				var tl *Term
				calls := 0
				seen := map[*Term]bool{}
				walkNodesTerms(b, func(x *Term) {
					if callKeyOf(x) == "clip.Clipper.TopLevelPolygons" && !seen[x] {
						seen[x] = true
						tl = x
						calls++
					}
				})
				if !c.Oblige(ok && len(tx) == 1 && calls == 1 && len(tl.Args) > 1 && tx[0] == "data.basicLayerPart{each("+g.text(b, tl, nil)+"#0), list{}}", R, s.Fn, pos, "around all top level polygons",
					"the brim is not around all top level polygons but %s %s", clean(strings.Join(tx, "; ")), g.why) {
					continue
				}
				g = &gather{it: m.it}
				its, ok = g.list(b, tl.Args[1], nil, nil)
				in := false
				for _, w := range attrVals(b, "perimeters") {
					if _, i, isA := m.attrAt(w); !isA || !T.Holds(b.Facts, T.NumEq(i, s.Idx)) {
						continue
					}
					x := g.text(b, w, nil)
					for _, i := range itemTexts(its) {
						if i == "each(each(each("+x+")))" || i == "each(each("+x+")[0])" || i == "each(clip.OffsetResult.ToOneDimension("+x+"))" {
							in = true
						}
					}
				}
				c.Oblige(ok && in, R, s.Fn, pos, "all pieces of the outermost walls", "the brim does not go around every piece of the outermost wall of every part but %s %s", clean(strings.Join(itemTexts(its), "; ")), g.why)
			}
		}
	}
	c.AtLeast(R, "stored brims", n, 1)
	c.Oblige(len(by) == 1, R, nil, 0, "one modifier", "%d modifiers store a brim", len(by))
	c.readLater(pl, R)
}

// outerBrim: the area of the brim is what the brim loops cover.
func (c *Ctx) outerBrim(pl *Pipeline, R string) {
	n := 0
	for _, v := range pl.Modifiers {
		m, ps := c.modCtx(R, pl, v)
		if m == nil {
			continue
		}
		T := m.it.T
		ew := m.opt("Printer.ExtrusionWidth")
		for _, b := range m.places(ps) {
			var brims []attrStore
			for _, s := range m.storesOf(b) {
				if s.Key == "brim" {
					brims = append(brims, s)
				}
			}
			for _, s := range m.storesOf(b) {
				if s.Key != "outerBrim" {
					continue
				}
				n++
				pos := s.Ins.Pos()
				op, a := areaOp(s.Val)
				if op == "ToOneDimension" {
					op, a = areaOp(a[0])
				}
				if !c.Oblige(op == "InsetLayer" && len(a) >= 4, R, s.Fn, pos, "area of the brim", "%s: the outer brim is %s", m.name, clipT(s.Val)) {
					continue
				}
				c.Oblige(isOneOrMore(T, b.Facts, a[2]) && halfOf(T, T.Neg(a[3]), ew), R, s.Fn, pos, "half a line", "the outermost brim loop is grown by %s", clipT(a[3]))
				g := &gather{it: m.it}
				its, ok := g.list(b, a[0], nil, nil)
				all := false
				var tx []string
				if ok {
					tx = itemTexts(its)
					for _, q := range brims {
						x := g.text(b, q.Val, nil)
						for _, i := range tx {
							if i == "each(each("+x+")[last])" || i == "each(each(each("+x+")))" || i == "each(clip.OffsetResult.ToOneDimension("+x+"))" {
								all = true
							}
						}
					}
					if len(brims) == 0 {
						// no brim at all
						all = true
					}
				}
				c.Oblige(all, R, s.Fn, pos, "outermost brim loops", "the outer brim is not made of every outermost brim loop but %s %s", clean(strings.Join(tx, "; ")), g.why)
			}
			// stored together
			for _, q := range brims {
				has := false
				for _, s := range m.storesOf(b) {
					if s.Key == "outerBrim" && T.Holds(b.Facts, T.NumEq(s.Idx, q.Idx)) {
						has = true
					}
				}
				if !has {
					none := false
					for _, p2 := range m.places(ps) {
						for _, s := range m.storesOf(p2) {
							if s.Key == "outerBrim" && m.mustEmpty(b.Facts, s.Val, nil, 0) {
								none = true
							}
						}
					}
					c.Oblige(none, R, q.Fn, q.Ins.Pos(), "area stored with the brim", "%s stores a brim but not its area when %s", m.name, clipStr(b.Facts.String(), 260))
				}
			}
		}
	}
	c.AtLeast(R, "stored areas of the brim", n, 1)
}

const hullLib = "github.com/furstenheim/go-convex-hull-2d"

// hull decides that the hull is made around all points.
func (c *Ctx) hull() {
	const R = "C23.hull"
	w := c.W
	k := c.clipping(R)
	if k == nil {
		return
	}
	fn := k.method("Hull")
	if fn == nil {
		c.Undecided(R, nil, 0, "Hull", "no implementation found")
		return
	}
	it := NewInterp(w)
	it.RecordStores = true
	it.Policy = func(ci *CallInfo) Action {
		if strings.HasPrefix(ci.Key, hullLib+".") {
			return AEvent
		}
		return ADefault
	}
	args := it.ParamSyms(fn)
	n := 0
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn || len(p.Ret) != 2 {
			continue
		}
		if b, isC := p.Ret[1].IsBool(); isC && !b || it.T.Refuted(p.Facts, p.Ret[1]) {
			continue
		}
		n++
		var news []*Event
		walkEvents(p, func(e evCtx) {
			if strings.HasPrefix(e.Ev.Key, hullLib+".") {
				news = append(news, e.Ev)
			}
		})
		if !c.Oblige(len(news) == 1 && news[0].Key == hullLib+".New" && len(news[0].Args) == 1, R, fn, fn.Pos(), "one hull", "%d calls of the hull library on a successful way", len(news)) {
			continue
		}
		e := news[0]
		g := &gather{it: it}
		its, ok := g.list(p, bare(e.Args[0]), nil, nil)
		tx := itemTexts(its)
		c.Oblige(ok && len(tx) == 1 && tx[0] == "each(data.LayerPart.Outline(each("+args[1].String()+")))", R, fn, e.Instr.Pos(), "all points", "the hull is not around every point of every outline but %s %s", clean(strings.Join(tx, "; ")), g.why)
		res := bare(p.Ret[0])
		c.Oblige(res == bare(e.ResAt(it.T, 0)) || res.Contains(func(x *Term) bool { return x == e.Res }), R, fn, fn.Pos(), "result", "the result is %s", clipT(res))
	}
	c.AtLeast(R, "ways that make a hull", n, 1)
	c.pathSort(R)
}

// pathSort decides the methods the hull library uses.
func (c *Ctx) pathSort(R string) {
	w := c.W
	nt := w.TypeNamed("data", "Path")
	if nt == nil {
		c.Undecided(R, nil, 0, "Path", "not found")
		return
	}
	one := func(name string) (*Interp, []*Term, *Path, *ssa.Function) {
		fn := w.Method(nt, name)
		if fn == nil {
			c.Undecided(R, nil, 0, "Path."+name, "not found")
			return nil, nil, nil, nil
		}
		it := NewInterp(w)
		it.RecordStores = true
		args := it.ParamSyms(fn)
		var r []*Path
		for _, p := range c.Run(it, fn, args) {
			if p.Kind == KReturn {
				r = append(r, p)
			}
		}
		if !c.Oblige(len(r) == 1, R, fn, fn.Pos(), "Path."+name, "%d ways through it", len(r)) {
			return nil, nil, nil, nil
		}
		return it, args, r[0], fn
	}
	if it, args, p, fn := one("Take"); p != nil {
		var pnt *Term
		for _, r := range p.Ret {
			r.Contains(func(x *Term) bool {
				if b, i, ok := elemOf(x); ok && b == args[0] && i == args[1] {
					pnt = x
				}
				return false
			})
		}
		if !c.Oblige(pnt != nil, R, fn, fn.Pos(), "Path.Take", "does not look at the point but returns %s", clipT(p.Ret[0])) {
			return
		}
		want := func(ax string) func(x *Term) bool {
			return func(x *Term) bool {
				y := it.invokeOn(p.St, pnt, w.TypeNamed("data", "MicroPoint"), ax)
				return y != nil && unround(x) == unround(y)
			}
		}
		c.Oblige(len(p.Ret) == 2 && want("X")(p.Ret[0]) && want("Y")(p.Ret[1]), R, fn, fn.Pos(), "Path.Take", "returns %s, %s", clipT(p.Ret[0]), clipT(p.Ret[1]))
	}
	if it, args, p, fn := one("Len"); p != nil {
		c.Oblige(len(p.Ret) == 1 && p.Ret[0] == it.T.Len(args[0]), R, fn, fn.Pos(), "Path.Len", "returns %s", clipT(p.Ret[0]))
	}
	if it, args, p, fn := one("Slice"); p != nil {
		c.Oblige(len(p.Ret) == 1 && bare(p.Ret[0]) == it.T.SubSlice(args[0], args[1], args[2]), R, fn, fn.Pos(), "Path.Slice", "returns %s", clipT(p.Ret[0]))
	}
	if it, args, p, fn := one("Swap"); p != nil {
		got := map[*Term]*Term{}
		walkEvents(p, func(e evCtx) {
			if (e.Ev.Kind == "store" || e.Ev.Kind == "elemstore") && len(e.Ev.Args) > 1 && e.Ev.Args[0].Op == OAddrI && e.Ev.Args[0].Args[0] == args[0] {
				got[e.Ev.Args[0].Args[1]] = e.Ev.Args[1]
			}
		})
		at := func(v, i *Term) bool {
			if v == nil {
				return false
			}
			b, j, ok := elemOf(v)
			return ok && b == args[0] && j == i
		}
		_ = it
		c.Oblige(len(got) == 2 && at(got[args[1]], args[2]) && at(got[args[2]], args[1]), R, fn, fn.Pos(), "Path.Swap", "does not exchange the points but stores %d", len(got))
	}
}
