package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Every layer and every area is processed", checkC14)
}

// sameVal: the same value, elements compared by list and index (whatever is stored elsewhere meanwhile).
func (it *Interp) sameVal(f *Facts, a, b *Term) bool {
	a, b = bare(a), bare(b)
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	ab, ai, ok1 := elemOf(a)
	bb, bi, ok2 := elemOf(b)
	if ok1 && ok2 {
		return it.sameVal(f, ab, bb) && it.T.Holds(f, it.T.NumEq(ai, bi))
	}
	am, ak, ok1 := lookupOf(a)
	bm, bk, ok2 := lookupOf(b)
	if ok1 && ok2 {
		return ak == bk && it.sameVal(f, am, bm)
	}
	if ka := callKeyOf(a); ka != "" && ka == callKeyOf(b) && a.Op == b.Op && len(a.Args) == len(b.Args) && len(a.Args) > 0 && !strings.Contains(a.Sym, "@") {
		for i := range a.Args {
			if !it.sameVal(f, a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// bare removes interface boxing and type assertions.
func bare(t *Term) *Term {
	for {
		t = strip(t)
		if t != nil && t.Op == OFn && (strings.HasPrefix(t.Sym, "as:") || t.Sym == "attr") && len(t.Args) == 1 {
			t = t.Args[0]
			continue
		}
		return t
	}
}

// emptyVal: the value is known to be nil, absent or of length 0.
func (it *Interp) emptyVal(f *Facts, v *Term) bool {
	T := it.T
	v = bare(v)
	if v == nil || v.IsNil() {
		return true
	}
	if T.Holds(f, T.RefEq(v, T.Nil())) || T.Holds(f, T.NumEq(T.Len(v), T.Int(0))) {
		return true
	}
	none := false
	m, k, isL := lookupOf(v)
	f.Each(func(a *Term, val bool) {
		if isL && !val && a.Op == OSel && isMemKey(a.Args[0].Sym, "H:") && len(a.Args) == 3 && a.Args[1] == m && a.Args[2] == k {
			none = true
		}
		if val && a.Op == OEq {
			for i := range a.Args {
				if a.Args[1-i].IsNil() && it.sameVal(f, a.Args[i], v) {
					none = true
				}
			}
		}
		if a.Op == OLe || a.Op == OEq {
			a.Contains(func(x *Term) bool {
				if x.Op == OLen && it.sameVal(f, x.Args[0], v) && T.Holds(f, T.NumEq(x, T.Int(0))) {
					none = true
				}
				return none
			})
		}
	})
	return none
}

// shiftOf describes a way to walk over a list: element (idx+by) or (by-idx) modulo the length.
type shiftOf struct {
	by     *Term
	mirror bool
}

// elemWalk decides that in a loop over all indices of v each iteration treats one element (ok says whether it is
// treated) such that over all iterations each element is treated exactly once: the index is the loop's own, shifted
// by a constant or mirrored, modulo the length.
func (it *Interp) elemWalk(p *Path, v *Term, ok func(b *Path, x *Term) bool) (all bool, used *LoopNode, why string) {
	T := it.T
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		n := it.lenIn(p, v)
		cv, full := it.covers(l, n)
		if !full {
			continue
		}
		type cand struct{ x, i *Term }
		cs := make([][]cand, len(l.Bodies))
		var hyp []shiftOf
		any := false
		for k, b := range l.Bodies {
			seen := map[*Term]bool{}
			walkNodesTerms(b, func(x *Term) {
				bs, i, isE := elemOf(x)
				if !isE || !it.sameVal(b.Facts, bs, v) || seen[x] {
					return
				}
				seen[x] = true
				any = true
				cs[k] = append(cs[k], cand{x, i})
				if w := unwrapped(i, n); w != nil {
					i = w
				}
				d, s := T.Sub(i, cv.Idx), T.Add(i, cv.Idx)
				if _, isC := d.ConstInt(); isC {
					hyp = append(hyp, shiftOf{d, false})
				} else if !s.Contains(func(y *Term) bool { return y == cv.Ctr.Def.Sym }) {
					hyp = append(hyp, shiftOf{s, true})
				}
			})
		}
		if !any {
			continue
		}
		tried := map[shiftOf]bool{}
		for _, h := range hyp {
			if tried[h] {
				continue
			}
			tried[h] = true
			good := true
			for k, b := range l.Bodies {
				f := b.Facts
				one := false
				for _, c := range cs[k] {
					w := unwrapped(c.i, n)
					ci := c.i
					if w != nil {
						ci = w
					}
					d := T.Sub(ci, cv.Idx)
					if h.mirror {
						d = T.Add(ci, cv.Idx)
					}
					if w != nil {
						// the remainder of something that is not negative is an index
						if !T.Holds(f, T.LeT(T.Int(0), w)) {
							continue
						}
					} else if c.i != cv.Idx && !(T.Holds(f, T.LeT(T.Int(0), c.i)) && T.Holds(f, T.Lt(c.i, n))) {
						continue
					}
					if !(T.Holds(f, T.NumEq(d, h.by)) || T.Holds(f, T.NumEq(T.Add(d, n), h.by)) || T.Holds(f, T.NumEq(T.Sub(d, n), h.by))) {
						continue
					}
					if ok(b, c.x) || it.emptyVal(f, c.x) {
						one = true
						break
					}
				}
				if !one {
					good = false
					if why == "" {
						why = "an element of " + clipT(v) + " is left out when " + clipStr(factsFrom(f, l.NFact), 260)
					}
					break
				}
			}
			if good {
				if !it.exhausted(p, cv, n) {
					why = "the loop over " + clipT(v) + " may be left before its end"
					continue
				}
				return true, l, ""
			}
		}
	}
	if why == "" {
		why = "no loop runs over all elements of " + clipT(v) + " when " + clipStr(p.Facts.String(), 260)
	}
	return false, nil, why
}

// unwrapped: x if i is x modulo n.
func unwrapped(i, n *Term) *Term {
	if i.Op == OFn && i.Sym == "rem" && len(i.Args) == 2 && i.Args[1] == n {
		return i.Args[0]
	}
	return nil
}

// lenIn: the length of v as it is written in the facts below a path (the value may be wrapped in a type assertion).
func (it *Interp) lenIn(p *Path, v *Term) *Term {
	n := it.T.Len(v)
	walkNodesTerms(p, func(x *Term) {
		if x.Op == OLen && it.sameVal(p.Facts, x.Args[0], v) {
			n = x
		}
	})
	return n
}

type printer struct {
	c     *Ctx
	it    *Interp
	rr    *renderRun
	msg   string
	loops map[*LoopNode]bool
	leafs map[*Event]bool
}

// prints: does the trace print everything in v?
func (pr *printer) prints(p *Path, v *Term, typ types.Type) bool {
	it, T := pr.it, pr.it.T
	if it.emptyVal(p.Facts, v) {
		return true
	}
	v = strip(v)
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		if _, ok := sl.Elem().Underlying().(*types.Slice); ok {
			// printed from the flat list of all parts
			var fl *Term
			walkNodesTerms(p, func(x *Term) {
				if callKeyOf(x) == "clip.OffsetResult.ToOneDimension" && len(x.Args) == 1 && it.sameVal(p.Facts, x.Args[0], v) {
					fl = x
				}
			})
			if fl != nil {
				return pr.prints(p, fl, partsOf(typ))
			}
		}
	}
	switch u := typ.Underlying().(type) {
	case *types.Interface: // a part
		for _, nd := range p.Trace {
			if nd.Ev == nil || nd.Ev.Kind != "call" {
				continue
			}
			switch {
			case nd.Ev.Key == "clip.Pattern.Fill" && len(nd.Ev.Args) > 2 && it.sameVal(p.Facts, nd.Ev.Args[2], v):
				pr.leafs[nd.Ev] = true
				return pr.prints(p, nd.Ev.ResAt(T, 0), pr.pathsT())
			case strings.HasSuffix(nd.Ev.Key, "Builder.AddPolygon") && len(nd.Ev.Args) > 2:
				q := strip(nd.Ev.Args[2])
				if callKeyOf(q) == "data.LayerPart.Outline" && it.sameVal(p.Facts, q.Args[0], v) {
					pr.leafs[nd.Ev] = true
					return true
				}
			}
		}
		// as one of a list of contours that is printed completely
		if pr.within(p, pr.pathsT(), func(x *Term) bool {
			return x.Op == OLit && callKeyOf(strip(x.Args[0])) == "data.LayerPart.Outline" && it.sameVal(p.Facts, strip(x.Args[0]).Args[0], v)
		}) {
			return true
		}
		if pr.msg == "" {
			pr.msg = "the outline of " + clipT(v) + " is not printed when " + clipStr(p.Facts.String(), 260)
		}
		return false
	case *types.Slice:
		if pt := pr.c.W.TypeNamed("data", "MicroPoint"); pt != nil && types.Identical(u.Elem(), pt) {
			for _, nd := range p.Trace {
				if nd.Ev != nil && nd.Ev.Kind == "call" && strings.HasSuffix(nd.Ev.Key, "Builder.AddPolygon") && len(nd.Ev.Args) > 2 && it.sameVal(p.Facts, nd.Ev.Args[2], v) {
					pr.leafs[nd.Ev] = true
					return true
				}
			}
			if pr.msg == "" {
				pr.msg = "the path " + clipT(v) + " is not printed when " + clipStr(p.Facts.String(), 260)
			}
			return false
		}
		saved := pr.msg
		all, l, why := it.elemWalk(p, v, func(b *Path, x *Term) bool { return pr.prints(b, x, u.Elem()) })
		if all {
			pr.loops[l] = true
			pr.msg = saved
			return true
		}
		if pr.within(p, u, func(x *Term) bool { return x.Op != OLit && it.sameVal(p.Facts, strip(x), v) }) {
			pr.msg = saved
			return true
		}
		if pr.msg == "" {
			pr.msg = why
		}
		return false
	}
	pr.msg = "unexpected type " + shortT(typ)
	return false
}

// within: a list put together of several pieces, one of which is the wanted one, is printed completely.
func (pr *printer) within(p *Path, typ types.Type, is func(x *Term) bool) bool {
	it := pr.it
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	var lists []*Term
	walkNodesTerms(p, func(x *Term) {
		if x.Op != OConcat {
			return
		}
		for _, a := range x.Args {
			if is(a) {
				lists = append(lists, x)
				return
			}
		}
	})
	for _, x := range lists {
		saved := pr.msg
		all, l, _ := it.elemWalk(p, x, func(b *Path, y *Term) bool { return pr.prints(b, y, sl.Elem()) })
		pr.msg = saved
		if all {
			pr.loops[l] = true
			return true
		}
	}
	return false
}

// partsOf: the innermost slice type of nested lists of parts.
func partsOf(t types.Type) types.Type {
	for {
		sl := t.Underlying().(*types.Slice)
		if _, ok := sl.Elem().Underlying().(*types.Slice); !ok {
			return types.NewSlice(sl.Elem())
		}
		t = sl.Elem()
	}
}

// flatBoundary is renderBoundary with the flattening of an inset result as a function of it.
func flatBoundary(ci *CallInfo) Action {
	if ci.Key == "clip.OffsetResult.ToOneDimension" {
		return APure
	}
	return renderBoundary(ci)
}

// flattens decides that ToOneDimension returns every part of the result, however deep, exactly once.
func (c *Ctx) flattens() {
	const R = "C14.flat"
	fn := c.W.Method(c.W.TypeNamed("clip", "OffsetResult"), "ToOneDimension")
	if fn == nil {
		c.Undecided(R, nil, 0, "OffsetResult.ToOneDimension", "not found")
		return
	}
	it := NewInterp(c.W)
	args := it.ParamSyms(fn)
	n := 0
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn || len(p.Ret) != 1 {
			continue
		}
		n++
		ok, why := it.flat(p, p.Ret[0], it.T.Nil(), args[0], fn.Params[0].Type())
		c.Oblige(ok, R, fn, fn.Pos(), "all parts", "the flat list does not have every part exactly once: %s", why)
	}
	c.AtLeast(R, "ways through ToOneDimension", n, 1)
}

// flat: on path p, L is start followed by every innermost element of v, in any order.
func (it *Interp) flat(p *Path, L, start, v *Term, typ types.Type) (bool, string) {
	T := it.T
	if it.emptyVal(p.Facts, v) && (L == start || start.IsNil() && it.emptyVal(p.Facts, L)) {
		return true, ""
	}
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return false, "unexpected type " + shortT(typ)
	}
	_, deeper := sl.Elem().Underlying().(*types.Slice)
	if !deeper {
		if T.Concat(L.Typ, start, v) == L || start.IsNil() && L == v {
			return true, ""
		}
		if L.Op == OConcat && len(L.Args) == 2 && L.Args[0] == start && it.sameVal(p.Facts, L.Args[1], v) {
			return true, ""
		}
		if L.Op == OConcat && len(L.Args) == 1 && it.emptyVal(p.Facts, start) && it.sameVal(p.Facts, L.Args[0], v) {
			return true, ""
		}
	}
	why := ""
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		n := T.Len(v)
		cv, full := it.covers(l, n)
		if !full {
			continue
		}
		for _, d := range l.Defs {
			if d.Sym != L || d.Init != start && !(it.emptyVal(p.Facts, start) && it.emptyVal(p.Facts, d.Init)) {
				continue
			}
			if len(d.Latch) != len(l.Bodies) {
				continue
			}
			if !it.exhausted(p, cv, n) {
				return false, "the loop over " + clipT(v) + " may be left before its end"
			}
			for k, b := range l.Bodies {
				el := it.elemAt(b, v, cv.Idx, d.Latch[k])
				if el == nil {
					if d.Latch[k] != d.Sym {
						continue
					}
					return false, "an element of " + clipT(v) + " is left out when " + clipStr(factsFrom(b.Facts, l.NFact), 200)
				}
				if deeper {
					if ok, w := it.flat(b, d.Latch[k], d.Sym, el, sl.Elem()); !ok {
						return false, w
					}
				} else {
					x := d.Latch[k]
					if !(x.Op == OConcat && len(x.Args) == 2 && x.Args[0] == d.Sym && x.Args[1].Op == OLit && it.sameVal(b.Facts, x.Args[1].Args[0], el)) {
						return false, "an element of " + clipT(v) + " is left out when " + clipStr(factsFrom(b.Facts, l.NFact), 200)
					}
				}
			}
			return true, ""
		}
	}
	return false, why + "no loop collects the elements of " + clipT(v)
}

// elemAt finds how v[idx] is written below a path.
func (it *Interp) elemAt(b *Path, v, idx *Term, more ...*Term) *Term {
	var r *Term
	visit := func(t *Term) {
		t.Contains(func(x *Term) bool {
			if bs, i, ok := elemOf(x); ok && it.sameVal(b.Facts, bs, v) && it.T.Holds(b.Facts, it.T.NumEq(i, idx)) {
				r = x
			}
			return false
		})
	}
	for _, x := range more {
		visit(x)
	}
	walkNodesTerms(b, visit)
	allLoops(b, func(l *LoopNode, _ *Path) {
		for _, d := range l.Defs {
			for _, x := range d.Latch {
				visit(x)
			}
			visit(d.Init)
		}
	})
	return r
}

func (pr *printer) pathsT() types.Type { return pr.c.W.TypeNamed("data", "Paths") }

func checkC14(c *Ctx) {
	c.Rule("C14.render: on every successful way through a renderer everything it was given is printed: for every element of the attribute it reads (or of the result of the inset that makes the skirt), at every level of nesting, a loop runs over all indices exactly once and to its end, and each iteration prints the element - outline and, for walls, every hole; or every path its fill pattern returns - unless it is empty. Nothing is printed only if the attribute is absent or empty, the pattern is switched off, or (skirt) it is disabled or not the first layer")
	c.Rule("C14.modify: every modifier treats the layers in a loop that reaches all of them; the loop is left early without an error only when a setting that does not depend on the layer says so or no layer is left; a layer is passed over only if something in it is known to be empty or the layer it would change does not exist; whatever is computed for a layer is stored unless it is empty")
	c.Rule("C14.inner: the loops over parts, walls and areas inside the modifiers run to their end unless an error is returned, and an iteration that contributes nothing knows that something is empty or that a setting disables it")
	c.Rule("C14.run: all modifiers are applied, all layers are handed to all renderers, and the slicer produces every layer (rules C04.order, C11.print, C11.order)")
	c.Rule("C14.flat: the flat list of an inset result has every part of every piece exactly once")
	c.Rule("C14.clip: partitioning, insetting and clipping lose no part, hole or contour (rules C16.points, C16.tree, C16.inset, C16.partition, C16.ops)")
	c.processOrder()
	ci := c.cuts("C14.cuts")
	if ci != nil {
		c.slicedOrder(ci)
	}
	c.printedOrder(nil)
	c.renderAll()
	c.modifyAll()
	if k := c.clipping("C14.clip"); k != nil {
		k.points()
		k.trees()
		k.insets()
		k.partition()
		k.ops()
	}
}

// With keys only what prints one of these attributes ("skirt" for the skirt) is looked at.
func (c *Ctx) renderAll(keys ...string) {
	wanted := func(k string) bool {
		for _, x := range keys {
			if x == k {
				return true
			}
		}
		return len(keys) == 0
	}
	const R = "C14.render"
	w := c.W
	nAttr, nPrint, nSucc := 0, 0, 0
	partT := w.TypeNamed("data", "LayerPart")
	if partT == nil {
		c.Undecided(R, nil, 0, "LayerPart", "not found")
		return
	}
	partsT := types.NewSlice(partT)
	wallsT := types.NewSlice(types.NewSlice(partsT))
	insetT := types.NewSlice(partsT)
	c.flattens()
	allPrinted := map[string]bool{}
	skirts := 0
	for _, rr := range c.renderRuns("C14.pipeline", flatBoundary, func(it *Interp) { it.RecordLookups = true }) {
		it := rr.It
		st0 := it.NewState()
		runOpt := func(path string) *Term { return it.optTerm(st0, rr.Opt, path) }
		setupOpt := func(path string) *Term { return it.optVal(rr.SetupOpt, path) }
		// what does it print?
		type src struct {
			key  string // attribute
			typ  types.Type
			hull bool
		}
		var printed = map[string]bool{}
		var hulls = map[string]bool{}
		skirt, any := false, false
		collectEvents(rr.Paths, func(e evCtx) {
			if e.Ev.Kind != "call" {
				return
			}
			var q *Term
			switch {
			case strings.HasSuffix(e.Ev.Key, "Builder.AddPolygon") && len(e.Ev.Args) > 2:
				q = e.Ev.Args[2]
			case e.Ev.Key == "clip.Pattern.Fill" && len(e.Ev.Args) > 2:
				q = e.Ev.Args[2]
			default:
				return
			}
			any = true
			isHull := func(x *Term) bool { return callKeyOf(x) == "clip.Clipper.Hull" }
			q.Contains(func(x *Term) bool {
				if isHull(x) {
					skirt = true
					x.Contains(func(y *Term) bool {
						if k, ok := attrKey(y); ok {
							hulls[k] = true
						}
						return false
					})
				}
				return false
			})
			q.containsNot(func(x *Term) bool {
				if k, ok := attrKey(x); ok {
					printed[k] = true
				}
				return false
			}, isHull)
		})
		if !any {
			continue
		}
		if len(keys) > 0 && (len(printed) > 0 || skirt) {
			for k := range printed {
				if !wanted(k) {
					delete(printed, k)
				}
			}
			skirt = skirt && wanted("skirt")
			if len(printed) == 0 && !skirt {
				continue
			}
		}
		nPrint++
		for k := range printed {
			allPrinted[k] = true
		}
		if skirt {
			skirts++
		}
		c.Oblige(len(printed) > 0 || skirt, R, rr.Fn, rr.Fn.Pos(), "what is printed", "%s prints paths that come from no attribute of the layer", rr.Name)
		succ := 0
		for _, p := range rr.Paths {
			if p.Kind != KReturn || len(p.Ret) != 1 || !it.T.Holds(p.Facts, it.T.RefEq(p.Ret[0], it.T.Nil())) {
				continue
			}
			succ++
			pr := &printer{c: c, it: it, rr: rr, loops: map[*LoopNode]bool{}, leafs: map[*Event]bool{}}
			for k := range printed {
				nAttr++
				// the attribute on this path
				vals := attrVals(p, k)
				if len(vals) == 0 {
					ok := it.switchedOff(p.Facts, runOpt, k) || it.switchedOff(p.Facts, setupOpt, k) || absent(p, k)
					c.Oblige(ok, R, rr.Fn, rr.Fn.Pos(), "attribute "+k+" is looked at", "%s does not even look at the attribute %q when %s", rr.Name, k, clipStr(p.Facts.String(), 260))
					continue
				}
				good := false
				for _, v := range vals {
					typ := types.Type(partsT)
					if k == "perimeters" || k == "brim" {
						typ = wallsT
					}
					pr.msg = ""
					if pr.prints(p, v, typ) {
						good = true
						if k == "perimeters" {
							hp := &printer{c: c, it: it, rr: rr, loops: map[*LoopNode]bool{}, leafs: map[*Event]bool{}}
							if !it.emptyVal(p.Facts, v) && !hp.holes(p, v, wallsT) {
								good = false
								pr.msg = hp.msg
							}
						}
					}
				}
				good = good || it.switchedOff(p.Facts, runOpt, k) || it.switchedOff(p.Facts, setupOpt, k)
				c.Oblige(good, R, rr.Fn, rr.Fn.Pos(), "everything in "+k+" is printed", "%s", pr.msg)
			}
			if skirt {
				nAttr++
				var res *Term
				for _, nd := range p.Trace {
					if nd.Ev != nil && nd.Ev.Key == "clip.Clipper.Inset" {
						res = nd.Ev.ResAt(it.T, 0)
						if nd.Ev.Res != nil {
							res = nd.Ev.Res
						}
					}
				}
				if res == nil {
					ok := it.switchedOff(p.Facts, runOpt, "skirt") || it.T.Refuted(p.Facts, it.T.NumEq(rr.Nr, it.T.Int(0)))
					if !ok {
						// nothing to go around: each attribute the hull is made of is missing or empty
						ok = len(hulls) > 0
						for k := range hulls {
							none := absent(p, k) || it.switchedOff(p.Facts, runOpt, k)
							see := func(x *Term) bool {
								if kk, is := attrKey(strip(x)); is && kk == k && it.emptyVal(p.Facts, strip(x)) {
									none = true
								}
								// all elements of the attribute in one list
								if callKeyOf(x) == "clip.OffsetResult.ToOneDimension" && len(x.Args) > 0 && it.emptyVal(p.Facts, x) {
									if kk, is := attrKey(bare(x.Args[0])); is && kk == k {
										none = true
									}
								}
								return none
							}
							p.Facts.Each(func(a *Term, val bool) { a.Contains(see) })
							ok = ok && none
						}
					}
					c.Oblige(ok, R, rr.Fn, rr.Fn.Pos(), "skirt", "no skirt is made when %s", clipStr(p.Facts.String(), 260))
					continue
				}
				pr.msg = ""
				c.Oblige(pr.prints(p, res, insetT), R, rr.Fn, rr.Fn.Pos(), "every skirt line is printed", "%s", pr.msg)
			}
		}
		nSucc += succ
		c.Oblige(succ > 0, R, rr.Fn, rr.Fn.Pos(), "successful ways", "no successful way through %s was found", rr.Name)
	}
	if len(keys) == 0 {
		c.AtLeast(R, "renderers that print paths", nPrint, 8)
		c.AtLeast(R, "successful ways through them", nSucc, 12)
		c.AtLeast(R, "areas to print", nAttr, 12)
	}
	for _, k := range []string{"perimeters", "brim", "bottom", "top", "infill", "support", "supportInterface"} {
		if !wanted(k) {
			continue
		}
		c.Oblige(allPrinted[k], R, nil, 0, "someone prints "+k, "no renderer of the pipeline prints the attribute %q", k)
	}
	if wanted("skirt") {
		c.Oblige(skirts > 0, R, nil, 0, "someone prints the skirt", "no renderer of the pipeline prints the skirt")
	}
}

// holes: like prints, but for the holes of the parts.
func (pr *printer) holes(p *Path, v *Term, typ types.Type) bool {
	it, T := pr.it, pr.it.T
	if it.emptyVal(p.Facts, v) {
		return true
	}
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		saved := pr.msg
		all, _, why := it.elemWalk(p, v, func(b *Path, x *Term) bool { return pr.holes(b, x, sl.Elem()) })
		if all {
			pr.msg = saved
		} else if pr.msg == "" {
			pr.msg = "holes: " + why
		}
		return all
	}
	// a part: its holes
	found := T.mk(OCall, "data.LayerPart.Holes", pr.pathsT(), false, v)
	walkNodesTerms(p, func(x *Term) {
		if callKeyOf(x) == "data.LayerPart.Holes" && it.sameVal(p.Facts, x.Args[0], v) {
			found = x
		}
	})
	return pr.prints(p, found, pr.pathsT())
}

// walkNodesTerms visits all terms in the facts and event arguments below a path.
func walkNodesTerms(p *Path, f func(x *Term)) {
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		t.Contains(func(x *Term) bool {
			if !seen[x] {
				seen[x] = true
				f(x)
			}
			return false
		})
	}
	p.Facts.Each(func(a *Term, _ bool) { visit(a) })
	walkEvents(p, func(e evCtx) {
		for _, a := range e.Ev.Args {
			visit(a)
		}
		e.Facts.Each(func(a *Term, _ bool) { visit(a) })
	})
}

// attrVals: values of the attribute that are mentioned on a path.
func attrVals(p *Path, key string) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	walkNodesTerms(p, func(x *Term) {
		x = strip(x)
		if k, ok := attrKey(x); ok && k == key && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	})
	return r
}

// absent: the attribute is known to be missing.
func absent(p *Path, key string) bool {
	none := false
	p.Facts.Each(func(a *Term, val bool) {
		if !val && a.Op == OSel && isMemKey(a.Args[0].Sym, "H:") && len(a.Args) == 3 && a.Args[2].Op == OStr && a.Args[2].Sym == key && callKeyOf(a.Args[1]) == "data.PartitionedLayer.Attributes" {
			none = true
		}
	})
	return none
}

// switchedOff: the facts say that the setting that disables the feature for the whole run is set.
func (it *Interp) switchedOff(f *Facts, opt func(path string) *Term, attrs ...string) bool {
	T := it.T
	zero := func(path string) bool {
		o := opt(path)
		return o != nil && (T.Holds(f, T.NumEq(o, T.Int(0))) || T.Holds(f, T.LeT(o, T.Int(0))))
	}
	for _, a := range attrs {
		off := false
		switch a {
		case "infill":
			off = zero("Print.InfillPercent")
		case "support", "supportInterface", "fullSupport":
			o := opt("Print.Support.Enabled")
			off = o != nil && T.Refuted(f, o)
		case "brim", "outerBrim":
			off = zero("Print.BrimSkirt.BrimCount")
		case "skirt":
			off = zero("Print.BrimSkirt.SkirtCount")
		}
		if !off {
			return false
		}
	}
	return len(attrs) > 0
}

func (c *Ctx) modifyRun(pl *Pipeline, v *Term) (*Interp, *ssa.Function, []*Term, []*Path) {
	return c.stageRun(pl, v, "Modify", flatBoundary, func(it *Interp, args []*Term) {
		it.RecordStores = true
		it.Model = c.attrModel(it)
	})
}

// With keys only the modifiers that store one of these attributes are looked at.
func (c *Ctx) modifyAll(keys ...string) {
	pl := c.pipeline("C14.pipeline")
	if pl == nil {
		return
	}
	n := 0
	all := map[string]bool{}
	for _, v := range pl.Modifiers {
		if len(keys) > 0 && !c.storesAny(pl, v, keys) {
			continue
		}
		for k := range c.modifier(pl, v) {
			all[k] = true
		}
		n++
	}
	if len(keys) == 0 {
		c.AtLeast("C14.modify", "modifiers", n, 6)
		keys = []string{"perimeters", "overlapPerimeters", "bottom", "top", "infill", "support", "fullSupport", "supportInterface", "brim"}
	}
	for _, k := range keys {
		c.Oblige(all[k], "C14.modify", nil, 0, "someone computes "+k, "no modifier of the pipeline stores the attribute %q", k)
	}
}

// storesAny: the modifier stores one of the attributes, or what it stores is not known.
func (c *Ctx) storesAny(pl *Pipeline, v *Term, keys []string) bool {
	_, fn, _, ps := c.modifyRun(pl, v)
	if fn == nil {
		return true
	}
	found := false
	everyPath(ps, func(e evCtx) {
		if e.Ev.Kind != "mapset" || e.Ev.Key != attrMap {
			return
		}
		k := strip(e.Ev.Args[1])
		if k.Op != OStr {
			found = true
		}
		for _, x := range keys {
			if k.Sym == x {
				found = true
			}
		}
	})
	return found
}

// modCtx is the analysis of one modifier.
type modCtx struct {
	c      *Ctx
	it     *Interp
	fn     *ssa.Function
	name   string
	layers *Term
	n      *Term
	opt    func(path string) *Term
	keys   map[string]bool
	done   map[*LoopNode]bool
}

// modCtx runs a modifier; the paths are the successful ones.
func (c *Ctx) modCtx(R string, pl *Pipeline, v *Term) (*modCtx, []*Path) {
	it, fn, args, ps := c.modifyRun(pl, v)
	if fn == nil {
		return nil, nil
	}
	m := &modCtx{c: c, it: it, fn: fn, name: shortT(v.Typ), keys: map[string]bool{}, done: map[*LoopNode]bool{}}
	for i, a := range args {
		if i > 0 {
			if sl, ok := fn.Params[i].Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), c.W.TypeNamed("data", "PartitionedLayer")) {
				m.layers = a
			}
		}
	}
	if m.layers == nil {
		c.Undecided(R, fn, fn.Pos(), "layers", "Modify has no list of layers")
		return nil, nil
	}
	m.n = it.T.Len(m.layers)
	m.opt = func(path string) *Term { return it.optVal(pl.Opt, path) }
	var succ []*Path
	for _, p := range ps {
		if p.Kind == KReturn && len(p.Ret) == 1 && it.T.Holds(p.Facts, it.T.RefEq(p.Ret[0], it.T.Nil())) {
			succ = append(succ, p)
		}
	}
	if !c.Oblige(len(succ) > 0, R, fn, fn.Pos(), "successful ways", "no successful way through %s was found", m.name) {
		return nil, nil
	}
	return m, succ
}

func (c *Ctx) modifier(pl *Pipeline, v *Term) map[string]bool {
	const R = "C14.modify"
	m, succ := c.modCtx(R, pl, v)
	if m == nil {
		return nil
	}
	it, fn := m.it, m.fn
	// what is stored at all
	var stores func(p *Path)
	stores = func(p *Path) {
		for k := range m.stored(p) {
			m.keys[k] = true
		}
	}
	for _, p := range succ {
		stores(p)
	}
	c.Oblige(len(m.keys) > 0, R, fn, fn.Pos(), "results", "%s stores no attribute", m.name)
	loops := 0
	for _, p := range succ {
		for _, nd := range p.Trace {
			if nd.Loop != nil {
				if _, ok := m.layerCounter(nd.Loop); ok {
					loops++
				}
			}
		}
	}
	if loops == 0 {
		m.bodies(succ, 0)
		for _, p := range succ {
			m.inner(p)
		}
		return m.keys
	}
	for _, p := range succ {
		any := false
		for _, nd := range p.Trace {
			l := nd.Loop
			if l == nil {
				continue
			}
			ctr, ok := m.layerCounter(l)
			if !ok {
				m.innerLoop(p, l)
				continue
			}
			any = true
			if !m.done[l] {
				m.done[l] = true
				m.bodies(l.Bodies, l.NFact)
				for _, b := range l.Bodies {
					m.inner(b)
				}
			}
			// from the first layer to the last one
			u := m.common(l.Bodies)
			T := it.T
			S := ctr.Def.Sym
			first, last := false, false
			// the layers the first iteration needs
			var start []*Path
			for _, b := range l.Bodies {
				ok := true
				for _, d := range l.Defs {
					if d != ctr.Def && d.Init.IsNil() && T.Refuted(b.Facts, T.RefEq(d.Sym, d.Init)) {
						ok = false
					}
				}
				if ok {
					start = append(start, b)
				}
			}
			// does x go up or down with the iterations?
			has := func(x *Term) bool { return x.Contains(func(y *Term) bool { return y == S }) }
			up := func(x *Term) (up, ok bool) {
				if !has(T.Sub(x, S)) {
					return ctr.Step.IsInt(1), true
				}
				return ctr.Step.IsInt(-1), !has(T.Add(x, S))
			}
			before := T.Sub(ctr.First, ctr.Step)
			for _, x := range m.common(start) {
				u, ok := up(x)
				if !ok {
					continue
				}
				d := T.Add(T.Sub(x, S), before)
				if has(d) {
					d = T.Sub(T.Add(x, S), before)
				}
				if u {
					first = first || T.Holds(p.Facts, T.Lt(d, T.Int(0)))
				} else {
					first = first || T.Holds(p.Facts, T.LeT(m.n, d))
				}
			}
			for _, x := range u {
				u, ok := up(x)
				if !ok {
					continue
				}
				if u {
					last = last || T.Holds(p.Facts, T.LeT(m.n, x))
				} else {
					last = last || T.Holds(p.Facts, T.Lt(x, T.Int(0)))
				}
			}
			c.Oblige(first, R, fn, fn.Pos(), "from the first layer", "%s does not begin with the first layer it could treat", m.name)
			last = last || m.off(p.Facts)
			c.Oblige(last, R, fn, fn.Pos(), "to the last layer", "%s stops before the last layer when %s", m.name, clipStr(factsFrom(p.Facts, l.NFact), 260))
		}
		if !any {
			ok := m.off(p.Facts) || it.T.Holds(p.Facts, it.T.LeT(m.n, it.T.Int(0)))
			c.Oblige(ok, R, fn, fn.Pos(), "all layers", "%s treats no layer at all when %s", m.name, clipStr(p.Facts.String(), 260))
		}
	}
	return m.keys
}

// off: the feature is switched off by a setting.
func (m *modCtx) off(f *Facts, keys ...string) bool {
	if len(keys) == 0 {
		for k := range m.keys {
			keys = append(keys, k)
		}
	}
	return m.it.switchedOff(f, m.opt, keys...)
}

// layerCounter: is the loop a loop over the layers?
func (m *modCtx) layerCounter(l *LoopNode) (Counter, bool) {
	for _, ctr := range m.it.counters(l) {
		if !ctr.Step.IsInt(1) && !ctr.Step.IsInt(-1) {
			continue
		}
		for _, b := range l.Bodies {
			if len(m.stored(b)) == 0 {
				continue
			}
			for _, x := range m.indices(b) {
				if x.Contains(func(y *Term) bool { return y == ctr.Def.Sym }) {
					return ctr, true
				}
			}
		}
	}
	return Counter{}, false
}

// indices of the layers that are touched on a path (not those that depend on an inner loop).
func (m *modCtx) indices(b *Path) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	inner := map[*Term]bool{}
	allLoops(b, func(l *LoopNode, _ *Path) {
		for _, d := range l.Defs {
			inner[d.Sym] = true
		}
	})
	walkNodesTerms(b, func(x *Term) {
		bs, i, ok := elemOf(x)
		if ok && bs == m.layers && !seen[i] && !i.Contains(func(y *Term) bool { return inner[y] }) {
			seen[i] = true
			r = append(r, i)
		}
	})
	return r
}

// common: the indices touched on every path that stores something.
func (m *modCtx) common(bodies []*Path) []*Term {
	var u []*Term
	firstB := true
	for _, b := range bodies {
		if len(m.stored(b)) == 0 || m.impossible(b) {
			continue
		}
		ix := m.indices(b)
		if firstB {
			u, firstB = ix, false
			continue
		}
		in := map[*Term]bool{}
		for _, x := range ix {
			in[x] = true
		}
		var n []*Term
		for _, x := range u {
			if in[x] {
				n = append(n, x)
			}
		}
		u = n
	}
	return u
}

// stored: the attributes a path stores effectively, with their values.
func (m *modCtx) stored(b *Path) map[string][]*Term {
	r := map[string][]*Term{}
	kept := map[*Term]bool{}
	walkEvents(b, func(e evCtx) {
		if e.Ev.Kind != "store" || len(e.Ev.Args) < 2 || !strings.HasPrefix(e.Ev.Key, "E:") {
			return
		}
		if rootOf(e.Ev.Args[0]) != m.layers {
			return
		}
		e.Ev.Args[1].Contains(func(x *Term) bool { kept[x] = true; return false })
	})
	walkEvents(b, func(e evCtx) {
		if e.Ev.Kind != "mapset" || len(e.Ev.Args) < 3 || e.Ev.Args[1].Op != OStr {
			return
		}
		mp := e.Ev.Args[0]
		ok := kept[mp]
		if callKeyOf(mp) == "data.PartitionedLayer.Attributes" {
			if bs, _, isE := elemOf(mp.Args[0]); isE && bs == m.layers {
				ok = true
			}
		}
		if ok {
			r[e.Ev.Args[1].Sym] = append(r[e.Ev.Args[1].Sym], e.Ev.Args[2])
		}
	})
	return r
}

// impossible: an attribute was found in an attribute map that is nil.
func (m *modCtx) impossible(b *Path) bool {
	none := map[*Term]bool{}
	b.Facts.Each(func(a *Term, val bool) {
		if val && a.Op == OEq {
			for i := range a.Args {
				if a.Args[1-i].IsNil() && callKeyOf(a.Args[i]) == "data.PartitionedLayer.Attributes" {
					none[a.Args[i]] = true
				}
			}
		}
	})
	if len(none) == 0 {
		return false
	}
	bad := false
	b.Facts.Each(func(a *Term, val bool) {
		if val || a.Op != OEq {
			return
		}
		for i := range a.Args {
			if a.Args[1-i].IsNil() {
				if mp, _, ok := lookupOf(bare(a.Args[i])); ok {
					for x := range none {
						if m.it.sameVal(b.Facts, x, mp) {
							bad = true
						}
					}
				}
			}
		}
	})
	return bad
}

// outside: a layer that is needed does not exist.
func (m *modCtx) outside(f *Facts, u []*Term) bool {
	T := m.it.T
	for _, x := range u {
		if T.Holds(f, T.Lt(x, T.Int(0))) || T.Holds(f, T.LeT(m.n, x)) {
			return true
		}
	}
	return false
}

// bodies decides that each iteration stores everything, unless it is known to be empty.
func (m *modCtx) bodies(bodies []*Path, nfact int) {
	const R = "C14.modify"
	u := m.common(bodies)
	st := make([]map[string][]*Term, len(bodies))
	for i, b := range bodies {
		st[i] = m.stored(b)
	}
	for k := range m.keys {
		var vals []*Term
		seen := map[*Term]bool{}
		for i := range bodies {
			for _, v := range st[i][k] {
				if !seen[v] {
					seen[v] = true
					vals = append(vals, v)
				}
			}
		}
		if len(vals) == 0 {
			continue
		}
		for i, b := range bodies {
			if len(st[i][k]) > 0 {
				m.c.Oblige(true, R, m.fn, m.fn.Pos(), "the result "+k+" is stored", "")
				continue
			}
			ok := m.impossible(b) || m.outside(b.Facts, u) || m.off(b.Facts, k)
			for _, v := range vals {
				ok = ok || m.mustEmpty(b.Facts, v, nil, 0)
			}
			m.c.Oblige(ok, R, m.fn, m.fn.Pos(), "the result "+k+" is stored", "%s passes over %q of a layer when %s", m.name, k, clipStr(factsFrom(b.Facts, nfact), 300))
		}
	}
}

// mustEmpty: v has no elements, given the facts. assume: values taken to be empty.
func (m *modCtx) mustEmpty(f *Facts, v *Term, assume map[*Term]bool, depth int) bool {
	it := m.it
	if v == nil || depth > 24 {
		return false
	}
	if assume[v] || it.emptyVal(f, v) {
		return true
	}
	rec := func(x *Term) bool { return m.mustEmpty(f, x, assume, depth+1) }
	v = bare(v)
	if assume[v] {
		return true
	}
	call, i := asResult(v)
	if k := callKeyOf(call); k != "" {
		a := call.Args
		if strings.HasPrefix(k, "clip.Clipper.") && len(a) > 0 {
			a = a[1:]
		}
		if i == 0 {
			switch k {
			case "clip.Clipper.Difference", "clip.Clipper.InsetLayer", "clip.Clipper.TopLevelPolygons", "clip.OffsetResult.ToOneDimension":
				return len(a) > 0 && rec(a[0])
			case "clip.Clipper.Union":
				return len(a) > 1 && rec(a[0]) && rec(a[1])
			case "clip.Clipper.Intersection":
				return len(a) > 1 && (rec(a[0]) || rec(a[1]))
			}
		}
	}
	if v.Op == OConcat {
		for _, x := range v.Args {
			if x.Op == OLit {
				bs, _, ok := elemOf(x.Args[0])
				if !ok || !rec(bs) {
					return false
				}
				continue
			}
			if !rec(x) {
				return false
			}
		}
		return true
	}
	if bs, _, ok := elemOf(v); ok && rec(bs) {
		return true // there is no such element
	}
	d := it.LoopDefs[v]
	if d == nil || !rec(d.Init) {
		return false
	}
	as := map[*Term]bool{v: true}
	for x := range assume {
		as[x] = true
	}
	all := len(d.Latch) > 0
	for _, x := range d.Latch {
		if !m.mustEmpty(f, x, as, depth+1) {
			all = false
			break
		}
	}
	if all {
		return true
	}
	for _, x := range m.overs(d.Loop) {
		if m.mustEmpty(f, x, as, depth+1) {
			return true
		}
	}
	return false
}

// overs: the lists a loop runs over.
func (m *modCtx) overs(l *LoopNode) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, b := range l.Bodies {
		b.Facts.Each(func(a *Term, _ bool) {
			a.Contains(func(x *Term) bool {
				if x.Op == OLen && x.Args[0] != m.layers && !seen[x.Args[0]] {
					seen[x.Args[0]] = true
					if _, ok := m.it.covers(l, x); ok {
						r = append(r, x.Args[0])
					}
				}
				return false
			})
		})
	}
	return r
}

// inner decides the loops inside the treatment of a layer.
func (m *modCtx) inner(p *Path) {
	for _, nd := range p.Trace {
		if nd.Loop != nil {
			m.innerLoop(p, nd.Loop)
		}
	}
}

func (m *modCtx) innerLoop(p *Path, l *LoopNode) {
	const R = "C14.inner"
	it, T := m.it, m.it.T
	c := m.c
	// left only at the end
	var over *Term
	var cv Cover
	own := func(i *Term) bool { // the index changes in the loop
		for _, d := range l.Defs {
			if i.Contains(func(x *Term) bool { return x == d.Sym }) {
				return true
			}
		}
		return false
	}
	for _, x := range m.overs(l) {
		used := false
		for _, b := range l.Bodies {
			walkNodesTerms(b, func(y *Term) {
				if bs, i, ok := elemOf(y); ok && own(i) && it.sameVal(b.Facts, bs, x) {
					used = true
				}
			})
		}
		for _, d := range l.Defs {
			for _, y := range d.Latch {
				y.Contains(func(z *Term) bool {
					if bs, i, ok := elemOf(z); ok && own(i) && it.sameVal(p.Facts, bs, x) {
						used = true
					}
					return false
				})
			}
		}
		if used {
			over = x
			cv, _ = it.covers(l, T.Len(x))
			break
		}
	}
	what := "loop in " + l.Fn.Name()
	if over != nil {
		c.Oblige(it.exhausted(p, cv, T.Len(over)), R, l.Fn, l.Fn.Pos(), what+" over "+clipT(over)+" runs to its end", "the loop is left before all elements are treated when %s", clipStr(factsFrom(p.Facts, l.NFact), 260))
	} else if len(l.Bodies) > 0 {
		// a number of steps given by a setting: only left early if the layer needed does not exist
		ok := false
		for k := int64(1); k < 5 && !ok; k++ { // a list literal
			cv, full := it.covers(l, T.Int(k))
			ok = full && it.exhausted(p, cv, T.Int(k))
		}
		for _, ctr := range it.counters(l) {
			S := ctr.Def.Sym
			for _, b := range l.Bodies {
				b.Facts.Each(func(a *Term, val bool) {
					if ok || a.Op != OLe && a.Op != OEq {
						return
					}
					// the guard: the same condition, false, when the loop is left
					if a.Contains(func(x *Term) bool { return x == S }) && T.Refuted(p.Facts, a) == val && (T.Refuted(p.Facts, a) || T.Holds(p.Facts, a)) && m.optOnly(a, S) {
						ok = true
					}
				})
				if ok {
					break
				}
				walkNodesTerms(b, func(y *Term) {
					if bs, i, is := elemOf(y); is && bs == m.layers && i.Contains(func(x *Term) bool { return x == S }) {
						ok = ok || T.Holds(p.Facts, T.Lt(i, T.Int(0))) || T.Holds(p.Facts, T.LeT(m.n, i))
					}
				})
			}
		}
		c.Oblige(ok, R, l.Fn, l.Fn.Pos(), what+" runs to its end", "the loop is left for another reason than its bound or a layer that does not exist when %s", clipStr(factsFrom(p.Facts, l.NFact), 260))
	}
	if m.done[l] {
		return
	}
	m.done[l] = true
	for _, d := range l.Defs {
		if len(d.Latch) != len(l.Bodies) {
			continue
		}
		if _, ok := d.Sym.Typ.Underlying().(*types.Slice); !ok {
			continue
		}
		acc := false
		for _, x := range d.Latch {
			if x != d.Sym && (over != nil || m.grows(x, d.Sym, 0)) {
				acc = true
			}
		}
		if !acc {
			continue
		}
		no := m.lenInvariant(l, d)
		for k, b := range l.Bodies {
			x := d.Latch[k]
			if no[k] {
				continue
			}
			if x != d.Sym && m.grows(x, d.Sym, 0) {
				c.Oblige(true, R, l.Fn, l.Fn.Pos(), what+" collects", "")
				continue
			}
			ok := m.impossible(b) || m.off(b.Facts)
			if x == d.Sym {
				as := map[*Term]bool{d.Sym: true}
				for j, y := range d.Latch {
					if j != k && y != d.Sym && m.mustEmpty(b.Facts, y, as, 0) {
						ok = true
					}
				}
			} else {
				ok = ok || it.emptyVal(b.Facts, d.Sym)
			}
			c.Oblige(ok, R, l.Fn, l.Fn.Pos(), what+" collects", "an area is left out when %s", clipStr(factsFrom(b.Facts, l.NFact), 300))
		}
	}
	for _, b := range l.Bodies {
		m.inner(b)
	}
}

// lenInvariant: if the list always has as many elements as iterations were done, the iterations that contradict this
// do not happen.
func (m *modCtx) lenInvariant(l *LoopNode, d *LoopDef) map[int]bool {
	T := m.it.T
	for _, ctr := range m.it.counters(l) {
		if !ctr.Step.IsInt(1) {
			continue
		}
		inv := T.NumEq(T.Add(T.Sub(T.Len(d.Sym), T.Len(d.Init)), ctr.First), ctr.Def.Sym)
		no := map[int]bool{}
		ok := true
		for k, b := range l.Bodies {
			if T.Refuted(b.Facts, inv) {
				no[k] = true
				continue
			}
			if f, poss := T.Assume(b.Facts, inv, true); !poss {
				no[k] = true
			} else if !T.Holds(f, T.NumEq(T.Len(d.Latch[k]), T.Add(T.Len(d.Sym), T.Int(1)))) {
				ok = false
			}
		}
		if ok {
			return no
		}
	}
	return nil
}

// grows: x is d with something added.
func (m *modCtx) grows(x, d *Term, depth int) bool {
	if depth > 12 {
		return false
	}
	if x == d {
		return true
	}
	call, i := asResult(bare(x))
	if callKeyOf(call) == "clip.Clipper.Union" && i == 0 && len(call.Args) > 2 {
		return m.grows(call.Args[1], d, depth+1) || m.grows(call.Args[2], d, depth+1)
	}
	if x.Op == OConcat {
		for _, a := range x.Args {
			if a.Op != OLit && m.grows(a, d, depth+1) {
				return true
			}
		}
	}
	if ld := m.it.LoopDefs[x]; ld != nil && m.grows(ld.Init, d, depth+1) {
		return true
	}
	return false
}

// optOnly: apart from S only settings occur.
func (m *modCtx) optOnly(a, S *Term) bool {
	ok, any := true, false
	a.containsNot(func(x *Term) bool {
		if x.Op == OSym && x != S {
			if strings.HasPrefix(x.Sym, "~") {
				ok = false
			}
		}
		if strings.HasPrefix(optPath(x), "Print.") || strings.HasPrefix(optPath(x), "Printer.") {
			any = true
		}
		return false
	}, func(x *Term) bool { return false })
	return ok && any
}
