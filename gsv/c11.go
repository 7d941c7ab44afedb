package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "A layer is printed at the height at which it was sliced", checkC11)
}

func checkC11(c *Ctx) {
	c.Rule("C11.cut: every segment that is added to layer n was cut at initial layer thickness + n * layer thickness")
	c.Rule("C11.order: the slicer puts the parts of its n-th layer, and of every layer, at index n of its result")
	c.Rule("C11.print: the generator calls every renderer in order for every layer, in order, with the layer's own number, the last number, the layer of that number and initial layer thickness + n * layer thickness")
	c.Rule("C11.render: renderers print every path and move at the height they were called with")
	c.Rule("C11.layers: modifiers replace a layer only by one made from the layer of the same number")
	ci := c.cuts("C11.pipeline")
	if ci == nil {
		return
	}
	// 1. cutting
	{
		it := ci.It
		n := 0
		for _, b := range ci.Bodies {
			if b.Nr == nil || b.H[0] == nil || b.H[1] == nil || b.H[2] == nil {
				c.Undecided("C11.cut", ci.Fn, ci.Fn.Pos(), "corners and layer number", "the corners of the face or the number of the layer are not known")
				return
			}
			for _, sg := range b.Segs {
				n++
				ok := [2]bool{}
				// the height at which it is cut belongs to the layer it is added to
				nr := sg.Slot
				if nr == nil {
					nr = b.Nr
				}
				bb := *b
				bb.Z = it.T.Add(ci.Init, it.T.Mul(ci.Th, nr))
				for e := 0; e < 2; e++ {
					for i := 0; i < 3; i++ {
						for j := 0; j < 3; j++ {
							if i != j && onEdge(it, &bb, sg, e, i, j) {
								ok[e] = true
							}
						}
					}
				}
				c.Oblige(ok[0] && ok[1], "C11.cut", sg.Ev.Fn, sg.Ev.Instr.Pos(), "cut height", "a segment of layer %s is not cut at the height initial thickness + number * thickness: %s", clipT(nr), clipT(sg.X[0]))
			}
		}
		c.AtLeast("C11.anchors", "segments of layers", n, 6)
	}
	c.slicedOrder(ci)
	c.printedOrder(ci)
	c.renderHeights()
	c.layerIdentity()
}

// slicedOrder: result[i] = partition of layer i.
func (c *Ctx) slicedOrder(ci *cutInfo) {
	const R = "C11.order"
	it, T := ci.It, ci.It.T
	fn := ci.Fn
	layersOf := map[*Term]bool{}
	for _, b := range ci.Bodies {
		for _, s := range b.Segs {
			if s.SlotB != nil {
				layersOf[s.SlotB] = true
			}
		}
	}
	good := 0
	for _, p := range ci.Paths {
		if p.Kind != KReturn || len(p.Ret) != 2 || !p.Ret[1].IsNil() {
			continue
		}
		res := p.Ret[0]
		found := false
		for _, nd := range p.Trace {
			l := nd.Loop
			if l == nil {
				continue
			}
			for _, b := range l.Bodies {
				for _, e := range b.Trace {
					if e.Ev == nil || e.Ev.Kind != "elemstore" || len(e.Ev.Args) < 2 || e.Ev.Args[0].Op != OAddrI {
						continue
					}
					list, idx, v := e.Ev.Args[0].Args[0], e.Ev.Args[0].Args[1], e.Ev.Args[1]
					call, k := asResult(strip(v))
					if call == nil || k != 0 || !strings.HasSuffix(callKeyOf(call), "GenerateLayerParts") {
						continue
					}
					if list != res {
						continue
					}
					found = true
					arg := strip(call.Args[len(call.Args)-1])
					base, ai, ok := elemOf(arg)
					pos := e.Ev.Instr.Pos()
					if ok {
						c.Oblige(layersOf[base], R, e.Ev.Fn, pos, "partitioned layer", "the partitioned layer is not one of those the segments were added to: %s", clipT(arg))
						c.Oblige(T.Holds(b.Facts, T.NumEq(ai, idx)), R, e.Ev.Fn, pos, "place of the layer", "the parts of layer %s are put to index %s", clipT(ai), clipT(idx))
					} else {
						// an empty layer in place of one without segments
						empty := false
						for base := range layersOf {
							b.Facts.Each(func(a *Term, val bool) {
								a.Contains(func(x *Term) bool {
									if bs, i, ok := elemOf(x); ok && bs == base && T.Holds(b.Facts, T.NumEq(i, idx)) && T.Holds(b.Facts, T.RefEq(x, T.Nil())) {
										empty = true
									}
									return false
								})
							})
						}
						c.Oblige(arg.Op == OAlloc && empty, R, e.Ev.Fn, pos, "partitioned layer", "the partitioned layer is neither layer %s nor an empty layer in its place: %s", clipT(idx), clipT(arg))
					}
					// every layer
					var n *Term
					b.Facts.Each(func(a *Term, val bool) {
						a.Contains(func(x *Term) bool {
							if x.Op == OLen {
								if _, full := it.covers(l, x); full {
									n = x
								}
							}
							return false
						})
					})
					full := false
					for base := range layersOf {
						for _, cand := range []*Term{T.Len(base), T.Len(res), n} {
							if cand == nil {
								continue
							}
							if cv, ok := it.covers(l, cand); ok && it.exhausted(p, cv, cand) {
								same := cand == T.Len(base) || T.Holds(p.Facts, T.NumEq(cand, T.Len(base)))
								if same && T.Holds(b.Facts, T.NumEq(cv.Idx, idx)) {
									full = true
								}
							}
						}
					}
					c.Oblige(full, R, fn, pos, "every layer", "the loop that partitions the layers does not run over all of them")
				}
			}
			for _, b := range l.Bodies {
				// nothing of the result is left out
				has := false
				isPart := false
				for _, b2 := range l.Bodies {
					for _, e := range b2.Trace {
						if e.Ev != nil && e.Ev.Kind == "elemstore" && e.Ev.Args[0].Op == OAddrI && e.Ev.Args[0].Args[0] == res {
							isPart = true
							if b2 == b {
								has = true
							}
						}
					}
				}
				if isPart {
					c.Oblige(has, R, fn, l.Header.Instrs[0].Pos(), "no layer left out", "a layer is left out of the result on a path (%s)", clipStr(b.Facts.String(), 200))
				}
			}
		}
		if c.Oblige(found, R, fn, fn.Pos(), "result of the slicer", "the returned list is not filled with the partitioned layers: %s", clipT(res)) {
			good++
		}
	}
	c.AtLeast("C11.anchors", "successful ways through the slicer", good, 1)
}

// printedOrder: the generator.
func (c *Ctx) printedOrder(ci *cutInfo) {
	const R = "C11.print"
	pl := c.pipeline("C11.pipeline")
	if pl == nil {
		return
	}
	v := pl.Stage["Generator"]
	it := pl.It.child()
	it.Policy = boundary
	it.Unroll = false
	fn, recv := it.methodOf(pl.St, v, "Generate")
	if fn == nil {
		c.Undecided(R, nil, 0, "Generate", "not found")
		return
	}
	args := it.ParamSyms(fn)
	args[0] = recv
	T := it.T
	opt := c.stageOptions(pl, v)
	if opt == nil || len(args) != 2 {
		c.Undecided(R, fn, fn.Pos(), "settings of the generator", "not known")
		return
	}
	init, th := it.optTerm(pl.St, opt, "Print.InitialLayerThickness"), it.optTerm(pl.St, opt, "Print.LayerThickness")
	// the renderers are those NewGoSlice registered: keep their list opaque so that the loop over it is seen
	st := cleanState(pl.St)
	ps := c.RunFrom(it, fn, args, st, nil)
	layers := args[1]
	ln := T.Len(layers)
	calls, good := 0, 0
	isRender := func(e *Event) bool { return e.Kind == "call" && strings.HasSuffix(e.Key, ".Render") }
	var isElem = func(t *Term, n *Term, f *Facts) bool {
		b, i, ok := elemOf(t)
		return ok && b == layers && T.Holds(f, T.NumEq(i, n))
	}
	for _, p := range ps {
		if p.Kind != KReturn || len(p.Ret) != 2 || !p.Ret[1].IsNil() {
			continue
		}
		done := 0
		for _, nd := range p.Trace {
			l := nd.Loop
			if l == nil {
				continue
			}
			cv, full := it.covers(l, ln)
			any := false
			for _, b := range l.Bodies {
				walkEvents(b, func(e evCtx) {
					if isRender(e.Ev) {
						any = true
					}
				})
			}
			if !any {
				continue
			}
			pos := l.Header.Instrs[0].Pos()
			if !c.Oblige(full && !cv.Down, R, fn, pos, "every layer in order", "the loop that renders does not run over all layers, first to last") {
				continue
			}
			c.Oblige(it.exhausted(p, cv, ln), R, fn, pos, "all layers", "the loop over the layers may be left before the last layer without an error")
			done++
			for _, b := range l.Bodies {
				c.renderCalls(it, fn, b, cv, ln, init, th, opt, pl, isElem, &calls)
			}
		}
		c.Oblige(done == 1, R, fn, fn.Pos(), "loop over the layers", "%d loops over the layers call renderers on a way to success", done)
		good++
	}
	c.AtLeast("C11.anchors", "calls of renderers", calls, 1)
	c.AtLeast("C11.anchors", "successful ways through the generator", good, 1)
}

func (c *Ctx) renderCalls(it *Interp, fn *ssa.Function, b *Path, cv Cover, ln, init, th, opt *Term, pl *Pipeline, isElem func(t, n *Term, f *Facts) bool, calls *int) {
	const R = "C11.print"
	T := it.T
	want := T.Add(init, T.Mul(th, cv.Idx))
	check := func(e *Event, f *Facts) {
		*calls++
		pos := e.Instr.Pos()
		a := e.Args
		if len(a) != 7 {
			c.Undecided(R, e.Fn, pos, "call of a renderer", "unexpected number of arguments %d", len(a))
			return
		}
		c.Oblige(T.Holds(f, T.NumEq(a[2], cv.Idx)), R, e.Fn, pos, "layer number", "the number given to the renderer is %s, not that of the layer (%s)", clipT(a[2]), clipT(cv.Idx))
		c.Oblige(T.Holds(f, T.NumEq(a[3], T.Sub(ln, T.Int(1)))), R, e.Fn, pos, "last number", "the last layer number given to the renderer is %s", clipT(a[3]))
		c.Oblige(isElem(a[4], cv.Idx, f), R, e.Fn, pos, "layer", "the layer given to the renderer is %s, not the one with the number %s", clipT(a[4]), clipT(cv.Idx))
		c.Oblige(a[5] == want || T.Holds(f, T.NumEq(a[5], want)), R, e.Fn, pos, "height", "the height given to the renderer is %s, not %s", clipT(a[5]), clipT(want))
		c.Oblige(a[6] == opt, R, e.Fn, pos, "settings", "the renderer is not given the settings of the run: %s", clipT(a[6]))
	}
	seen := 0
	_ = opt
	var direct []*Event
	for _, nd := range b.Trace {
		if nd.Ev != nil && nd.Ev.Kind == "call" && strings.HasSuffix(nd.Ev.Key, ".Render") {
			direct = append(direct, nd.Ev)
			check(nd.Ev, b.Facts.Upto(nd.Ev.NFact))
		}
		if nd.Loop == nil {
			continue
		}
		l := nd.Loop
		var base *Term
		has := false
		for _, rb := range l.Bodies {
			for _, e := range rb.Trace {
				has = has || e.Ev != nil && e.Ev.Kind == "call" && strings.HasSuffix(e.Ev.Key, ".Render")
			}
		}
		for _, rb := range l.Bodies {
			one := 0
			for _, e := range rb.Trace {
				if e.Ev != nil && e.Ev.Kind == "call" && strings.HasSuffix(e.Ev.Key, ".Render") {
					one++
					check(e.Ev, rb.Facts.Upto(e.Ev.NFact))
					if bs, _, ok := elemOf(e.Ev.Args[0]); ok {
						base = bs
					}
				}
			}
			none := false // the renderer does not exist
			rb.Facts.Each(func(a *Term, val bool) {
				if val && a.Op == OEq && a.Sym == "ref" {
					for i := range a.Args {
						if bs, _, ok := elemOf(a.Args[i]); ok && a.Args[1-i].IsNil() && (base == nil || bs == base) {
							none = true
						}
					}
				}
			})
			if has && !none {
				c.Oblige(one == 1, R, fn, l.Header.Instrs[0].Pos(), "one call per renderer", "a renderer is called %d times for a layer on a path (%s)", one, clipStr(rb.Facts.String(), 150))
			}
		}
		if !has {
			continue
		}
		seen++
		pos := l.Header.Instrs[0].Pos()
		if base == nil {
			c.Undecided(R, fn, pos, "renderers", "the called renderers are not elements of a list")
			continue
		}
		n := T.Len(base)
		rcv, ok := it.covers(l, n)
		if !c.Oblige(ok && !rcv.Down && it.exhausted(b, rcv, n), R, fn, pos, "every renderer in order", "the loop over the renderers does not run over all of them, first to last") {
			continue
		}
		for _, rb := range l.Bodies {
			for _, e := range rb.Trace {
				if e.Ev != nil && e.Ev.Kind == "call" && strings.HasSuffix(e.Ev.Key, ".Render") {
					bs, i, ok := elemOf(e.Ev.Args[0])
					c.Oblige(ok && bs == base && T.Holds(rb.Facts, T.NumEq(i, rcv.Idx)), R, e.Ev.Fn, e.Ev.Instr.Pos(), "called renderer", "the called renderer is not the one of this iteration: %s", clipT(e.Ev.Args[0]))
				}
			}
		}
		// it is the list of the registered renderers
		es, known := listElems(it.listVal(b.St, base, c.W.TypeNamed("gcode", "Renderer")))
		c.Oblige(known && len(es) == len(pl.Renderers), R, fn, pos, "registered renderers", "the renderers that are called are not those registered with the generator: %s", clipT(base))
	}
	if seen == 0 && len(direct) > 0 {
		// the list was unrolled: every renderer exactly once, in order
		okAll := len(direct) == len(pl.Renderers)
		for i := 0; okAll && i < len(direct); i++ {
			okAll = strip(direct[i].Args[0]) == strip(pl.Renderers[i])
		}
		c.Oblige(okAll, R, fn, fn.Pos(), "every renderer in order", "the renderers are not called one after the other for a layer")
		return
	}
	c.Oblige(seen == 1, R, fn, fn.Pos(), "renderers of a layer", "%d loops over the renderers for a layer (%s)", seen, clipStr(b.Facts.String(), 150))
}

// renderHeights: every path a renderer prints is at the height of the layer.
func (c *Ctx) renderHeights() {
	const R = "C11.render"
	n := 0
	posT := c.W.TypeNamed("data", "MicroVec3")
	for _, rr := range c.renderRuns("C11.pipeline", moveRenderBoundary, nil) {
		it, T := rr.It, rr.It.T
		walk := func(e evCtx) {
			if e.Ev.Kind != "call" {
				return
			}
			key := e.Ev.Key
			fn, pos := e.Ev.caller()
			switch {
			case strings.HasSuffix(key, ".AddPolygon") && strings.Contains(key, "Builder"):
				n++
				// the height is the only parameter of type Micrometer
				var z *Term
				if bt := c.W.TypeNamed("gcode", "Builder"); bt != nil && c.W.Method(bt, "AddPolygon") != nil {
					for i, p := range c.W.Method(bt, "AddPolygon").Params {
						if types.Identical(p.Type(), rr.Z.Typ) && i < len(e.Ev.Args) {
							z = e.Ev.Args[i]
						}
					}
				}
				c.Oblige(z != nil && T.Holds(e.At, T.NumEq(z, rr.Z)), R, fn, pos, "height of a path in "+rr.Name, "a path is printed at %s instead of the height of the layer", clipT(z))
			case strings.HasSuffix(key, ".AddMove") || strings.HasSuffix(key, ".AddMoveSpeed"):
				n++
				z := it.invokeOn(e.Path.St, e.Ev.Args[1], posT, "Z")
				c.Oblige(z != nil && T.Holds(e.At, T.NumEq(z, rr.Z)), R, fn, pos, "height of a move in "+rr.Name, "a move ends at %s instead of the height of the layer", clipT(z))
			}
		}
		collectEvents(rr.Paths, walk)
	}
	c.AtLeast("C11.anchors", "paths and moves of renderers", n, 5)
}

// layerIdentity: a modifier keeps the layers where they are.
func (c *Ctx) layerIdentity() {
	const R = "C11.layers"
	pl := c.pipeline("C11.pipeline")
	if pl == nil {
		return
	}
	n := 0
	for _, m := range pl.Modifiers {
		r := c.initAndRun(pl, m, "Modify", func(it *Interp) { it.Policy = boundary; it.RecordStores = true }, nil)
		if r.Fn == nil || len(r.Args) != 2 {
			c.Undecided(R, nil, 0, "Modify", "no such method on a modifier")
			continue
		}
		layers, T := r.Args[1], r.It.T
		n++
		c.Count("modifiers", 1)
		collectEvents(r.Paths, func(e evCtx) {
			ev := e.Ev
			if (ev.Kind == "store" || ev.Kind == "elemstore") && strings.HasPrefix(ev.Key, "E:data.PartitionedLayer") && ev.Args[0].Op == OAddrI && ev.Args[0].Args[0] == layers {
				parts := c.layerMethod(r, e, ev.Args[1], "LayerParts")
				ok := false
				if parts != nil && callKeyOf(parts) == "data.PartitionedLayer.LayerParts" {
					if b, i, isE := elemOf(parts.Args[0]); isE && b == layers && T.Holds(e.At, T.NumEq(i, ev.Args[0].Args[1])) {
						ok = true
					}
				}
				c.Oblige(ok, R, ev.Fn, ev.Instr.Pos(), "replaced layer", "layer %s is replaced by one that is not made from it: %s", clipT(ev.Args[0].Args[1]), clipT(parts))
			}
		})
	}
	c.AtLeast("C11.anchors", "modifiers", n, 6)
}

var _ = token.NoPos
