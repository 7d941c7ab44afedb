package main

import (
	"math"
	"math/big"
)

func init() {
	register("C24", "Support is generated below every overhang and its top is the interface", checkC24)
}

func checkC24(c *Ctx) {
	c.Rule("C24.detect: what the detector stores for the layer i-TopGapLayers is LayerParts(layer i+1) without the flattened LayerParts(layer i) that were enlarged by LayerThickness*tan(ThresholdAngle*pi/180), up to rounding to micrometres; it may be enlarged further by a positive multiple of a setting, but nothing is removed from it")
	c.Rule("C24.full: the full support stored for a layer is the union of the full support of the layer above (the value the round before stored, or the attribute of that layer; nothing as long as there is none) and of the support the detector stored for the layer itself, without exactly the parts of that layer grown by the gap; the value handed to the next round is the one stored, or both are empty; the layers are treated from the second one from the top downwards")
	c.Rule("C24.interface: the interface is what the full support of the layer InterfaceLayers further up (or of the topmost one) does not cover of the full support of the layer, nothing if InterfaceLayers is 0; the normal support is the full support without the interface; from both only the outer brim of the layer is removed besides; the raw areas are replaced by nothing only if nothing is left")
	c.Rule("C24.off: support attributes are stored only if support is enabled")
	c.Rule("C24.clip: the clipping operations do what they say (C16.points, C16.tree, C16.inset, C16.ops), flattening keeps every part (C14.flat); every layer is treated and what is not empty is stored and printed (C14.modify, C14.render); every raw area is replaced (C15.replace); attributes are read only by later steps (C24.once), steps run in order (C04.order), a changed layer keeps its parts (C04.keep)")
	pl := c.pipeline("C24.pipeline")
	if pl == nil {
		return
	}
	c.processOrder()
	for _, v := range pl.Modifiers {
		r := c.initAndRun(pl, v, "Modify", func(it *Interp) {
			it.Policy = renderBoundary
			it.RecordStores = true
			it.RecordLookups = true
		}, nil)
		if len(r.Paths) > 0 {
			c.keepLayer(r)
		}
	}
	c.modifyAll("support", "fullSupport", "supportInterface")
	c.renderAll("support", "supportInterface")
	c.flattens()
	if k := c.clipping("C24.clip"); k != nil {
		k.points()
		k.trees()
		k.insets()
		k.ops()
	}
	c.readLater(pl, "C24.once")
	c.outerBrim(pl, "C24.brim")
	var det, gen *modCtx
	var detP, genP, genR []*Path
	for _, v := range pl.Modifiers {
		m, ps := c.modCtx("C24.run", pl, v)
		if m == nil {
			continue
		}
		places := m.places(ps)
		keys := map[string]bool{}
		for _, b := range places {
			for _, s := range m.storesOf(b) {
				keys[s.Key] = true
				switch s.Key {
				case "support", "fullSupport", "supportInterface":
					c.Oblige(m.it.T.Holds(b.Facts, m.opt("Print.Support.Enabled")), "C24.off", s.Fn, s.Ins.Pos(), s.Key+" if enabled", "%s stores %q when %s", m.name, s.Key, clipStr(b.Facts.String(), 200))
				}
			}
		}
		switch {
		case keys["fullSupport"] || keys["supportInterface"]:
			c.Oblige(gen == nil, "C24.once", m.fn, m.fn.Pos(), "one generator", "%s is a second generator of support", m.name)
			gen, genP, genR = m, places, ps
		case keys["support"]:
			c.Oblige(det == nil && gen == nil, "C24.once", m.fn, m.fn.Pos(), "one detector", "%s is a second detector of support", m.name)
			det, detP = m, places
		}
	}
	if !c.Oblige(det != nil && gen != nil, "C24.run", nil, 0, "detector and generator", "not found") {
		return
	}
	c.replaced(det, detP, gen, genP)
	n := 0
	for _, b := range detP {
		for _, s := range det.storesOf(b) {
			if s.Key == "support" {
				n++
				why := det.overhang(b, s)
				c.Oblige(why == "", "C24.detect", s.Fn, s.Ins.Pos(), "what needs support", "%s: %s", det.name, why)
			}
		}
	}
	c.AtLeast("C24.detect", "stores of the detector", n, 1)
	c.grownDown(gen, genR, genP)
}

// overhang decides what the detector stores.
func (m *modCtx) overhang(b *Path, s attrStore) string {
	it, T := m.it, m.it.T
	v := bare(s.Val)
	for {
		op, a := areaOp(v)
		if op == "ToOneDimension" {
			op, a = areaOp(a[0])
		}
		if op == "Difference" {
			v = bare(v)
			break
		}
		if op == "Inset" || op != "InsetLayer" || len(a) < 4 {
			return "not the difference of two layers: " + clipT(v)
		}
		if !isOneOrMore(T, b.Facts, a[2]) {
			return "the support is enlarged by no inset"
		}
		if !positive(T, a[3]) {
			return "the support may be made smaller: by " + clipT(a[3])
		}
		v = a[0]
	}
	_, a := areaOp(v)
	parts := func(x *Term) (*Term, bool) {
		x = bare(x)
		if callKeyOf(x) != "data.PartitionedLayer.LayerParts" {
			g := &gather{it: it}
			its, ok := g.list(b, x, nil, nil)
			if !ok || len(its) != 1 || its[0].over == nil || its[0].s != "each("+g.text(b, its[0].over, nil)+")" {
				return nil, false
			}
			x = bare(its[0].over)
			if callKeyOf(x) != "data.PartitionedLayer.LayerParts" {
				return nil, false
			}
		}
		return m.layerOf(x)
	}
	up, ok := parts(a[0])
	if !ok {
		return "not the parts of a layer are compared: " + clipT(a[0])
	}
	op, g := areaOp(a[1])
	if op == "ToOneDimension" {
		op, g = areaOp(g[0])
	}
	if op != "InsetLayer" || len(g) < 4 || !isOneOrMore(T, b.Facts, g[2]) {
		return "the layer below is not enlarged: " + clipT(a[1])
	}
	low, ok := parts(g[0])
	if !ok {
		return "not a layer is enlarged: " + clipT(g[0])
	}
	if !T.Holds(b.Facts, T.NumEq(up, T.Add(low, T.Int(1)))) {
		return "layer " + clipT(up) + " is compared with layer " + clipT(low)
	}
	if !T.Holds(b.Facts, T.NumEq(s.Idx, T.Sub(low, m.opt("Print.Support.TopGapLayers")))) {
		return "what sticks out of layer " + clipT(low) + " is stored for layer " + clipT(s.Idx)
	}
	if !m.isDistance(g[3]) {
		return "the layer below is enlarged by " + clipT(g[3])
	}
	return ""
}

// isDistance: layer thickness * tan(threshold angle)
func (m *modCtx) isDistance(x *Term) bool {
	T := m.it.T
	x = unroundAll(T, x)
	h := m.opt("Print.LayerThickness")
	found := false
	x.Contains(func(y *Term) bool {
		if y.Op == OFn && y.Sym == "math.Tan" && len(y.Args) == 1 && x == T.Mul(h, y) {
			co, ms, ok := T.ratio(y.Args[0])
			if ok && len(ms) == 1 {
				f, _ := co.Float64()
				for a, e := range ms {
					if e == 1 && a == m.opt("Print.Support.ThresholdAngle") && math.Abs(f-math.Pi/180) < 1e-9 {
						found = true
					}
				}
			}
		}
		return false
	})
	return found
}

// positive: a positive multiple of settings.
func positive(T *Terms, t *Term) bool {
	co := new(big.Rat).SetInt64(1)
	for i := 0; i < 5; i++ {
		c, ms, ok := T.ratio(t)
		if !ok {
			return false
		}
		co.Mul(co, c)
		if len(ms) == 0 {
			return co.Sign() > 0
		}
		if len(ms) != 1 {
			return co.Sign() > 0 && optOnlyMono(ms)
		}
		for x, e := range ms {
			if e != 1 {
				return false
			}
			if x.Op == OFn && x.Sym == "quo" && len(x.Args) == 2 {
				d, ok := x.Args[1].ConstNum()
				if !ok || d.Sign() == 0 {
					return false
				}
				co.Quo(co, d)
				t = x.Args[0]
			} else if u := unround(x); u != x {
				t = u
			} else {
				return co.Sign() > 0 && optPath(x) != ""
			}
		}
	}
	return false
}

func optOnlyMono(ms map[*Term]int) bool {
	for x := range ms {
		if optPath(x) == "" {
			return false
		}
	}
	return true
}

// gen is the analysis of the generator in one round.
type supGen struct {
	c   *Ctx
	m   *modCtx
	it  *Interp
	b   *Path
	idx *Term    // the layer that gets support
	d   *LoopDef // what the round before left
	why string
}

func (g *supGen) say(why string) bool {
	if g.why == "" {
		g.why = why
	}
	return false
}

// attrIs: x is an attribute of a layer.
func (g *supGen) attrIs(x *Term, key string, idx *Term) bool {
	k, i, ok := g.m.attrAt(x)
	return ok && k == key && g.it.T.Holds(g.b.Facts, g.it.T.NumEq(i, idx))
}

// above: x is everything supported in the layer above.
func (g *supGen) above(x *Term) bool {
	T := g.it.T
	up := T.Add(g.idx, T.Int(1))
	none := g.d == nil || g.it.emptyVal(g.b.Facts, g.d.Sym)
	if g.d != nil && bare(x) == g.d.Sym || g.attrIs(x, "fullSupport", up) {
		return true
	}
	if g.d != nil && none && (g.attrIs(x, "support", up) || g.it.emptyVal(g.b.Facts, x)) {
		return true
	}
	return g.d == nil && g.it.emptyVal(g.b.Facts, x) && g.m.noAttr(g.b.Facts, "fullSupport", up)
}

// isFull: x is the full support of the layer.
func (g *supGen) isFull(x *Term) bool {
	b := g.b
	r := &areas{m: g.m, it: g.it}
	w := r.grown(g.idx)
	op, a := areaOp(x)
	if op != "Difference" {
		return g.say("the model is not removed: " + clipT(x))
	}
	if !w.is(b.Facts, a[1]) {
		return g.say("not just the model with the gap is removed but " + clipT(a[1]))
	}
	u := &unions{m: g.m, it: g.it}
	xs, ok := u.tree(b, a[0], nil, 0)
	if !ok {
		return g.say("cannot follow what the support is made of: " + u.why)
	}
	up, own := false, false
	for _, y := range xs {
		switch {
		case y.loop != nil || y.one:
			return g.say("cannot follow what the support is made of: " + clipT(a[0]))
		case g.attrIs(y.leaf, "support", g.idx):
			own = true
		case g.above(y.leaf):
			up = true
		default:
			return g.say("something else becomes support: " + clipT(y.leaf))
		}
	}
	if !own && !g.m.noAttr(b.Facts, "support", g.idx) {
		return g.say("what starts in the layer is missing")
	}
	if !up && !g.noneAbove() {
		return g.say("the support of the layer above is missing")
	}
	return true
}

// noneAbove: nothing is supported in the layer above.
func (g *supGen) noneAbove() bool {
	T := g.it.T
	if g.d != nil && g.it.emptyVal(g.b.Facts, g.d.Sym) {
		return true
	}
	return g.m.noAttr(g.b.Facts, "fullSupport", T.Add(g.idx, T.Int(1)))
}

// lessBrim removes the subtraction of the outer brim.
func (g *supGen) lessBrim(x *Term) *Term {
	for {
		op, a := areaOp(x)
		if op != "Difference" || !g.attrIs(a[1], "outerBrim", g.idx) {
			return bare(x)
		}
		x = a[0]
	}
}

// isInterface: x is the part of the full support F that is interface.
func (g *supGen) isInterface(x, F *Term) bool {
	T, f := g.it.T, g.b.Facts
	N := g.m.opt("Print.Support.InterfaceLayers")
	zero := T.Holds(f, T.NumEq(N, T.Int(0)))
	x = g.lessBrim(x)
	if zero && g.it.emptyVal(f, x) {
		return true
	}
	op, a := areaOp(x)
	if op != "Difference" || bare(a[0]) != F {
		return g.say("the interface is not taken from the full support: " + clipT(x))
	}
	if bare(a[1]) == F {
		if zero {
			return true
		}
		return g.say("there is no interface")
	}
	if zero || !T.Refuted(f, T.NumEq(N, T.Int(0))) {
		return g.say("there is interface without any interface layers")
	}
	key, i, ok := g.m.attrAt(a[1])
	if !ok || key != "fullSupport" {
		return g.say("not the full support of another layer is removed: " + clipT(a[1]))
	}
	want := T.Add(g.idx, N)
	top := T.Sub(g.m.n, T.Int(1))
	if T.Holds(f, T.NumEq(i, want)) || T.Holds(f, T.NumEq(i, top)) && T.Holds(f, T.LeT(top, want)) {
		return true
	}
	return g.say("the support of layer " + clipT(i) + " is removed")
}

// isNormal: x is the rest.
func (g *supGen) isNormal(x, F *Term) bool {
	T, f := g.it.T, g.b.Facts
	x = g.lessBrim(x)
	if x == F {
		if T.Holds(f, T.NumEq(g.m.opt("Print.Support.InterfaceLayers"), T.Int(0))) {
			return true
		}
		return g.say("the interface is not removed")
	}
	op, a := areaOp(x)
	if op != "Difference" || bare(a[0]) != F {
		return g.say("not the full support without the interface: " + clipT(x))
	}
	return g.isInterface(a[1], F)
}

func (c *Ctx) grownDown(m *modCtx, roots, places []*Path) {
	const R, RI = "C24.full", "C24.interface"
	T := m.it.T
	n := map[string]int{}
	type at struct {
		l *LoopNode
		k int
	}
	of := map[*Path]at{}
	loops := map[*LoopNode]bool{}
	var find func(p *Path)
	find = func(p *Path) {
		for _, nd := range p.Trace {
			if nd.Loop != nil {
				for k, b := range nd.Loop.Bodies {
					of[b] = at{nd.Loop, k}
					find(b)
				}
			}
		}
	}
	for _, p := range roots {
		find(p)
	}
	for _, b := range places {
		x, ok := of[b]
		if !ok {
			if len(m.storesOf(b)) > 0 {
				c.Oblige(false, R, m.fn, m.fn.Pos(), "loop over the layers", "%s stores support outside of a loop over the layers", m.name)
			}
			continue
		}
		loops[x.l] = true
		var idx *Term
		var full, iface, normal []attrStore
		for _, s := range m.storesOf(b) {
			switch s.Key {
			case "fullSupport":
				full = append(full, s)
			case "supportInterface":
				iface = append(iface, s)
			case "support":
				normal = append(normal, s)
			default:
				continue
			}
			if idx == nil {
				idx = s.Idx
			}
			c.Oblige(T.Holds(b.Facts, T.NumEq(idx, s.Idx)), R, s.Fn, s.Ins.Pos(), "one layer", "%s stores support for different layers in one round", m.name)
		}
		if idx == nil {
			idx = m.roundIdx(x.l)
		}
		if idx == nil {
			continue
		}
		g := &supGen{c: c, m: m, it: m.it, b: b, idx: idx}
		g.d = m.carried(x.l)
		// what else was computed
		var F *Term
		if len(full) > 0 {
			F = bare(full[len(full)-1].Val)
			n["full"]++
			ok := g.isFull(F)
			c.Oblige(ok, R, full[0].Fn, full[0].Ins.Pos(), "full support", "%s: %s when %s", m.name, g.why, clipStr(factsFrom(b.Facts, x.l.NFact), 260))
		} else {
			// a value that is known to be empty
			var cand *Term
			m.known(b, func(y *Term) {
				if cand == nil && m.it.emptyVal(b.Facts, y) && g.isFull(y) {
					cand = y
				}
			})
			F = cand
			none := cand != nil || m.noAttr(b.Facts, "support", idx) && g.noneAbove() || m.outside(b.Facts, []*Term{idx}) || m.off(b.Facts) || m.impossible(b)
			c.Oblige(none, R, m.fn, m.fn.Pos(), "full support", "%s stores no full support when %s", m.name, clipStr(factsFrom(b.Facts, x.l.NFact), 300))
		}
		// the next round
		if d := g.d; d != nil {
			y := bare(d.Latch[x.k])
			ok := F != nil && y == F || y == d.Sym && m.it.emptyVal(b.Facts, d.Sym) && (F != nil && len(full) == 0 || len(full) == 0) || len(full) == 0 && m.it.emptyVal(b.Facts, y)
			c.Oblige(ok, R, m.fn, m.fn.Pos(), "handed down", "%s goes on with %s when %s", m.name, clipT(y), clipStr(factsFrom(b.Facts, x.l.NFact), 260))
		}
		when := clipStr(factsFrom(b.Facts, x.l.NFact), 260)
		for _, s := range iface {
			n["iface"]++
			g.why = ""
			c.Oblige(F != nil && g.isInterface(s.Val, F), RI, s.Fn, s.Ins.Pos(), "interface", "%s: %s when %s", m.name, g.why, when)
		}
		if len(iface) == 0 && len(full) > 0 {
			ok := false
			m.known(b, func(y *Term) {
				if !ok && m.it.emptyVal(b.Facts, y) && g.isInterface(y, F) {
					ok = true
				}
			})
			ok = ok || T.Holds(b.Facts, T.NumEq(m.opt("Print.Support.InterfaceLayers"), T.Int(0)))
			c.Oblige(ok, RI, full[0].Fn, full[0].Ins.Pos(), "no interface", "%s stores no interface when %s", m.name, when)
		}
		for _, s := range normal {
			n["normal"]++
			g.why = ""
			ok := false
			if m.it.emptyVal(b.Facts, s.Val) || isEmptyLit(m.literal(b, s.Val)) {
				ok = F != nil && len(full) == 0 || len(full) == 0 && m.noAttr(b.Facts, "support", idx) && g.noneAbove()
				m.known(b, func(y *Term) {
					if !ok && F != nil && m.it.emptyVal(b.Facts, y) && g.isNormal(y, F) {
						ok = true
					}
				})
				g.why = "the support is dropped"
			} else {
				ok = F != nil && g.isNormal(s.Val, F)
			}
			c.Oblige(ok, RI, s.Fn, s.Ins.Pos(), "normal support", "%s: %s when %s", m.name, g.why, when)
		}
		if len(normal) == 0 && len(full) > 0 {
			c.Oblige(false, RI, full[0].Fn, full[0].Ins.Pos(), "normal support", "%s stores no support when %s", m.name, when)
		}
	}
	for _, k := range []string{"full", "iface", "normal"} {
		c.AtLeast(R, "stores of the generator ("+k+")", n[k], 1)
	}
	for l := range loops {
		idx := m.roundIdx(l)
		ok := false
		for _, ct := range m.it.counters(l) {
			if idx != nil && ct.Step.IsInt(-1) && !T.Sub(idx, ct.Def.Sym).Contains(func(x *Term) bool { return x == ct.Def.Sym }) {
				ok = T.Add(T.Sub(idx, ct.Def.Sym), ct.First) == T.Sub(m.n, T.Int(2))
			} else if idx != nil && ct.Step.IsInt(1) && !T.Add(idx, ct.Def.Sym).Contains(func(x *Term) bool { return x == ct.Def.Sym }) {
				// counted upwards, used downwards
				ok = T.Sub(T.Add(idx, ct.Def.Sym), ct.First) == T.Sub(m.n, T.Int(2))
			}
			if ok {
				break
			}
		}
		c.Oblige(ok, R, l.Fn, l.Fn.Pos(), "downwards", "%s does not treat the layers from the second one from the top downwards", m.name)
	}
}

func isEmptyLit(x *Term) bool { es, ok := listElems(x); return ok && len(es) == 0 }

// known visits the results of clipping operations on a path.
func (m *modCtx) known(b *Path, f func(y *Term)) {
	seen := map[*Term]bool{}
	visit := func(y *Term) {
		if op, _ := areaOp(y); op != "" && !seen[bare(y)] {
			seen[bare(y)] = true
			f(bare(y))
		}
	}
	walkEvents(b, func(e evCtx) {
		if e.Ev.Kind == "call" {
			if v := e.Ev.ResAt(m.it.T, 0); v != nil {
				visit(v)
			}
		}
	})
	b.Facts.Each(func(a *Term, _ bool) {
		a.Contains(func(x *Term) bool { visit(x); return false })
	})
}

// roundIdx: the layer the rounds of a loop store support for.
func (m *modCtx) roundIdx(l *LoopNode) *Term {
	for _, b := range l.Bodies {
		for _, s := range m.storesOf(b) {
			return s.Idx
		}
	}
	return nil
}

// carried: the variable that hands the full support to the next round.
func (m *modCtx) carried(l *LoopNode) *LoopDef {
	for _, d := range l.Defs {
		if len(d.Latch) != len(l.Bodies) || !m.it.emptyVal(l.Facts, d.Init) {
			continue
		}
		for k, b := range l.Bodies {
			for _, s := range m.storesOf(b) {
				if s.Key == "fullSupport" && bare(d.Latch[k]) == bare(s.Val) {
					return d
				}
			}
		}
	}
	return nil
}
