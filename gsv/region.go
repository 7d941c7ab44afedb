package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Areas as sets: what an expression built from clipping operations is a part of, and what it does not touch.

// areaOp decomposes a value into a clipping operation and its operands.
func areaOp(v *Term) (string, []*Term) {
	v = bare(v)
	if v == nil {
		return "", nil
	}
	call, i := asResult(v)
	k := callKeyOf(call)
	if k == "" || i != 0 {
		return "", nil
	}
	a := call.Args
	switch {
	case strings.HasPrefix(k, "clip.Clipper.") && len(a) > 1:
		return strings.TrimPrefix(k, "clip.Clipper."), a[1:]
	case k == "clip.OffsetResult.ToOneDimension" && len(a) > 0:
		return "ToOneDimension", a
	}
	return "", nil
}

// area is a named region.
type area struct {
	what  string
	is    func(f *Facts, x *Term) bool // x is this region (or contains it)
	empty func(f *Facts) bool
	t     *Term // its value, if it is a known one
}

type areas struct {
	m   *modCtx
	it  *Interp
	why string
}

func (r *areas) fail(v *Term, why string) bool {
	if r.why == "" {
		r.why = why + " " + clipT(v)
	}
	return false
}

// latches applies p to all the values of a loop variable with the facts they are computed under.
func (r *areas) latches(f *Facts, d *LoopDef, p func(f *Facts, x *Term) bool) bool {
	if !p(f, d.Init) || len(d.Latch) == 0 {
		return false
	}
	for k, x := range d.Latch {
		g := f
		if len(d.Latch) == len(d.Loop.Bodies) {
			g = d.Loop.Bodies[k].Facts
			if r.m.impossible(d.Loop.Bodies[k]) {
				continue
			}
		}
		if !p(g, x) {
			return false
		}
	}
	return true
}

// inside: v is part of a region.
func (r *areas) inside(f *Facts, v *Term, in func(f *Facts, x *Term) bool, asm map[*Term]bool, depth int) bool {
	if depth > 30 || v == nil {
		return false
	}
	if asm[v] || r.it.emptyVal(f, v) || in(f, v) {
		return true
	}
	rec := func(x *Term) bool { return r.inside(f, x, in, asm, depth+1) }
	op, a := areaOp(v)
	switch op {
	case "Difference":
		return rec(a[0])
	case "Intersection":
		return rec(a[0]) || rec(a[1])
	case "Union":
		return rec(a[0]) && rec(a[1])
	case "ToOneDimension", "TopLevelPolygons":
		return false
	}
	b := bare(v)
	if b != v && rec(b) {
		return true
	}
	if b.Op == OConcat {
		for _, x := range b.Args {
			if x.Op == OLit {
				x = x.Args[0]
			}
			if !rec(x) {
				return r.fail(x, "not inside:")
			}
		}
		return true
	}
	if d := r.it.LoopDefs[b]; d != nil {
		as := map[*Term]bool{b: true}
		for x := range asm {
			as[x] = true
		}
		return r.latches(f, d, func(g *Facts, x *Term) bool { return r.inside(g, x, in, as, depth+1) })
	}
	if bs, _, ok := elemOf(b); ok {
		return rec(bs)
	}
	return r.fail(v, "not inside:")
}

// contains: the region w lies within v.
func (r *areas) contains(f *Facts, v *Term, w *area, depth int) bool {
	if depth > 30 || v == nil {
		return false
	}
	if w.is(f, v) {
		return true
	}
	op, a := areaOp(v)
	if op == "Union" {
		return r.contains(f, a[0], w, depth+1) || r.contains(f, a[1], w, depth+1)
	}
	b := bare(v)
	if b.Op == OConcat {
		for _, x := range b.Args {
			if x.Op != OLit && r.contains(f, x, w, depth+1) {
				return true
			}
		}
	}
	if w.t != nil {
		return r.inside(f, w.t, func(g *Facts, x *Term) bool { return x == v || r.it.sameVal(g, x, v) }, nil, 0)
	}
	return false
}

// disjoint: v and the region w have nothing in common.
func (r *areas) disjoint(f *Facts, v *Term, w *area, asm map[*Term]bool, depth int) bool {
	if depth > 30 || v == nil {
		return false
	}
	if asm[v] || r.it.emptyVal(f, v) || w.empty != nil && w.empty(f) {
		return true
	}
	rec := func(x *Term) bool { return r.disjoint(f, x, w, asm, depth+1) }
	op, a := areaOp(v)
	switch op {
	case "Difference":
		if r.contains(f, a[1], w, 0) || rec(a[0]) {
			return true
		}
	case "Intersection":
		if rec(a[0]) || rec(a[1]) {
			return true
		}
	case "Union":
		if rec(a[0]) && rec(a[1]) {
			return true
		}
	}
	b := bare(v)
	if b.Op == OConcat {
		all := true
		for _, x := range b.Args {
			if x.Op == OLit {
				x = x.Args[0]
			}
			if !rec(x) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	if d := r.it.LoopDefs[b]; d != nil {
		as := map[*Term]bool{b: true}
		for x := range asm {
			as[x] = true
		}
		if r.latches(f, d, func(g *Facts, x *Term) bool { return r.disjoint(g, x, w, as, depth+1) }) {
			return true
		}
	}
	if bs, _, ok := elemOf(b); ok && rec(bs) {
		return true
	}
	// the other way round
	if w.t != nil {
		if wo, wa := areaOp(w.t); wo == "Difference" {
			if r.inside(f, v, func(g *Facts, x *Term) bool { return x == wa[1] || r.it.sameVal(g, x, wa[1]) }, nil, 0) {
				return true
			}
			w2 := r.value(wa[0])
			w2.what = w.what
			return r.disjoint(f, v, w2, asm, depth+1)
		}
	}
	return r.fail(v, "overlaps "+w.what+":")
}

// value is the region of a known value.
func (r *areas) value(t *Term) *area {
	return &area{what: clipT(t), t: t,
		is:    func(f *Facts, x *Term) bool { return x == t || r.it.sameVal(f, x, t) },
		empty: func(f *Facts) bool { return r.it.emptyVal(f, t) },
	}
}

// attrAt: x is the value of an attribute of a layer.
func (m *modCtx) attrAt(x *Term) (key string, idx *Term, ok bool) {
	mp, _, isL := lookupOf(bare(x))
	key, isA := attrKey(x)
	if !isL || !isA || key == "" {
		return "", nil, false
	}
	idx, ok = m.layerOf(mp)
	return key, idx, ok
}

// layerOf: the index of the layer an attribute map or a list of parts belongs to.
func (m *modCtx) layerOf(x *Term) (*Term, bool) {
	x = bare(x)
	k := callKeyOf(x)
	if (k == "data.PartitionedLayer.Attributes" || k == "data.PartitionedLayer.LayerParts") && len(x.Args) > 0 {
		if bs, i, ok := elemOf(x.Args[0]); ok && bs == m.layers {
			return i, true
		}
	}
	return nil, false
}

// attr is the region of an attribute of the layer idx.
func (r *areas) attr(key string, idx *Term) *area {
	m := r.m
	return &area{what: "the " + key + " of the layer",
		is: func(f *Facts, x *Term) bool {
			k, i, ok := m.attrAt(x)
			return ok && k == key && r.it.T.Holds(f, r.it.T.NumEq(i, idx))
		},
		empty: func(f *Facts) bool { return m.noAttr(f, key, idx) },
	}
}

// noAttr: the attribute of a layer is known to be absent or empty.
func (m *modCtx) noAttr(f *Facts, key string, idx *Term) bool {
	T := m.it.T
	none := false
	check := func(x *Term) {
		if none {
			return
		}
		if mp, k, ok := lookupOf(x); ok && k.Op == OStr && k.Sym == key {
			if i, ok := m.layerOf(mp); ok && T.Holds(f, T.NumEq(i, idx)) && m.it.emptyVal(f, x) {
				none = true
			}
		}
	}
	f.Each(func(a *Term, val bool) {
		if none {
			return
		}
		if !val && a.Op == OSel && isMemKey(a.Args[0].Sym, "H:"+attrMap) && len(a.Args) == 3 && a.Args[2].Op == OStr && a.Args[2].Sym == key {
			if i, ok := m.layerOf(a.Args[1]); ok && T.Holds(f, T.NumEq(i, idx)) {
				none = true
			}
		}
		a.Contains(func(x *Term) bool { check(x); return none })
	})
	return none
}

// storedAt: an attribute stored into a layer.
type attrStore struct {
	Key string
	Idx *Term // of the layer
	Val *Term
	P   *Path
	Ins ssa.Instruction
	Fn  *ssa.Function
}

// storesOf lists the attributes that end up in a layer on this path (not those in its loops).
func (m *modCtx) storesOf(b *Path) []attrStore {
	type kept struct {
		idx *Term
		mp  map[*Term]bool
	}
	var ks []kept
	for _, nd := range b.Trace {
		e := nd.Ev
		if e == nil || e.Kind != "store" || len(e.Args) < 2 || !strings.HasPrefix(e.Key, "E:") || rootOf(e.Args[0]) != m.layers {
			continue
		}
		idx := addrIdx(e.Args[0])
		if idx == nil {
			continue
		}
		k := kept{idx: idx, mp: map[*Term]bool{}}
		e.Args[1].Contains(func(x *Term) bool { k.mp[x] = true; return false })
		ks = append(ks, k)
	}
	var r []attrStore
	for _, nd := range b.Trace {
		e := nd.Ev
		if e == nil || e.Kind != "mapset" || len(e.Args) < 3 || e.Args[1].Op != OStr {
			continue
		}
		mp := e.Args[0]
		add := func(idx *Term) {
			s := attrStore{Key: e.Args[1].Sym, Idx: idx, Val: e.Args[2], P: b, Ins: e.Instr, Fn: e.Fn}
			r = append(r, s)
		}
		done := false
		for _, k := range ks {
			if k.mp[mp] {
				add(k.idx)
				done = true
			}
		}
		if i, ok := m.layerOf(mp); ok && !done {
			add(i)
		}
	}
	return r
}

// addrIdx: the index of an element address.
func addrIdx(t *Term) *Term {
	if t.Op == OAddrI && len(t.Args) == 2 {
		return t.Args[1]
	}
	return nil
}

// places lists the paths that treat one layer: the bodies of the loops over the layers, and the paths of the
// modifier itself if something is stored outside of such loops.
func (m *modCtx) places(ps []*Path) []*Path {
	var r []*Path
	seen := map[*LoopNode]bool{}
	var walk func(p *Path)
	walk = func(p *Path) {
		for _, nd := range p.Trace {
			if nd.Loop != nil && !seen[nd.Loop] {
				seen[nd.Loop] = true
				for _, b := range nd.Loop.Bodies {
					if len(m.storesOf(b)) > 0 {
						r = append(r, nd.Loop.Bodies...)
						break
					}
				}
				for _, b := range nd.Loop.Bodies {
					walk(b)
				}
			}
		}
	}
	for _, p := range ps {
		if len(m.storesOf(p)) > 0 {
			r = append(r, p)
		}
		walk(p)
	}
	return r
}

// listOfParts reports whether a type is a list of layer parts.
func (c *Ctx) isPart(t types.Type) bool {
	return types.Identical(t, c.W.TypeNamed("data", "LayerPart"))
}
