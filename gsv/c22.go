package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "Only closed contours are printed and each cut segment is used once", checkC22)
}

// contours is the analysis of how the contours of a layer are put together.
type contours struct {
	c     *Ctx
	it    *Interp
	body  *Path
	paths []*Path
	parts map[*Path]bool // iterations that partition a layer
	segT  types.Type
	pt    [2]int
	flag  int
	meld  *Term // settings
	join  *Term
	fin   *Term
	why   string
}

func pointOps(ci *CallInfo) Action {
	if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && strings.HasSuffix(strings.ToLower(strings.TrimSuffix(ci.Key, "."+ci.Fn.Name())), ".micropoint") ||
		ci.Iface != nil && strings.HasPrefix(ci.Key, "data.MicroPoint.") {
		switch ci.Key[strings.LastIndexByte(ci.Key, '.')+1:] {
		case "Sub", "ShorterThanOrEqual", "Size", "Size2", "Add":
			return APure
		}
	}
	return boundary(ci)
}

func checkC22(c *Ctx) {
	c.Rule("C22.closed: every contour a layer is given to be partitioned was marked as closed, or its ends lie within the configured finish distance")
	c.Rule("C22.mark: a contour is marked as closed only if the end of the last segment of its chain lies within the configured melding distance of its first point, or if its ends lie within the configured join distance (finish distance after joining is over)")
	c.Rule("C22.join: open contours are joined only if the end of the one lies within the configured join distance of the start of the other one, both are open, and the second one is removed")
	c.Rule("C22.once: a contour starts with a segment that is not used yet, goes on with segments that are not used yet, and each of its segments is marked as used before the next one is looked for; segments are new and unused when they are cut, a mark is never taken back, and each contour is taken over once")
	c.Rule("C22.index: the segment a face is linked to is the one that was cut from the face")
	c.Rule("C22.dist: a distance is within a limit only if its square is at most the square of the limit; ends are the first and the last point")
	const R = "C22.run"
	pl := c.pipeline(R)
	if pl == nil {
		return
	}
	v := pl.Stage["Slicer"]
	if v == nil {
		c.Undecided(R, nil, 0, "slicer", "not found")
		return
	}
	c.processOrder()
	c.slicedOrder(c.cuts(R))
	r := c.initAndRun(pl, v, "Slice", func(it *Interp) {
		it.Policy = pointOps
		it.RecordStores = true
		it.RecordAllocs = true
	}, nil)
	opt := c.stageOptions(pl, v)
	if r.Fn == nil || opt == nil {
		c.Undecided(R, nil, 0, "slicer", "settings or Slice not found")
		return
	}
	k := &contours{c: c, it: r.It, paths: r.Paths}
	k.meld = r.It.optTerm(pl.St, opt, "Slicing.MeldDistance")
	k.join = r.It.optTerm(pl.St, opt, "Slicing.JoinPolygonSnapDistance")
	k.fin = r.It.optTerm(pl.St, opt, "Slicing.FinishPolygonSnapDistance")
	if k.meld == nil || k.join == nil || k.fin == nil {
		c.Undecided(R, nil, 0, "distances", "option not found")
		return
	}
	if !k.segment(pl.It) {
		c.Undecided(R, r.Fn, r.Fn.Pos(), "segments", "the type of the cut segments is not known")
		return
	}
	k.isWithin()
	n := 0
	k.parts = map[*Path]bool{}
	everyPath(r.Paths, func(e evCtx) {
		if e.Ev.Kind == "call" && e.Ev.Key == "clip.Clipper.GenerateLayerParts" {
			k.parts[e.Path] = true
		}
	})
	seen := map[*Path]bool{}
	everyPath(r.Paths, func(e evCtx) {
		if e.Ev.Kind != "call" || e.Ev.Key != "clip.Clipper.GenerateLayerParts" || seen[e.Path] {
			return
		}
		seen[e.Path] = true
		n++
		k.body = e.Path
		lay := e.Ev.Args[len(e.Ev.Args)-1]
		L := k.it.invokeOn(e.Path.St, lay, nil, "Polygons")
		if c.Oblige(L != nil, R, r.Fn, e.Ev.Instr.Pos(), "contours of the layer", "cannot follow what is partitioned") {
			k.layer(r, L)
		}
	})
	c.AtLeast(R, "layers that are partitioned", n, 1)
	k.cutOnce(r)
}

// segment finds the type of the segments: two points and a mark.
func (k *contours) segment(*Interp) bool {
	ptT := k.c.W.TypeNamed("data", "MicroPoint")
	var r []types.Type
	for _, p := range k.c.W.Repo {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			s := structOf(tn.Type())
			if s == nil {
				continue
			}
			var pts, flags []int
			for i := 0; i < s.NumFields(); i++ {
				switch {
				case types.Identical(s.Field(i).Type(), ptT):
					pts = append(pts, i)
				case types.Identical(s.Field(i).Type(), types.Typ[types.Bool]):
					flags = append(flags, i)
				}
			}
			if len(pts) == 2 && len(flags) == 1 {
				r = append(r, tn.Type())
				k.pt = [2]int{pts[0], pts[1]}
				k.flag = flags[0]
			}
		}
	}
	if len(r) != 1 {
		return false
	}
	k.segT = r[0]
	return true
}

func (k *contours) fieldName(i int) string { return structOf(k.segT).Field(i).Name() }

// segField: t is field f of an element of a list: the list and the index.
func (k *contours) segField(t *Term, f int) (list, idx *Term, ok bool) {
	t = strip(t)
	if t == nil {
		return
	}
	name := k.fieldName(f)
	var o *Term
	switch {
	case t.Op == OField && t.Sym == name:
		o = t.Args[0]
	case t.Op == OSel && len(t.Args) == 2 && isMemKey(t.Args[0].Sym, "F:"):
		sym := strings.TrimPrefix(t.Args[0].Sym, "mem~")
		if i := strings.IndexByte(sym, '@'); i >= 0 {
			sym = sym[:i]
		}
		if strings.HasSuffix(sym, "."+name) {
			o = t.Args[1]
		}
	case t.Op == OAddrF && t.Sym == name:
		o = t.Args[0]
	}
	if o == nil {
		return
	}
	return elemOf(o)
}

// same: the values are equal, given the facts.
func (k *contours) same(f *Facts, x, y *Term) bool {
	x, y = strip(x), strip(y)
	if x == y {
		return true
	}
	if x == nil || y == nil {
		return false
	}
	if isNumTermOrTyp(x) && isNumTermOrTyp(y) {
		return k.it.T.Holds(f, k.it.T.NumEq(x, y))
	}
	if x.Op != y.Op || x.Sym != y.Sym || len(x.Args) != len(y.Args) || len(x.Args) == 0 {
		return false
	}
	for i := range x.Args {
		if !k.same(f, x.Args[i], y.Args[i]) {
			return false
		}
	}
	return true
}

// near: the facts say that a and b are at most d apart.
func (k *contours) near(f *Facts, d *Term, is func(a, b *Term) bool) bool {
	T := k.it.T
	found := false
	diff := func(x *Term) {
		x = strip(x)
		if found || !strings.HasSuffix(callKeyOf(x), ".Sub") || len(x.Args) != 2 {
			return
		}
		if is(strip(x.Args[0]), strip(x.Args[1])) || is(strip(x.Args[1]), strip(x.Args[0])) {
			found = true
		}
	}
	f.Each(func(a *Term, val bool) {
		if val && strings.HasSuffix(callKeyOf(a), ".ShorterThanOrEqual") && len(a.Args) == 2 && (T.Holds(f, T.LeT(a.Args[1], d)) || isOpt(a.Args[1], optPath(d))) {
			diff(a.Args[0])
		}
		a.Contains(func(x *Term) bool {
			if !found && strings.HasSuffix(callKeyOf(x), ".Size") && len(x.Args) == 1 && T.Holds(f, T.LeT(x, d)) {
				diff(x.Args[0])
			}
			return false
		})
	})
	return found
}

// onlyIf: the value v is true only if cond holds at that time; fixed are the terms cond speaks about.
func (k *contours) onlyIf(f *Facts, v *Term, fixed []*Term, cond func(f *Facts) bool, depth int) bool {
	T := k.it.T
	if T.Refuted(f, v) {
		return true
	}
	if d := k.it.LoopDefs[v]; d != nil && depth < 6 {
		for _, e := range d.Loop.Defs {
			for _, x := range fixed {
				if x.Contains(func(y *Term) bool { return y == e.Sym }) {
					k.why = "is true because of an earlier point"
					return false
				}
			}
		}
		if !k.onlyIf(d.Loop.Facts, d.Init, fixed, cond, depth+1) {
			return false
		}
		for i, b := range d.Loop.Bodies {
			if d.Latch[i] != d.Sym && !T.Holds(b.Facts, d.Sym) && !k.onlyIf(b.Facts, d.Latch[i], fixed, cond, depth+1) {
				return false
			}
		}
		return true
	}
	g, ok := T.Assume(f, v, true)
	if !ok {
		return true
	}
	if !cond(g) {
		k.why = "is true when " + clipStr(factsFrom(f, f.Len()-4), 300)
		return false
	}
	return true
}

// only the last nodes: nodes of a path before the event.
func nodesBefore(p *Path, ev *Event) []Node {
	for i, nd := range p.Trace {
		if nd.Ev == ev {
			return p.Trace[:i]
		}
	}
	return p.Trace
}

// version is the content of an element of a list of lists on a path.
type version struct {
	k      *contours
	f      *Facts
	P, idx *Term
	cur    *Term          // what was stored, nil: as it was
	alias  map[*Term]bool // the same content
	writes map[int]bool   // writes to other elements afterwards
}

// is: x is the content.
func (v *version) is(x *Term) bool {
	x = strip(x)
	if x == v.cur && x != nil || v.alias[x] {
		return true
	}
	p, i, ok := elemOf(x)
	if !ok || !v.k.same(v.f, p, v.P) || !v.k.same(v.f, i, v.idx) {
		return false
	}
	if v.cur == nil {
		return true
	}
	if x.Op == OSel {
		sym := x.Args[0].Sym
		if i := strings.LastIndex(sym, "@w"); i >= 0 {
			n, err := strconv.Atoi(sym[i+2:])
			return err == nil && v.writes[n]
		}
	}
	return false
}

// ends recognises the first and last point of a version of a contour (nil: any).
func (k *contours) ends(f *Facts, P, idx *Term, v *version) func(a, b *Term) bool {
	T := k.it.T
	if v == nil {
		v = &version{k: k, f: f, P: P, idx: idx}
	}
	return func(a, b *Term) bool {
		xa, ia, ok1 := elemOf(a)
		xb, ib, ok2 := elemOf(b)
		return ok1 && ok2 && xa == xb && v.is(xa) && T.Holds(f, T.NumEq(ia, T.Int(0))) && T.Holds(f, T.NumEq(ib, T.Sub(T.Len(xb), T.Int(1))))
	}
}

// version: the content of element idx of P after the nodes.
func (k *contours) version(f *Facts, nodes []Node, P, idx *Term) *version {
	v := &version{k: k, f: f, P: P, idx: idx}
	set := func(x *Term) {
		v.cur, v.alias, v.writes = x, map[*Term]bool{}, map[int]bool{}
	}
	for _, nd := range nodes {
		if nd.Loop != nil {
			for _, d := range nd.Loop.Defs {
				if d.Addr != nil && len(d.Addr) == 2 && k.same(f, d.Addr[0], P) && k.same(f, d.Addr[1], idx) {
					set(d.Sym)
				}
			}
		}
		if e := nd.Ev; e != nil && (e.Kind == "store" || e.Kind == "elemstore") && e.Args[0].Op == OAddrI && k.same(f, e.Args[0].Args[0], P) {
			if x := strip(e.Args[1]); k.same(f, e.Args[0].Args[1], idx) {
				if v.cur != nil && v.is(x) {
					v.alias[x] = true
				} else {
					set(x)
				}
			}
			if v.writes != nil {
				v.writes[e.Write] = true
			}
		}
	}
	return v
}

// layer decides about one way to make the contours L of a layer.
func (k *contours) layer(r *stageRes, L *Term) {
	c, T := k.c, k.it.T
	const R = "C22.closed"
	fn := r.Fn
	if L.IsNil() {
		return
	}
	d := k.it.LoopDefs[L]
	if d == nil {
		c.Undecided(R, fn, fn.Pos(), "contours of the layer", "cannot follow what the list is made of: %s", clipT(L))
		return
	}
	fn = d.Loop.Fn
	c.Oblige(d.Init.IsNil(), R, fn, fn.Pos(), "starts empty", "the list of the contours starts with %s", clipT(d.Init))
	var P, C *Term
	n := 0
	for i, b := range d.Loop.Bodies {
		v := d.Latch[i]
		if v == d.Sym {
			continue
		}
		n++
		if v.Op != OConcat || len(v.Args) != 2 || v.Args[0] != d.Sym || v.Args[1].Op != OLit {
			c.Undecided(R, fn, fn.Pos(), "one contour is added", "the list becomes %s", clipT(v))
			continue
		}
		x := strip(v.Args[1].Args[0])
		p, idx, ok := elemOf(x)
		was := (*version)(nil)
		if !ok {
			// stored before
			for _, nd := range b.Trace {
				if e := nd.Ev; e != nil && (e.Kind == "store" || e.Kind == "elemstore") && e.Args[0].Op == OAddrI && strip(e.Args[1]) == x {
					p, idx, ok = e.Args[0].Args[0], e.Args[0].Args[1], true
					was = &version{k: k, f: b.Facts, P: p, idx: idx, cur: x}
				}
			}
		}
		if !ok {
			c.Undecided(R, fn, fn.Pos(), "one contour is added", "the contour is %s", clipT(x))
			continue
		}
		if P == nil {
			P = p
		}
		if !c.Oblige(p == P, R, fn, fn.Pos(), "one list", "contours come from %s and %s", clipT(p), clipT(P)) {
			continue
		}
		// once each
		once := false
		for _, ct := range k.it.counters(d.Loop) {
			if (ct.Step.IsInt(1) || ct.Step.IsInt(-1)) && !T.Sub(idx, ct.Def.Sym).Contains(func(y *Term) bool { return y == ct.Def.Sym }) {
				once = true
			}
		}
		c.Oblige(once, "C22.once", fn, fn.Pos(), "each contour once", "the contour taken over is not another one in each round: %s", clipT(idx))
		ok = k.near(b.Facts, k.fin, k.ends(b.Facts, P, idx, was)) || was != nil && k.near(b.Facts, k.fin, k.ends(b.Facts, P, idx, nil))
		if !ok {
			// the mark
			b.Facts.Each(func(a *Term, val bool) {
				if l, i, isE := elemOf(a); isE && val && l != P && k.same(b.Facts, i, idx) && (C == nil || C == l) {
					C, ok = l, true
				}
			})
		}
		c.Oblige(ok, R, fn, fn.Pos(), "only closed contours", "a contour becomes part of the layer when %s", clipStr(factsFrom(b.Facts, d.Loop.NFact), 300))
	}
	c.AtLeast(R, "ways to take over a contour", n, 1)
	if P == nil {
		return
	}
	if C != nil {
		k.marks(P, C)
	}
	k.chains(P, C)
	k.joins(P, C)
}

// marks decides every mark that a contour is closed (but for those of new contours).
func (k *contours) marks(P, C *Term) {
	c := k.c
	const R = "C22.mark"
	k.walk(k.body, func(b *Path, l *LoopNode, e *Event, outer []*Path) {
		if e.Kind != "store" && e.Kind != "elemstore" || e.Args[0].Op != OAddrI || e.Args[0].Args[0] != C {
			return
		}
		idx := e.Args[0].Args[1]
		nodes := nodesBefore(b, e)
		after := b.Trace[len(nodes):]
		f := b.Facts
		was := k.version(f, nodes, P, idx)
		cur := was.cur
		joined := cur != nil
		dist := k.fin
		if joined && cur.Op != OSub {
			if _, _, own := elemOf(cur); !own {
				dist = k.join
			}
		}
		k.why = ""
		is := k.ends(f, P, idx, was)
		cond := func(g *Facts) bool {
			return k.near(g, dist, is) || joined && k.shortened(cur) != nil && k.near(g, dist, k.ends(f, P, idx, nil))
		}
		ok := k.onlyIf(f, e.Args[1], nil, cond, 0)
		c.Oblige(ok, R, e.Fn, e.Instr.Pos(), "a contour is marked", "a contour is marked as closed (%s) but its ends are not within %s: %s", clipT(e.Args[1]), clipT(dist), k.why)
		// nothing is added afterwards
		v := k.version(f, after, P, idx).cur
		c.Oblige(v == nil || cur != nil && was.is(v) || k.shortened(v) != nil, R, e.Fn, e.Instr.Pos(), "nothing is added to a closed contour", "a contour that is marked as closed becomes %s", clipT(v))
	})
}

// shortened: x is a part of a contour: the contour.
func (k *contours) shortened(x *Term) *Term {
	if x != nil && x.Op == OSub {
		return strip(x.Args[0])
	}
	if _, _, ok := elemOf(x); ok {
		return x
	}
	return nil
}

// walk visits the events below a path with the innermost path they are on.
func (k *contours) walk(p *Path, f func(b *Path, l *LoopNode, e *Event, outer []*Path)) {
	seen := map[*Path]bool{}
	var rec func(b *Path, l *LoopNode, outer []*Path)
	rec = func(b *Path, l *LoopNode, outer []*Path) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, nd := range b.Trace {
			if nd.Ev != nil {
				f(b, l, nd.Ev, outer)
			}
			if nd.Loop != nil {
				for _, x := range nd.Loop.Bodies {
					rec(x, nd.Loop, append(outer[:len(outer):len(outer)], b))
				}
			}
		}
	}
	rec(p, nil, nil)
}

// listDef: the loop variable (or memory) that holds the list while it is built.
func (k *contours) listDef(L *Term) *LoopDef {
	return k.it.LoopDefs[L]
}

// startsEmpty: the list a loop builds is empty at first.
func (k *contours) startsEmpty(d *LoopDef) bool {
	x := d.Init
	if x.IsNil() || isEmptyLit(x) {
		return true
	}
	// a field nothing is stored in before
	if d.Mem == "" || x.Op != OSel || !isMemKey(x.Args[0].Sym, "F:") {
		return false
	}
	// the loop over the layers
	isLoop := func(nd Node) bool {
		r := false
		if nd.Loop != nil {
			for _, b := range nd.Loop.Bodies {
				r = r || k.parts[b]
			}
		}
		return r
	}
	ok, loops := true, 0
	for _, p := range k.paths {
		for _, nd := range p.Trace {
			if isLoop(nd) {
				loops++
				break
			}
			walkNodes(&Path{Trace: []Node{nd}, Facts: p.Facts}, nil, func(e evCtx) {
				if (e.Ev.Kind == "store" || e.Ev.Kind == "allocstore") && e.Ev.Key == d.Mem && !e.Ev.Args[1].IsNil() {
					ok = false
				}
			})
		}
	}
	return ok && loops > 0
}

// chains decides how the contours are put together from segments.
func (k *contours) chains(P, C *Term) {
	c, T := k.c, k.it.T
	const R = "C22.once"
	var fn *ssa.Function
	dp := k.listDef(P)
	if dp == nil || !k.startsEmpty(dp) {
		c.Undecided(R, fn, 0, "list of the contours", "cannot follow what the list is made of: %s", clipT(P))
		return
	}
	l := dp.Loop
	fn = l.Fn
	var dc *LoopDef
	if C != nil {
		dc = k.listDef(C)
		if dc == nil || dc.Loop != l {
			c.Undecided("C22.mark", fn, fn.Pos(), "list of the marks", "cannot follow what the list is made of: %s", clipT(C))
			return
		}
		c.Oblige(k.startsEmpty(dc), "C22.mark", fn, fn.Pos(), "no marks first", "there are marks before there are contours: %s", clipT(dc.Init))
	}
	n := 0
	for i, b := range l.Bodies {
		v := dp.Latch[i]
		var w *Term
		if dc != nil {
			w = dc.Latch[i]
		}
		if v == dp.Sym {
			c.Oblige(dc == nil || w == dc.Sym, "C22.mark", fn, fn.Pos(), "one mark per contour", "a mark without a contour")
			continue
		}
		n++
		one := func(d *LoopDef, v *Term) *Term {
			if v.Op == OConcat && len(v.Args) == 2 && v.Args[0] == d.Sym && v.Args[1].Op == OLit {
				return strip(v.Args[1].Args[0])
			}
			return nil
		}
		x := one(dp, v)
		if x == nil {
			c.Undecided(R, fn, fn.Pos(), "one contour", "the list becomes %s", clipT(v))
			continue
		}
		first, last, lasts, ok := k.chain(b, l, x)
		c.Oblige(ok, R, fn, fn.Pos(), "segments used once", "%s", k.why)
		if dc != nil {
			m := one(dc, w)
			if !c.Oblige(m != nil, "C22.mark", fn, fn.Pos(), "one mark per contour", "a contour without its mark: %s", clipT(w)) {
				continue
			}
			if !ok {
				continue
			}
			k.why = ""
			ends := func(f *Facts, m, last *Term) bool {
				return k.onlyIf(f, m, []*Term{last}, func(g *Facts) bool {
					return k.near(g, k.meld, func(x, y *Term) bool { return k.same(g, x, first) && k.same(g, y, last) })
				}, 0)
			}
			if lasts == nil {
				ok = ends(b.Facts, m, last)
			} else {
				md := k.listDef(m)
				ok = md != nil || T.Refuted(b.Facts, m)
				if md != nil {
					for j, q := range md.Loop.Bodies {
						ok = ok && lasts[q] != nil && ends(q.Facts, md.Latch[j], lasts[q])
					}
				}
			}
			c.Oblige(ok, "C22.mark", fn, fn.Pos(), "a chain is marked", "the mark of a new contour %s", k.why)
		}
	}
	c.AtLeast(R, "ways to build a contour", n, 1)
}

// chain: x is a list of the points of segments, each of them not used before; its first and last point (of each round that may be the last one).
func (k *contours) chain(b *Path, outer *LoopNode, x *Term) (first, last *Term, lasts map[*Path]*Term, ok bool) {
	T := k.it.T
	var inside *LoopNode
	bad := func(why string, t *Term) (*Term, *Term, map[*Path]*Term, bool) {
		k.why = why
		if t != nil {
			k.why += ": " + clipT(t)
		}
		return nil, nil, nil, false
	}
	// points split into the loop variable and what is appended
	split := func(v *Term) (base *Term, pts []*Term, ok bool) {
		if v.Op == OAlloc {
			v = k.it.listVal(b.St, v, k.c.W.TypeNamed("data", "MicroPoint"))
		}
		if v.Op != OConcat {
			return v, nil, true
		}
		for i, a := range v.Args {
			switch {
			case a.Op == OLit:
				pts = append(pts, strip(a.Args[0]))
			case i == 0:
				base = a
			default:
				return nil, nil, false
			}
		}
		return base, pts, true
	}
	base, tail, good := split(x)
	if !good || base == nil {
		return bad("cannot follow what a contour is made of", x)
	}
	d := k.listDef(base)
	if d == nil {
		return bad("cannot follow what a contour is made of", x)
	}
	l := d.Loop
	b0, head, good := split(d.Init)
	if !good || b0 != nil && !b0.IsNil() || len(head) == 0 {
		return bad("a contour does not start with a segment", d.Init)
	}
	S, s, good := k.segField(head[0], k.pt[0])
	if !good {
		return bad("a contour does not start with the start of a segment", head[0])
	}
	first = head[0]
	used := func(f *Facts, i *Term) (isUsed, known bool) {
		f.Each(func(a *Term, val bool) {
			if L, j, ok := k.segField(a, k.flag); ok && !known && k.same(f, L, S) && k.same(f, j, i) {
				isUsed, known = val, true
			}
		})
		return
	}
	if u, known := used(b.Facts, s); !known || u {
		return bad("a contour may start with a segment that is used already", s)
	}
	ctr, ok := k.moves(outer, s)
	if !ok {
		return bad("the first segment is not another one in each round", s)
	}
	// the current segment
	var cur *LoopDef
	type round struct {
		p    *Path
		pts  []*Term
		next *Term
	}
	var rs []round
	for i, p := range l.Bodies {
		b1, pts, good := split(d.Latch[i])
		if !good || b1 != d.Sym {
			return bad("a contour loses points", d.Latch[i])
		}
		rs = append(rs, round{p: p, pts: pts})
	}
	all := [][]*Term{tail}
	for _, r := range rs {
		all = append(all, r.pts)
	}
	for _, pts := range all {
		for _, q := range pts {
			L, i, ok := k.segField(q, k.pt[1])
			if !ok || !k.same(b.Facts, L, S) {
				return bad("another point than the end of a segment is added", q)
			}
			e := k.listDef(i)
			if e == nil || e.Loop != l || cur != nil && cur != e {
				return bad("the end of another segment is added", q)
			}
			cur = e
		}
	}
	if cur == nil || len(tail) > 1 {
		return bad("cannot follow which segment is added", x)
	}
	for i := range rs {
		if len(rs[i].pts) != 1 {
			return bad("not one point is added for each segment", d.Latch[i])
		}
		rs[i].next = cur.Latch[i]
	}
	if !k.same(l.Facts, cur.Init, s) {
		return bad("the chain does not start with the first segment", cur.Init)
	}
	if len(tail) == 1 {
		last = tail[0]
	} else {
		// the loop ends because there is no further segment, but not before the first one
		f, feasible := b.Facts, true
		if ctr.Step.IsInt(1) {
			f, feasible = T.Assume(f, T.LeT(ctr.Def.Init, ctr.Def.Sym), true)
		}
		entered := !feasible || T.Refuted(f, T.NumEq(cur.Sym, cur.Init))
		for v := int64(-2); v < 1; v++ {
			entered = entered || T.Holds(f, T.NumEq(cur.Sym, T.Int(v))) && T.Refuted(f, T.NumEq(cur.Init, T.Int(v)))
		}
		if len(rs) == 0 || !entered {
			return bad("the last segment of a chain is missing", x)
		}
		inside = l
	}
	// each one is marked before the next one is looked for
	marked := func(p *Path, from *LoopNode) bool {
		on := from == nil
		for _, nd := range p.Trace {
			if nd.Loop != nil && nd.Loop == from {
				on = true
				continue
			}
			if !on {
				continue
			}
			if nd.Loop != nil {
				return false
			}
			if e := nd.Ev; e != nil && e.Kind == "store" {
				if L, i, ok := k.segField(e.Args[0], k.flag); ok && k.same(p.Facts, L, S) && k.same(p.Facts, i, cur.Sym) {
					return T.Holds(p.Facts, e.Args[1])
				}
			}
		}
		return false
	}
	for _, r := range rs {
		if !marked(r.p, nil) {
			return bad("a segment is not marked as used before the next one is looked for", nil)
		}
		if !k.values(r.p.Facts, r.next, func(f *Facts, v *Term) bool {
			if _, isC := v.ConstNum(); isC && inside != nil {
				// not another segment: the loop ends
				for _, r := range rs {
					if !T.Refuted(r.p.Facts, T.NumEq(cur.Sym, v)) {
						return false
					}
				}
				return true
			}
			u, known := used(f, v)
			return known && !u
		}, 0) {
			return bad("a chain may go on with a segment that is used already", r.next)
		}
	}
	if inside != nil {
		lasts = map[*Path]*Term{}
		for _, r := range rs {
			lasts[r.p] = r.pts[0]
		}
	} else if !marked(b, l) {
		return bad("the last segment of a chain is not marked as used", nil)
	}
	return first, last, lasts, true
}

// moves: the index changes by one in each round of the loop.
func (k *contours) moves(l *LoopNode, idx *Term) (Counter, bool) {
	for _, ct := range k.it.counters(l) {
		_, up := k.it.T.Sub(idx, ct.Def.Sym).ConstNum()
		_, down := k.it.T.Add(idx, ct.Def.Sym).ConstNum()
		if (ct.Step.IsInt(1) || ct.Step.IsInt(-1)) && (up || down) {
			return ct, true
		}
	}
	return Counter{}, false
}

// values: each value v may have, given the facts, satisfies cond.
func (k *contours) values(f *Facts, v *Term, cond func(f *Facts, v *Term) bool, depth int) bool {
	T := k.it.T
	d := k.listDef(v)
	if d == nil || depth > 5 {
		return cond(f, v)
	}
	excluded := func(x *Term) bool { return x != d.Sym && T.Refuted(f, T.NumEq(v, x)) }
	if _, isC := d.Init.ConstNum(); !(isC && excluded(d.Init)) && !k.values(d.Loop.Facts, d.Init, cond, depth+1) {
		return false
	}
	for i, b := range d.Loop.Bodies {
		if d.Latch[i] != d.Sym && !k.values(b.Facts, d.Latch[i], cond, depth+1) {
			return false
		}
	}
	return true
}

// joins decides what happens to contours after they were built.
func (k *contours) joins(P, C *Term) {
	c, T := k.c, k.it.T
	const R = "C22.join"
	dp := k.listDef(P)
	if dp == nil {
		return
	}
	ofP := func(e *Event) bool {
		return (e.Kind == "store" || e.Kind == "elemstore") && e.Args[0].Op == OAddrI && e.Args[0].Args[0] == P
	}
	open := func(f *Facts, i *Term) bool {
		r := false
		f.Each(func(a *Term, val bool) {
			if l, j, ok := elemOf(a); ok && !val && C != nil && l == C && k.same(f, j, i) {
				r = true
			}
		})
		return r
	}
	k.walk(k.body, func(b *Path, l *LoopNode, e *Event, outer []*Path) {
		if !ofP(e) {
			return
		}
		i, v := e.Args[0].Args[1], strip(e.Args[1])
		if v.IsNil() {
			return // a contour is dropped
		}
		if s := k.shortened(v); s != nil {
			pp, j, ok := elemOf(s)
			if d := k.listDef(s); d != nil && len(d.Addr) == 2 {
				pp, j, ok = d.Addr[0], d.Addr[1], true
			}
			c.Oblige(ok && pp == P && k.same(b.Facts, i, j), R, e.Fn, e.Instr.Pos(), "a contour stays itself", "contour %s becomes %s", clipT(i), clipT(v))
			return
		}
		if d := k.listDef(v); d != nil && len(d.Addr) == 2 {
			c.Oblige(d.Addr[0] == P && k.same(b.Facts, i, d.Addr[1]), R, e.Fn, e.Instr.Pos(), "a contour stays itself", "contour %s becomes %s", clipT(i), clipT(v))
			return
		}
		// the contour the points come from
		p, f := b, b.Facts
		var j *Term
		if v.Op == OConcat && len(v.Args) == 2 {
			src := strip(v.Args[1])
			if src.Op == OLit {
				src = strip(src.Args[0])
				if q, n, ok := elemOf(src); ok {
					if _, m := k.moves(l, n); l != nil && m {
						if pp, x, ok := elemOf(q); ok && pp == P {
							j = x
							p = outer[len(outer)-1]
						}
					}
				}
			} else if pp, x, ok := elemOf(src); ok && pp == P {
				j = x
			}
			own := strip(v.Args[0])
			pp, x, ok := elemOf(own)
			if d := k.listDef(own); d != nil && len(d.Addr) == 2 {
				pp, x, ok = d.Addr[0], d.Addr[1], true
			}
			if !ok || pp != P || !k.same(f, x, i) {
				j = nil
			}
		}
		if j == nil {
			c.Oblige(false, R, e.Fn, e.Instr.Pos(), "only whole contours are joined", "contour %s becomes %s", clipT(i), clipT(v))
			return
		}
		f = p.Facts
		// removed afterwards
		gone := false
		for _, nd := range p.Trace {
			if nd.Ev != nil && ofP(nd.Ev) && k.same(f, nd.Ev.Args[0].Args[1], j) {
				gone = strip(nd.Ev.Args[1]).IsNil()
			}
		}
		c.Oblige(gone, "C22.once", e.Fn, e.Instr.Pos(), "the joined contour is removed", "contour %s stays after it was joined to contour %s", clipT(j), clipT(i))
		c.Oblige(C == nil || open(f, i), R, e.Fn, e.Instr.Pos(), "an open contour is extended", "contour %s may be closed already", clipT(i))
		ok := k.values(f, j, func(g *Facts, x *Term) bool {
			if !T.Refuted(g, T.NumEq(x, i)) {
				k.why = "a contour may be joined to itself"
				return false
			}
			if C != nil && !open(g, x) {
				k.why = "a closed contour may be joined"
				return false
			}
			if !k.near(g, k.join, func(a, b *Term) bool {
				xa, ia, ok1 := elemOf(a)
				xb, ib, ok2 := elemOf(b)
				if !ok1 || !ok2 {
					return false
				}
				pa, na, ok1 := elemOf(xa)
				pb, nb, ok2 := elemOf(xb)
				return ok1 && ok2 && pa == P && pb == P && k.same(g, na, i) && k.same(g, nb, x) &&
					T.Holds(g, T.NumEq(ia, T.Sub(T.Len(xa), T.Int(1)))) && T.Holds(g, T.NumEq(ib, T.Int(0)))
			}) {
				k.why = "the end of the one may be far from the start of the other one"
				return false
			}
			return true
		}, 0)
		c.Oblige(ok, R, e.Fn, e.Instr.Pos(), "neighbours are joined", "%s", k.why)
	})
}

// cutOnce decides that segments are unused at first, and how faces and segments are linked.
func (k *contours) cutOnce(r *stageRes) {
	c, T := k.c, k.it.T
	isSeg := func(t *Term) bool {
		if t.Op != OAlloc || t.Typ == nil {
			return false
		}
		typ := t.Typ
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		return types.Identical(typ, k.segT)
	}
	n := 0
	everyPath(r.Paths, func(e evCtx) {
		for _, s := range segsOf(e.Ev, isSeg) {
			n++
			v := k.it.loadAddr(e.Path.St, k.it.addrField(s, k.segT, k.flag), types.Typ[types.Bool])
			c.Oblige(T.Refuted(e.Facts, v), "C22.once", e.Ev.Fn, e.Ev.Instr.Pos(), "new segments are unused", "a new segment is marked: %s", clipT(v))
			// linked to the face
			was := T.Int(0)
			for _, a := range e.Ev.Args[1].Args {
				if a.Op == OLit && strip(a.Args[0]) == s {
					break
				} else if a.Op == OLit {
					was = T.Add(was, T.Int(1))
				} else {
					was = T.Add(was, T.Len(a))
				}
			}
			face := k.faceOf(e.Path.St, s)
			link := 0
			for _, nd := range e.Path.Trace {
				x := nd.Ev
				if x != nil && x.Kind == "mapset" && face != nil && len(x.Args) > 2 {
					if k.same(e.Facts, x.Args[1], face) && k.same(e.Facts, x.Args[2], was) {
						link++
					} else {
						link = -9
					}
				}
			}
			c.Oblige(link == 1, "C22.index", e.Ev.Fn, e.Ev.Instr.Pos(), "face and segment are linked", "the segment that is cut from a face is not found by the face")
		}
		// a mark is never taken back
		if e.Ev.Kind == "store" {
			if _, _, ok := k.segField(e.Ev.Args[0], k.flag); ok {
				c.Oblige(T.Holds(e.At, e.Ev.Args[1]), "C22.once", e.Ev.Fn, e.Ev.Instr.Pos(), "a mark stays", "the mark of a used segment becomes %s", clipT(e.Ev.Args[1]))
			}
		}
	})
	c.AtLeast("C22.once", "places where segments are cut", n, 1)
}

// faceOf: the number of the face a segment belongs to.
func (k *contours) faceOf(st *State, s *Term) *Term {
	str := structOf(k.segT)
	for i := 0; i < str.NumFields(); i++ {
		if types.Identical(str.Field(i).Type(), types.Typ[types.Int]) {
			return k.it.loadAddr(st, k.it.addrField(s, k.segT, i), types.Typ[types.Int])
		}
	}
	return nil
}

// isWithin decides the comparison of distances.
func (k *contours) isWithin() {
	const R = "C22.dist"
	c := k.c
	ptT := c.W.TypeNamed("data", "MicroPoint")
	impl := c.W.SoleImpl(ptT)
	if impl == nil {
		c.Undecided(R, nil, 0, "MicroPoint", "no sole implementation")
		return
	}
	coord := func(it *Interp, st *State, v *Term, typ types.Type, name string) *Term {
		return it.invokeOn(st, v, typ, name)
	}
	for _, name := range []string{"Sub", "ShorterThanOrEqual", "Size2", "Size"} {
		fn := c.W.Method(namedOf(impl), name)
		if fn == nil {
			c.Undecided(R, nil, 0, name, "not found")
			continue
		}
		it := NewInterp(c.W)
		T := it.T
		args := it.ParamSyms(fn)
		n := 0
		for _, p := range c.Run(it, fn, args) {
			if p.Kind != KReturn || len(p.Ret) != 1 {
				continue
			}
			n++
			st := p.St
			x, y := coord(it, st, args[0], impl, "X"), coord(it, st, args[0], impl, "Y")
			if x == nil || y == nil {
				c.Undecided(R, fn, fn.Pos(), name, "coordinates not known")
				continue
			}
			sq := T.Add(T.Mul(x, x), T.Mul(y, y))
			switch name {
			case "Sub":
				rx, ry := coord(it, st, p.Ret[0], ptT, "X"), coord(it, st, p.Ret[0], ptT, "Y")
				vx, vy := coord(it, st, args[1], ptT, "X"), coord(it, st, args[1], ptT, "Y")
				ok := rx != nil && ry != nil && vx != nil && vy != nil && rx == T.Sub(x, vx) && ry == T.Sub(y, vy)
				c.Oblige(ok, R, fn, fn.Pos(), "difference of points", "the difference is (%s, %s)", clipT(rx), clipT(ry))
			case "Size2":
				c.Oblige(p.Ret[0] == sq, R, fn, fn.Pos(), "square of the length", "the square is %s", clipT(p.Ret[0]))
			case "Size":
				ok := p.Ret[0].Contains(func(t *Term) bool {
					return t.Op == OFn && t.Sym == "math.Sqrt" && t.Args[0] == sq
				}) && unroundAll(T, p.Ret[0]).Op != OBool
				c.Oblige(ok, R, fn, fn.Pos(), "length", "the length is %s", clipT(p.Ret[0]))
			default:
				g, sat := T.Assume(p.Facts, p.Ret[0], true)
				ok := !sat || T.Holds(g, T.LeT(sq, T.Mul(args[1], args[1])))
				c.Oblige(ok, R, fn, fn.Pos(), "within a distance", "is within the distance when %s", clipStr(p.Facts.String(), 200))
			}
		}
		c.AtLeast(R, "returns of "+name, n, 1)
	}
}

// namedOf: the named type behind a type or pointer.
func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}
