package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "The model is taken over completely, in scale, and placed as configured", checkC19)
}

// takeover is the analysis of how the triangles of the file become the optimised model.
type takeover struct {
	c      *Ctx
	pl     *Pipeline
	vecT   types.Type
	unroll bool // loops over the edges are looked at edge by edge

	it *Interp
	om *Term // the optimised model
	m  *Term // the model that was read

	// representation of the optimised model
	omT                                *types.Named
	ptT, faceT                         types.Type
	faces, points                      string // fields of the model
	pos, list                          string // fields of a point
	idx, touch, back                   string // fields of a face
	ixAt, touchAt, backAt, posAt, lsAt int
}

func checkC19(c *Ctx) {
	c.Rule("C19.read: the model Read returns is the one the triangles of the named file are given to; taking over a triangle adds exactly one face after the faces that are there; coordinate j of its corner i is coordinate j of vertex i times 1000, rounded")
	c.Rule("C19.extent: Min and Max of a model start with a coordinate of a point (or the extreme value) and run over all three points of all faces, taking over exactly the smaller (greater) coordinates of the same axis; MinZ (MaxZ) of a face is one of the Z coordinates of its corners and none is smaller (greater)")
	c.Rule("C19.model: a face of the optimised model has the points its three indices refer to, in their order; counting and getting faces, by either method, refers to the same list")
	c.Rule("C19.drop: the loop over the triangles reaches every triangle; an iteration adds nothing only if two of the three corner indices are equal or if one face is listed with the points of all three corners; otherwise exactly one face with these indices is added after the others")
	c.Rule("C19.meld: each corner of each triangle gets the index of a new point with its position, added after the others, or of a point within the melding distance; a new point is added only after all points listed under the hash of the position were compared, is then listed under the same hash, and the hash depends on the position and settings only")
	c.Rule("C19.list: an added face is added to the list of the points of its three corners, with its own index, and nothing else is ever added to or removed from these lists")
	c.Rule("C19.touch: for every face and each of its edges (0-1, 1-2, 2-0) the neighbour is a face other than itself that is listed with both points of the edge, and none is given only if no other face is; nothing else of a face changes")
	c.Rule("C19.place: after all points are known each is moved once, by centre - ((min+max)/2, (min+max)/2, min) of the model that was read (up to rounding); the reported size is max - min")
	const R = "C19.pipeline"
	pl := c.pipeline(R)
	if pl == nil {
		return
	}
	k := &takeover{c: c, pl: pl, vecT: c.W.TypeNamed("data", "MicroVec3")}
	if k.vecT == nil {
		c.Undecided(R, nil, 0, "MicroVec3", "not found")
		return
	}
	k.read()
	k.optimize()
}

var axes = []string{"X", "Y", "Z"}

// vec gives the coordinates of a vector in a state.
func (k *takeover) vec(it *Interp, st *State, v *Term) []*Term {
	if v == nil {
		return nil
	}
	var r []*Term
	for _, a := range axes {
		x := it.invokeOn(st, v, k.vecT, a)
		if x == nil {
			return nil
		}
		r = append(r, x)
	}
	return r
}

// callOn runs a method with arguments on a value; nil if the result is not one value.
func (it *Interp) callOn(st *State, v *Term, name string, args ...*Term) (*Term, *State) {
	fn, recv := it.methodOf(st, v, name)
	if fn == nil || len(fn.Params) != len(args)+1 {
		return nil, nil
	}
	ch := it.child()
	ps, err := ch.RunFrom(fn, append([]*Term{recv}, args...), cleanState(st), nil)
	if err != nil || len(ps) != 1 || ps[0].Kind != KReturn || len(ps[0].Ret) != 1 {
		return nil, nil
	}
	return ps[0].Ret[0], cleanState(ps[0].St)
}

func (k *takeover) read() {
	const R = "C19.read"
	c := k.c
	v := k.pl.Stage["Reader"]
	if v == nil {
		c.Undecided(R, nil, 0, "reader", "not found")
		return
	}
	r := c.initAndRun(k.pl, v, "Read", func(it *Interp) {
		it.Policy = func(ci *CallInfo) Action {
			if strings.HasSuffix(ci.Key, "stl.CopyFile") {
				return AEvent
			}
			return boundary(ci)
		}
	}, nil)
	if r.Fn == nil || len(r.Args) < 2 {
		c.Undecided(R, nil, 0, "Read", "not found")
		return
	}
	name := r.Args[1]
	var model types.Type
	n := 0
	for _, p := range r.Paths {
		if p.Kind != KReturn || len(p.Ret) != 2 || p.Ret[0].IsNil() {
			continue
		}
		if v, known := r.It.T.Decide(p.Facts, r.It.T.RefEq(p.Ret[1], r.It.T.Nil())); known && !v || !known && p.Ret[1].Op == OSel {
			continue
		}
		n++
		var calls []*Event
		walkEvents(p, func(e evCtx) {
			if e.Ev.Kind == "call" && strings.HasSuffix(e.Ev.Key, "stl.CopyFile") {
				calls = append(calls, e.Ev)
			}
		})
		ok := len(calls) == 1 && len(calls[0].Args) >= 2 && calls[0].Args[0] == name && strip(calls[0].Args[1]) == strip(p.Ret[0])
		c.Oblige(ok, R, r.Fn, r.Fn.Pos(), "the named file is read into the model", "the model returned is %s, read by %d calls", clipT(p.Ret[0]), len(calls))
		if ok {
			if p.Ret[0].Op == OIface {
				model = p.Ret[0].Typ
			}
			// nothing is put aside between reading and returning
			old := strip(p.Ret[0])
			if f := structOf(derefT(model)); f != nil && old.Op == OAlloc {
				for i := 0; i < f.NumFields(); i++ {
					x := r.It.loadAddr(p.St, r.It.addrField(old, derefT(model), i), f.Field(i).Type())
					_, isSel := x, x.Op == OSel || x.IsNil()
					c.Oblige(isSel, R, r.Fn, r.Fn.Pos(), "the model is not changed afterwards", "%s is %s when the model is returned", f.Field(i).Name(), clipT(x))
				}
			}
		}
	}
	c.AtLeast(R, "successful returns of Read", n, 1)
	if model == nil {
		return
	}
	k.extents(model)

	// taking over a triangle
	it := k.pl.It.child()
	T := it.T
	it.Policy = boundary
	st := cleanState(k.pl.St)
	recv := T.Fnc("model:"+model.String(), model)
	mv := T.mk(OIface, "", model, true, recv)
	fn, self := it.methodOf(st, mv, "AppendTriangle")
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided(R, nil, 0, "AppendTriangle", "not found on %s", model)
		return
	}
	args := it.ParamSyms(fn)
	args[0] = self
	before, _ := it.callOn(st, mv, "FaceCount")
	if before == nil {
		c.Undecided(R, fn, fn.Pos(), "faces", "their number is not known")
		return
	}
	tri := structOf(fn.Params[1].Type())
	vertices := -1
	for i := 0; tri != nil && i < tri.NumFields(); i++ {
		if ar, ok := tri.Field(i).Type().Underlying().(*types.Array); ok && ar.Len() == 3 {
			if in, ok := ar.Elem().Underlying().(*types.Array); ok && in.Len() == 3 {
				vertices = i
			}
		}
	}
	if vertices < 0 {
		c.Undecided(R, fn, fn.Pos(), "triangle", "its vertices are not known")
		return
	}
	n = 0
	for _, p := range c.RunFrom(it, fn, args, cleanState(st), nil) {
		if p.Kind != KReturn {
			c.Oblige(false, R, fn, fn.Pos(), "a triangle is taken over", "taking over a triangle may end in %s", kindName(p.Kind))
			continue
		}
		n++
		ps := cleanState(p.St)
		after, _ := it.callOn(ps, mv, "FaceCount")
		if !c.Oblige(after != nil && T.Sub(after, before).IsInt(1), R, fn, fn.Pos(), "one face per triangle", "the number of faces becomes %s", clipT(after)) {
			continue
		}
		at := T.SymT("at", types.Typ[types.Int])
		f1, ok1 := T.Assume(ps.facts, T.LeT(T.Int(0), at), true)
		f2, ok2 := T.Assume(f1, T.Lt(at, before), true)
		if ok1 && ok2 {
			q := cleanState(ps)
			q.facts = f2
			a, _ := it.callOn(st, mv, "Face", at)
			b, _ := it.callOn(q, mv, "Face", at)
			c.Oblige(a != nil && it.sameVal(f2, a, b), R, fn, fn.Pos(), "faces that are there stay", "a face that was there is now %s", clipT(b))
		}
		face, fs := it.callOn(ps, mv, "Face", before)
		if face == nil {
			c.Undecided(R, fn, fn.Pos(), "new face", "not known")
			continue
		}
		pts := k.corners(it, fs, face)
		if pts == nil || pts.Op != OArray || len(pts.Args) != 3 {
			c.Undecided(R, fn, fn.Pos(), "corners of the new face", "they are %s", clipT(pts))
			continue
		}
		for i, pt := range pts.Args {
			xyz := k.vec(it, fs, pt)
			if xyz == nil {
				c.Undecided(R, fn, fn.Pos(), "corner", "its coordinates are not known: %s", clipT(pt))
				continue
			}
			for j, x := range xyz {
				ok := false
				u := unroundAll(T, x)
				if ms := T.monosOf(u); len(ms) == 1 && ms[0].C.Cmp(ratInt(1000)) == 0 && len(ms[0].A) == 1 {
					w := stripConv(ms[0].A[0])
					if l, a, is := elemOf(w); is && a.IsInt(int64(j)) {
						if l2, b, is := elemOf(l); is && b.IsInt(int64(i)) && l2.Op == OField && l2.Args[0] == args[1] && l2.Sym == tri.Field(vertices).Name() {
							ok = true
						}
					}
				}
				c.Oblige(ok, R, fn, fn.Pos(), axes[j]+" of corner "+itoa(i), "it is %s", clipT(x))
			}
		}
	}
	c.AtLeast(R, "ways a triangle is taken over", n, 1)
}

// arrAt: element j of an array.
func (k *takeover) arrAt(it *Interp, st *State, v, j *Term) *Term {
	if v == nil {
		return nil
	}
	switch v.Op {
	case OCall, OField, ORes, OSym:
		return it.T.Fnc("idx", k.vecT, v, j)
	}
	return it.elem(st, v, j, k.vecT)
}

// corners: the points of a face.
func (k *takeover) corners(it *Interp, st *State, face *Term) *Term {
	ft := k.c.W.TypeNamed("data", "Face")
	if r := it.invokeOn(st, face, ft, "Points"); r != nil {
		return r
	}
	if face.Op == OIface {
		return nil
	}
	return it.T.mk(OCall, "data.Face.Points", types.NewArray(k.vecT, 3), false, face)
}

// derefT: the type behind a pointer.
func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func kindName(k Kind) string {
	if k == KPanic {
		return "a panic"
	}
	return "no return"
}

// extents checks the bounding box of a model.
func (k *takeover) extents(model types.Type) {
	const R = "C19.extent"
	c := k.c
	it := k.pl.It.child()
	it.Policy = boundary
	T := it.T
	st := cleanState(k.pl.St)
	recv := T.Fnc("model:"+model.String(), model)
	mv := T.mk(OIface, "", model, true, recv)
	count, _ := it.callOn(st, mv, "FaceCount")
	at := T.SymT("at", types.Typ[types.Int])
	face, fs := it.callOn(st, mv, "Face", at)
	var pts *Term
	if face != nil {
		pts = k.corners(it, fs, face)
	}
	if count == nil || pts == nil {
		c.Undecided(R, nil, 0, "points of the faces", "not known for %s", model)
		return
	}
	// corner j of face i
	coord := func(i, j *Term, axis int) *Term {
		face, fs := it.callOn(st, mv, "Face", i)
		if face == nil {
			return nil
		}
		v := k.arrAt(it, st, k.corners(it, fs, face), j)
		x := k.vec(it, st, v)
		if x == nil {
			return nil
		}
		return x[axis]
	}
	for _, name := range []string{"Min", "Max"} {
		fn, self := it.methodOf(st, mv, name)
		if fn == nil {
			c.Undecided(R, nil, 0, name, "not found")
			continue
		}
		n := 0
		for _, p := range c.RunFrom(it, fn, []*Term{self}, cleanState(st), nil) {
			if p.Kind != KReturn || len(p.Ret) != 1 {
				continue
			}
			n++
			xyz := k.vec(it, cleanState(p.St), p.Ret[0])
			if xyz == nil {
				c.Undecided(R, fn, fn.Pos(), name, "coordinates not known")
				continue
			}
			for a, x := range xyz {
				ok, why := it.runningExtreme(p, x, count, name == "Min", func(i, j *Term) *Term { return coord(i, j, a) })
				c.Oblige(ok, R, fn, fn.Pos(), axes[a]+" of "+name, "%s", why)
			}
		}
		c.AtLeast(R, "returns of "+name+" of "+model.String(), n, 1)
	}
}

// atMost: a <= b (lower) or a >= b.
func (it *Interp) beyond(f *Facts, a, b *Term, lower bool) bool {
	if a == b {
		return true
	}
	if lower {
		return it.T.Holds(f, it.T.LeT(a, b))
	}
	return it.T.Holds(f, it.T.LeT(b, a))
}

// runningExtreme: x is the smallest (greatest) of the values coord(i, j) for i below count and j below 3.
func (it *Interp) runningExtreme(p *Path, x, count *Term, lower bool, coord func(i, j *Term) *Term) (bool, string) {
	T := it.T
	d := it.LoopDefs[x]
	if d == nil {
		return false, "it is " + clipT(x) + ", which no loop determines"
	}
	var l *LoopNode
	for _, nd := range p.Trace {
		if nd.Loop != nil && nd.Loop == d.Loop {
			l = nd.Loop
		}
	}
	if l == nil || len(d.Latch) != len(l.Bodies) {
		return false, "the loop that determines it is not passed completely"
	}
	cv, ok := it.covers(l, count)
	if !ok || !it.exhausted(p, cv, count) {
		return false, "the loop that determines it does not run over all faces"
	}
	// start
	start := false
	if v, isC := d.Init.ConstInt(); isC {
		start = lower && v >= 1<<62 || !lower && v <= -(1<<62)
	}
	for j := int64(0); j < 3 && !start; j++ {
		start = coord(T.Int(0), T.Int(j)) == d.Init
	}
	if !start {
		return false, "it starts with " + clipT(d.Init)
	}
	for i, b := range l.Bodies {
		if ok, why := it.extremeOf3(b, d.Latch[i], d.Sym, lower, func(j *Term) *Term { return coord(cv.Idx, j) }); !ok {
			return false, why
		}
	}
	return true, ""
}

// extremeOf3: w is the extreme of cur and the three values, after passing b.
func (it *Interp) extremeOf3(b *Path, w, cur *Term, lower bool, coord func(j *Term) *Term) (bool, string) {
	T := it.T
	// an inner loop over the corners
	if d := it.LoopDefs[w]; d != nil && w != cur && d.Init == cur {
		for _, nd := range b.Trace {
			l := nd.Loop
			if l == nil || l != d.Loop || len(d.Latch) != len(l.Bodies) {
				continue
			}
			cv, ok := it.covers(l, T.Int(3))
			if !ok || !it.exhausted(b, cv, T.Int(3)) {
				return false, "the loop over the corners does not reach all of them"
			}
			for i, ib := range l.Bodies {
				e := coord(cv.Idx)
				x := d.Latch[i]
				if x != d.Sym && x != e {
					return false, "it may become " + clipT(x)
				}
				if !it.beyond(ib.Facts, x, d.Sym, lower) || !it.beyond(ib.Facts, x, e, lower) {
					return false, "it may become or stay " + clipT(x) + " although it is not the extreme"
				}
			}
			return true, ""
		}
		return false, "the loop over the corners is not passed completely"
	}
	is := w == cur
	for j := int64(0); j < 3; j++ {
		e := coord(T.Int(j))
		is = is || w == e
		if e == nil || !it.beyond(b.Facts, w, e, lower) {
			return false, "a corner may lie beyond " + clipT(w)
		}
	}
	if !is || !it.beyond(b.Facts, w, cur, lower) {
		return false, "it may become " + clipT(w)
	}
	return true, ""
}

// representation finds out how the optimised model stores points and faces.
func (k *takeover) representation() bool {
	const R = "C19.model"
	c := k.c
	it := k.it
	T := it.T
	und := func(what, msg string, a ...interface{}) bool {
		c.Undecided(R, nil, 0, what, msg, a...)
		return false
	}
	st := cleanState(k.pl.St)
	model := types.Type(types.NewPointer(k.omT))
	recv := T.Fnc("model:"+model.String(), model)
	mv := T.mk(OIface, "", model, true, recv)
	at := T.SymT("at", types.Typ[types.Int])
	of := func(name string) (*Term, *State) { return it.callOn(st, mv, name, at) }
	face, fs := of("OptimizedFace")
	if face == nil {
		return und("OptimizedFace", "not known")
	}
	face2, _ := of("Face")
	fn, _ := it.methodOf(st, mv, "Face")
	c.Oblige(face2 != nil && k.whole(strip(face2)) == k.whole(strip(face)), R, fn, 0, "Face and OptimizedFace give the same face", "one gives %s, the other one %s", clipT(face), clipT(face2))
	if face.Op != OIface {
		return und("OptimizedFace", "the type is not known")
	}
	k.faceT = derefT(face.Typ)
	base, i, ok := elemAddr(k.whole(strip(face)))
	if !ok || i != at {
		return und("OptimizedFace", "it is %s", clipT(face))
	}
	var own *Term
	k.faces, own = fieldRead(base)
	if k.faces == "" || own != recv {
		return und("faces", "they are %s", clipT(base))
	}
	count, _ := it.callOn(st, mv, "FaceCount")
	c.Oblige(count == T.Len(base), R, fn, 0, "FaceCount counts the faces", "it is %s", clipT(count))

	pts := it.invokeOn(fs, face, nil, "Points")
	if pts == nil || pts.Op != OArray || len(pts.Args) != 3 {
		return und("Points", "they are %s", clipT(pts))
	}
	for j, pt := range pts.Args {
		pos, pa := fieldRead(pt)
		list, x, ok := elemAddr(pa)
		if pos == "" || !ok {
			return und("Points", "a point is %s", clipT(pt))
		}
		pf, back := fieldRead(list)
		bf, f1 := fieldRead(back)
		ib, n, ok := elemAddr(x)
		ixf, f2 := fieldRead(ib)
		if !ok || pf == "" || bf == "" || ixf == "" {
			return und("Points", "a point is %s", clipT(pt))
		}
		_, _, e1 := elemAddr(f1)
		_, _, e2 := elemAddr(f2)
		if !e1 || !e2 {
			return und("Points", "a point is %s", clipT(pt))
		}
		if j == 0 {
			k.pos, k.points, k.back, k.idx = pos, pf, bf, ixf
		}
		c.Oblige(n.IsInt(int64(j)) && pos == k.pos && pf == k.points && bf == k.back && ixf == k.idx, R, fn, 0, "corner "+itoa(j)+" of a face is the point of its index", "it is %s", clipT(pt))
	}
	tf := it.invokeOn(fs, face, nil, "TouchingFaceIndices")
	if tf == nil {
		return und("TouchingFaceIndices", "not known")
	}
	if tf.Op == OArray && len(tf.Args) == 3 {
		for j, x := range tf.Args {
			b, n, ok := elemAddr(x)
			f, _ := fieldRead(b)
			if !ok || f == "" {
				return und("TouchingFaceIndices", "it is %s", clipT(tf))
			}
			if j == 0 {
				k.touch = f
			}
			c.Oblige(n.IsInt(int64(j)) && f == k.touch, R, fn, 0, "neighbour "+itoa(j)+" of a face", "it is %s", clipT(x))
		}
	} else {
		k.touch, _ = fieldRead(tf)
	}
	if k.touch == "" {
		return und("TouchingFaceIndices", "it is %s", clipT(tf))
	}
	ms := structOf(k.omT)
	for i := 0; i < ms.NumFields(); i++ {
		if ms.Field(i).Name() == k.points {
			if s, ok := ms.Field(i).Type().Underlying().(*types.Slice); ok {
				k.ptT = s.Elem()
			}
		}
	}
	ps, fst := (*types.Struct)(nil), structOf(k.faceT)
	if k.ptT != nil {
		ps = structOf(k.ptT)
	}
	if ps == nil || fst == nil {
		return und("points and faces", "they are not stored by value")
	}
	k.posAt, k.lsAt, k.ixAt, k.touchAt, k.backAt = -1, -1, -1, -1, -1
	for i := 0; i < ps.NumFields(); i++ {
		f := ps.Field(i)
		if f.Name() == k.pos {
			k.posAt = i
		} else if s, ok := f.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Int]) {
			k.list, k.lsAt = f.Name(), i
		}
	}
	for i := 0; i < fst.NumFields(); i++ {
		switch fst.Field(i).Name() {
		case k.idx:
			k.ixAt = i
		case k.touch:
			k.touchAt = i
		case k.back:
			k.backAt = i
		}
	}
	if k.posAt < 0 || k.lsAt < 0 || k.ixAt < 0 || k.touchAt < 0 || k.backAt < 0 || k.idx == k.touch {
		return und("points and faces", "a field is missing")
	}
	// Z extents of a face
	for _, name := range []string{"MinZ", "MaxZ"} {
		zfn, self := it.methodOf(fs, face, name)
		if zfn == nil {
			return und(name, "not found")
		}
		n := 0
		unroll := it.Unroll
		it.Unroll = true
		zps := c.RunFrom(it, zfn, []*Term{self}, cleanState(fs), nil)
		it.Unroll = unroll
		for _, p := range zps {
			if p.Kind != KReturn || len(p.Ret) != 1 {
				continue
			}
			n++
			ok, why := it.zExtreme(p, p.Ret[0], name == "MinZ", func(j *Term) *Term {
				x := k.vec(it, cleanState(fs), k.arrAt(it, fs, pts, j))
				if x == nil {
					return nil
				}
				return x[2]
			})
			c.Oblige(ok, "C19.extent", zfn, zfn.Pos(), name, "%s", why)
		}
		c.AtLeast("C19.extent", "returns of "+name, n, 1)
	}
	return true
}

// zExtreme: w is the extreme of the three values.
func (it *Interp) zExtreme(p *Path, w *Term, lower bool, coord func(j *Term) *Term) (bool, string) {
	T := it.T
	if d := it.LoopDefs[w]; d != nil {
		// the first one, then the loop
		start := false
		if v, isC := d.Init.ConstInt(); isC {
			start = lower && v >= 1<<62 || !lower && v <= -(1<<62)
		}
		for j := int64(0); j < 3; j++ {
			start = start || d.Init == coord(T.Int(j))
		}
		if !start {
			return false, "it starts with " + clipT(d.Init)
		}
		return it.extremeOf3(p, w, d.Init, lower, coord)
	}
	is := false
	for j := int64(0); j < 3; j++ {
		e := coord(T.Int(j))
		if e == nil {
			return false, "a corner is not known"
		}
		is = is || e == w
		if !it.beyond(p.Facts, w, e, lower) {
			return false, "a corner may lie beyond " + clipT(w)
		}
	}
	if !is {
		return false, "it is " + clipT(w)
	}
	return true, ""
}

// whole: the address a struct was read from as a whole.
func (k *takeover) whole(t *Term) *Term {
	if t == nil || t.Op != OStruct || len(t.Args) == 0 || structOf(t.Typ) == nil {
		return t
	}
	x := t.Args[0]
	if x.Op == OArray && len(x.Args) > 0 {
		x, _, _ = elemAddr(x.Args[0])
	}
	_, a := fieldRead(x)
	if a == nil {
		return t
	}
	for i, x := range t.Args {
		if !k.unchanged(x, structOf(t.Typ).Field(i).Name(), a) {
			return t
		}
	}
	return a
}

// elemAddr decomposes an element, by value or by address.
func elemAddr(t *Term) (base, idx *Term, ok bool) {
	if t == nil {
		return
	}
	if b, i, ok := elemOf(t); ok {
		return b, i, true
	}
	t = strip(t)
	if t.Op == OAddrI && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	return
}

// fieldRead decomposes the read of a field (by value, from memory, or its address).
func fieldRead(t *Term) (name string, of *Term) {
	if t == nil {
		return "", nil
	}
	t = strip(t)
	switch t.Op {
	case OField:
		return t.Sym, t.Args[0]
	case OAddrF:
		return t.Sym, t.Args[0]
	case OSel:
		if len(t.Args) >= 2 && isMemKey(t.Args[0].Sym, "F:") {
			mk := t.Args[0].Sym
			if at := strings.IndexByte(mk, '@'); at >= 0 {
				mk = mk[:at]
			}
			return mk[strings.LastIndexByte(mk, '.')+1:], t.Args[1]
		}
	}
	return "", nil
}

func ratInt(i int64) *big.Rat { return big.NewRat(i, 1) }

func (k *takeover) optimize() {
	const R = "C19.drop"
	c := k.c
	v := k.pl.Stage["Optimizer"]
	opt := c.stageOptions(k.pl, v)
	if v == nil || opt == nil {
		c.Undecided(R, nil, 0, "optimizer", "not found")
		return
	}
	r := c.initAndRun(k.pl, v, "Optimize", func(it *Interp) {
		it.Policy = boundary
		it.RecordStores = true
		it.Unroll = k.unroll
	}, nil)
	if r.Fn == nil || len(r.Args) < 2 {
		c.Undecided(R, nil, 0, "Optimize", "not found")
		return
	}
	k.it = r.It
	k.m = r.Args[1]
	T := k.it.T
	n := 0
	for _, p := range r.Paths {
		if p.Kind != KReturn || len(p.Ret) != 2 {
			continue
		}
		if v, known := T.Decide(p.Facts, T.RefEq(p.Ret[1], T.Nil())); known && !v {
			continue
		}
		if p.Ret[0].Op != OIface || namedOf(p.Ret[0].Typ) == nil {
			c.Undecided(R, r.Fn, r.Fn.Pos(), "optimised model", "it is %s", clipT(p.Ret[0]))
			continue
		}
		if n == 0 {
			k.omT = namedOf(p.Ret[0].Typ)
			k.extents(types.NewPointer(k.omT))
			if !k.representation() {
				return
			}
		}
		n++
		k.om = strip(p.Ret[0])
		k.path(r.Fn, p, opt)
	}
	c.AtLeast(R, "successful returns of Optimize", n, 1)
	if k.unroll && !r.It.Unroll {
		k.optimize()
	}
}

// dedup is what the first loop of the optimiser is known to do.
type dedup struct {
	fn      *ssa.Function
	p       *Path
	F, P    *Term // lists of faces and points when the loop is over
	dF, dP  *LoopDef
	l       *LoopNode
	cv      Cover
	b       *Path
	ptsCall *Term            // points of the triangle of the iteration
	triples [][]*Term        // indices of the corners of the faces that are added
	maps    map[*Event]*Term // additions to the hash map
	listed  map[*Term]bool   // maps in which only counts of points are listed
	lists   map[*Event]bool  // additions to the lists of faces of a point
	seen    map[string]bool
}

func (k *takeover) path(fn *ssa.Function, p *Path, opt *Term) {
	const R = "C19.drop"
	c, it := k.c, k.it
	field := func(name string) *Term {
		s := structOf(k.omT)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return it.loadAddr(p.St, it.addrField(k.om, k.omT, i), s.Field(i).Type())
			}
		}
		return nil
	}
	d := &dedup{fn: fn, p: p, F: field(k.faces), P: field(k.points), maps: map[*Event]*Term{}, listed: map[*Term]bool{}, lists: map[*Event]bool{}, seen: map[string]bool{}}
	d.dF, d.dP = it.LoopDefs[d.F], it.LoopDefs[d.P]
	if d.dF == nil || d.dP == nil || d.dF.Loop != d.dP.Loop || d.dF.Loop == nil {
		c.Undecided(R, fn, fn.Pos(), "faces and points", "they are not collected by one loop: %s, %s", clipT(d.F), clipT(d.P))
		return
	}
	d.l = d.dF.Loop
	if !it.emptyVal(p.Facts, d.dF.Init) || !it.emptyVal(p.Facts, d.dP.Init) {
		c.Undecided(R, fn, fn.Pos(), "faces and points", "they do not start empty")
	}
	after := -1
	for i, nd := range p.Trace {
		if nd.Loop == d.l {
			after = i
		}
	}
	count := k.callIn(p, ".FaceCount")
	var ok bool
	if count != nil {
		d.cv, ok = it.covers(d.l, count)
	}
	if !ok || after < 0 || !it.exhausted(p, d.cv, count) || len(d.dF.Latch) != len(d.l.Bodies) || len(d.dP.Latch) != len(d.l.Bodies) {
		c.Oblige(false, R, fn, fn.Pos(), "the loop over the triangles reaches every triangle", "it does not run over all faces of the model")
		return
	}
	c.Oblige(true, R, fn, fn.Pos(), "the loop over the triangles reaches every triangle", "")
	if it.Unroll {
		k.touching(d, p.Trace[after+1:])
		return
	}
	nKeep := 0
	var drops []*Path
	for i, b := range d.l.Bodies {
		if d.dF.Latch[i] == d.dF.Sym {
			drops = append(drops, b)
			continue
		}
		nKeep++
		k.keep(d, b, d.dF.Latch[i], d.dP.Latch[i], opt)
	}
	c.AtLeast(R, "ways a triangle is taken over", nKeep, 1)
	for _, b := range drops {
		k.dropped(d, b)
	}
	k.lists(d)
	k.touching(d, p.Trace[after+1:])
	k.place(d, p.Trace[after+1:], opt)
}

// callIn finds a call on the model that was read.
func (k *takeover) callIn(p *Path, suffix string) *Term {
	var r *Term
	look := func(t *Term) bool {
		if r == nil && strings.HasSuffix(callKeyOf(t), suffix) && len(t.Args) == 1 && strip(t.Args[0]) == strip(k.m) {
			r = t
		}
		return r != nil
	}
	p.Facts.Each(func(a *Term, _ bool) { a.Contains(look) })
	return r
}

// keep: an iteration that adds a face.
func (k *takeover) keep(d *dedup, b *Path, F, P, opt *Term) {
	const R = "C19.drop"
	c, it := k.c, k.it
	T := it.T
	pos := d.fn.Pos()
	ok := F.Op == OConcat && len(F.Args) == 2 && F.Args[0] == d.dF.Sym && F.Args[1].Op == OLit
	if !c.Oblige(ok, R, d.fn, pos, "one face is added", "the faces become %s", clipT(F)) {
		return
	}
	f := strip(F.Args[1].Args[0])
	if f.Op != OStruct || len(f.Args) <= k.ixAt || len(f.Args) <= k.backAt {
		c.Undecided(R, d.fn, pos, "added face", "it is %s", clipT(f))
		return
	}
	c.Oblige(f.Args[k.backAt] == k.om, "C19.model", d.fn, pos, "a face refers to its model", "it refers to %s", clipT(f.Args[k.backAt]))
	c.Oblige(it.appended(P, d.dP.Sym, 0), "C19.meld", d.fn, pos, "points are only added", "the points become %s", clipT(P))
	var cs []*Term
	for j := int64(0); j < 3; j++ {
		cs = append(cs, it.elem(b.St, f.Args[k.ixAt], T.Int(j), types.Typ[types.Int]))
	}
	for j, x := range cs {
		k.assigned(d, b, P, x, j, opt)
	}
	d.triples = append(d.triples, cs)

	// the lists of the points
	found := map[int]bool{}
	for _, nd := range b.Trace {
		if nd.Ev != nil {
			if a, l := k.listStore(nd.Ev); a != nil {
				for j, x := range cs {
					if _, n, ok := elemAddr(a); ok && n == x && !found[j] && k.addsOwn(d, l, a) {
						found[j] = true
						d.lists[nd.Ev] = true
						break
					}
				}
			}
		}
		if l := nd.Loop; l != nil && len(l.Bodies) == 1 {
			cv, ok := it.covers(l, T.Int(3))
			if !ok || !it.exhausted(b, cv, T.Int(3)) {
				continue
			}
			for _, n2 := range l.Bodies[0].Trace {
				if n2.Ev == nil {
					continue
				}
				if a, v := k.listStore(n2.Ev); a != nil {
					_, n, ok := elemAddr(a)
					if !ok || !k.addsOwn(d, v, a) {
						continue
					}
					same := n == it.elem(l.Bodies[0].St, f.Args[k.ixAt], cv.Idx, types.Typ[types.Int])
					if !same {
						// the array the indices are read from
						nb, ni, is := elemAddr(n)
						same = is && T.Holds(l.Bodies[0].Facts, T.NumEq(ni, cv.Idx))
						for j, x := range cs {
							xb, xi, is2 := elemAddr(x)
							same = same && is2 && xb == nb && xi.IsInt(int64(j))
						}
					}
					if same && !found[0] && !found[1] && !found[2] {
						found[0], found[1], found[2] = true, true, true
						d.lists[n2.Ev] = true
					}
				}
			}
		}
	}
	for j := 0; j < 3; j++ {
		c.Oblige(found[j], "C19.list", d.fn, pos, "the face is listed with corner "+itoa(j), "it is not added to the list of this point")
	}
}

// listStore: the event changes the list of faces of a point (its address and the new value).
func (k *takeover) listStore(e *Event) (point, v *Term) {
	if e.Kind != "store" && e.Kind != "elemstore" || len(e.Args) != 2 {
		return nil, nil
	}
	a := e.Args[0]
	if a.Op == OAddrF && a.Sym == k.list && a.Typ != nil && types.Identical(a.Typ, k.ptT) {
		return a.Args[0], e.Args[1]
	}
	return nil, nil
}

// addsOwn: the list of the point with the number of the new face added.
func (k *takeover) addsOwn(d *dedup, v, point *Term) bool {
	if v.Op != OConcat || len(v.Args) != 2 || v.Args[1].Op != OLit || v.Args[1].Args[0] != k.it.T.Len(d.dF.Sym) {
		return false
	}
	f, of := fieldRead(v.Args[0])
	return f == k.list && of == point
}

// assigned: v is the index of the point of corner j.
func (k *takeover) assigned(d *dedup, b *Path, P, v *Term, j int, opt *Term) {
	const R = "C19.meld"
	c, it := k.c, k.it
	T := it.T
	pos := d.fn.Pos()
	what := "index of corner " + itoa(j)
	base, n, ok := elemAddr(v)
	if !ok || !n.IsInt(int64(j)) {
		c.Oblige(false, R, d.fn, pos, what, "it is %s", clipT(v))
		return
	}
	var l *LoopNode
	other := 0
	for _, nd := range b.Trace {
		if nd.Ev != nil && isStoreAt(nd.Ev, base) != nil {
			other++
		}
		if nd.Loop != nil {
			has := false
			for _, jb := range nd.Loop.Bodies {
				walkNodes(jb, nil, func(e evCtx) { has = has || isStoreAt(e.Ev, base) != nil })
			}
			if has {
				if l != nil {
					other++
				}
				l = nd.Loop
			}
		}
	}
	if l == nil || other > 0 {
		c.Oblige(false, R, d.fn, pos, what, "it is not determined by one loop over the corners: %s", clipT(v))
		return
	}
	cv, ok := it.covers(l, T.Int(3))
	if !c.Oblige(ok && it.exhausted(b, cv, T.Int(3)), R, d.fn, pos, "the loop over the corners reaches all three", "it does not") {
		return
	}
	dl := it.LoopDefs[P]
	if dl == nil || dl.Loop != l || dl.Init != d.dP.Sym || len(dl.Latch) != len(l.Bodies) {
		c.Oblige(false, R, d.fn, pos, "points are added in the loop over the corners", "the points become %s", clipT(P))
		return
	}
	if d.seen[what+l.Name] {
		return
	}
	d.seen[what+l.Name] = true
	type task struct {
		jb  *Path
		val *Term
		i   int
	}
	var olds, news []task
	for i, jb := range l.Bodies {
		if k.impossible(d, jb) {
			continue
		}
		var sts []*Event
		nested := false
		for _, nd := range jb.Trace {
			if nd.Ev != nil && isStoreAt(nd.Ev, base) != nil {
				sts = append(sts, nd.Ev)
			}
			if nd.Loop != nil {
				for _, x := range nd.Loop.Bodies {
					walkNodes(x, nil, func(e evCtx) { nested = nested || isStoreAt(e.Ev, base) != nil })
				}
			}
		}
		ok := len(sts) == 1 && !nested && T.Holds(jb.Facts, T.NumEq(isStoreAt(sts[0], base), cv.Idx))
		if !c.Oblige(ok, R, d.fn, pos, "each corner gets an index", "an iteration does not set the index of its corner once") {
			continue
		}
		t := task{jb, sts[0].Args[1], i}
		if t.val == T.Len(dl.Sym) {
			news = append(news, t)
		} else {
			olds = append(olds, t)
		}
	}
	meld := it.optTerm(k.pl.St, opt, "Slicing.MeldDistance")
	if meld == nil {
		c.Undecided(R, d.fn, pos, "melding distance", "option not found")
		return
	}
	for _, t := range news {
		x := dl.Latch[t.i]
		ok := x.Op == OConcat && len(x.Args) == 2 && x.Args[0] == dl.Sym && x.Args[1].Op == OLit && strip(x.Args[1].Args[0]).Op == OStruct
		if !c.Oblige(ok, R, d.fn, pos, "the new point is added", "the points become %s", clipT(x)) {
			continue
		}
		pt := strip(x.Args[1].Args[0])
		at, pc := k.cornerOf(d, t.jb, pt.Args[k.posAt], cv.Idx)
		c.Oblige(at != nil, R, d.fn, pos, "a new point has the position of the corner", "it has %s", clipT(pt.Args[k.posAt]))
		c.Oblige(it.emptyVal(t.jb.Facts, pt.Args[k.lsAt]), "C19.list", d.fn, pos, "a new point has no faces", "it has %s", clipT(pt.Args[k.lsAt]))
		if at == nil {
			continue
		}
		d.ptsCall = pc
		k.searched(d, t.jb, dl.Sym, at, meld)
	}
	c.AtLeast(R, "ways to add a point", len(news), 1)
	for _, t := range olds {
		c.Oblige(dl.Latch[t.i] == dl.Sym, R, d.fn, pos, "no point is added for a corner that is melted", "the points become %s", clipT(dl.Latch[t.i]))
		var corner *Term
		if d.ptsCall != nil {
			corner = k.arrAt(it, t.jb.St, d.ptsCall, cv.Idx)
		}
		q := k.dist2(t.jb.St, dl.Sym, t.val, corner)
		ok := q != nil && T.Holds(t.jb.Facts, T.LeT(q, T.Mul(meld, meld)))
		c.Oblige(ok, R, d.fn, pos, "a corner gets the index of a point within the melding distance", "it gets %s", clipT(t.val))
	}
}

// impossible: the iteration needs an index listed under a hash that is negative, but only counts of points are listed.
func (k *takeover) impossible(d *dedup, jb *Path) bool {
	it := k.it
	T := it.T
	is := false
	jb.Facts.Each(func(a *Term, _ bool) {
		a.Contains(func(e *Term) bool {
			if is {
				return true
			}
			if b, _, ok := elemOf(e); ok {
				if m, _, ok := lookupOf(b); ok && m.Op == OAlloc && T.Holds(jb.Facts, T.Lt(e, T.Int(0))) {
					d.listed[m] = true
					is = true
				}
			}
			return is
		})
	})
	if is {
		for _, nd := range jb.Trace {
			if nd.Ev != nil && nd.Ev.Kind == "mapset" && len(nd.Ev.Args) >= 3 {
				d.maps[nd.Ev] = nd.Ev.Args[0]
			}
		}
	}
	return is
}

// isStoreAt: the event stores an element of the array; its index.
func isStoreAt(e *Event, base *Term) *Term {
	if e.Kind != "store" && e.Kind != "elemstore" || len(e.Args) != 2 {
		return nil
	}
	if b, i, ok := elemAddr(e.Args[0]); ok && b == base {
		return i
	}
	return nil
}

// cornerOf: v is corner J of the triangle of the iteration; the corner itself and the list of the corners.
func (k *takeover) cornerOf(d *dedup, b *Path, v, J *Term) (*Term, *Term) {
	it := k.it
	T := it.T
	is := func(x *Term) *Term {
		l, n, ok := elemAddr(x)
		if !ok || !T.Holds(b.Facts, T.NumEq(n, J)) || !strings.HasSuffix(callKeyOf(l), ".Points") || len(l.Args) != 1 {
			return nil
		}
		f := strip(l.Args[0])
		if !strings.HasSuffix(callKeyOf(f), ".Face") || len(f.Args) != 2 || strip(f.Args[0]) != strip(k.m) || !T.Holds(b.Facts, T.NumEq(f.Args[1], d.cv.Idx)) {
			return nil
		}
		return l
	}
	if l := is(strip(v)); l != nil {
		return strip(v), l
	}
	// a copy
	xyz := k.vec(it, cleanState(b.St), v)
	if xyz == nil {
		return nil, nil
	}
	_, of := fieldRead(xyz[0])
	if of == nil {
		return nil, nil
	}
	l := is(strip(of))
	if l == nil {
		return nil, nil
	}
	w := k.vec(it, cleanState(b.St), of)
	if w == nil || w[0] != xyz[0] || w[1] != xyz[1] || w[2] != xyz[2] {
		return nil, nil
	}
	return strip(of), l
}

// dist2: the square of the distance of point n to a position.
func (k *takeover) dist2(st *State, P, n, corner *Term) *Term {
	it := k.it
	T := it.T
	if corner == nil {
		return nil
	}
	a := it.addrField(it.addrIdx(P, n), k.ptT, k.posAt)
	x := k.vec(it, cleanState(st), it.loadAddr(st, a, k.vecT))
	y := k.vec(it, cleanState(st), corner)
	if x == nil || y == nil {
		return nil
	}
	r := T.Int(0)
	for i := range x {
		e := T.Sub(x[i], y[i])
		r = T.Add(r, T.Mul(e, e))
	}
	return r
}

// searched: a point is added only after everything listed under its hash was compared, and is listed there.
func (k *takeover) searched(d *dedup, jb *Path, P, corner, meld *Term) {
	const R = "C19.meld"
	c, it := k.c, k.it
	T := it.T
	pos := d.fn.Pos()
	var set *Event
	n := 0
	for _, nd := range jb.Trace {
		if nd.Ev != nil && nd.Ev.Kind == "mapset" && len(nd.Ev.Args) >= 3 {
			set = nd.Ev
			n++
		}
	}
	if !c.Oblige(n == 1, R, d.fn, pos, "a new point is listed under its hash", "it is listed %d times", n) {
		return
	}
	v := set.Args[2]
	ok := v.Op == OConcat && len(v.Args) == 2 && v.Args[1].Op == OLit && v.Args[1].Args[0] == T.Len(P)
	var list *Term
	if ok {
		list = v.Args[0]
		m, key, is := lookupOf(list)
		ok = is && m == set.Args[0] && key == set.Args[1]
	}
	if !c.Oblige(ok, R, d.fn, pos, "a new point is added to the list of its hash", "%s becomes %s", clipT(set.Args[1]), clipT(v)) {
		return
	}
	d.maps[set] = set.Args[0]
	// the hash
	rep := map[*Term]*Term{}
	for i, x := range k.vec(it, cleanState(jb.St), corner) {
		rep[x] = T.SymT("coordinate"+itoa(i), x.Typ)
	}
	bad := T.rename(set.Args[1], rep)
	dep := ""
	bad.Contains(func(t *Term) bool {
		if it.LoopDefs[t] != nil || t.Op == OSel && strings.HasPrefix(t.Args[0].Sym, "mem~") || t.Op == OCall || t.Op == OAlloc {
			dep = clipT(t)
		}
		return dep != ""
	})
	c.Oblige(dep == "", R, d.fn, pos, "the hash depends on the position only", "it depends on %s", dep)
	// the search
	why := "no loop compares the points of the list"
	for _, nd := range jb.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		cv, is := it.covers(l, T.Len(list))
		if !is || !it.exhausted(jb, cv, T.Len(list)) {
			continue
		}
		all := true
		for _, sb := range l.Bodies {
			e := it.elem(sb.St, list, cv.Idx, types.Typ[types.Int])
			q := k.dist2(sb.St, P, e, corner)
			if q == nil || !T.Refuted(sb.Facts, T.LeT(q, T.Mul(meld, meld))) {
				all = false
			}
		}
		if all {
			why = ""
		} else {
			why = "a point of the list may be passed over although it is near enough"
		}
	}
	c.Oblige(why == "", R, d.fn, pos, "a point is added only if none is near", "%s", why)
}

// dropped: an iteration that adds no face.
func (k *takeover) dropped(d *dedup, b *Path) {
	c, it := k.c, k.it
	T := it.T
	ok := false
	for _, cs := range d.triples {
		for i := 0; i < 3 && !ok; i++ {
			ok = T.Holds(b.Facts, T.NumEq(cs[i], cs[(i+1)%3]))
		}
		if ok {
			break
		}
		// faces listed with the corners
		var fs [3][]*Term
		seen := map[*Term]bool{}
		b.Facts.Each(func(a *Term, _ bool) {
			a.Contains(func(t *Term) bool {
				if seen[t] {
					return false
				}
				seen[t] = true
				l, _, is := elemAddr(t)
				if !is {
					return false
				}
				f, of := fieldRead(l)
				if f != k.list {
					return false
				}
				pl, n, is := elemAddr(of)
				if !is || !it.appended(pl, d.dP.Sym, 0) {
					return false
				}
				for j, x := range cs {
					if n == x {
						fs[j] = append(fs[j], t)
					}
				}
				return false
			})
		})
		for _, x := range fs[0] {
			for _, y := range fs[1] {
				for _, z := range fs[2] {
					// two of the three comparisons are enough
					xy, yz, xz := T.Holds(b.Facts, T.NumEq(x, y)), T.Holds(b.Facts, T.NumEq(y, z)), T.Holds(b.Facts, T.NumEq(x, z))
					ok = ok || xy && (yz || xz) || yz && xz
				}
			}
		}
	}
	c.Oblige(ok, "C19.drop", d.fn, d.fn.Pos(), "a triangle is dropped for a reason", "a triangle is dropped when %s", clipStr(factsFrom(b.Facts, d.l.NFact), 300))
}

// lists: nothing else changes the lists of the points, the hash map, or whole points.
func (k *takeover) lists(d *dedup) {
	c := k.c
	maps := map[*Term]bool{}
	for _, m := range d.maps {
		maps[m] = true
	}
	for m := range d.listed {
		maps[m] = true
	}
	n := 0
	walkEvents(d.p, func(e evCtx) {
		if a, v := k.listStore(e.Ev); a != nil {
			n++
			c.Oblige(d.lists[e.Ev], "C19.list", d.fn, e.Ev.Instr.Pos(), "the list of faces of a point", "it becomes %s", clipT(v))
		}
		if e.Ev.Kind == "mapset" && len(e.Ev.Args) >= 3 && maps[e.Ev.Args[0]] {
			_, ok := d.maps[e.Ev]
			c.Oblige(ok, "C19.meld", d.fn, e.Ev.Instr.Pos(), "the points listed under a hash", "they become %s", clipT(e.Ev.Args[2]))
		}
		if e.Ev.Kind == "store" || e.Ev.Kind == "elemstore" {
			if a := e.Ev.Args[0]; a.Op == OAddrI && strings.HasSuffix(e.Ev.Key, typeKey(k.ptT)) {
				c.Oblige(false, "C19.list", d.fn, e.Ev.Instr.Pos(), "a point as a whole", "it is replaced by %s", clipT(e.Ev.Args[1]))
			}
		}
	})
	c.AtLeast("C19.list", "additions to the lists of the points", n, 1)
}

// touching: the neighbours of each face.
func (k *takeover) touching(d *dedup, rest []Node) {
	const R = "C19.touch"
	c, it := k.c, k.it
	T := it.T
	pos := d.fn.Pos()
	touches := func(e *Event) (face, v *Term, whole bool, at *Term) {
		if e.Kind != "store" && e.Kind != "elemstore" || len(e.Args) != 2 {
			return
		}
		a := e.Args[0]
		if a.Op == OAddrI && len(a.Args) == 2 && a.Args[0].Op == OAddrF {
			at = a.Args[1]
			a = a.Args[0]
		}
		if b, _, ok := elemAddr(a); ok && a.Op == OAddrI && (b == d.F || b == d.dF.Sym) {
			return a, e.Args[1], true, nil
		}
		if a.Op == OAddrF && a.Typ != nil && types.Identical(a.Typ, k.faceT) {
			if b, _, ok := elemAddr(a.Args[0]); ok && a.Args[0].Op == OAddrI && (b == d.F || b == d.dF.Sym) {
				if a.Sym != k.touch {
					c.Oblige(false, R, d.fn, e.Instr.Pos(), "faces keep their points", "%s of a face becomes %s", a.Sym, clipT(e.Args[1]))
				}
				return a.Args[0], e.Args[1], false, at
			}
		}
		return
	}
	var l *LoopNode
	nested := false
	for _, nd := range rest {
		if nd.Loop == nil {
			continue
		}
		has := false
		for _, b := range nd.Loop.Bodies {
			walkNodes(b, nil, func(e evCtx) {
				a, _, _, _ := touches(e.Ev)
				has = has || a != nil
				nested = nested || a != nil && len(e.Loops) > 0
			})
		}
		if has {
			if l != nil {
				c.Oblige(false, R, d.fn, pos, "one loop sets the neighbours", "several loops change the faces")
			}
			l = nd.Loop
		}
	}
	if l == nil {
		c.Oblige(false, R, d.fn, pos, "neighbours are set", "no loop over the faces sets their neighbours")
		return
	}
	if nested && !it.Unroll {
		// a loop over the edges: look at it edge by edge
		k.unroll = true
		return
	}
	cv, ok := it.covers(l, T.Len(d.F))
	if !c.Oblige(ok && it.exhausted(d.p, cv, T.Len(d.F)), R, d.fn, pos, "the loop over the faces reaches all of them", "it does not run over all faces") {
		return
	}
	own := cv.Idx
	for _, b := range l.Bodies {
		var v, face *Term
		var parts [3]*Term
		n := 0
		walkNodes(b, nil, func(e evCtx) {
			a, x, whole, at := touches(e.Ev)
			if a == nil {
				return
			}
			_, i, _ := elemAddr(a)
			if !c.Oblige(T.Holds(b.Facts, T.NumEq(i, own)), R, d.fn, pos, "the neighbours of the face of the iteration are set", "those of %s are set", clipT(i)) {
				return
			}
			if len(e.Loops) > 0 {
				c.Oblige(false, R, d.fn, pos, "each face gets its neighbours", "they are set in a loop of unknown length")
				return
			}
			face = a
			if at != nil {
				if j, ok := at.ConstInt(); ok && j >= 0 && j < 3 && parts[j] == nil && v == nil {
					parts[j] = x
					n++
				} else {
					n = -1000
				}
				return
			}
			n += 3
			v = x
			if whole && v.Op != OStruct {
				c.Undecided(R, d.fn, pos, "face", "it becomes %s", clipT(v))
				v = nil
				n = -1000
				return
			}
			if whole {
				for j, x := range v.Args {
					if j == k.touchAt {
						continue
					}
					name := structOf(k.faceT).Field(j).Name()
					c.Oblige(k.unchanged(x, name, a), R, d.fn, pos, "faces keep their points", "%s of a face becomes %s", name, clipT(x))
				}
				v = v.Args[k.touchAt]
			}
		})
		if !c.Oblige(n == 3, R, d.fn, pos, "each face gets its neighbours", "an iteration does not set each of them once") {
			continue
		}
		a := face
		for j := int64(0); j < 3; j++ {
			t := parts[j]
			if v != nil {
				t = it.elem(b.St, v, T.Int(j), types.Typ[types.Int])
			}
			ok, why := k.neighbour(d, b, t, own, a, j, (j+1)%3)
			c.Oblige(ok, R, d.fn, pos, "neighbour across edge "+itoa(int(j)), "%s", why)
		}
	}
}

// unchanged: the value is field name of the face at an address.
func (k *takeover) unchanged(x *Term, name string, face *Term) bool {
	if x.Op == OArray {
		for i, e := range x.Args {
			b, n, ok := elemAddr(e)
			if !ok || !n.IsInt(int64(i)) || !k.unchanged(b, name, face) {
				return false
			}
		}
		return true
	}
	f, of := fieldRead(x)
	if f != name || of == nil {
		return false
	}
	return of == face || sameElem(of, face)
}

// sameElem: both denote the same element of the same list.
func sameElem(a, b *Term) bool {
	ab, ai, ok1 := elemAddr(a)
	bb, bi, ok2 := elemAddr(b)
	return ok1 && ok2 && ab == bb && ai == bi
}

// listAt: t is the list of faces of the point of one of the corners of the face; the corner.
func (k *takeover) listAt(d *dedup, t, face *Term) (int64, bool) {
	f, of := fieldRead(t)
	if f != k.list {
		return 0, false
	}
	pl, n, ok := elemAddr(of)
	if !ok || pl != d.P {
		return 0, false
	}
	ib, j, ok := elemAddr(n)
	if !ok {
		return 0, false
	}
	x, isC := j.ConstInt()
	f, of = fieldRead(ib)
	if !isC || f != k.idx || of != face && !sameElem(of, face) {
		return 0, false
	}
	return x, true
}

func (k *takeover) neighbour(d *dedup, b *Path, t, own, face *Term, x, y int64) (bool, string) {
	it := k.it
	T := it.T
	edge := func(a, b int64) bool { return a == x && b == y || a == y && b == x }
	if t.IsInt(-1) {
		for _, nd := range b.Trace {
			if nd.Loop == nil {
				continue
			}
			la, ca := k.loopList(d, nd.Loop, b, face)
			if la == nil || ca.c != x && ca.c != y {
				continue
			}
			all := true
			for _, ib := range nd.Loop.Bodies {
				ea := it.elem(ib.St, la, ca.cv.Idx, types.Typ[types.Int])
				if T.Holds(ib.Facts, T.NumEq(ea, own)) {
					continue
				}
				found := false
				for _, n2 := range ib.Trace {
					if n2.Loop == nil {
						continue
					}
					lb, cb := k.loopList(d, n2.Loop, ib, face)
					if lb == nil || !edge(ca.c, cb.c) {
						continue
					}
					found = true
					for _, jb := range n2.Loop.Bodies {
						eb := it.elem(jb.St, lb, cb.cv.Idx, types.Typ[types.Int])
						if !T.Holds(jb.Facts, T.NumEq(eb, own)) && !T.Refuted(jb.Facts, T.NumEq(ea, eb)) && !T.Holds(jb.Facts, T.NumEq(ea, own)) {
							found = false
						}
					}
					if found {
						break
					}
				}
				all = all && found
			}
			if all {
				return true, ""
			}
		}
		return false, "none is given although not all faces at both ends were compared"
	}
	l, _, ok := elemAddr(t)
	if !ok {
		return false, "it is " + clipT(t)
	}
	c1, ok := k.listAt(d, l, face)
	if !ok {
		return false, "it is " + clipT(t) + ", which is not listed with a corner"
	}
	if !T.Refuted(b.Facts, T.NumEq(t, own)) {
		return false, "it may be the face itself"
	}
	both := false
	b.Facts.Each(func(a *Term, _ bool) {
		a.Contains(func(u *Term) bool {
			if l2, _, ok := elemAddr(u); ok && u != t && !both {
				if c2, ok := k.listAt(d, l2, face); ok && edge(c1, c2) && T.Holds(b.Facts, T.NumEq(u, t)) {
					both = true
				}
			}
			return both
		})
	})
	if !both {
		return false, "it is " + clipT(t) + ", which may not be listed with both ends of the edge"
	}
	return true, ""
}

type listLoop struct {
	cv Cover
	c  int64
}

// loopList: the loop runs over the whole list of a corner of the face.
func (k *takeover) loopList(d *dedup, l *LoopNode, in *Path, face *Term) (*Term, listLoop) {
	it := k.it
	T := it.T
	var list *Term
	var r listLoop
	seen := map[*Term]bool{}
	look := func(t *Term) bool {
		if list != nil || seen[t] {
			return list != nil
		}
		seen[t] = true
		c, ok := k.listAt(d, t, face)
		if !ok {
			return false
		}
		if cv, ok := it.covers(l, T.Len(t)); ok && it.exhausted(in, cv, T.Len(t)) {
			list, r = t, listLoop{cv, c}
		}
		return list != nil
	}
	for _, b := range l.Bodies {
		b.Facts.Each(func(a *Term, _ bool) { a.Contains(look) })
	}
	return list, r
}

// place: every point is moved to where the settings want it.
func (k *takeover) place(d *dedup, rest []Node, opt *Term) {
	const R = "C19.place"
	c, it := k.c, k.it
	T := it.T
	pos := d.fn.Pos()
	moves := func(e *Event) *Term {
		if (e.Kind == "store" || e.Kind == "elemstore") && len(e.Args) == 2 {
			if a := e.Args[0]; a.Op == OAddrF && a.Sym == k.pos && a.Typ != nil && types.Identical(a.Typ, k.ptT) && a.Args[0].Op == OAddrI {
				return a.Args[0]
			}
		}
		return nil
	}
	total, n := 0, 0
	walkEvents(d.p, func(e evCtx) {
		if moves(e.Ev) != nil {
			total++
		}
	})
	min, max := k.extentOf(d, "Min"), k.extentOf(d, "Max")
	ctr := it.optTerm(k.pl.St, opt, "Printer.Center")
	st := cleanState(d.p.St)
	mn, mx, ce := k.vec(it, st, min), k.vec(it, st, max), k.vec(it, st, ctr)
	if mn == nil || mx == nil || ce == nil {
		c.Undecided(R, d.fn, pos, "extent and centre", "not known")
		return
	}
	for _, nd := range rest {
		l := nd.Loop
		if l == nil {
			continue
		}
		has := false
		for _, b := range l.Bodies {
			walkNodes(b, nil, func(e evCtx) { has = has || moves(e.Ev) != nil })
		}
		if !has {
			continue
		}
		cv, ok := it.covers(l, T.Len(d.P))
		if !c.Oblige(ok && it.exhausted(d.p, cv, T.Len(d.P)), R, d.fn, pos, "the loop over the points reaches all of them", "it does not run over all points") {
			continue
		}
		for _, b := range l.Bodies {
			m := 0
			for _, n2 := range b.Trace {
				if n2.Ev == nil {
					continue
				}
				a := moves(n2.Ev)
				if a == nil {
					continue
				}
				m++
				n++
				base, i, _ := elemAddr(a)
				c.Oblige(base == d.P && T.Holds(b.Facts, T.NumEq(i, cv.Idx)), R, d.fn, pos, "the point of the iteration is moved", "%s is moved", clipT(a))
				x := k.vec(it, cleanState(b.St), n2.Ev.Args[1])
				if x == nil {
					c.Undecided(R, d.fn, pos, "new position", "not known")
					continue
				}
				for j := range x {
					k.moved(d, x[j], a, j, mn, mx, ce)
				}
			}
			c.Oblige(m == 1, R, d.fn, pos, "a point is moved once", "it is moved %d times", m)
		}
	}
	c.Oblige(n > 0 && n == total, R, d.fn, pos, "all points are moved once, when all are known", "%d of %d changes of positions are part of it", n, total)
	// size
	v, fs := it.callOn(cleanState(d.p.St), d.p.Ret[0], "Size")
	s := []*Term(nil)
	if v != nil {
		s = k.vec(it, fs, v)
	}
	if s == nil {
		c.Undecided(R, d.fn, pos, "size", "not known")
		return
	}
	for j := range s {
		c.Oblige(s[j] == T.Sub(mx[j], mn[j]), R, d.fn, pos, axes[j]+" of the size", "it is %s", clipT(s[j]))
	}
}

// extentOf: the extent of the model that was read.
func (k *takeover) extentOf(d *dedup, name string) *Term {
	var r *Term
	look := func(t *Term) bool {
		if r == nil && strings.HasSuffix(callKeyOf(t), "."+name) && len(t.Args) == 1 && strip(t.Args[0]) == strip(k.m) {
			r = t
		}
		return r != nil
	}
	v, fs := k.it.callOn(cleanState(d.p.St), d.p.Ret[0], "Size")
	if v != nil {
		for _, x := range k.vec(k.it, fs, v) {
			x.Contains(look)
		}
	}
	return r
}

// moved: coordinate j of the new position.
func (k *takeover) moved(d *dedup, x, point *Term, j int, mn, mx, ce []*Term) {
	c, it := k.c, k.it
	T := it.T
	var want []*Term
	if j == 2 {
		want = []*Term{mn[2]}
	} else {
		want = []*Term{T.Quo(T.Add(mn[j], mx[j]), T.Int(2)), T.Add(mn[j], T.Quo(T.Sub(mx[j], mn[j]), T.Int(2))), T.Sub(mx[j], T.Quo(T.Sub(mx[j], mn[j]), T.Int(2)))}
	}
	ok := false
	for _, w := range want {
		old := T.Add(T.Sub(x, ce[j]), w)
		f, of := fieldRead(old)
		if f == "" {
			continue
		}
		p, at := fieldRead(of)
		if p == k.pos && (at == point || sameElem(at, point)) && !strings.Contains(of.Args[0].Sym, "@w") {
			// the same axis of the position
			v := k.vec(it, cleanState(d.p.St), of)
			ok = ok || v != nil && vecField(v[j]) == f
		}
	}
	c.Oblige(ok, "C19.place", d.fn, d.fn.Pos(), axes[j]+" of the new position", "it becomes %s", clipT(x))
}

func vecField(t *Term) string {
	f, _ := fieldRead(t)
	return f
}

// rename replaces terms everywhere inside a term.
func (tt *Terms) rename(t *Term, m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.Op == OPoly {
		r := tt.Int(0)
		for _, mo := range tt.monosOf(t) {
			p := tt.Rat(mo.C)
			for _, a := range mo.A {
				p = tt.Mul(p, tt.rename(a, m))
			}
			r = tt.Add(r, p)
		}
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = tt.rename(a, m)
		changed = changed || args[i] != a
	}
	if !changed {
		return t
	}
	withTyp := strings.HasPrefix(t.key, strconv.Itoa(int(t.Op))+"|"+t.Sym+"|")
	r := tt.mk(t.Op, t.Sym, t.Typ, withTyp, args...)
	r.Fn = t.Fn
	return r
}
