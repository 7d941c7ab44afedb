package main

import (
	"fmt"
)

func init() {
	register("C17", "Cutting a triangle yields the right segment for every vertex position", checkC17)
}

func checkC17(c *Ctx) {
	c.Rule("C17.table: for each of the 27 positions of the three corners relative to the plane (below, in, above) and every way through the loop body that is compatible with it, exactly one segment is added if one corner is below and the others are not, or two are below and the third is above; otherwise none")
	c.Rule("C17.edge: the two end points of a segment are the linear interpolation on the two edges between the lone corner and the others at the height of the layer the segment is added to")
	c.Rule("C17.direction: relative to the order of the corners, segments always run in the same direction around the material")
	c.Rule("C17.heights: the loop over the layers starts at or below the lowest and ends at or above the highest layer that can cut the triangle, and visits every layer and every face")
	ci := c.cuts("C17.pipeline")
	if ci == nil {
		return
	}
	it, T := ci.It, ci.It.T
	fn := ci.Fn
	if len(ci.Bodies) == 0 {
		c.Undecided("C17.table", fn, fn.Pos(), "loop over faces and layers", "no loop that adds segments found")
		return
	}
	// direction: +1 if the first point field lies on the edge to the next corner, for a lone corner below
	dir := 0
	type key struct{ k, s int }
	signs := [3]string{"below", "in the plane", "above"}
	cases, matched := 0, 0
	for _, b := range ci.Bodies {
		pos := b.Loop.Header.Instrs[0].Pos()
		if b.Nr == nil || b.H[0] == nil || b.H[1] == nil || b.H[2] == nil {
			c.Undecided("C17.table", fn, pos, "corners and layer number", "the corners of the face or the number of the layer are not known")
			return
		}
		for combo := 0; combo < 27; combo++ {
			s := [3]int{combo % 3, combo / 3 % 3, combo / 9 % 3}
			f, ok := b.B.Facts, true
			assume := func(t *Term, v bool) {
				if ok {
					f, ok = T.Assume(f, t, v)
				}
			}
			for k := 0; k < 3; k++ {
				switch s[k] {
				case 0:
					assume(T.Lt(b.H[k], b.Z), true)
				case 1:
					assume(T.NumEq(b.H[k], b.Z), true)
				case 2:
					assume(T.Lt(b.Z, b.H[k]), true)
				}
			}
			// the same known from the loop over the faces and the order of the heights
			assume(T.LeT(T.Int(0), b.Nr), true)
			if !ok || c.signsContradict(it, b, s, f) {
				continue
			}
			cases++
			below, above := 0, 0
			lone := -1
			for k := 0; k < 3; k++ {
				if s[k] == 0 {
					below++
				}
				if s[k] == 2 {
					above++
				}
			}
			if b.None != nil {
				c.Oblige(false, "C17.table", b.None.Fn, b.None.Instr.Pos(), "existing segments only", "the slicer adds a segment that was not made when %s", clipStr(f.String(), 200))
				break
			}
			want := 0
			if below == 1 {
				want = 1
				for k := 0; k < 3; k++ {
					if s[k] == 0 {
						lone = k
					}
				}
			}
			if below == 2 && above == 1 {
				want = 1
				for k := 0; k < 3; k++ {
					if s[k] == 2 {
						lone = k
					}
				}
			}
			desc := fmt.Sprintf("corner 0 %s, corner 1 %s, corner 2 %s", signs[s[0]], signs[s[1]], signs[s[2]])
			if len(b.Segs) == 0 && want == 1 {
				// no layer of the model has this number
				if oob(it, b, f) {
					continue
				}
			}
			if !c.Oblige(len(b.Segs) == want, "C17.table", fn, pos, "segments of a triangle", "with %s the slicer adds %d segments instead of %d (%s)", desc, len(b.Segs), want, clipStr(b.B.Facts.String(), 200)) || want == 0 {
				continue
			}
			matched++
			sg := b.Segs[0]
			sfn, spos := sg.Ev.Fn, sg.Ev.Instr.Pos()
			c.Oblige(sg.Slot != nil && T.Holds(f, T.NumEq(sg.Slot, b.Nr)), "C17.edge", sfn, spos, "layer of the segment", "the segment is added to layer %s, but cut at the height of layer %s", clipT(sg.Slot), clipT(b.Nr))
			edge := [2]int{-1, -1} // other corner of each end point
			for e := 0; e < 2; e++ {
				for k := 0; k < 3; k++ {
					if k == lone {
						continue
					}
					if onEdge(it, b, sg, e, lone, k) {
						edge[e] = k
					}
				}
			}
			if !c.Oblige(edge[0] >= 0 && edge[1] >= 0 && edge[0] != edge[1], "C17.edge", sfn, spos, "end points", "with %s the end points of the segment are not the interpolation on the two edges that cross the plane: (%s, %s)", desc, clipT(sg.X[0]), clipT(sg.X[1])) {
				continue
			}
			d := 1
			if edge[0] != (lone+1)%3 {
				d = -1
			}
			if below == 2 {
				d = -d
			}
			if dir == 0 {
				dir = d
			}
			c.Oblige(d == dir, "C17.direction", sfn, spos, "direction", "with %s the segment runs against the direction of the other cases", desc)
		}
	}
	c.AtLeast("C17.anchors", "corner positions on paths", cases, 27)
	c.AtLeast("C17.anchors", "positions with a segment", matched, 9)
	c.heightsVisited(ci)
}

// signsContradict: the order of the heights known on the path excludes the given position.
func (c *Ctx) signsContradict(it *Interp, b *cutBody, s [3]int, f *Facts) bool {
	T := it.T
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if i == j {
				continue
			}
			d := T.Lt(b.H[i], b.H[j])
			if T.Holds(f, d) && s[i] > s[j] || T.Holds(f, d) && s[i] == 1 && s[j] == 1 {
				return true
			}
			if T.Refuted(f, d) && s[i] < s[j] {
				return true
			}
		}
	}
	return false
}

// oob: the number of the layer is known to be out of range.
func oob(it *Interp, b *cutBody, f *Facts) bool {
	T := it.T
	if T.Holds(f, T.Lt(b.Nr, T.Int(0))) {
		return true
	}
	r := false
	f.Each(func(a *Term, val bool) {
		a.Contains(func(x *Term) bool {
			if x.Op == OLen && T.Holds(f, T.LeT(x, b.Nr)) {
				r = true
			}
			return false
		})
	})
	return r
}

// onEdge: end point e of the segment is a + (b-a)*(z-a.z)/(b.z-a.z).
func onEdge(it *Interp, b *cutBody, sg *segInfo, e, from, to int) bool {
	T := it.T
	at := func(v *Term, p [3]*Term, from, to int) bool {
		num := T.Mul(T.Sub(p[to], p[from]), T.Sub(b.Z, b.H[from]))
		den := T.Sub(b.H[to], b.H[from])
		return v != nil && v == T.Add(p[from], T.Quo(num, den))
	}
	// both directions of the edge describe the same line
	any := func(v *Term, p [3]*Term) bool { return at(v, p, from, to) || at(v, p, to, from) }
	return any(sg.X[e], b.X) && any(sg.Y[e], b.Y)
}

// heightsVisited: the range of the loop over the layers.
func (c *Ctx) heightsVisited(ci *cutInfo) {
	const R = "C17.heights"
	it, T := ci.It, ci.It.T
	fn := ci.Fn
	seen := map[*LoopNode]bool{}
	faces := map[*LoopNode]bool{}
	for _, b := range ci.Bodies {
		faces[b.Face] = true
		if seen[b.Loop] {
			continue
		}
		seen[b.Loop] = true
		pos := b.Loop.Header.Instrs[0].Pos()
		ff := b.FaceB.Facts
		var first *Term
		for _, ctr := range it.counters(b.Loop) {
			if ctr.Def.Sym == b.Nr {
				first = ctr.First
			}
		}
		// start: 0 or below, or the layer of the lowest corner
		ok := first != nil && T.Holds(ff, T.LeT(first, T.Int(0)))
		for k := 0; k < 3 && !ok && first != nil; k++ {
			low := true
			for j := 0; j < 3; j++ {
				low = low && (j == k || T.Holds(ff, T.LeT(b.H[k], b.H[j])))
			}
			d := T.Sub(first, T.Quo(T.Sub(b.H[k], ci.Init), ci.Th))
			if n, isC := d.ConstInt(); isC && n <= 0 && low {
				ok = true
			}
		}
		c.Oblige(ok, R, fn, pos, "first layer of a face", "the loop over the layers starts at %s, which is not known to be at or below the lowest corner of the face", clipT(first))
		// end: the loop is only left above the highest corner or behind the last layer
		end := false
		exits := 0
		inPart := false
		for _, nd := range b.FaceB.Trace {
			if nd.Exit != nil {
				inPart = nd.Exit == b.Loop
			}
		}
		if inPart {
			exits++
			for k := 0; k < 3; k++ {
				high := true
				for j := 0; j < 3; j++ {
					high = high && (j == k || T.Holds(ff, T.LeT(b.H[j], b.H[k])))
				}
				if high && (T.Holds(ff, T.Lt(T.Quo(T.Sub(b.H[k], ci.Init), ci.Th), b.Nr)) || T.Holds(ff, T.Lt(b.H[k], b.Z))) {
					end = true
				}
			}
			if oob(it, b, ff) && T.Holds(ff, T.LeT(T.Int(0), b.Nr)) {
				end = true
			}
		}
		c.Oblige(end, R, fn, pos, "last layer of a face", "the loop over the layers may be left before the highest corner of the face is passed (%s)", clipStr(ff.String(), 300))
	}
	// every face
	for l := range faces {
		pos := l.Header.Instrs[0].Pos()
		n := T.mk(OCall, "data.Model.FaceCount", nil, false, ci.Args[1])
		var cnt *Term
		for _, b := range l.Bodies {
			b.Facts.Each(func(a *Term, _ bool) {
				a.Contains(func(x *Term) bool {
					if x.Op == OCall && callKeyOf(x) == "data.Model.FaceCount" || callKeyOf(x) == "data.OptimizedModel.FaceCount" {
						cnt = x
					}
					return false
				})
			})
		}
		_ = n
		if cnt == nil {
			c.Undecided(R, fn, pos, "number of faces", "the loop over the faces is not bounded by the number of faces")
			continue
		}
		cv, full := it.covers(l, cnt)
		c.Oblige(full && cnt.Args[0] == ci.Args[1], R, fn, pos, "every face", "the loop does not run over all faces of the model")
		for _, b := range l.Bodies {
			has := false
			for _, nd := range b.Trace {
				if nd.Loop != nil && seen[nd.Loop] {
					has = true
				}
			}
			if !has {
				// a flat face cannot be cut
				H := ci.Bodies[0].H
				flat := true
				for i := 0; i < 3; i++ {
					for j := 0; j < 3; j++ {
						flat = flat && T.Holds(b.Facts, T.LeT(H[i], H[j]))
					}
				}
				has = flat
			}
			c.Oblige(has, R, fn, pos, "no face left out", "a face is left out on a path (%s)", clipStr(b.Facts.String(), 200))
			// the corners are those of the current face
			for _, cb := range ci.Bodies {
				if cb.FaceB != b {
					continue
				}
				for k := 0; k < 3; k++ {
					pc := cb.Pts[k].Args[0]
					ok := len(pc.Args) > 0 && len(pc.Args[0].Args) == 2 && full && pc.Args[0].Args[1] == cv.Idx && pc.Args[0].Args[0] == ci.Args[1]
					if !ok {
						c.Oblige(false, R, fn, pos, "corners of the face", "the corners are not those of the current face: %s", clipT(pc))
						break
					}
				}
			}
		}
		for _, p := range ci.Paths {
			for _, nd := range p.Trace {
				if nd.Loop == l && full && p.Kind == KReturn && len(p.Ret) == 2 && p.Ret[1].IsNil() {
					c.Oblige(it.exhausted(p, cv, cnt), R, fn, pos, "all faces", "the loop over the faces may be left before the last face")
				}
			}
		}
	}
	c.AtLeast("C17.anchors", "loops over the layers of a face", len(seen), 1)
}

var _ = fmt.Sprint
