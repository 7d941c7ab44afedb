package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cutInfo describes how the slicer cuts the faces of the model.
type cutInfo struct {
	It     *Interp
	Fn     *ssa.Function
	Args   []*Term
	Paths  []*Path
	Init   *Term // initial layer thickness
	Th     *Term // layer thickness
	Bodies []*cutBody
	Segs   int
	segT   types.Type
	ptIdx  []int // the two point fields of a segment
}

// cutBody is one way through the loop over the layers of a face.
type cutBody struct {
	Face  *LoopNode // loop over the faces
	FaceB *Path
	Loop  *LoopNode // loop over the layers of the face
	B     *Path
	Nr    *Term // layer number: the counter of the inner loop
	Z     *Term // init + n*thickness
	Pts   [3]*Term
	X, Y  [3]*Term
	H     [3]*Term // heights
	Segs  []*segInfo
	None  *Event  // adds a segment that does not exist
	Last  []*Path // paths with which the inner loop is left
}

type segInfo struct {
	Ev    *Event
	Slot  *Term // the layer it is added to: slot index, nil if not known
	SlotB *Term // list of layers
	P     [2]*Term
	X, Y  [2]*Term
}

// cuts analyses the slicer of the built-in pipeline.
func (c *Ctx) cuts(rule string) *cutInfo {
	pl := c.pipeline(rule)
	if pl == nil {
		return nil
	}
	v := pl.Stage["Slicer"]
	if v == nil {
		return nil
	}
	ci := &cutInfo{}
	r := c.initAndRun(pl, v, "Slice", func(it *Interp) {
		it.Policy = boundary
		it.RecordStores = true
		it.RecordAllocs = true
	}, nil)
	ci.It, ci.Fn, ci.Args, ci.Paths = r.It, r.Fn, r.Args, r.Paths
	if ci.Fn == nil {
		return nil
	}
	it, T := ci.It, ci.It.T
	// the settings of the slicer
	opt := c.stageOptions(pl, v)
	if opt == nil {
		c.Undecided(rule, ci.Fn, ci.Fn.Pos(), "settings", "the settings of the slicer are not known")
		return nil
	}
	ci.Init, ci.Th = it.optTerm(pl.St, opt, "Print.InitialLayerThickness"), it.optTerm(pl.St, opt, "Print.LayerThickness")
	if ci.Init == nil || ci.Th == nil {
		c.Undecided(rule, nil, 0, "layer thickness", "option not found")
		return nil
	}
	vecT := c.W.TypeNamed("data", "MicroVec3")
	ptT := c.W.TypeNamed("data", "MicroPoint")
	if vecT == nil || ptT == nil {
		c.Undecided(rule, nil, 0, "MicroVec3", "not found")
		return nil
	}
	isSeg := func(t *Term) bool {
		if t.Op != OAlloc || t.Typ == nil {
			return false
		}
		typ := t.Typ
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		s := structOf(typ)
		if s == nil {
			return false
		}
		var idx []int
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), ptT) {
				idx = append(idx, i)
			}
		}
		if len(idx) != 2 {
			return false
		}
		ci.segT, ci.ptIdx = typ, idx
		return true
	}
	seen := map[*LoopNode]bool{}
	for _, p := range ci.Paths {
		for _, nd := range p.Trace {
			if nd.Loop == nil || seen[nd.Loop] {
				continue
			}
			seen[nd.Loop] = true
			outer := nd.Loop
			for _, fb := range outer.Bodies {
				for k, m := range fb.Trace {
					if m.Loop == nil {
						continue
					}
					inner := m.Loop
					// does it add segments?
					add := false
					for _, b := range inner.Bodies {
						for _, e := range b.Trace {
							if e.Ev != nil && len(segsOf(e.Ev, isSeg)) > 0 {
								add = true
							}
						}
					}
					if !add {
						continue
					}
					_ = k
					for _, b := range inner.Bodies {
						cb := &cutBody{Face: outer, FaceB: fb, Loop: inner, B: b}
						for _, e := range b.Trace {
							if e.Ev == nil {
								continue
							}
							for _, s := range segsOf(e.Ev, isSeg) {
								si := &segInfo{Ev: e.Ev}
								si.SlotB, si.Slot = slotOf(b, e.Ev.Args[0])
								for i := 0; i < 2; i++ {
									f := structOf(ci.segT).Field(ci.ptIdx[i])
									si.P[i] = it.loadAddr(b.St, it.addrField(s, ci.segT, ci.ptIdx[i]), f.Type())
									si.X[i] = it.invokeOn(b.St, si.P[i], ptT, "X")
									si.Y[i] = it.invokeOn(b.St, si.P[i], ptT, "Y")
								}
								cb.Segs = append(cb.Segs, si)
								ci.Segs++
							}
						}
						ci.Bodies = append(ci.Bodies, cb)
					}
				}
			}
		}
	}
	for _, b := range ci.Bodies {
		for _, e := range b.B.Trace {
			if e.Ev == nil || len(e.Ev.Args) < 2 || e.Ev.Args[1].Op != OConcat || e.Ev.Args[1].Typ == nil || ci.segT == nil {
				continue
			}
			sl, ok := e.Ev.Args[1].Typ.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if pt, ok := sl.Elem().Underlying().(*types.Pointer); !ok || !types.Identical(pt.Elem(), ci.segT) {
				continue
			}
			for _, a := range e.Ev.Args[1].Args {
				if a.Op == OLit && a.Args[0].IsNil() {
					b.None = e.Ev
				}
			}
		}
		// the three corners
		look := func(t *Term) {
			t.Contains(func(x *Term) bool {
				if x.Op == OFn && x.Sym == "idx" && len(x.Args) == 2 && strings.HasSuffix(callKeyOf(x.Args[0]), ".Points") {
					if k, ok := x.Args[1].ConstInt(); ok && k >= 0 && k < 3 {
						b.Pts[k] = x
					}
				}
				return false
			})
		}
		b.FaceB.Facts.Each(func(a *Term, _ bool) { look(a) })
		b.B.Facts.Each(func(a *Term, _ bool) { look(a) })
		for _, d := range b.Loop.Defs {
			look(d.Init)
		}
		for k := 0; k < 3; k++ {
			if b.Pts[k] == nil {
				continue
			}
			b.X[k] = it.invokeOn(b.B.St, b.Pts[k], vecT, "X")
			b.Y[k] = it.invokeOn(b.B.St, b.Pts[k], vecT, "Y")
			b.H[k] = it.invokeOn(b.B.St, b.Pts[k], vecT, "Z")
		}
		for _, ctr := range it.counters(b.Loop) {
			if ctr.Step.IsInt(1) {
				b.Nr = ctr.Def.Sym
				b.Z = T.Add(ci.Init, T.Mul(ci.Th, b.Nr))
			}
		}
		for _, n := range b.FaceB.Trace {
			if n.Loop == b.Loop {
				b.Last = []*Path{b.FaceB}
			}
		}
	}
	return ci
}

// segsOf: the segments an event appends to a list.
func segsOf(e *Event, isSeg func(*Term) bool) []*Term {
	if (e.Kind != "store" && e.Kind != "allocstore" && e.Kind != "elemstore") || len(e.Args) < 2 {
		return nil
	}
	v := e.Args[1]
	if v.Op != OConcat {
		return nil
	}
	var r []*Term
	for _, a := range v.Args {
		if a.Op == OLit && isSeg(strip(a.Args[0])) {
			r = append(r, strip(a.Args[0]))
		}
	}
	return r
}

// slotOf: which element of which list is the object behind the address?
func slotOf(b *Path, addr *Term) (list, idx *Term) {
	o := addr
	for o.Op == OAddrF && len(o.Args) > 0 {
		o = o.Args[0]
	}
	if l, i, ok := elemOf(o); ok {
		return l, i
	}
	// a new object that was put into the list before
	for _, nd := range b.Trace {
		if nd.Ev != nil && nd.Ev.Kind == "elemstore" && len(nd.Ev.Args) > 1 && strip(nd.Ev.Args[1]) == o && nd.Ev.Args[0].Op == OAddrI {
			return nd.Ev.Args[0].Args[0], nd.Ev.Args[0].Args[1]
		}
	}
	return nil, nil
}

// stageOptions: the settings held by a stage.
func (c *Ctx) stageOptions(pl *Pipeline, v *Term) *Term {
	if v == nil || v.Op != OIface {
		return nil
	}
	typ := v.Typ
	if p, ok := typ.(*types.Pointer); ok {
		typ = p.Elem()
	}
	s := structOf(typ)
	optT := c.W.TypeNamed("data", "Options")
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if fp, ok := s.Field(i).Type().(*types.Pointer); ok && types.Identical(fp.Elem(), optT) {
			if v.Typ == typ {
				return pl.It.T.FieldOf(v.Args[0], s.Field(i).Name(), i, s.Field(i).Type())
			}
			return pl.It.loadAddr(pl.St, pl.It.addrField(v.Args[0], typ, i), s.Field(i).Type())
		}
	}
	return nil
}
