package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Retraction is always undone, at the print height, before extruding again", checkC06)
}

// setterField finds the field that a setter of the builder writes.
func (c *Ctx) setterField(bt *types.Named, name string) string {
	fn := c.W.Method(bt, name)
	if fn == nil {
		c.Undecided("C06.roles", nil, 0, "Builder."+name, "not found")
		return ""
	}
	it := NewInterp(c.W)
	args := it.ParamSyms(fn)
	st0 := it.NewState()
	pr := it.probes(args[0], bt)
	pre := map[string]*Term{}
	for _, p := range pr {
		pre[p.Name] = p.Eval(st0)
	}
	field := ""
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn {
			continue
		}
		for _, q := range pr {
			v := q.Eval(p.St)
			if v == pre[q.Name] {
				continue
			}
			if len(args) > 1 && !v.Contains(func(x *Term) bool { return x == args[1] }) {
				continue
			}
			if field != "" && field != q.Name {
				c.Undecided("C06.roles", fn, fn.Pos(), name, "more than one field is written (%s, %s)", field, q.Name)
				return ""
			}
			field = q.Name
		}
	}
	c.Oblige(field != "", "C06.roles", fn, fn.Pos(), name, "the setter does not store its value")
	return field
}

// moveModel replaces AddMoveSpeed by its effect decided by C05: an event, and the position is remembered.
func (it *Interp) moveModel(bt *types.Named) func(ci *CallInfo) (bool, []ModelOut) {
	return func(ci *CallInfo) (bool, []ModelOut) {
		if ci.Key != "gcode.Builder.AddMoveSpeed" || ci.Fn == nil || len(ci.Args) < 2 {
			return false, nil
		}
		it.event(ci.Frame, ci.St, ci.Instr.(ssa.Instruction), "call", ci.Key, ci.Args, nil)
		posT := ci.Fn.Params[1].Type()
		s := structOf(bt)
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), posT) {
				it.storeAddr(ci.St, it.addrField(ci.Args[0], bt, i), posT, ci.Args[1])
			}
		}
		return true, []ModelOut{{St: ci.St, Kind: KReturn}}
	}
}

type moveEv struct {
	e                evCtx
	x, y, z          *Term
	ext, speed       *Term
	kind             string // travel, lift, retract, feed, print
	preX, preY, preZ *Term
}

func checkC06(c *Ctx) {
	w := c.W
	c.Rule("C06.cond: filament is retracted before the travel exactly on the paths on which the crossing test of the current layer's parts and the line from the current position to the start of the path says crossing, a layer is given and retraction speed and amount are not 0")
	c.Rule("C06.pair: every retract (at the current position) is followed on the same path by exactly one travel to the start and one feed of the same amount at the start and at the print height, both with the retraction speed, before any printing move; there is no other move that feeds or retracts")
	c.Rule("C06.hop: with a positive z-hop and a retract the travel happens at print height + z-hop after a lift in place, and the print height is restored before the feed; otherwise the travel is at the print height")
	c.Rule("C06.path: the path is printed point by point from the second point to the last (and back to the first if closed), each move at the print height")
	bt := w.TypeNamed("gcode", "Builder")
	if bt == nil || w.Method(bt, "AddPolygon") == nil {
		c.Undecided("C06.cond", nil, 0, "Builder.AddPolygon", "not found")
		return
	}
	fn := w.Method(bt, "AddPolygon")
	amountF := c.setterField(bt, "SetRetractionAmount")
	speedF := c.setterField(bt, "SetRetractionSpeed")
	hopF := c.setterField(bt, "SetRetractionZHop")
	if amountF == "" || speedF == "" || hopF == "" {
		return
	}
	it := NewInterp(w)
	T := it.T
	it.Model = it.moveModel(bt)
	it.Policy = boundary
	args := it.ParamSyms(fn)
	var layer, poly, z, open *Term
	var polyT types.Type
	for i := 1; i < len(args); i++ {
		t := fn.Params[i].Type()
		b, isB := t.Underlying().(*types.Basic)
		switch {
		case isB && b.Info()&types.IsBoolean != 0:
			open = args[i]
		case isB && b.Info()&types.IsInteger != 0:
			z = args[i]
		case types.IsInterface(t):
			layer = args[i]
		default:
			if sl, ok := t.Underlying().(*types.Slice); ok {
				poly, polyT = args[i], sl.Elem()
			}
		}
	}
	if layer == nil || poly == nil || z == nil || open == nil {
		c.Undecided("C06.cond", fn, fn.Pos(), "parameters", "AddPolygon does not take a layer, a path, a height and an open flag")
		return
	}
	st0 := it.NewState()
	field := func(st *State, name string) *Term {
		for _, p := range it.probes(args[0], bt) {
			if p.Name == name {
				return p.Eval(st)
			}
		}
		return nil
	}
	amount, speed, hop := field(st0, amountF), field(st0, speedF), field(st0, hopF)
	var hopT types.Type
	for _, p := range it.probes(args[0], bt) {
		if p.Name == hopF {
			hopT = p.Typ
		}
	}
	hopMicro := it.invokeOn(st0, hop, hopT, "ToMicrometer")
	if hopMicro == nil {
		c.Undecided("C06.hop", fn, fn.Pos(), "z-hop", "conversion to micrometers not found")
		return
	}
	ps := c.RunFrom(it, fn, args, cleanState(st0), nil)
	moveFn := w.Method(bt, "AddMoveSpeed")
	posT := moveFn.Params[1].Type()

	coords := func(st *State, v *Term, t types.Type) (x, y, zz *Term) {
		x, y = it.invokeOn(st, v, t, "X"), it.invokeOn(st, v, t, "Y")
		if hasMethod(w, t, "Z") {
			zz = it.invokeOn(st, v, t, "Z")
		}
		return
	}
	same := func(f *Facts, a, b *Term) bool {
		return a != nil && b != nil && (a == b || T.Holds(f, T.NumEq(a, b)))
	}
	var Q *Term // the path that is printed
	isQ := func(b *Term) bool {
		if b == nil {
			return false
		}
		if Q == nil {
			if b == poly || (b.Op == OCall && b.Contains(func(x *Term) bool { return x == poly })) {
				Q = b
			}
		}
		return b == Q
	}
	seenB := map[*Path]bool{}
	complete, travels, prints, retracts := 0, 0, 0, 0
	var checkBody func(p *Path, top bool, loops []*LoopNode)
	pointOf := func(st *State, f *Facts, x, y *Term) (*Term, bool) {
		// which element of Q has these coordinates?
		var idx *Term
		found := false
		try := func(t *Term) {
			t.Contains(func(s *Term) bool {
				if b, i, ok := elemOf(s); ok && !found && isQ(b) {
					ex, ey, _ := coords(st, s, polyT)
					if same(f, ex, x) && same(f, ey, y) {
						idx, found = i, true
					}
				}
				return false
			})
		}
		if x != nil {
			try(x)
		}
		return idx, found
	}
	checkBody = func(p *Path, top bool, loops []*LoopNode) {
		if seenB[p] {
			return
		}
		seenB[p] = true
		f := p.Facts
		retracted, traveled, lifted := false, false, false
		crossing := 0 // 0 not tested, 1 true, -1 false
		var crossRes *Term
		moves := 0
		for i, nd := range p.Trace {
			if nd.Loop != nil {
				for _, b := range nd.Loop.Bodies {
					checkBody(b, false, append(append([]*LoopNode{}, loops...), nd.Loop))
				}
				if !c.Oblige(!retracted && !lifted, "C06.pair", fn, nd.Loop.Header.Instrs[0].Pos(), "state at loop", "filament is retracted or the head lifted when a loop starts") {
					return
				}
				continue
			}
			if nd.Exit != nil {
				loops = append(append([]*LoopNode{}, loops...), nd.Exit)
				continue
			}
			ev := nd.Ev
			if ev == nil || ev.Kind != "call" {
				continue
			}
			pos := ev.Instr.Pos()
			efn := ev.Fn
			if len(ev.Stack) > 0 {
				efn, pos = ev.Stack[len(ev.Stack)-1].Parent(), ev.Stack[len(ev.Stack)-1].Pos()
				if efn != fn {
					efn, pos = ev.Fn, ev.Instr.Pos()
				}
			}
			at := f
			if ev.Key == "clip.Clipper.IsCrossingPerimeter" {
				crossRes = ev.ResAt(T, 0)
				a := ev.Args
				okL := len(a) >= 3 && callKeyOf(a[1]) == "data.PartitionedLayer.LayerParts" && a[1].Args[0] == layer
				c.Oblige(okL, "C06.cond", efn, pos, "parts of the crossing test", "the crossing test does not get the parts of the current layer: %s", clipStr(termList(a), 150))
				okM := false
				if okL {
					l := it.listVal(p.St, a[2], polyT)
					if es, ok := listElems(l); ok && len(es) == 2 {
						// the state before any move of this body
						cx, cy, _ := c06cur(it, p, loops, args[0], bt, posT)
						x0, y0, _ := coords(p.St, es[0], polyT)
						x1, y1, _ := coords(p.St, es[1], polyT)
						k, isPt := pointOf(p.St, f, x1, y1)
						okM = same(f, x0, cx) && same(f, y0, cy) && isPt && T.Holds(f, T.NumEq(k, T.Int(0)))
						c.Oblige(okM, "C06.cond", efn, pos, "line of the crossing test", "the crossing test does not get the line from the current position to the first point of the path: (%v,%v)-(%v,%v)", x0, y0, x1, y1)
					} else {
						c.Undecided("C06.cond", efn, pos, "line of the crossing test", "the tested line is not known: %s", clipStr(l.String(), 150))
					}
				}
				continue
			}
			if ev.Key != "gcode.Builder.AddMoveSpeed" {
				continue
			}
			_ = i
			moves++
			x, y, zz := coords(p.St, ev.Args[1], posT)
			ext, sp := ev.Args[2], ev.Args[3]
			cx, cy, cz := c06before(it, p, i, loops, args[0], bt, posT)
			switch {
			case ext.IsInt(0):
				// travel or lift
				k, isPt := pointOf(p.St, f, x, y)
				inPlace := same(f, x, cx) && same(f, y, cy)
				switch {
				case !traveled && retracted && inPlace && !(isPt && same(f, zz, z)):
					c.Oblige(T.Holds(f, T.Lt0(hop)) && same(f, zz, T.Add(z, hopMicro)), "C06.hop", efn, pos, "lift before the travel", "the head is lifted to %v, expected the print height plus a positive z-hop", clipT(zz))
					lifted = true
				case isPt && traveled && lifted:
					c.Oblige(T.Holds(f, T.NumEq(k, T.Int(0))) && same(f, zz, z), "C06.hop", efn, pos, "return to the print height", "after the travel the head moves to height %s instead of the print height", clipT(zz))
					lifted = false
				case isPt && !traveled:
					travels++
					c.Oblige(T.Holds(f, T.NumEq(k, T.Int(0))), "C06.path", efn, pos, "travel to the first point", "the travel goes to point %s of the path", clipT(k))
					want := z
					if lifted {
						want = T.Add(z, hopMicro)
					}
					c.Oblige(same(f, zz, want), "C06.hop", efn, pos, "height of the travel", "the travel is done at height %s, expected %s", clipT(zz), clipT(want))
					if retracted && !lifted {
						c.Oblige(T.Holds(f, T.Not(T.Lt0(hop))), "C06.hop", efn, pos, "lift if a z-hop is configured", "filament is retracted but the head is not lifted although a z-hop may be configured")
					}
					traveled = true
					// retraction decided by now
					cross := crossRes != nil && T.Holds(f, crossRes)
					notCross := crossRes != nil && T.Holds(f, T.Not(crossRes))
					off := T.Holds(f, T.RefEq(layer, T.Nil())) || T.Holds(f, T.NumEq(speed, T.Int(0))) || T.Holds(f, T.NumEq(amount, T.Int(0)))
					on := T.Holds(f, T.Not(T.RefEq(layer, T.Nil()))) && T.Holds(f, T.Not(T.NumEq(speed, T.Int(0)))) && T.Holds(f, T.Not(T.NumEq(amount, T.Int(0))))
					if retracted {
						c.Oblige(cross && on, "C06.cond", efn, pos, "retract only if needed", "filament is retracted on a path on which the travel need not cross a perimeter or retraction is not configured (%s)", clipStr(f.String(), 250))
						crossing = 1
					} else {
						c.Oblige(notCross || off, "C06.cond", efn, pos, "retract if needed", "filament is not retracted on a path on which the travel may cross a perimeter with retraction configured (%s)", clipStr(f.String(), 250))
						crossing = -1
					}
				default:
					c.Oblige(false, "C06.path", efn, pos, "unexpected move", "a move without extrusion to (%s, %s, %s) is neither the travel to the path nor part of a z-hop", clipT(x), clipT(y), clipT(zz))
				}
			case ext == T.Neg(amount):
				retracts++
				c.Oblige(!retracted && !traveled, "C06.pair", efn, pos, "retract before the travel", "filament is retracted a second time or after the travel")
				c.Oblige(same(f, x, cx) && same(f, y, cy) && same(f, zz, cz), "C06.pair", efn, pos, "retract in place", "the retract moves the head to (%s, %s, %s)", clipT(x), clipT(y), clipT(zz))
				c.Oblige(same(f, sp, speed), "C06.pair", efn, pos, "speed of the retract", "the retract is done with speed %s instead of the retraction speed", clipT(sp))
				retracted = true
			case ext == amount:
				c.Oblige(retracted && traveled && !lifted, "C06.pair", efn, pos, "feed after retract, travel and lowering", "filament is fed back without a retract before, before the travel or at the lifted height (retracted %v, traveled %v, lifted %v)", retracted, traveled, lifted)
				k, isPt := pointOf(p.St, f, x, y)
				c.Oblige(isPt && T.Holds(f, T.NumEq(k, T.Int(0))) && same(f, zz, z), "C06.pair", efn, pos, "feed at the start of the path at the print height", "filament is fed back at (%s, %s, %s)", clipT(x), clipT(y), clipT(zz))
				c.Oblige(same(f, sp, speed), "C06.pair", efn, pos, "speed of the feed", "filament is fed back with speed %s instead of the retraction speed", clipT(sp))
				retracted = false
			default:
				prints++
				c.Oblige(!retracted && !lifted, "C06.pair", efn, pos, "no printing while retracted or lifted", "a printing move is made while filament is retracted or the head is lifted")
				c.Oblige(same(at, zz, z), "C06.path", efn, pos, "height of a printing move", "a printing move is made at height %s instead of the requested one", clipT(zz))
			}
		}
		_ = crossing
		if p.Kind == KLatch || (p.Kind == KReturn && !returnsError(p)) {
			c.Oblige(!retracted && !lifted, "C06.pair", fn, fn.Pos(), "retract undone at the end", "a path ends with filament retracted or the head lifted (%s)", clipStr(f.String(), 250))
			complete++
		}
	}
	for _, p := range ps {
		if p.Kind == KReturn {
			checkBody(p, true, nil)
		}
	}
	// the printed points
	if Q == nil {
		c.Undecided("C06.path", fn, fn.Pos(), "printed path", "no move goes to a point of the given path")
		return
	}
	c.printedPoints(it, fn, ps, Q, polyT, posT, z, open, poly, amount, coords, same)
	c.AtLeast("C06.anchors", "travel moves analysed", travels, 3)
	c.AtLeast("C06.anchors", "printing moves analysed", prints, 2)
	c.AtLeast("C06.anchors", "retracts analysed", retracts, 2)
}

func clipT(t *Term) string {
	if t == nil {
		return "?"
	}
	return clipStr(t.String(), 90)
}

// Lt0: 0 < t for a float or integer.
func (tt *Terms) Lt0(t *Term) *Term {
	isInt := t.Typ != nil && isInteger(t.Typ)
	return tt.order(tt.Neg(t), true, isInt)
}

func returnsError(p *Path) bool {
	return len(p.Ret) == 1 && errNonNilTerm(p.Ret[0], p.Facts)
}

func errNonNilTerm(t *Term, f *Facts) bool {
	if t.Op == OFn && strings.HasPrefix(t.Sym, "err:") {
		return true
	}
	return !t.IsNil()
}

// c06before gives the remembered position before node i of a path.
func c06before(it *Interp, p *Path, i int, loops []*LoopNode, recv *Term, bt *types.Named, posT types.Type) (x, y, z *Term) {
	for k := i - 1; k >= 0; k-- {
		nd := p.Trace[k]
		if nd.Loop != nil {
			return nil, nil, nil
		}
		if nd.Exit != nil {
			break
		}
		if nd.Ev != nil && nd.Ev.Key == "gcode.Builder.AddMoveSpeed" {
			v := nd.Ev.Args[1]
			return it.invokeOn(p.St, v, posT, "X"), it.invokeOn(p.St, v, posT, "Y"), it.invokeOn(p.St, v, posT, "Z")
		}
	}
	return c06cur(it, p, loops, recv, bt, posT)
}

// c06cur gives the remembered position at the start of a path or loop iteration.
func c06cur(it *Interp, p *Path, loops []*LoopNode, recv *Term, bt *types.Named, posT types.Type) (x, y, z *Term) {
	s := structOf(bt)
	for i := 0; i < s.NumFields(); i++ {
		if !types.Identical(s.Field(i).Type(), posT) {
			continue
		}
		st := it.NewState()
		v := it.loadAddr(st, it.addrField(recv, bt, i), posT)
		if len(loops) > 0 {
			l := loops[len(loops)-1]
			for _, d := range l.Defs {
				mk, key := it.cellOf(d.Mem)
				if mk == "" {
					mk, key = d.Mem, d.Addr
				}
				if mk == fieldKey(bt, s.Field(i).Name()) && len(key) > 0 && key[0] == recv {
					v = d.Sym
				}
			}
		}
		return it.invokeOn(p.St, v, posT, "X"), it.invokeOn(p.St, v, posT, "Y"), it.invokeOn(p.St, v, posT, "Z")
	}
	return nil, nil, nil
}

// printedPoints: points 1..n-1 are printed in order and the path is closed unless open.
func (c *Ctx) printedPoints(it *Interp, fn *ssa.Function, ps []*Path, Q *Term, polyT, posT types.Type, z, open, poly, amount *Term,
	coords func(*State, *Term, types.Type) (*Term, *Term, *Term), same func(*Facts, *Term, *Term) bool) {
	const R = "C06.path"
	T := it.T
	n := T.Len(Q)
	isPrint := func(p *Path, nd Node) bool {
		if nd.Ev == nil || nd.Ev.Key != "gcode.Builder.AddMoveSpeed" {
			return false
		}
		e := nd.Ev.Args[2]
		return !e.IsInt(0) && e != amount && e != T.Neg(amount)
	}
	elemAt := func(p *Path, k *Term) (*Term, *Term) {
		x, y, _ := coords(p.St, it.elem(p.St, Q, k, polyT), polyT)
		return x, y
	}
	toPoint := func(p *Path, nd Node, k *Term) bool {
		x, y, _ := coords(p.St, nd.Ev.Args[1], posT)
		ex, ey := elemAt(p, k)
		return same(p.Facts, x, ex) && same(p.Facts, y, ey)
	}
	loopsOK := map[*LoopNode]bool{}
	loopSeen := map[*LoopNode]bool{}
	var cov *Cover
	for _, p := range ps {
		if p.Kind != KReturn || returnsError(p) {
			continue
		}
		printed, closed, any := false, false, false
		for i, nd := range p.Trace {
			if nd.Loop != nil {
				has := false
				for _, b := range nd.Loop.Bodies {
					for _, m := range b.Trace {
						if isPrint(b, m) {
							has = true
						}
					}
				}
				if !has {
					continue
				}
				any = true
				if !loopSeen[nd.Loop] {
					loopSeen[nd.Loop] = true
					for _, ctr := range it.counters(nd.Loop) {
						if !ctr.Step.IsInt(1) {
							continue
						}
						for off := int64(-1); off <= 1; off++ {
							k := T.Add(ctr.Def.Sym, T.Int(off))
							first, ok := T.Add(ctr.First, T.Int(off)).ConstInt()
							if !ok || first < 0 || first > 1 || !it.guarded(nd.Loop, T.Lt(k, n)) {
								continue
							}
							good := true
							for _, b := range nd.Loop.Bodies {
								cnt := 0
								for _, m := range b.Trace {
									if isPrint(b, m) {
										cnt++
										good = good && toPoint(b, m, k)
									}
								}
								if T.Holds(b.Facts, T.NumEq(k, T.Int(0))) {
									good = good && cnt == 0
								} else {
									good = good && cnt == 1 && (first == 1 || T.Holds(b.Facts, T.Not(T.NumEq(k, T.Int(0)))))
								}
							}
							if good {
								loopsOK[nd.Loop] = true
								cov = &Cover{Idx: k, Ctr: ctr}
							}
						}
					}
					c.Oblige(loopsOK[nd.Loop], R, fn, nd.Loop.Header.Instrs[0].Pos(), "loop over the points", "the loop over the points does not print every point from the second one in order, one move each")
				}
				if loopsOK[nd.Loop] && cov != nil {
					printed = it.exhausted(p, *cov, n)
				}
				continue
			}
			if isPrint(p, nd) {
				// outside of the loop: closing move
				any = true
				if toPoint(p, nd, T.Int(0)) && !closed {
					closed = true
				} else {
					c.Oblige(false, R, fn, nd.Ev.Instr.Pos(), "closing move", "a printing move outside of the loop over the points does not go to the first point")
				}
			}
			_ = i
		}
		emptyP := T.Holds(p.Facts, T.NumEq(T.Len(poly), T.Int(0))) || T.Holds(p.Facts, T.NumEq(n, T.Int(0)))
		if emptyP && !any {
			continue
		}
		// a single point needs no further move
		c.Oblige(printed || T.Holds(p.Facts, T.LeT(n, T.Int(1))), R, fn, fn.Pos(), "all points are printed", "a successful path does not print all points (%s)", clipStr(p.Facts.String(), 250))
		isOpen, isClosed := T.Holds(p.Facts, open), T.Holds(p.Facts, T.Not(open))
		c.Oblige((closed && isClosed) || (!closed && isOpen), R, fn, fn.Pos(), "closed exactly if requested", "the path is closed: %v, open requested: %v, closed requested: %v", closed, isOpen, isClosed)
	}
	c.AtLeast("C06.anchors", "loops over the points", len(loopSeen), 1)
}
