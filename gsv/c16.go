package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "Area operations respect holes, operand roles and nesting", checkC16)
}

const clipLib = "github.com/aligator/go.clipper"

// clipCheck holds what the rules about the clipping layer share.
type clipCheck struct {
	c     *Ctx
	lib   *types.Package
	opens bool                                     // open subjects are looked at elsewhere
	extra func(it *Interp, p *Path, t *Term) *Term // further copies
	convs map[*ssa.Function]bool                   // verified conversions between the libraries' points and paths
	tree  map[*ssa.Function]bool                   // verified tree readers
}

func (k *clipCheck) constant(name string) (int64, bool) {
	o, ok := k.lib.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(o.Val())
}

func (k *clipCheck) libType(name string) types.Type {
	o, ok := k.lib.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return o.Type()
}

// clipping prepares the rules about package clip.
func (c *Ctx) clipping(rule string) *clipCheck {
	k := &clipCheck{c: c, convs: map[*ssa.Function]bool{}, tree: map[*ssa.Function]bool{}}
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == clipLib {
			k.lib = p.Pkg
		}
	}
	if k.lib == nil {
		c.Undecided(rule, nil, 0, "clipping library", "package %s is not used", clipLib)
		return nil
	}
	return k
}

// policy: conversions and readers are functions of their arguments.
func (k *clipCheck) policy(ci *CallInfo) Action {
	if ci.Fn != nil && (k.convs[ci.Fn] || k.tree[ci.Fn]) {
		return APure
	}
	switch ci.Key {
	case clipLib + ".PolyNode.Childs", clipLib + ".PolyNode.Contour", "data.Path.Simplify", "data.NewBasicLayerPart", "data.NewPartitionedLayer":
		return APure
	}
	if strings.HasPrefix(ci.Key, "log.Logger.") {
		return ASkip
	}
	return ADefault
}

func (k *clipCheck) interp(it *Interp) *Interp {
	if it == nil {
		it = NewInterp(k.c.W)
	}
	it.Policy = k.policy
	it.RecordStores = true
	return it
}

func (k *clipCheck) gather(it *Interp) *gather {
	keys := map[string]bool{"data.Path.Simplify": true}
	for fn := range k.convs {
		keys[k.c.W.calleeKey(fn, nil)] = true
	}
	return &gather{it: it, conv: func(p *Path, t *Term) *Term {
		if keys[callKeyOf(t)] && len(t.Args) > 0 {
			return t.Args[0]
		}
		if k.extra != nil {
			if x := k.extra(it, p, t); x != nil {
				return x
			}
		}
		return k.copied(it, p, t)
	}}
}

// geomOf: which geometric type a type is: point, path, paths, of ours or of the library.
func (k *clipCheck) geomOf(t types.Type) (level int, lib bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	d := func(n string) types.Type { return k.c.W.TypeNamed("data", n) }
	for i, pair := range [][2]types.Type{{d("MicroPoint"), k.libType("IntPoint")}, {d("Path"), k.libType("Path")}, {d("Paths"), k.libType("Paths")}} {
		if pair[0] != nil && types.Identical(t, pair[0]) {
			return i + 1, false
		}
		if pair[1] != nil && types.Identical(t, pair[1]) {
			return i + 1, true
		}
	}
	return 0, false
}

// points verifies the conversions: coordinate by coordinate, element by element, nothing left out.
func (k *clipCheck) points() {
	const R = "C16.points"
	c, w := k.c, k.c.W
	type cand struct {
		fn    *ssa.Function
		level int
		toLib bool
	}
	var cs [4][]cand
	seen := map[bool]int{}
	for _, fn := range w.RepoFns {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Params().Len() == 0 || fn.Signature.Results().Len() != 1 {
			continue
		}
		a, al := k.geomOf(fn.Signature.Params().At(0).Type())
		b, bl := k.geomOf(fn.Signature.Results().At(0).Type())
		if a == 0 || a != b || al == bl {
			continue
		}
		extra := false
		for i := 1; i < fn.Signature.Params().Len(); i++ {
			if bt, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
				extra = true
			}
		}
		if extra {
			continue
		}
		cs[a] = append(cs[a], cand{fn, a, bl})
	}
	for level := 1; level <= 3; level++ {
		for _, cd := range cs[level] {
			fn := cd.fn
			it := k.interp(nil)
			args := it.ParamSyms(fn)
			ps := c.Run(it, fn, args)
			ok := len(ps) > 0
			for _, p := range ps {
				if p.Kind != KReturn {
					continue
				}
				if level == 1 {
					g, why := k.pointOf(it, p, p.Ret[0], args[0], cd.toLib)
					ok = c.Oblige(g, R, fn, fn.Pos(), "coordinates", "%s", why) && ok
					continue
				}
				g := k.gather(it)
				its, fine := g.list(p, p.Ret[0], nil, nil)
				want := "each(" + args[0].String() + ")"
				fine = fine && (sameItems(its, []string{want}) || len(its) == 0 && it.emptyVal(p.Facts, args[0]))
				if !fine && g.why == "" {
					g.why = "it has " + clean(strings.Join(itemTexts(its), "; ")) + " instead of every element"
				}
				ok = c.Oblige(fine, R, fn, fn.Pos(), "elements", "the converted list does not have every element of the list in turn: %s", g.why) && ok
			}
			if ok {
				k.convs[fn] = true
				seen[cd.toLib]++
			}
		}
	}
	c.AtLeast(R, "conversions to the library", seen[true], 1)
	c.AtLeast(R, "conversions from the library", seen[false], 1)
}

// pointOf: v is the point src with both coordinates taken over.
func (k *clipCheck) pointOf(it *Interp, p *Path, v, src *Term, toLib bool) (bool, string) {
	w := k.c.W
	pt := w.TypeNamed("data", "MicroPoint")
	if pt == nil {
		return false, "MicroPoint not found"
	}
	ip := k.libType("IntPoint")
	for i, ax := range []string{"X", "Y"} {
		var got, want *Term
		if toLib {
			s := ip.Underlying().(*types.Struct)
			fi := -1
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == ax {
					fi = j
				}
			}
			if fi < 0 {
				return false, "the library's point has no field " + ax
			}
			got = it.loadAddr(p.St, it.addrField(v, ip, fi), s.Field(fi).Type())
			want = k.coord(it, p, src, ax)
		} else {
			got = k.coord(it, p, v, ax)
			s := ip.Underlying().(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == ax {
					want = it.loadAddr(p.St, it.addrField(src, ip, j), s.Field(j).Type())
				}
			}
		}
		_ = i
		if got == nil || want == nil || got != want && !it.T.Holds(p.Facts, it.T.NumEq(got, want)) {
			return false, "coordinate " + ax + " becomes " + clipT(got) + " instead of " + clipT(want)
		}
	}
	return true, ""
}

// coord evaluates the accessor of a point.
func (k *clipCheck) coord(it *Interp, p *Path, v *Term, ax string) *Term {
	pt := k.c.W.TypeNamed("data", "MicroPoint")
	if pt == nil || v == nil {
		return nil
	}
	return it.invokeOn(p.St, v, pt, ax)
}

// copied: a point made in the iteration that takes over both coordinates of another one.
func (k *clipCheck) copied(it *Interp, p *Path, v *Term) *Term {
	if v.Op != OAlloc || v.Typ == nil {
		return nil
	}
	ip := k.libType("IntPoint")
	pt, ok := v.Typ.Underlying().(*types.Pointer)
	if !ok || p.St == nil {
		return nil
	}
	toLib := types.Identical(pt.Elem(), ip)
	var x *Term
	if toLib {
		s := ip.Underlying().(*types.Struct)
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == "X" {
				x = it.loadAddr(p.St, it.addrField(v, ip, j), s.Field(j).Type())
			}
		}
	} else {
		impl := k.c.W.SoleImpl(k.c.W.TypeNamed("data", "MicroPoint"))
		if impl == nil || !types.Identical(impl, v.Typ) && !types.Identical(impl, pt.Elem()) {
			return nil
		}
		x = k.coord(it, p, it.T.mk(OIface, "", v.Typ, true, v), "X")
		v = it.T.mk(OIface, "", v.Typ, true, v)
	}
	if x == nil {
		return nil
	}
	var src *Term
	x.Contains(func(s *Term) bool {
		if src != nil || s.Typ == nil {
			return false
		}
		c := s
		if l, lib := k.geomOf(s.Typ); l == 1 && lib != toLib && s.Op != OAddrF {
			if ok, _ := k.pointOf(it, p, v, c, toLib); ok {
				src = c
			}
		}
		return false
	})
	return src
}

// ---- tree reader ----

func (k *clipCheck) trees() {
	const R = "C16.tree"
	c, w := k.c, k.c.W
	pt := k.libType("PolyTree")
	part := w.TypeNamed("data", "LayerPart")
	n := 0
	for _, fn := range w.RepoFns {
		sig := fn.Signature
		if fn.Parent() != nil || sig.Results().Len() != 1 || sig.Params().Len() != 1 || pt == nil || part == nil {
			continue
		}
		if !types.Identical(sig.Params().At(0).Type(), types.NewPointer(pt)) || !types.Identical(sig.Results().At(0).Type(), types.NewSlice(part)) {
			continue
		}
		n++
		it := k.interp(nil)
		args := it.ParamSyms(fn)
		ok := true
		m := 0
		for _, p := range c.Run(it, fn, args) {
			if p.Kind != KReturn {
				continue
			}
			m++
			good, why := k.readTree(it, p, p.Ret[0], args[len(args)-1])
			ok = c.Oblige(good, R, fn, fn.Pos(), "all contours", "not every outer contour becomes an area with exactly its direct holes: %s", why) && ok
		}
		if ok && m > 0 {
			k.tree[fn] = true
		}
	}
	c.AtLeast(R, "tree readers", n, 1)
}

// readTree: L has one area for every outer contour at every depth of the tree.
func (k *clipCheck) readTree(it *Interp, p *Path, L, tree *Term) (bool, string) {
	T := it.T
	L = bare(L)
	if L.Op == OCall {
		for fn := range k.tree {
			if callKeyOf(L) == k.c.W.calleeKey(fn, nil) && len(L.Args) > 0 && bare(L.Args[len(L.Args)-1]) == bare(tree) {
				return true, ""
			}
		}
	}
	childs := func(s string) string { return clipLib + ".PolyNode.Childs(" + s + ")" }
	contour := func(s string) string { return clipLib + ".PolyNode.Contour(" + s + ")" }
	partOf := func(s string) string {
		return "data.NewBasicLayerPart(" + contour(s) + ", list{" + contour("each("+childs(s)+")") + "})"
	}
	bareOf := func(s string) string { return "data.NewBasicLayerPart(" + contour(s) + ", list{})" }
	next := func(s string) string { return "each(" + childs("each("+childs(s)+")") + ")" }
	treeS := k.gather(it).text(p, tree, nil)
	why := ""
	note := func(s string) {
		if why == "" {
			why = s
		}
	}
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		for _, r := range l.Defs {
			if r.Sym != L || !it.emptyVal(p.Facts, r.Init) {
				continue
			}
			for _, wd := range l.Defs {
				if wd == r || wd.Sym.Typ == nil || len(wd.Latch) != len(l.Bodies) {
					continue
				}
				if _, ok := wd.Sym.Typ.Underlying().(*types.Slice); !ok {
					continue
				}
				W := wd.Sym
				g := k.gather(it)
				its, ok := g.list(p, wd.Init, nil, nil)
				if !ok || !sameItems(its, []string{"each(" + childs(treeS) + ")"}) {
					note("the work does not start with the children of the tree: " + g.why + " " + clean(strings.Join(itemTexts(its), "; ")))
					continue
				}
				try := func(el string, resStart, wStart func(b *Path, i int) *Term, left bool) (bool, string) {
					if !left {
						return false, "the loop may end while contours are left"
					}
					for i, b := range l.Bodies {
						g := k.gather(it)
						got, ok := g.list(b, r.Latch[i], resStart(b, i), nil)
						if !ok || !(sameItems(got, []string{partOf(el)}) || sameItems(got, []string{bareOf(el)}) && k.noHoles(it, b)) {
							return false, "each contour becomes " + clean(strings.Join(itemTexts(got), "; ")) + " " + g.why
						}
						g = k.gather(it)
						got, ok = g.list(b, wd.Latch[i], wStart(b, i), nil)
						if !ok || !(sameItems(got, []string{next(el)}) || len(got) == 0 && k.noHoles(it, b)) {
							return false, "the contours inside holes are not all taken: " + clean(strings.Join(itemTexts(got), "; ")) + " " + g.why
						}
					}
					return true, ""
				}
				same := func(b *Path, i int) *Term { return r.Sym }
				empty := it.emptyVal(p.Facts, W)
				// all of the list in each round
				ok, w1 := try("each("+W.String()+")", same, func(*Path, int) *Term { return nil }, empty)
				if ok {
					return true, ""
				}
				note(w1)
				// one element after the other by index
				for _, ctr := range it.counters(l) {
					if !ctr.Step.IsInt(1) {
						continue
					}
					idx := T.Sub(ctr.Def.Sym, ctr.First)
					if !it.guarded(l, T.Lt(idx, T.Len(W))) {
						continue
					}
					if ok, _ := try(W.String()+"["+idx.String()+"]", same, func(*Path, int) *Term { return W }, T.Holds(p.Facts, T.LeT(T.Len(W), idx))); ok {
						return true, ""
					}
				}
				// taken from the front or the back
				n := T.Len(W)
				last := T.Sub(n, T.Int(1))
				if ok, _ := try(W.String()+"["+T.Int(0).String()+"]", same, func(b *Path, i int) *Term { return T.SubSlice(W, T.Int(1), n) }, empty); ok {
					return true, ""
				}
				if ok, _ := try(W.String()+"["+last.String()+"]", same, func(b *Path, i int) *Term { return T.SubSlice(W, T.Int(0), last) }, empty); ok {
					return true, ""
				}
			}
		}
	}
	if why == "" {
		why = "no loop works through the tree"
	}
	return false, why
}

// noHoles: some list of children is known to be empty on the path.
func (k *clipCheck) noHoles(it *Interp, b *Path) bool {
	none := false
	walkNodesTerms(b, func(x *Term) {
		if callKeyOf(x) == clipLib+".PolyNode.Childs" && it.emptyVal(b.Facts, x) {
			none = true
		}
	})
	b.Facts.Each(func(a *Term, v bool) {
		a.Contains(func(x *Term) bool {
			if callKeyOf(x) == clipLib+".PolyNode.Childs" && it.emptyVal(b.Facts, x) {
				none = true
			}
			return none
		})
	})
	return none
}

// ---- clipping operations ----

// clipRun describes one use of the clipper on a path.
type clipRun struct {
	exec *Event
	obj  *Term
	its  []gitem
	why  string
	ok   bool
}

// objOf: the library object behind a receiver (embedded parts belong to it).
func objOf(t *Term) *Term {
	t = strip(t)
	for t != nil && (t.Op == OAddrF || t.Op == OField) {
		t = t.Args[0]
	}
	return t
}

// runs: the executions on the path with what was added to their clipper before.
func (k *clipCheck) runs(it *Interp, p *Path) []clipRun {
	T := it.T
	var rs []clipRun
	for i, nd := range p.Trace {
		e := nd.Ev
		if e == nil || e.Kind != "call" || e.Key != clipLib+".Clipper.Execute2" && e.Key != clipLib+".Clipper.Execute" && e.Key != clipLib+".Clipper.Execute1" {
			continue
		}
		r := clipRun{exec: e, obj: objOf(e.Args[0])}
		g := k.gather(it)
		from := 0
		for j := 0; j < i; j++ {
			if x := p.Trace[j].Ev; x != nil && x.Kind == "call" && strings.HasSuffix(x.Key, ".Clear") && objOf(x.Args[0]) == r.obj {
				from = j
			}
		}
		its, ok := g.events(p, p.Trace[from:i], nil, func(x *Event) (*Term, bool, string, bool) {
			if x.Kind != "call" || len(x.Args) < 4 || objOf(x.Args[0]) != r.obj {
				return nil, false, "", false
			}
			one := strings.HasSuffix(x.Key, ".AddPath")
			if !one && !strings.HasSuffix(x.Key, ".AddPaths") {
				return nil, false, "", false
			}
			role := x.Args[2].String()
			if v, ok := x.Args[2].ConstInt(); ok {
				if s, ok2 := k.constant("PtSubject"); ok2 && v == s {
					role = "subject"
				}
				if s, ok2 := k.constant("PtClip"); ok2 && v == s {
					role = "clip"
				}
			}
			shape := x.Args[3].String()
			if b, ok := x.Args[3].IsBool(); ok {
				shape = "open"
				if b {
					shape = "closed"
				}
			}
			if k.opens && role == "subject" && shape == "open" {
				return nil, false, "", false
			}
			return x.Args[1], one, role + " " + shape + " ", true
		})
		r.its, r.ok, r.why = its, ok, g.why
		rs = append(rs, r)
		_ = T
	}
	return rs
}

// operands: the text of the whole of a list of parts added with a role.
func wholeOf(tag, list string) []string {
	return []string{tag + "data.LayerPart.Outline(each(" + list + "))", tag + "each(data.LayerPart.Holes(each(" + list + ")))"}
}

func (k *clipCheck) evenOdd(e *Event, op string) (bool, string) {
	if len(e.Args) < 4 {
		return false, "unknown form of execution"
	}
	if op != "" {
		want, ok := k.constant(op)
		if !ok || !e.Args[1].IsInt(want) {
			return false, "the operation is " + e.Args[1].String() + " instead of " + op
		}
	}
	eo, ok := k.constant("PftEvenOdd")
	if !ok || !e.Args[2].IsInt(eo) || !e.Args[3].IsInt(eo) {
		return false, "the fill rule is not even-odd"
	}
	return true, ""
}

// okResult decides what the ok result of a path is: that of the execution.
func (k *clipCheck) okResult(it *Interp, p *Path, e *Event, v *Term) (good, success bool) {
	T := it.T
	ok := e.ResAt(T, 1)
	if T.Holds(p.Facts, ok) {
		b, isC := v.IsBool()
		return v == ok || isC && b || T.Holds(p.Facts, v), true
	}
	if T.Refuted(p.Facts, ok) {
		b, isC := v.IsBool()
		return v == ok || isC && !b || T.Refuted(p.Facts, v), false
	}
	return v == ok, true
}

func (k *clipCheck) method(name string) *ssa.Function {
	w := k.c.W
	iface := w.TypeNamed("clip", "Clipper")
	if iface == nil {
		return nil
	}
	impl := w.SoleImpl(iface)
	if impl == nil {
		return nil
	}
	nt, _ := impl.(*types.Named)
	if nt == nil {
		return nil
	}
	return w.Method(nt, name)
}

func (k *clipCheck) ops() {
	const R = "C16.ops"
	c := k.c
	for _, op := range []string{"Union", "Intersection", "Difference"} {
		fn := k.method(op)
		if fn == nil {
			c.Undecided(R, nil, 0, op, "no implementation found")
			continue
		}
		it := k.interp(nil)
		args := it.ParamSyms(fn)
		a, b := args[1], args[2]
		n := 0
		for _, p := range c.Run(it, fn, args) {
			if p.Kind != KReturn {
				continue
			}
			rs := k.runs(it, p)
			if len(rs) == 0 {
				ea, eb := it.emptyVal(p.Facts, a), it.emptyVal(p.Facts, b)
				trivial := ea && eb || op == "Difference" && ea || op == "Intersection" && (ea || eb)
				okv, isC := p.Ret[1].IsBool()
				c.Oblige(trivial && isC && okv && it.emptyVal(p.Facts, p.Ret[0]), R, fn, fn.Pos(), op+" without clipping",
					"returns %s without clipping when %s", clipT(p.Ret[0]), clipStr(p.Facts.String(), 200))
				continue
			}
			n++
			if !c.Oblige(len(rs) == 1, R, fn, fn.Pos(), op+": one clipping", "%d clippings in a row", len(rs)) {
				continue
			}
			r := rs[0]
			good, why := k.evenOdd(r.exec, "Ct"+op)
			c.Oblige(good, R, fn, r.exec.Instr.Pos(), op+": operation", "%s", why)
			want := append(wholeOf("subject closed ", a.String()), wholeOf("clip closed ", b.String())...)
			c.Oblige(r.ok && k.sameOrEmpty(it, p, r.its, want, map[string]*Term{a.String(): a, b.String(): b}), R, fn, r.exec.Instr.Pos(), op+": operands",
				"the operands are not the outlines and holes of the first area list as subject and of the second as clip: %s %s", clean(strings.Join(itemTexts(r.its), "; ")), r.why)
			okk, succ := k.okResult(it, p, r.exec, p.Ret[1])
			c.Oblige(okk, R, fn, fn.Pos(), op+": success", "the result of the clipping is not passed on")
			if succ {
				g, why := k.readTree(it, p, p.Ret[0], r.exec.ResAt(it.T, 0))
				c.Oblige(g, R, fn, fn.Pos(), op+": result", "the result is not the clipped areas: %s", why)
			}
		}
		c.AtLeast(R, "ways through "+op, n, 1)
	}
}

// sameOrEmpty: the items are the wanted ones; wanted ones of a list known to be empty may be missing.
func (k *clipCheck) sameOrEmpty(it *Interp, p *Path, its []gitem, want []string, lists map[string]*Term) bool {
	if sameItems(its, want) {
		return true
	}
	var left []string
	for _, x := range want {
		gone := false
		for s, t := range lists {
			if strings.Contains(x, "each("+s+")") && it.emptyVal(p.Facts, t) {
				gone = true
			}
		}
		if !gone {
			left = append(left, x)
		}
	}
	return sameItems(its, left)
}

func (k *clipCheck) partition() {
	const R = "C16.partition"
	c := k.c
	fn := k.method("GenerateLayerParts")
	if fn == nil {
		c.Undecided(R, nil, 0, "GenerateLayerParts", "no implementation found")
		return
	}
	it := k.interp(nil)
	args := it.ParamSyms(fn)
	layer := args[1]
	n := 0
	polys := "data.Layer.Polygons(" + layer.String() + ")"
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn {
			continue
		}
		rs := k.runs(it, p)
		ret := bare(p.Ret[0])
		if len(rs) == 0 {
			none := k.emptyKey(it, p, "data.Layer.Polygons")
			okv, isC := p.Ret[1].IsBool()
			c.Oblige(none && isC && okv && callKeyOf(ret) == "data.NewPartitionedLayer" && it.emptyVal(p.Facts, ret.Args[0]), R, fn, fn.Pos(), "layer without contours",
				"returns %s without clipping when %s", clipT(ret), clipStr(p.Facts.String(), 200))
			continue
		}
		n++
		if !c.Oblige(len(rs) == 1, R, fn, fn.Pos(), "one clipping", "%d clippings in a row", len(rs)) {
			continue
		}
		r := rs[0]
		good, why := k.evenOdd(r.exec, "CtUnion")
		c.Oblige(good, R, fn, r.exec.Instr.Pos(), "operation", "%s", why)
		c.Oblige(r.ok && sameItems(r.its, []string{"subject closed each(" + polys + ")"}), R, fn, r.exec.Instr.Pos(), "contours",
			"the subject is not every contour of the layer: %s %s", clean(strings.Join(itemTexts(r.its), "; ")), r.why)
		okk, succ := k.okResult(it, p, r.exec, p.Ret[1])
		c.Oblige(okk, R, fn, fn.Pos(), "success", "the result of the clipping is not passed on")
		if succ {
			g, why := false, "not a partitioned layer"
			if callKeyOf(ret) == "data.NewPartitionedLayer" {
				g, why = k.readTree(it, p, ret.Args[0], r.exec.ResAt(it.T, 0))
			}
			c.Oblige(g, R, fn, fn.Pos(), "result", "the result is not the areas found: %s", why)
		}
	}
	c.AtLeast(R, "ways through GenerateLayerParts", n, 1)
}

// emptyKey: a list returned by the given accessor is known to be empty.
func (k *clipCheck) emptyKey(it *Interp, p *Path, key string) bool {
	none := false
	chk := func(x *Term) {
		if callKeyOf(x) == key && it.emptyVal(p.Facts, x) {
			none = true
		}
	}
	p.Facts.Each(func(a *Term, v bool) {
		a.Contains(func(x *Term) bool { chk(x); return none })
	})
	walkNodesTerms(p, chk)
	if none {
		return true
	}
	// every contour is collected and the collection is empty
	p.Facts.Each(func(a *Term, v bool) {
		a.Contains(func(x *Term) bool {
			if x.Op == OLen && it.T.Holds(p.Facts, it.T.NumEq(x, it.T.Int(0))) {
				g := k.gather(it)
				if its, ok := g.list2(p, x.Args[0]); ok && len(its) == 1 && strings.HasPrefix(its[0].s, "each("+key+"(") {
					none = true
				}
			}
			return none
		})
	})
	return none
}

func (k *clipCheck) crossing() {
	const R = "C16.cross"
	c := k.c
	fn := k.method("IsCrossingPerimeter")
	if fn == nil {
		c.Undecided(R, nil, 0, "IsCrossingPerimeter", "no implementation found")
		return
	}
	it := k.interp(nil)
	T := it.T
	args := it.ParamSyms(fn)
	parts, line := args[1], args[2]
	n := 0
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn {
			continue
		}
		rs := k.runs(it, p)
		if len(rs) == 0 {
			rv, isR := p.Ret[0].IsBool()
			okv, isC := p.Ret[1].IsBool()
			c.Oblige(isR && !rv && isC && okv && k.noLength(it, p, line), R, fn, fn.Pos(), "no test", "a line is not tested when %s", clipStr(p.Facts.String(), 260))
			continue
		}
		n++
		if !c.Oblige(len(rs) == 1, R, fn, fn.Pos(), "one clipping", "%d clippings in a row", len(rs)) {
			continue
		}
		r := rs[0]
		good, why := k.evenOdd(r.exec, "CtDifference")
		c.Oblige(good, R, fn, r.exec.Instr.Pos(), "operation", "%s", why)
		wants := [][]string{append(wholeOf("clip closed ", parts.String()), "subject open "+line.String())}
		c.Oblige(r.ok && k.sameOrEmpty(it, p, r.its, wants[0], map[string]*Term{parts.String(): parts}), R, fn, r.exec.Instr.Pos(), "operands",
			"the line is not tested against all outlines and holes: %s %s", clean(strings.Join(itemTexts(r.its), "; ")), r.why)
		okk, succ := k.okResult(it, p, r.exec, p.Ret[1])
		c.Oblige(okk, R, fn, fn.Pos(), "success", "the result of the clipping is not passed on")
		if !succ {
			continue
		}
		// true exactly if something is left of the line
		tree := r.exec.ResAt(T, 0)
		g := false
		var left *Term
		look := func(x *Term) bool {
			switch callKeyOf(x) {
			case clipLib + ".PolyTree.Total", clipLib + ".PolyNode.ChildCount":
				if objOf(x.Args[0]) == tree {
					left = x
				}
			}
			if x.Op == OLen && callKeyOf(x.Args[0]) == clipLib+".PolyNode.Childs" && objOf(x.Args[0].Args[0]) == tree {
				left = x
			}
			return false
		}
		p.Ret[0].Contains(look)
		p.Facts.Each(func(a *Term, v bool) { a.Contains(look) })
		if left != nil {
			g = true
			nonNeg, _ := T.Assume(p.Facts, T.LeT(T.Int(0), left), true)
			for _, some := range []bool{true, false} {
				f, ok := T.Assume(nonNeg, T.Lt(T.Int(0), left), some)
				if !ok {
					continue
				}
				if rv, isR := p.Ret[0].IsBool(); isR {
					g = g && rv == some
				} else {
					g = g && (some && T.Holds(f, p.Ret[0]) || !some && T.Refuted(f, p.Ret[0]))
				}
			}
		}
		c.Oblige(g, R, fn, fn.Pos(), "result", "the result is not whether anything is left of the line outside of the areas: %s", clipT(p.Ret[0]))
	}
	c.AtLeast(R, "ways through IsCrossingPerimeter", n, 1)
}

// noLength: the line has fewer than two points or two equal ones.
func (k *clipCheck) noLength(it *Interp, p *Path, line *Term) bool {
	T := it.T
	if T.Holds(p.Facts, T.LeT(T.Len(line), T.Int(1))) {
		return true
	}
	if !T.Holds(p.Facts, T.LeT(T.Len(line), T.Int(2))) {
		return false
	}
	pt := k.c.W.TypeNamed("data", "MicroPoint")
	e := func(i int64) *Term { return it.loadAddr(p.St, it.addrIdx(line, T.Int(i)), pt) }
	a, b := e(0), e(1)
	for _, ax := range []string{"X", "Y"} {
		x, y := k.coord(it, p, a, ax), k.coord(it, p, b, ax)
		if x == nil || y == nil || !T.Holds(p.Facts, T.NumEq(x, y)) {
			return false
		}
	}
	return true
}

func (k *clipCheck) top() {
	const R = "C16.top"
	c := k.c
	fn := k.method("TopLevelPolygons")
	if fn == nil {
		c.Undecided(R, nil, 0, "TopLevelPolygons", "no implementation found")
		return
	}
	it := k.interp(nil)
	args := it.ParamSyms(fn)
	parts := args[1]
	n := 0
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn {
			continue
		}
		rs := k.runs(it, p)
		if len(rs) == 0 {
			c.Oblige(it.emptyVal(p.Facts, parts) && it.emptyVal(p.Facts, p.Ret[0]), R, fn, fn.Pos(), "without clipping", "returns %s without clipping when %s", clipT(p.Ret[0]), clipStr(p.Facts.String(), 200))
			continue
		}
		n++
		if !c.Oblige(len(rs) == 1, R, fn, fn.Pos(), "one clipping", "%d clippings in a row", len(rs)) {
			continue
		}
		r := rs[0]
		good, why := k.evenOdd(r.exec, "CtUnion")
		c.Oblige(good, R, fn, r.exec.Instr.Pos(), "operation", "%s", why)
		c.Oblige(r.ok && k.sameOrEmpty(it, p, r.its, []string{"subject closed data.LayerPart.Outline(each(" + parts.String() + "))"}, map[string]*Term{parts.String(): parts}), R, fn, r.exec.Instr.Pos(), "outlines",
			"the subject is not every outline: %s %s", clean(strings.Join(itemTexts(r.its), "; ")), r.why)
		okk, succ := k.okResult(it, p, r.exec, p.Ret[1])
		c.Oblige(okk, R, fn, fn.Pos(), "success", "the result of the clipping is not passed on")
		if succ {
			g := k.gather(it)
			its, ok := g.list(p, p.Ret[0], nil, nil)
			tree := g.text(p, r.exec.ResAt(it.T, 0), nil)
			want := clipLib + ".PolyNode.Contour(each(" + clipLib + ".PolyNode.Childs(" + tree + ")))"
			c.Oblige(ok && sameItems(its, []string{want}), R, fn, fn.Pos(), "result", "the result is not the outermost contours: %s %s", clean(strings.Join(itemTexts(its), "; ")), g.why)
		}
	}
	c.AtLeast(R, "ways through TopLevelPolygons", n, 1)
}

// ---- insets ----

func (k *clipCheck) insets() {
	const R = "C16.inset"
	c, w := k.c, k.c.W
	layerFn, fn := k.method("InsetLayer"), k.method("Inset")
	if fn == nil || layerFn == nil {
		c.Undecided(R, nil, 0, "Inset", "no implementation found")
		return
	}
	// all parts
	it := k.interp(nil)
	it.Policy = func(ci *CallInfo) Action {
		if ci.Fn == fn || ci.Key == "clip.Clipper.Inset" {
			return APure
		}
		return k.policy(ci)
	}
	args := it.ParamSyms(layerFn)
	n := 0
	for _, p := range c.Run(it, layerFn, args) {
		if p.Kind != KReturn {
			continue
		}
		n++
		if it.emptyVal(p.Facts, args[1]) && it.emptyVal(p.Facts, p.Ret[0]) {
			continue
		}
		g := k.gather(it)
		its, ok := g.list(p, p.Ret[0], nil, nil)
		good := ok && len(its) == 1
		if good {
			s := its[0].s
			i := strings.Index(s, "(")
			rest := "each(" + args[1].String() + "), " + args[2].String() + ", " + args[3].String() + ", " + args[4].String() + ")"
			good = i > 0 && (s[:i] == w.calleeKey(fn, nil) || s[:i] == "clip.Clipper.Inset") && strings.HasSuffix(s, rest)
		}
		c.Oblige(good, R, layerFn, layerFn.Pos(), "every part", "the result is not the inset of every part with the given offset, count and first offset: %s %s", clean(strings.Join(itemTexts(its), "; ")), g.why)
		// in the order of the parts
		down := false
		allLoops(p, func(l *LoopNode, in *Path) {
			if cv, full := it.covers(l, it.T.Len(args[1])); full && cv.Down {
				down = true
			}
		})
		c.Oblige(!down, R, layerFn, layerFn.Pos(), "order of the parts", "the parts are inset in another order")
	}
	c.AtLeast(R, "ways through InsetLayer", n, 1)

	it = k.interp(nil)
	T := it.T
	args = it.ParamSyms(fn)
	part, offset, count, first := args[1], args[2], args[3], args[4]
	n = 0
	for _, p := range c.Run(it, fn, args) {
		if p.Kind != KReturn {
			continue
		}
		L := bare(p.Ret[0])
		if it.emptyVal(p.Facts, L) && T.Holds(p.Facts, T.LeT(count, T.Int(0))) {
			continue
		}
		n++
		good, why, at := k.insetLoop(it, p, L, part, offset, count, first)
		pos := fn.Pos()
		if at != nil {
			pos = at.Instr.Pos()
		}
		c.Oblige(good, R, fn, pos, "insets of a part", "%s", why)
	}
	c.AtLeast(R, "ways through Inset", n, 1)
}

func (k *clipCheck) insetLoop(it *Interp, p *Path, L, part, offset, count, first *Term) (bool, string, *Event) {
	T := it.T
	et, okE := k.constant("EtClosedPolygon")
	if !okE {
		return false, "EtClosedPolygon not found", nil
	}
	for li, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		for _, r := range l.Defs {
			if r.Sym != L && !(L.Op == OAlloc) {
				continue
			}
			if r.Sym == L && !it.emptyVal(p.Facts, r.Init) {
				return false, "the list of insets does not start empty", nil
			}
			cv, full := it.covers(l, count)
			if !full || cv.Down || !it.exhausted(p, cv, count) {
				return false, "not exactly the requested number of insets is made", nil
			}
			for bi, b := range l.Bodies {
				var exec *Event
				at := 0
				for i, x := range b.Trace {
					if x.Ev != nil && x.Ev.Kind == "call" && strings.HasPrefix(x.Ev.Key, clipLib+".ClipperOffset.Execute") {
						if exec != nil {
							return false, "several offsets per inset", x.Ev
						}
						exec, at = x.Ev, i
					}
				}
				if exec == nil || exec.Key != clipLib+".ClipperOffset.Execute2" {
					return false, "no offset is made for an inset", nil
				}
				obj := objOf(exec.Args[0])
				// what was added since the last clearing
				from, cleared := 0, false
				for i := 0; i < at; i++ {
					if x := b.Trace[i].Ev; x != nil && x.Kind == "call" && (x.Key == clipLib+".ClipperOffset.Clear" && objOf(x.Args[0]) == obj || x.Key == clipLib+".NewClipperOffset" && x.Res == obj) {
						from, cleared = i+1, true
					}
				}
				g := k.gather(it)
				pick := func(x *Event) (*Term, bool, string, bool) {
					if x.Kind != "call" || len(x.Args) < 4 || objOf(x.Args[0]) != obj || !strings.HasPrefix(x.Key, clipLib+".ClipperOffset.AddPath") {
						return nil, false, "", false
					}
					tag := "closed "
					if !x.Args[3].IsInt(et) {
						tag = "open "
					}
					return x.Args[1], x.Key == clipLib+".ClipperOffset.AddPath", tag, true
				}
				its, ok := g.events(b, b.Trace[from:at], nil, pick)
				if !cleared {
					for i := from; i < at; i++ {
						if b.Trace[i].Ev != nil {
							if _, _, _, isAdd := pick(b.Trace[i].Ev); isAdd {
								return false, "what was added for the inset before is offset again", exec
							}
						}
					}
					pre := 0
					for i := 0; i < li; i++ {
						if x := p.Trace[i].Ev; x != nil && x.Kind == "call" && x.Key == clipLib+".ClipperOffset.Clear" && objOf(x.Args[0]) == obj {
							pre = i + 1
						}
					}
					if len(its) > 0 {
						return false, "what was added for the inset before is offset again", exec
					}
					its, ok = g.events(p, p.Trace[pre:li], nil, pick)
				}
				want := []string{"closed data.LayerPart.Outline(" + part.String() + ")", "closed each(data.LayerPart.Holes(" + part.String() + "))"}
				if !ok || !sameItems(its, want) && !(sameItems(its, want[:1]) && k.emptyKey(it, b, "data.LayerPart.Holes")) {
					return false, "not the outline together with all holes is offset: " + clean(strings.Join(itemTexts(its), "; ")) + " " + g.why, exec
				}
				// offset of the first and distance to the next
				d := exec.Args[1]
				init, next := d, d
				for _, df := range l.Defs {
					init = T.replaceSym(init, df.Sym, df.Init)
				}
				rep := map[*Term]*Term{}
				for _, df := range l.Defs {
					if bi < len(df.Latch) {
						rep[df.Sym] = df.Latch[bi]
					}
				}
				next = T.replaceSyms(d, rep)
				if init != first && !T.Holds(p.Facts, T.NumEq(init, first)) {
					return false, "the first inset is offset by " + clipT(init) + " instead of " + clipT(first), exec
				}
				if step := T.Sub(next, d); step != T.Neg(offset) {
					return false, "the offset changes by " + clipT(step) + " instead of -" + clipT(offset), exec
				}
				// exactly one result
				if L.Op == OAlloc {
					return false, "the list of insets is not built by appending", nil
				}
				x := r.Latch[bi]
				if !(x.Op == OConcat && len(x.Args) == 2 && x.Args[0] == r.Sym && x.Args[1].Op == OLit || x.Op == OConcat && len(x.Args) == 1 && x.Args[0].Op == OLit && it.emptyVal(b.Facts, r.Sym)) {
					return false, "an inset does not give exactly one entry of the result", exec
				}
				ok2, why := k.readTree(it, b, x.Args[len(x.Args)-1].Args[0], exec.Res)
				if !ok2 {
					return false, "the entry is not the areas of the inset: " + why, exec
				}
			}
			return true, "", nil
		}
	}
	return false, "no loop makes the insets", nil
}

func checkC16(c *Ctx) {
	c.Rule("C16.points: every function that converts points, paths or lists of paths to or from the clipping library takes over X as X and Y as Y and every element in turn (a path from the library may be simplified as a whole)")
	c.Rule("C16.tree: the reader of the library's result tree makes one area per outer contour - the contour of the node with the contours of all its children as holes - starting with all children of the root, continues with all children of the holes, and ends only when none is left")
	c.Rule("C16.ops: union, intersection and difference add the outline and all holes of every area of the first list as closed subject, of the second as closed clip, execute the operation of their name with the even-odd rule once and return the areas of the result tree and the success of the operation; without clipping they return nothing only if an empty operand makes the result empty")
	c.Rule("C16.inset: InsetLayer insets every part in turn with the values it was given. Inset makes exactly the requested number of entries; each is the result of offsetting the outline and all holes as closed polygons, by the first offset at first and by the offset less each time")
	c.Rule("C16.partition: the partition of a layer is the even-odd union of all its contours")
	c.Rule("C16.cross: the crossing test subtracts all outlines and holes of the areas from the open line and is true exactly if something is left; only a line without length is not tested")
	c.Rule("C16.top: the top level polygons are the contours of all children of the root of the even-odd union of all outlines")
	k := c.clipping("C16.points")
	if k == nil {
		return
	}
	k.points()
	k.trees()
	k.ops()
	k.insets()
	k.partition()
	k.crossing()
	k.top()
}
