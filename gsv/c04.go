package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "Stages run in order and every intermediate result reaches its consumer", checkC04)
}

const attrMap = "map[string]any"

// attrRead is one read of a layer attribute.
type attrRead struct {
	pos  int
	key  string
	typ  types.Type
	fn   *ssa.Function
	at   token.Pos
	term *Term
}

type attrWrite struct {
	pos int
	key string
	typ types.Type
	val *Term
	fn  *ssa.Function
	at  token.Pos
}

// attrKey: t reads attribute key of some layer.
func attrKey(t *Term) (string, bool) {
	t = strip(t)
	if t != nil && t.Op == OFn && t.Sym == "attr" {
		t = t.Args[0]
	}
	if t == nil || t.Op != OSel || len(t.Args) != 3 || !isMemKey(t.Args[0].Sym, "M:"+attrMap) {
		return "", false
	}
	k := t.Args[2]
	if k.Op == OStr {
		return k.Sym, true
	}
	return "", true
}

func checkC04(c *Ctx) {
	c.Rule("C04.order: on every path of Process each stage gets the result of the stage before it (Read(input path), Optimize(model), Slice(optimised), Init(optimised)+Modify(layers) for every modifier in list order, Generate(layers), Write), every loop over the modifiers covers the whole list")
	c.Rule("C04.read: every attribute a modifier or renderer reads is stored by a modifier that is not later in the pipeline, with the asserted type identical to the stored one")
	c.Rule("C04.use: every attribute stored is read by a later stage; at least 5 different attributes reach AddPolygon (directly or as the area of Fill) in a renderer, and the hull around everything is printed")
	c.Rule("C04.keep: a layer that replaces another one keeps its parts and its attribute map; an attribute map that is written to belongs to a layer or is stored with one")
	c.Rule("C04.settings: every stage of the built-in pipeline is given the settings passed to NewGoSlice")

	c.processOrder()

	pl := c.pipeline("C04.pipeline")
	if pl == nil {
		return
	}
	var reads []attrRead
	var writes []attrWrite
	printed := map[string]string{}
	hull := false
	collect := func(pos int, it *Interp, ps []*Path, label string) {
		asserted := map[*Term][]*Event{}
		collectEvents(ps, func(e evCtx) {
			ev := e.Ev
			switch ev.Kind {
			case "assert", "mustassert":
				if _, ok := attrKey(ev.Args[0]); ok {
					t := strip(ev.Args[0])
					asserted[t] = append(asserted[t], ev)
				}
			case "mapget":
				if ev.Key != attrMap {
					return
				}
				k := ev.Args[1]
				if !c.Oblige(k.Op == OStr, "C04.read", ev.Fn, ev.Instr.Pos(), "attribute name is constant", "the attribute name is not a constant: %s", clipStr(k.String(), 100)) {
					return
				}
				reads = append(reads, attrRead{pos: pos, key: k.Sym, fn: ev.Fn, at: ev.Instr.Pos(), term: strip(ev.Res)})
			case "mapset":
				if ev.Key != attrMap {
					return
				}
				k, v := ev.Args[1], ev.Args[2]
				if !c.Oblige(k.Op == OStr, "C04.read", ev.Fn, ev.Instr.Pos(), "attribute name is constant", "the attribute name is not a constant: %s", clipStr(k.String(), 100)) {
					return
				}
				wr := attrWrite{pos: pos, key: k.Sym, val: v, fn: ev.Fn, at: ev.Instr.Pos()}
				if v.Op == OIface {
					wr.typ = v.Typ
				} else if v.Op == ODyn {
					wr.typ = v.Typ
				}
				writes = append(writes, wr)
			}
		})
		for t, es := range asserted {
			k, _ := attrKey(t)
			for _, ev := range es {
				var typ types.Type
				if ta, ok := ev.Instr.(*ssa.TypeAssert); ok {
					typ = ta.AssertedType
				}
				reads = append(reads, attrRead{pos: pos, key: k, typ: typ, fn: ev.Fn, at: ev.Instr.Pos(), term: t})
			}
		}
	}
	setup := func(it *Interp) {
		it.Policy = renderBoundary
		it.RecordStores = true
		it.RecordLookups = true
	}
	for i, m := range pl.Modifiers {
		r := c.initAndRun(pl, m, "Modify", setup, nil)
		collect(i, r.It, r.Paths, "modifier")
		if len(r.Paths) > 0 {
			c.keepLayer(r)
		}
	}
	nm := len(pl.Modifiers)
	for i, m := range pl.Renderers {
		r := c.initAndRun(pl, m, "Render", setup, nil)
		collect(nm+i, r.It, r.Paths, "renderer")
		collectEvents(r.Paths, func(e evCtx) {
			if e.Ev.Key != "gcode.Builder.AddPolygon" || len(e.Ev.Args) < 3 {
				return
			}
			isHull := func(x *Term) bool { return callKeyOf(x) == "clip.Clipper.Hull" }
			if e.Ev.Args[2].Contains(isHull) {
				hull = true
			}
			e.Ev.Args[2].containsNot(func(x *Term) bool {
				if k, ok := attrKey(x); ok {
					printed[k] = FnName(r.Fn)
				}
				return false
			}, isHull)
		})
	}

	// R1
	nr := 0
	okTypes := map[string]bool{}
	for _, r := range reads {
		if r.typ != nil {
			// several assertions of the same value (type switch): one of them has to match
			for _, wr := range writes {
				if wr.key == r.key && wr.typ != nil && types.Identical(wr.typ, r.typ) {
					okTypes[fmt.Sprint(r.pos, r.key, r.term.ID)] = true
				}
			}
		}
	}
	for _, r := range reads {
		nr++
		earlier := false
		for _, wr := range writes {
			if wr.key == r.key && wr.pos <= r.pos {
				earlier = true
			}
		}
		c.Oblige(earlier, "C04.read", r.fn, r.at, "read of attribute "+r.key, "the attribute %q is read but no modifier up to this point of the pipeline stores it", r.key)
		if r.typ == nil {
			continue
		}
		for _, wr := range writes {
			if wr.key != r.key {
				continue
			}
			ok := wr.typ != nil && (types.Identical(wr.typ, r.typ) || (okTypes[fmt.Sprint(r.pos, r.key, r.term.ID)] && sameTypeWritten(writes, r.key)))
			c.Oblige(ok, "C04.read", r.fn, r.at, "type of attribute "+r.key, "the attribute %q is read as %s but stored as %v by %s", r.key, shortT(r.typ), typName(wr.typ), FnName(wr.fn))
		}
	}
	// R2
	for _, wr := range writes {
		used := false
		for _, r := range reads {
			if r.key == wr.key && r.pos >= wr.pos {
				used = true
			}
		}
		c.Oblige(used, "C04.use", wr.fn, wr.at, "stored attribute "+wr.key, "the attribute %q is stored but never read afterwards", wr.key)
	}
	var keys []string
	for k := range printed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	c.notes = append(c.notes, "printed attributes: "+strings.Join(keys, ", "))
	c.AtLeast("C04.use", "different attributes printed by renderers", len(printed), 5)
	c.Oblige(hull, "C04.use", nil, 0, "skirt is printed", "no renderer prints lines derived from the hull around the first layer")
	c.AtLeast("C04.anchors", "attribute reads", nr, 15)
	c.AtLeast("C04.anchors", "attribute writes", len(writes), 10)
	c.settingsWiring(pl)
}

func typName(t types.Type) string {
	if t == nil {
		return "a value of unknown type"
	}
	return shortT(t)
}

func sameTypeWritten(ws []attrWrite, key string) bool {
	var t types.Type
	for _, w := range ws {
		if w.key == key {
			if w.typ == nil || (t != nil && !types.Identical(t, w.typ)) {
				return false
			}
			t = w.typ
		}
	}
	return t != nil
}

// renderBoundary keeps the clipper, the patterns and the polygon printing as events.
func renderBoundary(ci *CallInfo) Action {
	if ci.Key == "gcode.Builder.AddPolygon" {
		return AEvent
	}
	return boundary(ci)
}

// processOrder decides the dataflow between the stages of Process.
func (c *Ctx) processOrder() {
	w := c.W
	fn := w.processFn()
	if fn == nil {
		c.Undecided("C04.order", nil, 0, "Process", "not found")
		return
	}
	it := NewInterp(w)
	it.Policy = boundary
	T := it.T
	ps := c.Run(it, fn, nil)
	const R = "C04.order"
	full := 0
	for _, p := range ps {
		var opt, slice *Term
		var gen *Event
		var modLoops, initLoops []*LoopNode
		first := map[string]bool{}
		walkEvents(p, func(e evCtx) {
			ev := e.Ev
			if ev.Kind != "call" {
				return
			}
			pos := ev.Instr.Pos()
			once := func(role string) {
				c.Oblige(!first[role] && len(e.Loops) == 0, R, fn, pos, role+" runs once", "%s runs more than once on a path", role)
				first[role] = true
			}
			switch ev.Key {
			case "handler.ModelReader.Read":
				once("Read")
				c.Oblige(isOpt(ev.Args[1], "Options.InputFilePath") || isOpt(ev.Args[1], "GoSlice.InputFilePath"), R, fn, pos, "reads the input file", "Read gets %s instead of the input path", clipStr(ev.Args[1].String(), 150))
			case "handler.ModelOptimizer.Optimize":
				once("Optimize")
				cl, i := asResult(ev.Args[1])
				c.Oblige(callKeyOf(cl) == "handler.ModelReader.Read" && i == 0, R, fn, pos, "optimises the loaded model", "Optimize gets %s", clipStr(ev.Args[1].String(), 150))
				opt = ev.ResAt(T, 0)
			case "handler.ModelSlicer.Slice":
				once("Slice")
				c.Oblige(opt != nil && ev.Args[1] == opt, R, fn, pos, "slices the optimised model", "Slice gets %s", clipStr(ev.Args[1].String(), 150))
				slice = ev.ResAt(T, 0)
			case "handler.LayerModifier.Init":
				c.Oblige(opt != nil && ev.Args[1] == opt, R, fn, pos, "modifier initialised with the optimised model", "Init gets %s", clipStr(ev.Args[1].String(), 150))
				if len(e.Loops) > 0 {
					initLoops = append(initLoops, e.Loops[len(e.Loops)-1])
				}
			case "handler.LayerModifier.Modify":
				c.Oblige(slice != nil && ev.Args[1] == slice, R, fn, pos, "modifier gets the sliced layers", "Modify gets %s", clipStr(ev.Args[1].String(), 150))
				c.Oblige(len(e.Loops) > 0 || e.Part != nil, R, fn, pos, "Modify in the loop over the modifiers", "a modifier is applied outside of the loop over the modifiers")
				if len(e.Loops) > 0 {
					modLoops = append(modLoops, e.Loops[len(e.Loops)-1])
				}
				c.Oblige(gen == nil, R, fn, pos, "modifiers before generator", "a modifier runs after the G-code was generated")
			case "handler.GCodeGenerator.Init":
				c.Oblige(opt != nil && ev.Args[1] == opt, R, fn, pos, "generator initialised with the optimised model", "Init gets %s", clipStr(ev.Args[1].String(), 150))
				first["GInit"] = true
			case "handler.GCodeGenerator.Generate":
				once("Generate")
				gen = ev
				c.Oblige(slice != nil && ev.Args[1] == slice, R, fn, pos, "generates from the modified layers", "Generate gets %s", clipStr(ev.Args[1].String(), 150))
				c.Oblige(first["GInit"], R, fn, pos, "generator initialised first", "Generate runs before Init")
				c.Oblige(len(modLoops) > 0, R, fn, pos, "all modifiers applied before generation", "the G-code is generated on a path on which the modifiers have not been applied")
			case "handler.GCodeWriter.Write":
				full++
			}
		})
		// the loops over the modifiers
		checkLoop := func(l *LoopNode, key string) (Cover, *Term, bool) {
			var list *Term
			var cv Cover
			ok := len(l.Bodies) > 0
			for _, b := range l.Bodies {
				n := 0
				for _, nd := range b.Trace {
					if nd.Ev != nil && nd.Ev.Key == key {
						n++
						base, idx, isE := elemOf(nd.Ev.Args[0])
						if !isE || !isOpt(base, "s.Modifiers") && !strings.HasSuffix(fieldPath(base), ".Modifiers") {
							ok = false
							continue
						}
						list = base
						c2, full := it.covers(l, T.Len(base))
						if !full || c2.Down || c2.Idx != idx {
							ok = false
						}
						cv = c2
					}
				}
				if n != 1 {
					ok = false
				}
			}
			return cv, list, ok && list != nil
		}
		seen := map[*LoopNode]bool{}
		for _, l := range modLoops {
			if seen[l] {
				continue
			}
			seen[l] = true
			cv, list, ok := checkLoop(l, "handler.LayerModifier.Modify")
			pos := l.Header.Instrs[0].Pos()
			c.Oblige(ok, R, fn, pos, "every modifier is applied in order", "the loop over the modifiers does not apply each modifier exactly once in list order")
			if gen != nil && ok {
				c.Oblige(it.exhausted(p, cv, T.Len(list)), R, fn, pos, "loop over the modifiers runs to its end", "the loop over the modifiers may end early on a path that generates G-code")
			}
			// initialised first
			for _, b := range l.Bodies {
				inited := false
				for _, nd := range b.Trace {
					if nd.Ev == nil {
						continue
					}
					if nd.Ev.Key == "handler.LayerModifier.Init" {
						inited = true
					}
					if nd.Ev.Key == "handler.LayerModifier.Modify" && !inited {
						// initialised by an earlier loop over all modifiers?
						for _, il := range initLoops {
							if il == l {
								continue
							}
							cvi, li, oki := checkLoop(il, "handler.LayerModifier.Init")
							if oki && li == list && it.exhausted(b, cvi, T.Len(list)) {
								inited = true
							}
						}
						c.Oblige(inited, R, fn, nd.Ev.Instr.Pos(), "modifier initialised before Modify", "a modifier is applied without having been initialised")
					} else if nd.Ev.Key == "handler.LayerModifier.Modify" {
						c.Oblige(true, R, fn, nd.Ev.Instr.Pos(), "modifier initialised before Modify", "")
					}
				}
			}
		}
	}
	c.AtLeast("C04.anchors", "complete paths of Process", full, 2)
}

// keepLayer decides that replaced layers keep parts and attributes and that no attribute map is lost.
func (c *Ctx) keepLayer(r *stageRes) {
	it, T := r.It, r.It.T
	const R = "C04.keep"
	layersT := r.Args[1]
	// maps stored with a layer, per path
	type at struct {
		ev *Event
		p  *Path
	}
	stored := map[*Path]map[*Term]bool{}
	var sets []at
	seenStore := map[string]bool{}
	everyPath(r.Paths, func(e evCtx) {
		ev := e.Ev
		switch {
		case (ev.Kind == "store" || ev.Kind == "elemstore") && strings.HasPrefix(ev.Key, "E:data.PartitionedLayer"):
			a, v := ev.Args[0], ev.Args[1]
			if a.Op != OAddrI || a.Args[0] != layersT {
				return
			}
			k := fmt.Sprint(a.ID, ":", v.ID)
			old := T.mk(OSel, "", v.Typ, false)
			_ = old
			parts := c.layerMethod(r, e, v, "LayerParts")
			attrs := c.layerMethod(r, e, v, "Attributes")
			if stored[e.Path] == nil {
				stored[e.Path] = map[*Term]bool{}
			}
			if attrs != nil {
				stored[e.Path][attrs] = true
			}
			if seenStore[k] {
				return
			}
			seenStore[k] = true
			okP := false
			if parts != nil && callKeyOf(parts) == "data.PartitionedLayer.LayerParts" {
				if b, i, ok := elemOf(parts.Args[0]); ok && b == layersT && T.Holds(e.At, T.NumEq(i, a.Args[1])) {
					okP = true
				}
			}
			c.Oblige(okP, R, ev.Fn, ev.Instr.Pos(), "replaced layer keeps its parts", "the layer stored at index %s does not have the parts of the layer it replaces (%s)", clipStr(a.Args[1].String(), 80), clipStr(fmt.Sprint(parts), 160))
			okA := false
			if attrs != nil {
				if callKeyOf(attrs) == "data.PartitionedLayer.Attributes" {
					if b, i, ok := elemOf(attrs.Args[0]); ok && b == layersT && T.Holds(e.At, T.NumEq(i, a.Args[1])) {
						okA = true
					}
				} else if attrs.Op == OAlloc {
					// fresh map: only if the replaced layer had none
					e.At.Each(func(at *Term, val bool) {
						if val && at.Op == OEq {
							for i, x := range at.Args {
								if callKeyOf(x) == "data.PartitionedLayer.Attributes" && at.Args[1-i].IsNil() {
									if b, i, ok := elemOf(x.Args[0]); ok && b == layersT && T.Holds(e.At, T.NumEq(i, a.Args[1])) {
										okA = true
									}
								}
							}
						}
					})
				}
			}
			c.Oblige(okA, R, ev.Fn, ev.Instr.Pos(), "replaced layer keeps its attributes", "the layer stored at index %s does not keep the attributes of the layer it replaces (%s)", clipStr(a.Args[1].String(), 80), clipStr(fmt.Sprint(attrs), 160))
		case ev.Kind == "mapset" && ev.Key == attrMap:
			sets = append(sets, at{ev, e.Path})
		}
	})
	for _, s := range sets {
		m := s.ev.Args[0]
		ok := callKeyOf(m) == "data.PartitionedLayer.Attributes"
		if ok {
			b, _, isE := elemOf(m.Args[0])
			ok = isE && b == layersT
		}
		if !ok && stored[s.p][m] {
			ok = true
		}
		c.Oblige(ok, R, s.ev.Fn, s.ev.Instr.Pos(), "attribute reaches a layer", "the attribute %s is stored in a map that belongs to no layer", clipStr(s.ev.Args[1].String(), 60))
	}
	_ = it
}

// layerMethod evaluates a method of a layer value.
func (c *Ctx) layerMethod(r *stageRes, e evCtx, v *Term, name string) *Term {
	it := r.It
	if v.Op != OIface {
		n := c.W.TypeNamed("data", "PartitionedLayer")
		if n == nil {
			return nil
		}
		return it.T.mk(OCall, "data.PartitionedLayer."+name, nil, false, v)
	}
	st := cleanState(e.Path.St)
	fn, recv := it.methodOf(st, v, name)
	if fn == nil {
		return nil
	}
	ch := it.child()
	ps, err := ch.RunFrom(fn, []*Term{recv}, st, nil)
	if err != nil || len(ps) != 1 || len(ps[0].Ret) != 1 {
		return nil
	}
	return ps[0].Ret[0]
}

// settingsWiring: every stage holds the options given to NewGoSlice.
func (c *Ctx) settingsWiring(pl *Pipeline) {
	it := pl.It
	const R = "C04.settings"
	fn := c.W.Func("", "NewGoSlice")
	optT := c.W.TypeNamed("data", "Options")
	n := 0
	check := func(role string, v *Term) {
		if v == nil || v.Op != OIface {
			return
		}
		pt, ok := v.Typ.(*types.Pointer)
		if !ok {
			return
		}
		s := structOf(pt.Elem())
		for i := 0; s != nil && i < s.NumFields(); i++ {
			fp, ok := s.Field(i).Type().(*types.Pointer)
			if !ok || !types.Identical(fp.Elem(), optT) {
				continue
			}
			p := it.loadAddr(pl.St, it.addrField(v.Args[0], pt.Elem(), i), s.Field(i).Type())
			val := it.loadAddr(pl.St, p, optT)
			same := val == pl.Opt
			if !same && val.Op == OStruct {
				same = it.T.mk(OStruct, "", optT, true, val.Args...) == val && structEq(it.T, val, pl.Opt, optT)
			}
			n++
			c.Oblige(same, R, fn, fn.Pos(), "settings of "+role, "%s does not get the settings passed to NewGoSlice: %s", role, clipStr(val.String(), 200))
		}
	}
	for r, v := range pl.Stage {
		check(r, v)
	}
	for _, m := range pl.Modifiers {
		check(FnName(nameOf(it, pl, m)), m)
	}
	c.AtLeast("C04.anchors", "stages holding settings", n, 9)
}

func nameOf(it *Interp, pl *Pipeline, v *Term) *ssa.Function {
	fn, _ := it.methodOf(pl.St, v, "Modify")
	return fn
}

// structEq: v is the field-wise copy of src.
func structEq(T *Terms, v, src *Term, typ types.Type) bool {
	if v == src {
		return true
	}
	s := structOf(typ)
	if v.Op != OStruct || s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !structEq(T, v.Args[i], T.FieldOf(src, f.Name(), i, f.Type()), f.Type()) {
			return false
		}
	}
	return true
}
