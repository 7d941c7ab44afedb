package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Motion commands reproduce exactly the requested moves", checkC05)
}

// invokeOn evaluates a method without arguments on a value in a state; nil if it is not a single value.
func (it *Interp) invokeOn(st *State, v *Term, styp types.Type, name string) *Term {
	var fn *ssa.Function
	recv := v
	if v.Op == OIface {
		fn, recv = it.methodOf(st, v, name)
	} else if types.IsInterface(styp) {
		if d := it.W.SoleImpl(styp); d != nil && it.devirt(styp) {
			ms := it.W.Prog.MethodSets.MethodSet(d)
			for i := 0; i < ms.Len(); i++ {
				if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Name() == name {
					fn = it.lookupMethod(d, o)
				}
			}
			recv = it.T.mk(ODyn, "", d, false, v)
		}
	} else {
		ms := it.W.Prog.MethodSets.MethodSet(styp)
		for i := 0; i < ms.Len(); i++ {
			if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Name() == name {
				fn = it.lookupMethod(styp, o)
			}
		}
	}
	if fn == nil || len(fn.Params) != 1 {
		return nil
	}
	ch := it.child()
	ps, err := ch.RunFrom(fn, []*Term{recv}, cleanState(st), nil)
	if err != nil || len(ps) != 1 || ps[0].Kind != KReturn || len(ps[0].Ret) != 1 {
		return nil
	}
	return ps[0].Ret[0]
}

func hasMethod(w *World, t types.Type, name string) bool {
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// probe reads a part of the state of an object.
type probe struct {
	Name  string
	Field string // outermost field
	Typ   types.Type
	Eval  func(st *State) *Term
}

// probes enumerates the numeric and boolean parts of the struct behind a pointer.
func (it *Interp) probes(recv *Term, n types.Type) []probe {
	var out []probe
	var rec func(name, top string, addr func(st *State) *Term, typ types.Type)
	rec = func(name, top string, addr func(st *State) *Term, typ types.Type) {
		switch u := typ.Underlying().(type) {
		case *types.Basic:
			out = append(out, probe{name, top, typ, func(st *State) *Term { return it.loadAddr(st, addr(st), typ) }})
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				i := i
				f := u.Field(i)
				rec(name+"."+f.Name(), top, func(st *State) *Term { return it.addrField(addr(st), typ, i) }, f.Type())
			}
		default:
			for _, m := range []string{"X", "Y", "Z"} {
				if hasMethod(it.W, typ, m) {
					m := m
					out = append(out, probe{name + "." + m + "()", top, typ, func(st *State) *Term {
						return it.invokeOn(st, it.loadAddr(st, addr(st), typ), typ, m)
					}})
				}
			}
		}
	}
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		i := i
		f := s.Field(i)
		rec(f.Name(), f.Name(), func(st *State) *Term { return it.addrField(recv, n, i) }, f.Type())
	}
	return out
}

// part is a piece of text: constant or a formatted value.
type textPart struct {
	Str  string
	Verb string
	Val  *Term
}

func textParts(t *Term) []textPart {
	switch t.Op {
	case OStr:
		return []textPart{{Str: t.Sym}}
	case OStrCat:
		var r []textPart
		for _, a := range t.Args {
			r = append(r, textParts(a)...)
		}
		return r
	case OFmt:
		if len(t.Args) == 1 {
			return []textPart{{Verb: t.Sym, Val: t.Args[0]}}
		}
	}
	return []textPart{{Verb: "?", Val: t}}
}

// template renders parts with a placeholder for each value.
func template(ps []textPart) (string, []textPart) {
	var sb strings.Builder
	var vals []textPart
	for _, p := range ps {
		if p.Verb == "" {
			sb.WriteString(p.Str)
		} else {
			sb.WriteByte(0)
			vals = append(vals, p)
		}
	}
	return sb.String(), vals
}

var motionLine = regexp.MustCompile(`^(G[01])((?: [A-Z]\x00)*)\n$`)

// decimals of a %.nf verb, or -1
func decimals(verb string) int {
	n := 0
	if _, err := fmt.Sscanf(verb, "%%.%df", &n); err == nil && strings.HasSuffix(verb, "f") {
		return n
	}
	if verb == "%d" {
		return 0
	}
	return -1
}

func checkC05(c *Ctx) {
	w := c.W
	c.Rule("C05.line: on every path of AddMoveSpeed the text written is empty or one line G0/G1 with words X Y Z F E; coordinates are the requested position in mm with at least 2 decimals, F the speed in mm/min, E the running total with at least 4 decimals; G1 and E exactly if extrusion is requested")
	c.Rule("C05.state: one set of fields of the builder remembers the last sent position, feed rate and extrusion total: a word is left out only if the remembered value equals the requested one (and, for coordinates, has been sent before), and after every path the remembered values are the requested ones")
	c.Rule("C05.move: AddMove hands position and extrusion to AddMoveSpeed unchanged, exactly once")
	c.Rule("C05.own: no other exported function of package gcode and no renderer writes the remembered values or replaces the builder")
	c.Rule("C05.raw: no other text written to the program contains a motion or axis command, except 'G92 E0' on layer 0 before anything is printed")
	bt := w.TypeNamed("gcode", "Builder")
	fn := (*ssa.Function)(nil)
	if bt != nil {
		fn = w.Method(bt, "AddMoveSpeed")
	}
	if fn == nil {
		c.Undecided("C05.line", nil, 0, "Builder.AddMoveSpeed", "not found")
		return
	}
	it := NewInterp(w)
	it.Unroll = true
	T := it.T
	args := it.ParamSyms(fn)
	var pos, ext, speed *Term
	var posT types.Type
	for i, a := range args {
		if i == 0 {
			continue
		}
		t := fn.Params[i].Type()
		switch {
		case hasMethod(w, t, "Z"):
			pos, posT = a, t
		case isFloat(t):
			ext = a
		case isInteger(t):
			speed = a
		}
	}
	if pos == nil || ext == nil || speed == nil {
		c.Undecided("C05.line", fn, fn.Pos(), "parameters", "AddMoveSpeed does not take a position, an extrusion and a speed")
		return
	}
	st0 := it.NewState()
	want := map[string]*Term{"F": speed, "E": ext}
	for _, m := range []string{"X", "Y", "Z"} {
		v := it.invokeOn(st0, pos, posT, m)
		if v == nil {
			c.Undecided("C05.line", fn, fn.Pos(), "coordinate "+m, "cannot be evaluated")
			return
		}
		want[m] = v
	}
	probes := it.probes(args[0], bt)
	pre := map[string]*Term{}
	var bools, nums []probe
	for _, p := range probes {
		v := p.Eval(st0)
		if v == nil {
			continue
		}
		pre[p.Name] = v
		if b, ok := p.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			bools = append(bools, p)
		} else if isNumTermOrTyp(v) {
			nums = append(nums, p)
		}
	}
	ps := c.RunFrom(it, fn, args, cleanState(st0), nil)
	const R = "C05.line"
	type line struct {
		p     *Path
		words map[string]textPart
		empty bool
	}
	var lines []line
	for _, p := range ps {
		if p.Kind != KReturn {
			c.Oblige(false, R, fn, fn.Pos(), "returns", "AddMoveSpeed may end with %s", p.Kind)
			continue
		}
		var parts []textPart
		bad := false
		walkEvents(p, func(e evCtx) {
			switch e.Ev.Kind {
			case "emit":
				if rootOf(e.Ev.Args[0]).Op == OAlloc {
					return
				}
				if len(e.Loops) > 0 {
					bad = true
				}
				parts = append(parts, textParts(e.Ev.Args[1])...)
			case "call":
				if e.Ev.Key != "" && !isPure(e.Ev.Key) {
					bad = true
				}
			}
		})
		if bad {
			c.Undecided(R, fn, fn.Pos(), "written text", "the text written is not known on a path (%s)", clipStr(p.Facts.String(), 200))
			continue
		}
		tpl, vals := template(parts)
		l := line{p: p, words: map[string]textPart{}}
		if tpl == "" {
			l.empty = true
			lines = append(lines, l)
			continue
		}
		m := motionLine.FindStringSubmatch(tpl)
		if !c.Oblige(m != nil, R, fn, fn.Pos(), "form of the line", "writes %q which is not one motion line", strings.ReplaceAll(tpl, "\x00", "<value>")) {
			continue
		}
		l.words["G"] = textPart{Str: m[1]}
		okW := true
		for i := 0; i*3 < len(m[2]); i++ {
			k := string(m[2][i*3+1])
			if _, dup := l.words[k]; dup || !strings.Contains("XYZFE", k) {
				okW = false
			}
			l.words[k] = vals[i]
		}
		c.Oblige(okW, R, fn, fn.Pos(), "words of the line", "the words of the line are not some of X Y Z F E, each once: %q", tpl)
		lines = append(lines, l)
	}
	// extruding?
	zero := T.NumEq(ext, T.Int(0))
	for _, l := range lines {
		if l.empty {
			continue
		}
		isZ, notZ := T.Holds(l.p.Facts, zero), T.Holds(l.p.Facts, T.Not(zero))
		_, hasE := l.words["E"]
		g := l.words["G"].Str
		c.Oblige((isZ && g == "G0" && !hasE) || (notZ && g == "G1" && hasE), R, fn, fn.Pos(), "G1 with E exactly if extruding",
			"writes %s (E word: %v) on a path with extrusion==0:%v extrusion!=0:%v", g, hasE, isZ, notZ)
		for _, k := range []string{"X", "Y", "Z", "F"} {
			pt, ok := l.words[k]
			if !ok {
				continue
			}
			val := pt.Val
			var expect *Term
			min := 2
			if k == "F" {
				expect = T.Scale(want[k], big.NewRat(60, 1))
				min = 0
			} else {
				expect = T.Scale(want[k], big.NewRat(1, 1000))
			}
			ok = val != nil && decimals(pt.Verb) >= min && (val == expect || T.Holds(l.p.Facts, T.NumEq(val, expect)))
			c.Oblige(ok, R, fn, fn.Pos(), "value of word "+k, "the word %s is written as %s of %s, requested is %s", k, pt.Verb, clipStr(fmt.Sprint(val), 120), clipStr(expect.String(), 120))
		}
	}
	// roles of the fields
	const S = "C05.state"
	// sent flags: false at first, all true after every line, unchanged when nothing is written
	init0 := builderInit(c, it, bt)
	var sent []probe
	for _, b := range bools {
		ok := init0 != nil && init0[b.Name] != nil && init0[b.Name] == T.Bool(false)
		for _, l := range lines {
			post := b.Eval(l.p.St)
			if l.empty {
				ok = ok && (post == pre[b.Name])
			} else {
				ok = ok && (post == T.Bool(true) || T.Holds(l.p.Facts, post))
			}
		}
		if ok {
			sent = append(sent, b)
		}
	}
	isSent := func(f *Facts) bool {
		for _, b := range sent {
			if T.Holds(f, pre[b.Name]) {
				return true
			}
		}
		return false
	}
	infeasible := func(f *Facts) bool {
		// all flags are equal before every call
		t, n := false, false
		for _, b := range sent {
			t = t || T.Holds(f, pre[b.Name])
			n = n || T.Holds(f, T.Not(pre[b.Name]))
		}
		return t && n
	}
	eq := func(f *Facts, a, b *Term) bool { return a != nil && b != nil && (a == b || T.Holds(f, T.NumEq(a, b))) }
	stateFields := map[string]bool{}
	for _, b := range sent {
		stateFields[b.Field] = true
	}
	for _, k := range []string{"X", "Y", "Z", "F", "E"} {
		var role []probe
		why := ""
		for _, pr := range nums {
			bad := ""
			for _, l := range lines {
				if infeasible(l.p.Facts) {
					continue
				}
				post := pr.Eval(l.p.St)
				_, has := l.words[k]
				switch {
				case k == "E":
					total := T.Add(pre[pr.Name], ext)
					if has && !eq(l.p.Facts, l.words[k].Val, total) {
						bad = "the E word is not the remembered total plus the requested extrusion"
					}
					if has && decimals(l.words[k].Verb) < 4 {
						bad = "the E word has less than 4 decimals"
					}
					if !eq(l.p.Facts, post, total) {
						bad = "afterwards the remembered total is not the old one plus the requested extrusion"
					}
				case k == "F":
					if !l.empty && !has && !eq(l.p.Facts, pre[pr.Name], speed) {
						bad = "the F word is left out although the speed may differ from the remembered one"
					}
					if !l.empty && !eq(l.p.Facts, post, speed) {
						bad = "afterwards the remembered speed is not the requested one"
					}
					if l.empty && !eq(l.p.Facts, post, pre[pr.Name]) {
						bad = "the remembered speed changes although nothing is written"
					}
				default:
					if !has && !(eq(l.p.Facts, pre[pr.Name], want[k]) && isSent(l.p.Facts)) {
						bad = "the " + k + " word is left out although the coordinate may differ from the last sent one or has never been sent"
					}
					if !eq(l.p.Facts, post, want[k]) {
						bad = "afterwards the remembered " + k + " is not the requested one"
					}
				}
				if bad != "" {
					bad += " (path with " + clipStr(l.p.Facts.String(), 260) + ")"
					break
				}
			}
			if bad == "" {
				role = append(role, pr)
				stateFields[pr.Field] = true
			} else if why == "" || relatedTo(pr.Name, k) {
				why = "field " + pr.Name + ": " + bad
			}
		}
		if c.Oblige(len(role) > 0, S, fn, fn.Pos(), "word "+k, "no field of the builder consistently remembers the value of word %s; %s", k, why) && k == "E" {
			c.Oblige(init0 != nil && init0[role[0].Name] != nil && init0[role[0].Name].IsInt(0), S, fn, fn.Pos(), "extrusion total starts at 0", "a new builder does not start with an extrusion total of 0")
		}
		for _, l := range lines {
			if l.empty && k == "E" {
				c.Oblige(T.Holds(l.p.Facts, zero), S, fn, fn.Pos(), "no line only without extrusion", "the line is left out although extrusion may be requested (path with %s)", clipStr(l.p.Facts.String(), 200))
			}
		}
	}
	c.AtLeast("C05.anchors", "paths of AddMoveSpeed", len(lines), 8)

	// text buffer
	s := structOf(bt)
	for i := 0; i < s.NumFields(); i++ {
		if bufferKind(s.Field(i).Type()) != "" || bufferKind(types.NewPointer(s.Field(i).Type())) != "" {
			stateFields[s.Field(i).Name()] = true
		}
	}
	var sf []string
	for f := range stateFields {
		sf = append(sf, f)
	}
	sort.Strings(sf)
	c.notes = append(c.notes, "remembered state: "+strings.Join(sf, ", "))

	c.builderOwnership(bt, fn, stateFields)
	c.rawMotion()
}

// relatedTo prefers the natural candidate in messages only.
func relatedTo(name, k string) bool {
	n := strings.ToLower(name)
	switch k {
	case "E":
		return strings.Contains(n, "extrusionamount")
	case "F":
		return strings.Contains(n, "currentspeed")
	}
	return strings.HasSuffix(name, "."+k+"()")
}

func isPure(key string) bool {
	return strings.HasPrefix(key, "strconv.") || strings.HasPrefix(key, "fmt.Sp")
}

// builderInit gives the field values of a new builder.
func builderInit(c *Ctx, it *Interp, bt *types.Named) map[string]*Term {
	fn := c.W.Func("gcode", "NewGCodeBuilder")
	if fn == nil {
		c.Undecided("C05.state", nil, 0, "NewGCodeBuilder", "not found")
		return nil
	}
	ch := it.child()
	ps := c.Run(ch, fn, nil)
	if len(ps) != 1 || len(ps[0].Ret) != 1 {
		c.Undecided("C05.state", fn, fn.Pos(), "NewGCodeBuilder", "%d paths", len(ps))
		return nil
	}
	m := map[string]*Term{}
	for _, p := range ch.probes(ps[0].Ret[0], bt) {
		m[p.Name] = p.Eval(ps[0].St)
	}
	return m
}

// moveBoundary keeps AddMoveSpeed as an event.
func moveBoundary(ci *CallInfo) Action {
	if ci.Key == "gcode.Builder.AddMoveSpeed" {
		return AEvent
	}
	return boundary(ci)
}

func moveRenderBoundary(ci *CallInfo) Action {
	if ci.Key == "gcode.Builder.AddMoveSpeed" {
		return AEvent
	}
	return renderBoundary(ci)
}

// exportedOf lists exported functions and all methods of exported and unexported types of a package.
func (w *World) exportedOf(rel string) []*ssa.Function {
	var r []*ssa.Function
	pk := w.Pkg(rel)
	for _, fn := range w.RepoFns {
		if fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Pkg == nil || fn.Synthetic != "" || pk == nil {
			continue
		}
		if fn.Pkg.Pkg != pk.Types {
			continue
		}
		if o := fn.Object(); o != nil && o.Exported() {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (c *Ctx) builderOwnership(bt *types.Named, move *ssa.Function, state map[string]bool) {
	const R = "C05.own"
	n := 0
	var posImpl types.Type
	if p := move.Signature.Params(); p.Len() > 0 {
		posImpl = c.W.SoleImpl(p.At(0).Type())
	}
	check := func(it *Interp, ps []*Path) {
		// a position handed to the move operation is remembered: it must not change afterwards
		var walk func(ns []Node, handed map[*Term]bool)
		walk = func(ns []Node, handed map[*Term]bool) {
			for _, nd := range ns {
				if nd.Loop != nil {
					for k := 0; k < 2; k++ {
						for _, b := range nd.Loop.Bodies {
							walk(b.Trace, handed)
						}
					}
				}
				ev := nd.Ev
				if ev == nil {
					continue
				}
				switch ev.Kind {
				case "alloc":
					delete(handed, ev.Args[0])
				case "call":
					if ev.Key == "gcode.Builder.AddMoveSpeed" && len(ev.Args) > 1 {
						handed[rootOf(strip(ev.Args[1]))] = true
					}
				case "store", "allocstore":
					inPos := false
					for x := ev.Args[0]; x.Op == OAddrF; x = x.Args[0] {
						if o := addrOwner(x); o != nil && posImpl != nil && types.Identical(types.NewPointer(o), posImpl) {
							inPos = true
						}
					}
					if r := rootOf(ev.Args[0]); inPos {
						c.Oblige(r.Op == OAlloc && !handed[r], R, ev.Fn, ev.Instr.Pos(), "position changed in place", "a position that is remembered by the builder is changed in place")
					}
				}
			}
		}
		for _, p := range ps {
			walk(p.Trace, map[*Term]bool{})
		}
		collectEvents(ps, func(e evCtx) {
			ev := e.Ev
			if ev.Kind != "store" && ev.Kind != "elemstore" {
				return
			}
			a := ev.Args[0]
			if a.Op == OAddrF {
				// outermost field of the builder
				for x := a; x.Op == OAddrF; x = x.Args[0] {
					if strings.HasPrefix(ev.Key, "F:gcode.Builder.") || addrOwner(x) == bt {
						c.Oblige(!state[x.Sym] || addrOwner(x) != bt, R, ev.Fn, ev.Instr.Pos(), "write of "+x.Sym, "%s is changed outside of AddMoveSpeed", x.Sym)
					}
				}
				return
			}
			if p, ok := a.Typ.(*types.Pointer); ok && types.Identical(p.Elem(), bt) {
				c.Oblige(false, R, ev.Fn, ev.Instr.Pos(), "builder replaced", "the whole builder is overwritten")
			}
		})
	}
	for _, fn := range c.W.exportedOf("gcode") {
		if fn == move {
			continue
		}
		it := NewInterp(c.W)
		it.Policy = moveBoundary
		it.RecordStores = true
		it.RecordAllocs = true
		ps := c.Run(it, fn, nil)
		n++
		check(it, ps)
		c.Oblige(true, R, fn, fn.Pos(), "function analysed", "")
		if fn.Name() == "AddMove" && fn.Signature.Recv() != nil {
			c.addMove(it, fn, ps)
		}
	}
	c.AtLeast("C05.anchors", "functions of package gcode", n, 12)
}

func addrOwner(a *Term) *types.Named {
	if a.Op != OAddrF || a.Typ == nil {
		return nil
	}
	n, _ := a.Typ.(*types.Named)
	return n
}

func (c *Ctx) addMove(it *Interp, fn *ssa.Function, ps []*Path) {
	args := it.ParamSyms(fn)
	for _, p := range ps {
		n := 0
		ok := true
		walkEvents(p, func(e evCtx) {
			ev := e.Ev
			if ev.Key == "gcode.Builder.AddMoveSpeed" {
				n++
				ok = ok && len(e.Loops) == 0 && len(ev.Args) >= 3 && ev.Args[0] == args[0] && ev.Args[1] == args[1] && ev.Args[2] == args[2]
			}
		})
		c.Oblige(n == 1 && ok, "C05.move", fn, fn.Pos(), "AddMove", "AddMove does not request exactly the given move once (path with %s)", clipStr(p.Facts.String(), 200))
	}
}

var motionWord = regexp.MustCompile(`^\s*(?:[Nn][0-9]+\s*)?([GgTt]\s*[0-9]+|[Mm]\s*8[23]\b)`)

// rawMotion looks for motion commands in all other text that reaches the program.
func (c *Ctx) rawMotion() {
	const R = "C05.raw"
	pl := c.pipeline("C05.pipeline")
	if pl == nil {
		return
	}
	texts := map[string]bool{}
	printedBefore := false // an earlier renderer may have printed on this layer
	scan := func(it *Interp, ps []*Path, root bool, layerNr *Term) {
		for _, top := range ps {
			moved := printedBefore
			var walk func(p *Path)
			open := "" // unfinished line
			walk = func(p *Path) {
				for _, nd := range p.Trace {
					switch {
					case nd.Loop != nil:
						open = ""
						for _, b := range nd.Loop.Bodies {
							walk(b)
							open = ""
						}
					case nd.Ev != nil && (nd.Ev.Key == "gcode.Builder.AddPolygon" || nd.Ev.Key == "gcode.Builder.AddMoveSpeed"):
						moved = true
					case nd.Ev != nil && nd.Ev.Kind == "emit":
						ev := nd.Ev
						if rootOf(ev.Args[0]).Op == OAlloc {
							continue
						}
						tpl, vals := template(textParts(ev.Args[1]))
						text := open + tpl
						for _, ln := range strings.SplitAfter(text, "\n") {
							if ln == "" {
								continue
							}
							if !strings.HasSuffix(ln, "\n") {
								open = ln
								continue
							}
							open = ""
							texts[ln] = true
							efn, epos := ev.caller()
							body := strings.TrimSuffix(ln, "\n")
							if i := strings.IndexByte(body, ';'); i >= 0 {
								body = body[:i]
							}
							body = strings.TrimSpace(body)
							if strings.HasPrefix(body, "\x00") {
								if root {
									continue
								}
								ok := false
								for _, v := range vals {
									if v.Val.Contains(func(x *Term) bool { return x.Typ != nil && isHunkPath(x) }) {
										ok = true
									}
								}
								c.Oblige(ok, R, efn, epos, "line starting with a value", "a line starts with a value that is not custom G-code: %s", clipStr(ev.Args[1].String(), 120))
								continue
							}
							if !motionWord.MatchString(body) {
								c.Oblige(true, R, efn, epos, "line "+clipStr(body, 30), "")
								continue
							}
							at := p.Facts.Upto(ev.NFact)
							ok := !moved && layerNr != nil && body == "G92 E0" && it.T.Holds(at, it.T.NumEq(layerNr, it.T.Int(0)))
							c.Oblige(ok, R, efn, epos, "raw motion command", "writes the motion or axis command %q outside of the move operation (only G92 E0 before the first line of layer 0 is allowed)", strings.ReplaceAll(body, "\x00", "<value>"))
						}
					}
				}
			}
			walk(top)
		}
	}
	for _, m := range pl.Renderers {
		r := c.initAndRun(pl, m, "Render", func(it *Interp) { it.Policy = moveRenderBoundary; it.RecordStores = true }, nil)
		var nr *Term
		for i, a := range r.Args {
			if i > 0 && r.Fn != nil && isInteger(r.Fn.Params[i].Type()) {
				nr = a
				break
			}
		}
		scan(r.It, r.Paths, false, nr)
		collectEvents(r.Paths, func(e evCtx) {
			if e.Ev.Key == "gcode.Builder.AddPolygon" || e.Ev.Key == "gcode.Builder.AddMoveSpeed" {
				printedBefore = true
			}
			if (e.Ev.Kind == "store") && strings.HasPrefix(e.Ev.Key, "E:gcode.Builder") {
				c.Oblige(false, "C05.own", e.Ev.Fn, e.Ev.Instr.Pos(), "builder replaced", "a renderer overwrites the builder")
			}
		})
	}
	for _, fn := range c.W.exportedOf("gcode") {
		if fn.Name() == "AddMoveSpeed" {
			continue
		}
		it := NewInterp(c.W)
		it.Policy = moveBoundary
		scan(it, c.Run(it, fn, nil), true, nil)
	}
	c.AtLeast("C05.anchors", "different lines of raw text", len(texts), 12)
}

// caller gives the place from which text was written: the call of the writing function.
func (ev *Event) caller() (*ssa.Function, token.Pos) {
	if len(ev.Stack) > 0 {
		return ev.Stack[0].Parent(), ev.Stack[0].Pos()
	}
	return ev.Fn, ev.Instr.Pos()
}

// isHunkPath: a read of the custom G-code options
func isHunkPath(x *Term) bool {
	p := fieldPath(x)
	return strings.Contains(p, ".StartGCode") || strings.Contains(p, ".EndGCode")
}
