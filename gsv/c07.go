package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Heater and fan commands follow the configuration on every layer", checkC07)
}

// tri-state
const (
	no = iota - 1
	maybe
	yes
)

func and(vs ...int) int {
	r := yes
	for _, v := range vs {
		if v == no {
			return no
		}
		if v == maybe {
			r = maybe
		}
	}
	return r
}

func neg(v int) int { return -v }

func (it *Interp) tri(f *Facts, t *Term) int {
	if v, k := it.T.Decide(f, t); k {
		if v {
			return yes
		}
		return no
	}
	return maybe
}

// hunkHas: is it known whether the given custom code contains one of the codes?
func hunkHas(f *Facts, hunk string, codes []string) int {
	r := maybe
	f.Each(func(a *Term, val bool) {
		if a.Op != OCall || !strings.HasPrefix(a.Sym, "data.GCodeHunk.") || len(a.Args) < 2 {
			return
		}
		if !strings.HasSuffix(fieldPath(a.Args[0]), hunk) {
			// the receiver may be passed by value or as its only field
			ok := false
			a.Args[0].Contains(func(x *Term) bool {
				if strings.Contains(fieldPath(x), hunk) {
					ok = true
				}
				return false
			})
			if !ok {
				return
			}
		}
		es, ok := listElems(a.Args[1])
		if !ok {
			return
		}
		var l []string
		for _, e := range es {
			if e.Op != OStr {
				return
			}
			l = append(l, e.Sym)
		}
		sort.Strings(l)
		if strings.Join(l, ",") != strings.Join(codes, ",") {
			return
		}
		if val {
			r = yes
		} else {
			r = no
		}
	})
	return r
}

type heatKind struct {
	name string
	code []string
	cond func(f *Facts) int
}

type renderRun struct {
	SetupOpt *Term // settings given to NewGoSlice
	Idx      int
	Name     string
	It       *Interp
	Fn       *ssa.Function
	Args     []*Term
	Paths    []*Path
	Nr       *Term // layer number
	Max      *Term
	Layer    *Term
	Z        *Term
	Opt      *Term
	Bld      *Term
}

// renderRuns analyses the Render method of every registered renderer.
func (c *Ctx) renderRuns(rule string, pol Policy, cfg func(it *Interp)) []*renderRun {
	pl := c.pipeline(rule)
	if pl == nil {
		return nil
	}
	var out []*renderRun
	for i, m := range pl.Renderers {
		r := c.initAndRun(pl, m, "Render", func(it *Interp) {
			it.Policy = pol
			if cfg != nil {
				cfg(it)
			}
		}, nil)
		rr := &renderRun{SetupOpt: pl.Opt, Idx: i, It: r.It, Fn: r.Fn, Args: r.Args, Paths: r.Paths}
		if r.Fn == nil {
			continue
		}
		rr.Name = FnName(r.Fn)
		// the Renderer interface fixes the order of the parameters
		if len(r.Args) == 7 {
			rr.Bld, rr.Nr, rr.Max, rr.Layer, rr.Z, rr.Opt = r.Args[1], r.Args[2], r.Args[3], r.Args[4], r.Args[5], r.Args[6]
		} else {
			c.Undecided(rule, r.Fn, r.Fn.Pos(), "Render", "unexpected number of parameters")
			continue
		}
		out = append(out, rr)
	}
	return out
}

func checkC07(c *Ctx) {
	c.Rule("C07.table: for each of the commands (initial hot-end/bed temperature, normal hot-end/bed temperature, hot-end/bed off, fan off, fan speed) exactly one renderer writes it, exactly once on the paths on which its condition holds and not on the others, with the value of its setting")
	c.Rule("C07.order: initial temperatures come before the start code; the heaters are switched off after everything is printed")
	c.Rule("C07.contains: the test whether custom code contains a command looks at every line and every code")
	rs := c.renderRuns("C07.pipeline", hunkBoundary, nil)
	if rs == nil {
		return
	}
	hot, bed := []string{"M104", "M109"}, []string{"M140", "M190"}
	type obs struct {
		n    map[*Path]int
		site map[*Path]textLine
	}
	kinds := []string{"initial hot-end temperature", "initial bed temperature", "normal hot-end temperature", "normal bed temperature", "hot-end off", "bed off", "fan off", "fan speed"}
	cnt := map[string]map[*renderRun]map[*Path][]textLine{}
	for _, k := range kinds {
		cnt[k] = map[*renderRun]map[*Path][]textLine{}
	}
	conds := func(r *renderRun, f *Facts) map[string]int {
		T := r.It.T
		st := r.It.NewState()
		o := func(path string) *Term { return r.It.optTerm(st, r.Opt, path) }
		first := r.It.tri(f, T.NumEq(r.Nr, T.Int(0)))
		last := r.It.tri(f, T.NumEq(r.Nr, r.Max))
		safe := r.It.tri(f, o("Printer.ForceSafeStartStopGCode"))
		hb := r.It.tri(f, o("Printer.HasHeatedBed"))
		at := r.It.tri(f, T.NumEq(r.Nr, o("Filament.InitialTemperatureLayerCount")))
		lut := o("Filament.FanSpeed.LayerToSpeedLUT")
		present, speed, never := maybe, maybe, false
		f.Each(func(a *Term, val bool) {
			if a.Op == OSel && isMemKey(a.Args[0].Sym, "H:") && len(a.Args) == 3 && (a.Args[1] == lut) && T.Holds(f, T.NumEq(a.Args[2], r.Nr)) {
				if val {
					present = yes
				} else {
					present = no
				}
			}
			a.Contains(func(x *Term) bool {
				if m, k, ok := lookupOf(x); ok && m == lut && speed == maybe && T.Holds(f, T.NumEq(k, r.Nr)) {
					// a speed is never negative (C09)
					if g, sat := T.Assume(f, T.LeT(T.Int(0), x), true); sat {
						speed = r.It.tri(g, T.NumEq(x, T.Int(0)))
					} else {
						never = true
					}
				}
				return false
			})
		})
		if never {
			return nil
		}
		return map[string]int{
			"initial hot-end temperature": and(first, safe, neg(hunkHas(f, ".StartGCode", hot))),
			"initial bed temperature":     and(first, safe, hb, neg(hunkHas(f, ".StartGCode", bed))),
			"normal hot-end temperature":  at,
			"normal bed temperature":      and(at, hb),
			"hot-end off":                 and(last, safe, neg(hunkHas(f, ".EndGCode", hot))),
			"bed off":                     and(last, safe, hb, neg(hunkHas(f, ".EndGCode", bed))),
			"fan off":                     and(present, speed),
			"fan speed":                   and(present, neg(speed)),
		}
	}
	st := rs[0].It.NewState()
	for _, p := range []string{"Printer.ForceSafeStartStopGCode", "Printer.HasHeatedBed", "Filament.InitialTemperatureLayerCount", "Filament.FanSpeed.LayerToSpeedLUT", "Filament.InitialHotEndTemperature"} {
		if rs[0].It.optTerm(st, rs[0].Opt, p) == nil {
			c.Undecided("C07.table", nil, 0, "option "+p, "not found")
			return
		}
	}
	total := 0
	lastPrint := -1
	for _, r := range rs {
		T := r.It.T
		for _, p := range r.Paths {
			walkEvents(p, func(e evCtx) {
				if e.Ev.Key == "gcode.Builder.AddPolygon" || e.Ev.Key == "gcode.Builder.AddMoveSpeed" {
					lastPrint = r.Idx
				}
			})
		}
		for _, p := range r.Paths {
			linesOf(p, func(l textLine) {
				m := tempCode.FindStringSubmatch(l.Tpl)
				if m == nil {
					return
				}
				total++
				fn, pos := l.site()
				code := m[1]
				var val *Term
				sm := sWord.FindStringSubmatch(l.Tpl)
				if sm != nil && sm[1] == "\x00" && len(l.Vals) > 0 && l.Vals[0].Verb == "%d" {
					val = l.Vals[0].Val
				} else if sm != nil && sm[1] == "0" {
					val = T.Int(0)
				}
				kind := ""
				is := func(path string) bool {
					return val != nil && val == r.It.optTerm(r.It.NewState(), r.Opt, path)
				}
				isHot, isBed := code == "M104" || code == "M109", code == "M140" || code == "M190"
				switch {
				case code == "M107" || (code == "M106" && val != nil && val.IsInt(0)):
					kind = "fan off"
				case code == "M106" && val != nil:
					if lm, lk, ok := lookupOf(val); ok && lm == r.It.optTerm(r.It.NewState(), r.Opt, "Filament.FanSpeed.LayerToSpeedLUT") && T.Holds(l.Facts, T.NumEq(lk, r.Nr)) {
						kind = "fan speed"
					}
				case isHot && val != nil && val.IsInt(0):
					kind = "hot-end off"
				case isBed && val != nil && val.IsInt(0):
					kind = "bed off"
				case isHot && is("Filament.InitialHotEndTemperature"):
					kind = "initial hot-end temperature"
				case isBed && is("Filament.InitialBedTemperature"):
					kind = "initial bed temperature"
				case isHot && is("Filament.HotEndTemperature"):
					kind = "normal hot-end temperature"
				case isBed && is("Filament.BedTemperature"):
					kind = "normal bed temperature"
				}
				vs := "none"
				if val != nil {
					vs = clipStr(val.String(), 100)
				}
				if !c.Oblige(kind != "" && !l.Open, "C07.table", fn, pos, "command "+code, "the line %q writes a value that is not the setting of this command (%s)", l.show(), vs) {
					return
				}
				c.Oblige(len(l.Loops) == 0, "C07.table", fn, pos, kind+" once", "the command may be written several times (it is in a loop)")
				if cnt[kind][r] == nil {
					cnt[kind][r] = map[*Path][]textLine{}
				}
				cnt[kind][r][p] = append(cnt[kind][r][p], l)
			})
		}
	}
	for _, k := range kinds {
		var em []*renderRun
		for r := range cnt[k] {
			em = append(em, r)
		}
		sort.Slice(em, func(i, j int) bool { return em[i].Idx < em[j].Idx })
		if !c.Oblige(len(em) > 0, "C07.table", nil, 0, k, "no renderer writes the command for the %s", k) {
			continue
		}
		for _, r := range em[1:] {
			c.Oblige(false, "C07.table", r.Fn, r.Fn.Pos(), k, "more than one renderer writes the command for the %s", k)
		}
		r := em[0]
		for _, p := range r.Paths {
			if p.Kind != KReturn || (len(p.Ret) == 1 && !p.Ret[0].IsNil()) {
				continue
			}
			cs := conds(r, p.Facts)
			if cs == nil {
				continue
			}
			cond := cs[k]
			ls := cnt[k][r][p]
			switch {
			case len(ls) > 0:
				fn, pos := ls[0].site()
				c.Oblige(cond == yes && len(ls) == 1, "C07.table", fn, pos, k, "the command for the %s is written %d times on a path on which its condition %s (%s)", k, len(ls), triName(cond), clipStr(p.Facts.String(), 300))
			default:
				c.Oblige(cond == no, "C07.table", r.Fn, r.Fn.Pos(), k+" left out", "the command for the %s is not written on a path on which its condition %s (%s)", k, triName(cond), clipStr(p.Facts.String(), 300))
			}
			for _, l := range ls {
				fn, pos := l.site()
				switch k {
				case "initial hot-end temperature", "initial bed temperature":
					// no custom start code before it
					ok := true
					linesOf(p, func(o textLine) {
						if o.Index < l.Index && isHunkLine(o, ".StartGCode") {
							ok = false
						}
					})
					for _, q := range rs[:r.Idx] {
						for _, qp := range q.Paths {
							linesOf(qp, func(o textLine) {
								if isHunkLine(o, ".StartGCode") {
									ok = false
								}
							})
						}
					}
					c.Oblige(ok && r.Idx <= firstPrinter(rs), "C07.order", fn, pos, k+" before the start code", "the command comes after the start code or after printed lines")
				case "hot-end off", "bed off":
					ok := r.Idx >= lastPrint
					for i, nd := range p.Trace {
						if nd.Ev != nil && i > l.Index && nd.Ev.Key == "gcode.Builder.AddPolygon" {
							ok = false
						}
					}
					c.Oblige(ok, "C07.order", fn, pos, k+" after printing", "the heater is switched off before everything is printed")
				}
			}
		}
	}
	c.AtLeast("C07.anchors", "temperature and fan commands on paths", total, 8)
	c.hunkContains()
}

func firstPrinter(rs []*renderRun) int {
	for _, r := range rs {
		found := false
		for _, p := range r.Paths {
			walkEvents(p, func(e evCtx) {
				if e.Ev.Key == "gcode.Builder.AddPolygon" || e.Ev.Key == "gcode.Builder.AddMoveSpeed" {
					found = true
				}
			})
		}
		if found {
			return r.Idx
		}
	}
	return len(rs)
}

func isHunkLine(l textLine, hunk string) bool {
	for _, v := range l.Vals {
		if v.Val != nil && v.Val.Contains(func(x *Term) bool { return strings.Contains(fieldPath(x), hunk) }) {
			return true
		}
	}
	return false
}

func triName(v int) string {
	switch v {
	case yes:
		return "holds"
	case no:
		return "does not hold"
	}
	return "is not decided"
}

// hunkContains decides the query "does the custom code contain one of these codes".
func (c *Ctx) hunkContains() {
	const R = "C07.contains"
	w := c.W
	ht := w.TypeNamed("data", "GCodeHunk")
	if ht == nil {
		c.Undecided(R, nil, 0, "GCodeHunk", "not found")
		return
	}
	n := 0
	for _, fn := range w.RepoFns {
		if fn.Signature.Recv() == nil || fn.Parent() != nil || fn.Synthetic != "" || len(fn.Params) != 2 {
			continue
		}
		rt := fn.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if !types.Identical(rt, ht) || fn.Signature.Results().Len() != 1 || fn.Signature.Results().At(0).Type().String() != "bool" {
			continue
		}
		n++
		it := NewInterp(w)
		T := it.T
		args := it.ParamSyms(fn)
		ps := c.Run(it, fn, args)
		codes := args[1]
		// a literal that compares a line with a code
		var lines *Term
		match := func(a *Term) (l, k *Term, ok bool) {
			if a.Op == OEq || a.Op == OFn {
				var li, ki *Term
				a.Contains(func(x *Term) bool {
					if b, i, isE := elemOf(x); isE {
						if b == codes {
							ki = i
						} else if strings.Contains(fieldPath(b), "GCodeLines") {
							li = i
							lines = b
						}
					}
					return false
				})
				if li == nil || ki == nil || len(a.Args) != 2 {
					return nil, nil, false
				}
				// the first word of the line, without surrounding white space, is looked at for the code
				word, code := a.Args[0], a.Args[1]
				if a.Op == OEq {
					if b, _, isE := elemOf(word); isE && b == codes {
						word, code = code, word
					}
				} else if a.Sym != "strings.Contains" && a.Sym != "strings.HasPrefix" {
					return nil, nil, false
				}
				if b, _, isE := elemOf(code); !isE || b != codes {
					return nil, nil, false
				}
				trimmed, first := false, false
				word.Contains(func(x *Term) bool {
					switch {
					case strings.Contains(x.Sym, "strings.Fields"):
						trimmed, first = true, true
					case strings.Contains(x.Sym, "strings.Trim"):
						trimmed = true
					case strings.Contains(x.Sym, "strings.Split"), strings.Contains(x.Sym, "strings.Cut"), strings.Contains(x.Sym, "strings.Index"):
						first = true
					}
					return false
				})
				return li, ki, trimmed && first
			}
			return nil, nil, false
		}
		hasMatch := func(f *Facts, from int, want bool) bool {
			r := false
			f.Each(func(a *Term, val bool) {
				if _, _, ok := match(a); ok && val == want {
					r = true
				}
			})
			return r
		}
		// which bodies test a pair
		for _, p := range ps {
			if p.Kind != KReturn {
				c.Oblige(false, R, fn, fn.Pos(), "returns", "may end with %s", p.Kind)
				continue
			}
			switch p.Ret[0] {
			case T.Bool(true):
				c.Oblige(hasMatch(p.Facts, 0, true), R, fn, fn.Pos(), "true only on a match", "returns true on a path without a matching line and code (%s)", clipStr(p.Facts.String(), 200))
			case T.Bool(false):
				ok := false
				for i, nd := range p.Trace {
					if nd.Loop == nil {
						continue
					}
					_ = i
					// outer over lines, inner over codes
					outer := nd.Loop
					good := len(outer.Bodies) > 0
					for _, b := range outer.Bodies {
						inner := false
						for _, m := range b.Trace {
							if m.Loop == nil {
								continue
							}
							g := len(m.Loop.Bodies) > 0
							for _, ib := range m.Loop.Bodies {
								g = g && hasMatch(ib.Facts, 0, false) && !hasMatch(ib.Facts, 0, true)
							}
							cv, full := it.covers(m.Loop, T.Len(codes))
							inner = inner || (g && full && it.exhausted(b, cv, T.Len(codes)))
						}
						good = good && inner
					}
					if good && lines != nil {
						cv, full := it.covers(outer, T.Len(lines))
						ok = ok || (full && it.exhausted(p, cv, T.Len(lines)))
					}
				}
				c.Oblige(ok, R, fn, fn.Pos(), "false only after all lines and codes", "returns false on a path on which not every line was compared with every code")
			default:
				c.Undecided(R, fn, fn.Pos(), "result", "%s", clipT(p.Ret[0]))
			}
		}
	}
	c.AtLeast("C07.anchors", "queries of custom code", n, 1)
}

var _ = fmt.Sprint
