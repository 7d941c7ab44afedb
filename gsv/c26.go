package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Every kind of area is filled with its own pattern", checkC26)
}

// laid says what the pattern of one kind of area has to be.
type laid struct {
	coef  int64          // distance of the lines: factor ...
	exp   map[string]int // ... and settings
	turns bool           // turned by 90 degrees on every other layer, starting at the configured rotation
	zig   string         // setting that enables zig-zag lines
}

var patternOf = map[string]laid{
	"top":              {coef: 1, exp: map[string]int{"Printer.ExtrusionWidth": 1}, turns: true},
	"bottom":           {coef: 1, exp: map[string]int{"Printer.ExtrusionWidth": 1}, turns: true},
	"infill":           {coef: 100, exp: map[string]int{"Printer.ExtrusionWidth": 1, "Print.InfillPercent": -1}, turns: true, zig: "Print.InfillZigZag"},
	"support":          {coef: 1000, exp: map[string]int{"Print.Support.PatternSpacing": 1}},
	"supportInterface": {coef: 1, exp: map[string]int{"Printer.ExtrusionWidth": 1}},
}

// product writes a number as factor * product of powers, looking through the conversion of the result to a whole number.
// A part of the number may be truncated only if it counts how many widths fit into a constant length of at least 1 mm.
func (tt *Terms) product(t *Term, width *Term) (*big.Rat, map[*Term]int, string) {
	co := big.NewRat(1, 1)
	m := map[*Term]int{}
	why := ""
	var rec func(t *Term, e int)
	rec = func(t *Term, e int) {
		if r, ok := t.ConstNum(); ok {
			if r.Sign() == 0 {
				why = "a factor is 0"
				return
			}
			if e < 0 {
				r = new(big.Rat).Inv(r)
			}
			co = new(big.Rat).Mul(co, r)
			return
		}
		switch {
		case t.Op == OPoly && len(t.P) == 1:
			r := t.P[0].C
			if e < 0 {
				r = new(big.Rat).Inv(r)
			}
			co = new(big.Rat).Mul(co, r)
			for _, a := range t.P[0].A {
				rec(a, e)
			}
		case t.Op == OFn && t.Sym == "inv" && len(t.Args) == 1:
			rec(t.Args[0], -e)
		case t.Op == OFn && t.Sym == "quo" && len(t.Args) == 2:
			k, ok := t.Args[0].ConstNum()
			if !ok || k.Cmp(big.NewRat(1000, 1)) < 0 || t.Args[1] != width {
				why = "the intermediate result " + clipT(t) + " is truncated"
			}
			rec(t.Args[0], e)
			rec(t.Args[1], -e)
		default:
			if u := unround(t); u != t {
				if k, p, w := tt.product(u, width); w == "" && len(p) > 0 {
					// the rounded value is a setting itself: not an intermediate result
					if r := new(big.Rat).Set(k); r.Cmp(big.NewRat(1, 1)) >= 0 && len(p) == 1 {
						rec(u, e)
						return
					}
				}
				why = "the intermediate result " + clipT(t) + " is rounded"
			}
			m[t] += e
		}
	}
	t = unround(t)
	if t.Op == OFn && t.Sym == "quo" && len(t.Args) == 2 {
		rec(t.Args[0], 1)
		rec(t.Args[1], -1)
	} else {
		rec(t, 1)
	}
	for k, v := range m {
		if v == 0 {
			delete(m, k)
		}
	}
	return co, m, why
}

func checkC26(c *Ctx) {
	c.Rule("C26.distance: the renderer of an attribute creates its pattern with the extrusion width as width of the lines and, as their distance, the extrusion width (top, bottom, support interface), extrusion width * 100 / percentage (internal infill, computed without truncating intermediate results other than the number of widths in a constant length) or the configured pattern spacing (support)")
	c.Rule("C26.direction: the patterns of top, bottom and internal infill start at the configured rotation and turn on every other layer; support keeps its direction and the interface is perpendicular to it; internal infill connects its lines if and only if zig-zag is enabled")
	c.Rule("C26.box: the box a pattern lays its lines over contains the bounding box of the optimised model in both directions, after everything Init does")
	c.Rule("C26.layer: Fill is told the number of the layer that is rendered")
	c.Rule("C26.init: the generator initialises every registered renderer with the optimised model")
	const R = "C26.distance"
	pl := c.pipeline("C26.pipeline")
	iface := c.W.TypeNamed("clip", "Pattern")
	pt := c.W.TypeNamed("data", "MicroPoint")
	if pl == nil || iface == nil || pt == nil {
		c.Undecided(R, nil, 0, "patterns", "types not found")
		return
	}
	c.initAll(pl)
	// a constructor of a pattern has parameters; a function that only chooses one is looked into
	ctor := func(ci *CallInfo) bool {
		if ci.Fn == nil || ci.Fn.Parent() != nil || ci.Fn.Signature.Recv() != nil || !c.W.InRepo(ci.Fn) || ci.Fn.Pkg == nil || ci.Fn.Pkg.Pkg != iface.Obj().Pkg() {
			return false
		}
		rs, ps := ci.Fn.Signature.Results(), ci.Fn.Signature.Params()
		return rs.Len() == 1 && types.Identical(rs.At(0).Type(), iface) && ps.Len() == 7
	}
	pol := func(ci *CallInfo) Action {
		if ctor(ci) {
			return APure
		}
		return flatBoundary(ci)
	}
	seen := map[string]int{}
	type dir struct{ deg, rect *Term }
	dirs := map[string]dir{}
	for _, v := range pl.Renderers {
		it := pl.It.child()
		it.Unroll = false
		it.Policy = pol
		it.RecordLookups = true
		T := it.T
		ifn, recv := it.methodOf(pl.St, v, "Init")
		fn, _ := it.methodOf(pl.St, v, "Render")
		if ifn == nil || fn == nil || len(ifn.Params) != 2 {
			c.Undecided("C26.pipeline", nil, 0, "renderer", "Init or Render not found on %s", clipT(v))
			continue
		}
		ias := it.ParamSyms(ifn)
		ias[0] = recv
		model := ias[1]
		for _, ip := range c.RunFrom(it, ifn, ias, cleanState(pl.St), nil) {
			if ip.Kind != KReturn {
				continue
			}
			_, self := it.methodOf(ip.St, v, "Render")
			as := it.ParamSyms(fn)
			as[0] = self
			st := cleanState(ip.St)
			opt := func(path string) *Term { return it.optVal(pl.Opt, path) }
			done := map[string]bool{}
			collectEvents(c.RunFrom(it, fn, as, cleanState(ip.St), nil), func(e evCtx) {
				if e.Ev.Kind != "call" || e.Ev.Key != "clip.Pattern.Fill" || len(e.Ev.Args) != 3 {
					return
				}
				pos := e.Ev.Instr.Pos()
				key := ""
				e.Ev.Args[2].Contains(func(x *Term) bool {
					if k, ok := attrKey(x); ok && k != "" {
						key = k
					}
					return false
				})
				want, ok := patternOf[key]
				if !ok {
					return // other attributes: C14
				}
				c.Oblige(len(as) == 7 && e.Ev.Args[1] == as[2], "C26.layer", fn, pos, "layer number given to the pattern of "+key, "it is %s", clipT(e.Ev.Args[1]))
				pat := strip(e.Ev.Args[0])
				if done[key+"|"+clipT(pat)] {
					return
				}
				done[key+"|"+clipT(pat)] = true
				f := e.Facts
				if pat.Op != OCall || len(pat.Args) != 7 {
					c.Undecided(R, fn, pos, "pattern of "+key, "it is %s, no known constructor", clipT(pat))
					return
				}
				cf := c.patternCtor(callKeyOf(pat), iface)
				var lens, pts, bools []*Term
				var deg *Term
				for i, a := range pat.Args {
					if cf == nil {
						break
					}
					switch pt0 := cf.Signature.Params().At(i).Type(); {
					case types.Identical(pt0, c.W.TypeNamed("data", "Micrometer")):
						lens = append(lens, a)
					case types.Identical(pt0, pt):
						pts = append(pts, a)
					case types.Identical(pt0, types.Typ[types.Bool]):
						bools = append(bools, a)
					case types.Identical(pt0, types.Typ[types.Int]):
						deg = a
					}
				}
				if len(lens) != 2 || len(pts) != 2 || len(bools) != 2 || deg == nil {
					c.Undecided(R, fn, pos, "pattern of "+key, "%s has unknown parameters", callKeyOf(pat))
					return
				}
				W := opt("Printer.ExtrusionWidth")
				if !T.Holds(f, T.LeT(W, T.Int(0))) {
					seen[key]++
					c.Oblige(lens[0] == W, R, fn, pos, "width of the lines of "+key, "it is %s", clipT(lens[0]))
					co, m, why := T.product(lens[1], W)
					same := why == "" && co.Cmp(big.NewRat(want.coef, 1)) == 0 && len(m) == len(want.exp)
					for s, x := range want.exp {
						same = same && m[opt(s)] == x
					}
					c.Oblige(same, R, fn, pos, "distance of the lines of "+key, "it is %s (%s)", clipT(lens[1]), why)
				}
				dirs[key] = dir{deg, bools[0]}
				if want.turns {
					c.Oblige(deg == opt("Print.InfillRotationDegree") && T.Holds(f, bools[0]), "C26.direction", fn, pos, "direction of "+key, "it starts at %s and turns: %s", clipT(deg), clipT(bools[0]))
				}
				if want.zig != "" {
					c.Oblige(it.sameVal(f, bools[1], opt(want.zig)), "C26.direction", fn, pos, "zig-zag of "+key, "it is %s", clipT(bools[1]))
				}
				// the box
				for i, which := range []string{"Min", "Max"} {
					for _, ax := range []string{"X", "Y"} {
						got := it.invokeOn(st, pts[i], pt, ax)
						var lim *Term
						if end := modelCorner(got, model, which); end != nil {
							lim = it.invokeOn(st, end, c.W.TypeNamed("data", "MicroVec3"), ax)
						}
						ok := got != nil && lim != nil
						if ok {
							by := T.Sub(lim, got)
							if i == 1 {
								by = T.Neg(by)
							}
							ok = by == T.Int(0) || T.Holds(f, T.LeT(T.Int(0), by)) || it.isLengthSetting(pl, by)
						}
						c.Oblige(ok, "C26.box", fn, pos, strings.ToLower(which)+"imum "+ax+" of the box of "+key, "it is %s", clipT(got))
					}
				}
			})
		}
	}
	for _, k := range []string{"top", "bottom", "infill", "support", "supportInterface"} {
		c.AtLeast(R, "patterns for "+k, seen[k], 1)
	}
	s, i := dirs["support"], dirs["supportInterface"]
	if s.deg != nil && i.deg != nil {
		T := pl.It.T
		d, ok := T.Sub(s.deg, i.deg).ConstNum()
		right := false
		if ok && d.IsInt() && d.Num().IsInt64() {
			right = (d.Num().Int64()%180+180)%180 == 90
		}
		no := func(b *Term) bool { return T.Refuted(pl.St.facts, b) }
		c.Oblige(right && no(s.rect) && no(i.rect), "C26.direction", nil, 0, "direction of support and interface", "support at %s (turning: %s), interface at %s (turning: %s)", clipT(s.deg), clipT(s.rect), clipT(i.deg), clipT(i.rect))
	}
}

func (c *Ctx) patternCtor(key string, iface *types.Named) (r *ssa.Function) {
	for _, fn := range c.W.RepoFns {
		if fn.Signature.Recv() == nil && fn.Parent() == nil && FnName(fn) == key {
			r = fn
		}
	}
	return r
}

// initAll: Generator.Init initialises every renderer.
func (c *Ctx) initAll(pl *Pipeline) {
	const R = "C26.init"
	it := pl.It.child()
	it.Unroll = true
	it.Policy = func(ci *CallInfo) Action {
		if strings.HasSuffix(ci.Key, "Renderer.Init") {
			return AEvent
		}
		for _, v := range pl.Renderers {
			if fn, _ := it.methodOf(pl.St, v, "Init"); fn != nil && ci.Fn == fn {
				return AEvent
			}
		}
		return hunkBoundary(ci)
	}
	fn, recv := it.methodOf(pl.St, pl.Stage["Generator"], "Init")
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided(R, nil, 0, "Generator.Init", "not found")
		return
	}
	as := it.ParamSyms(fn)
	as[0] = recv
	n := 0
	for _, p := range c.RunFrom(it, fn, as, cleanState(pl.St), nil) {
		if p.Kind != KReturn {
			continue
		}
		n++
		done := map[*Term]bool{}
		walkEvents(p, func(e evCtx) {
			if e.Ev.Kind == "call" && len(e.Ev.Args) == 2 && len(e.Loops) == 0 {
				c.Oblige(e.Ev.Args[1] == as[1], R, fn, e.Ev.Instr.Pos(), "model given to a renderer", "it is %s", clipT(e.Ev.Args[1]))
				done[e.Ev.Args[0]] = true
			}
		})
		for _, v := range pl.Renderers {
			_, r := it.methodOf(pl.St, v, "Init")
			c.Oblige(done[v] || done[r], R, fn, fn.Pos(), "initialised renderer", "%s is not initialised", clipT(v))
		}
	}
	c.AtLeast(R, "ways through Init of the generator", n, 1)
}

// modelCorner: the corner of the bounding box reported by the optimised model a coordinate is computed from.
func modelCorner(x, model *Term, name string) (r *Term) {
	if x == nil {
		return nil
	}
	x.Contains(func(y *Term) bool {
		if y.Op == OCall && len(y.Args) == 1 && y.Args[0] == model && strings.HasSuffix(callKeyOf(y), "."+name) {
			r = y
		}
		return false
	})
	return r
}

// isLengthSetting: the number is a setting that is a length, times a positive factor.
func (it *Interp) isLengthSetting(pl *Pipeline, t *Term) bool {
	co, m, ok := it.T.ratio(unround(t))
	if !ok || len(m) != 1 || co.Sign() < 0 {
		return false
	}
	for a, e := range m {
		if a == it.optVal(pl.Opt, "Print.Support.PatternSpacing") && e == 1 {
			return true
		}
	}
	return false
}
