package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Option values are accepted completely or not at all", checkC09)
}

// setters lists the option types with a Set(string) error method.
func (c *Ctx) setters() []*types.Named {
	var r []*types.Named
	pk := c.W.Pkg("data")
	if pk == nil {
		return nil
	}
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		fn := c.W.Method(nt, "Set")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		s := fn.Signature
		if s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), types.Typ[types.String]) && s.Results().At(0).Type().String() == "error" {
			r = append(r, nt)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func checkC09(c *Ctx) {
	c.Rule("C09.keep: on every path of a Set method that may return an error nothing reachable from the option was written")
	c.Rule("C09.value: on every path that returns no error every parse of a part of the text has succeeded and the option holds exactly what the text denotes: the number; the three coordinates in order out of exactly three parts; one entry per comma separated layer=speed pair; the non-blank lines, unchanged")
	c.Rule("C09.range: an entry of the fan table is only made with a layer of at least 0 and a speed of 0 to 255, an entry that is not made gives an error")
	ts := c.setters()
	c.AtLeast("C09.anchors", "types with a Set method", len(ts), 5)
	shapes := map[string]int{}
	for _, nt := range ts {
		fn := c.W.Method(nt, "Set")
		it := NewInterp(c.W)
		args := it.ParamSyms(fn)
		it.RecordStores = true
		it.Unroll = true
		ps := c.Run(it, fn, args)
		if len(ps) == 0 || len(args) != 2 {
			c.Undecided("C09.keep", fn, fn.Pos(), "Set", "not understood")
			continue
		}
		if _, isP := fn.Signature.Recv().Type().(*types.Pointer); !isP {
			c.Oblige(false, "C09.value", fn, fn.Pos(), "receiver", "Set works on a copy of the option")
			continue
		}
		recv, txt := args[0], args[1]
		before := it.loadAddr(it.NewState(), recv, nt)
		good := 0
		for _, p := range ps {
			if p.Kind == KPanic {
				c.Oblige(false, "C09.keep", fn, fn.Pos(), "crash", "Set of %s crashes (%s)", nt.Obj().Name(), clipStr(p.Facts.String(), 150))
				continue
			}
			if p.Kind != KReturn || len(p.Ret) != 1 {
				continue
			}
			after := it.loadAddr(p.St, recv, nt)
			// writes into what the option had before
			foreign := func(e evCtx) bool {
				switch e.Ev.Kind {
				case "mapset", "mapdel", "store", "elemstore":
				default:
					return false
				}
				if e.Ev.Kind == "store" && e.Ev.Args[0].Op == OAddrF && addrRoot(e.Ev.Args[0]) == recv || e.Ev.Kind == "store" && e.Ev.Args[0] == recv {
					return false // seen in the value
				}
				return addrRoot(e.Ev.Args[0]).Op != OAlloc
			}
			walkEvents(p, func(e evCtx) {
				if foreign(e) {
					c.Oblige(false, "C09.keep", e.Ev.Fn, e.Ev.Instr.Pos(), "old value", "the old value of the option is modified in place: %s", clipT(e.Ev.Args[0]))
				}
			})
			isNil, known := it.T.Decide(p.Facts, it.T.RefEq(p.Ret[0], it.T.Nil()))
			if !(known && isNil) {
				c.Oblige(after == before, "C09.keep", fn, fn.Pos(), "failing Set of "+nt.Obj().Name(), "the option is changed to %s although an error is returned (%s)", clipT(after), clipStr(p.Facts.String(), 150))
			}
			if known && !isNil {
				continue
			}
			good++
			// every parse on the path has succeeded
			walkEvents(p, func(e evCtx) {
				if e.Ev.Kind == "call" && isParse(e.Ev.Key) && e.Ev.Res != nil {
					f := e.Facts
					c.Oblige(it.T.Holds(f, it.T.RefEq(it.resultOf(e.Ev.Res, 1), it.T.Nil())), "C09.value", e.Ev.Fn, e.Ev.Instr.Pos(), "parse of a part", "%s reports success although this parse may have failed", FnName(fn))
				}
			})
			shapes[c.setValue(it, fn, nt, p, after, txt)]++
		}
		c.AtLeast("C09.anchors", "successful ways through "+FnName(fn), good, 1)
	}
	for k, n := range map[string]int{"number": 2, "vector": 1, "table": 1, "lines": 1} {
		c.AtLeast("C09.anchors", "options of kind "+k, shapes[k], n)
	}
}

func addrRoot(t *Term) *Term {
	for (t.Op == OAddrF || t.Op == OAddrI) && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

func isParse(key string) bool {
	return strings.HasPrefix(key, "strconv.Parse") || key == "strconv.Atoi" || strings.HasPrefix(key, "fmt.Sscan")
}

// resultOf: the i-th result of a call.
func (it *Interp) resultOf(call *Term, i int) *Term {
	return it.T.mk(ORes, itoa(i), nil, false, call)
}

// parsedNum: v is the number that text denotes (its error is excluded elsewhere).
func parsedNum(v *Term, isFloat bool) (text *Term) {
	v = stripConv(v)
	call, i := asResult(v)
	if call == nil || i != 0 {
		return nil
	}
	switch callKeyOf(call) {
	case "strconv.Atoi":
		if isFloat {
			return nil
		}
	case "strconv.ParseInt":
		if isFloat || len(call.Args) != 3 || !(call.Args[1].IsInt(0) || call.Args[1].IsInt(10)) || !call.Args[2].IsInt(64) && !call.Args[2].IsInt(0) {
			return nil
		}
	case "strconv.ParseFloat":
		if !isFloat || len(call.Args) != 2 || !call.Args[1].IsInt(32) && !call.Args[1].IsInt(64) {
			return nil
		}
	default:
		return nil
	}
	return call.Args[0]
}

func stripConv(v *Term) *Term {
	for v != nil && v.Op == OFn && strings.HasPrefix(v.Sym, "conv") && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

// splitOf: t is strings.Split(text, sep) (or an equivalent): text, sep, n (-1: all).
func splitOf(t *Term) (text *Term, sep string, n int64, ok bool) {
	n = -1
	switch callKeyOf(t) {
	case "strings.Split":
		if len(t.Args) != 2 || t.Args[1].Op != OStr {
			return
		}
	case "strings.SplitN":
		if len(t.Args) != 3 || t.Args[1].Op != OStr {
			return
		}
		k, isC := t.Args[2].ConstInt()
		if !isC {
			return
		}
		n = k
	default:
		return
	}
	return t.Args[0], t.Args[1].Sym, n, true
}

// setValue decides that the stored value is the one the text denotes.
func (c *Ctx) setValue(it *Interp, fn *ssa.Function, nt *types.Named, p *Path, v, txt *Term) string {
	const R = "C09.value"
	T := it.T
	name := nt.Obj().Name()
	switch u := nt.Underlying().(type) {
	case *types.Basic:
		isFloat := u.Info()&types.IsFloat != 0
		c.Oblige(parsedNum(v, isFloat) == txt, R, fn, fn.Pos(), "value of "+name, "after success the option holds %s, not the number of the text", clipT(v))
		return "number"
	case *types.Struct:
		// a vector: three numbers
		num := u.NumFields() == 3
		for i := 0; i < u.NumFields(); i++ {
			num = num && isNumber(u.Field(i).Type())
		}
		if num {
			for i := 0; i < 3; i++ {
				f := T.FieldOf(v, u.Field(i).Name(), i, u.Field(i).Type())
				t := parsedNum(f, false)
				ok := false
				if t != nil {
					if b, idx, isE := elemOf(t); isE && idx.IsInt(int64(i)) {
						text, sep, n, isS := splitOf(b)
						ok = isS && text == txt && sep == "_" && (n < 0 || n > 3) && T.Holds(p.Facts, T.NumEq(T.Len(b), T.Int(3)))
					}
				}
				c.Oblige(ok, R, fn, fn.Pos(), "coordinate "+u.Field(i).Name()+" of "+name, "after success the coordinate holds %s, not part %d of exactly three", clipT(f), i)
			}
			return "vector"
		}
		if u.NumFields() == 1 {
			f := T.FieldOf(v, u.Field(0).Name(), 0, u.Field(0).Type())
			switch ft := u.Field(0).Type().Underlying().(type) {
			case *types.Map:
				c.setTable(it, fn, name, p, f, txt)
				return "table"
			case *types.Slice:
				if types.Identical(ft.Elem(), types.Typ[types.String]) {
					c.setLines(it, fn, name, p, f, txt)
					return "lines"
				}
			}
		}
	}
	c.Undecided(R, fn, fn.Pos(), "value of "+name, "unknown kind of option")
	return ""
}

// setTable: a fresh map with one entry per pair.
func (c *Ctx) setTable(it *Interp, fn *ssa.Function, name string, p *Path, m, txt *Term) {
	const R = "C09.value"
	T := it.T
	if !c.Oblige(m.Op == OAlloc, R, fn, fn.Pos(), "table of "+name, "after success the option holds %s, not a new table", clipT(m)) {
		return
	}
	sets := 0
	okLoop := false
	for _, nd := range p.Trace {
		if nd.Ev != nil && nd.Ev.Kind == "mapset" && nd.Ev.Args[0] == m {
			c.Oblige(false, R, nd.Ev.Fn, nd.Ev.Instr.Pos(), "entry", "an entry is made outside of the loop over the pairs")
		}
		l := nd.Loop
		if l == nil {
			continue
		}
		has := false
		for _, b := range l.Bodies {
			for _, e := range b.Trace {
				has = has || e.Ev != nil && e.Ev.Kind == "mapset" && e.Ev.Args[0] == m
			}
		}
		if !has {
			continue
		}
		pos := l.Header.Instrs[0].Pos()
		for _, b := range l.Bodies {
			n := 0
			for _, e := range b.Trace {
				if e.Ev == nil || e.Ev.Kind != "mapset" || e.Ev.Args[0] != m {
					continue
				}
				n++
				sets++
				k, v := e.Ev.Args[1], e.Ev.Args[2]
				f := b.Facts.Upto(e.Ev.NFact)
				kt, vt := parsedNum(k, false), parsedNum(v, false)
				entry, ok := pairOf(it, f, kt, vt)
				var list, idx *Term
				if ok {
					list, idx, ok = elemOf(entry)
				}
				if ok {
					text, sep, n, isS := splitOf(list)
					ok = isS && text == txt && sep == "," && n < 0
				}
				if !c.Oblige(ok, R, e.Ev.Fn, e.Ev.Instr.Pos(), "entry", "the entry %s=%s is not the layer and speed of a comma separated pair of the text", clipT(k), clipT(v)) {
					continue
				}
				cv, full := it.covers(l, T.Len(list))
				okLoop = full && T.Holds(b.Facts, T.NumEq(cv.Idx, idx)) && it.exhausted(p, cv, T.Len(list))
				c.Oblige(okLoop, R, fn, pos, "every pair", "the loop over the pairs of the text may leave out some of them")
				c.Oblige(T.Holds(f, T.LeT(T.Int(0), k)), "C09.range", e.Ev.Fn, e.Ev.Instr.Pos(), "layer", "a negative layer is accepted")
				c.Oblige(T.Holds(f, T.LeT(T.Int(0), v)) && T.Holds(f, T.LeT(v, T.Int(255))), "C09.range", e.Ev.Fn, e.Ev.Instr.Pos(), "speed", "a speed outside 0-255 is accepted (%s)", clipStr(f.String(), 200))
			}
			c.Oblige(n == 1, "C09.range", fn, pos, "entry of a pair", "a pair of the text makes %d entries, but no error (%s)", n, clipStr(b.Facts.String(), 200))
		}
	}
	c.Oblige(okLoop && sets > 0, R, fn, fn.Pos(), "table of "+name, "no loop over the pairs of the text fills the table")
}

// pairOf: the two texts are what is left and right of the = of an entry, which has exactly one.
func pairOf(it *Interp, f *Facts, kt, vt *Term) (*Term, bool) {
	T := it.T
	if kt == nil || vt == nil {
		return nil, false
	}
	if lk, ik, ok := elemOf(kt); ok {
		lv, iv, ok2 := elemOf(vt)
		text, sep, n, isS := splitOf(lk)
		if ok2 && lk == lv && ik.IsInt(0) && iv.IsInt(1) && isS && sep == "=" && (n < 0 || n > 1) && T.Holds(f, T.NumEq(T.Len(lk), T.Int(2))) {
			return text, true
		}
		return nil, false
	}
	ck, i := asResult(kt)
	cv, j := asResult(vt)
	if ck != nil && ck == cv && i == 0 && j == 1 && callKeyOf(ck) == "strings.Cut" && len(ck.Args) == 2 && ck.Args[1].Op == OStr && ck.Args[1].Sym == "=" && T.Holds(f, it.resultOf(ck, 2)) {
		return ck.Args[0], true
	}
	return nil, false
}

// setLines: the non-blank lines of the text.
func (c *Ctx) setLines(it *Interp, fn *ssa.Function, name string, p *Path, v, txt *Term) {
	const R = "C09.value"
	T := it.T
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		var d *LoopDef
		for _, x := range l.Defs {
			if x.Sym == v {
				d = x
			}
		}
		if d == nil {
			continue
		}
		pos := l.Header.Instrs[0].Pos()
		empty := d.Init.IsNil() || T.Holds(p.Facts, T.NumEq(T.Len(d.Init), T.Int(0)))
		c.Oblige(empty, R, fn, pos, "lines", "the list of lines starts with %s", clipT(d.Init))
		c.Oblige(len(d.Latch) == len(l.Bodies), R, fn, pos, "lines", "the loop over the lines is not understood")
		var list *Term
		for i, b := range l.Bodies {
			if i >= len(d.Latch) {
				break
			}
			x := d.Latch[i]
			if x == v {
				continue
			}
			ok := x.Op == OConcat && len(x.Args) == 2 && x.Args[0] == v && x.Args[1].Op == OLit
			var idx *Term
			if ok {
				list, idx, ok = elemOf(x.Args[1].Args[0])
			}
			if ok {
				text, sep, n, isS := splitOf(list)
				ok = isS && text == txt && sep == "\n" && n < 0
			}
			if !c.Oblige(ok, R, fn, pos, "line", "a line that is stored is not a line of the text: %s", clipT(x)) {
				return
			}
			cv, full := it.covers(l, T.Len(list))
			c.Oblige(full && !cv.Down && T.Holds(b.Facts, T.NumEq(cv.Idx, idx)) && it.exhausted(p, cv, T.Len(list)), R, fn, pos, "every line", "the loop over the lines may leave out some of them")
		}
		if !c.Oblige(list != nil, R, fn, pos, "lines", "no line is stored") {
			return
		}
		for i, b := range l.Bodies {
			if i < len(d.Latch) && d.Latch[i] == v {
				// left out: it must be blank
				blank := false
				b.Facts.Each(func(a *Term, val bool) {
					a.Contains(func(x *Term) bool {
						if callKeyOf(x) == "strings.TrimSpace" && len(x.Args) == 1 {
							if bs, _, ok := elemOf(x.Args[0]); ok && bs == list && (T.Holds(b.Facts, T.LeT(T.Len(x), T.Int(0))) || T.Holds(b.Facts, T.RefEq(x, T.Str("")))) {
								blank = true
							}
						}
						return false
					})
				})
				c.Oblige(blank, R, fn, pos, "line left out", "a line that may not be blank is left out (%s)", clipStr(b.Facts.String(), 200))
			}
		}
		return
	}
	c.Oblige(false, R, fn, fn.Pos(), "lines of "+name, "after success the option holds %s, not the lines of the text", clipT(v))
}
