package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// accessors finds the functions that read an attribute of a layer: on every path they return the attribute under a
// key if it is there and of the expected type, nil and no error if it is not there, or an error.
func (c *Ctx) accessors() map[*ssa.Function]bool {
	if c.acc != nil {
		return c.acc
	}
	c.acc = map[*ssa.Function]bool{}
	w := c.W
	lt := w.TypeNamed("data", "PartitionedLayer")
	if lt == nil {
		return c.acc
	}
	for _, fn := range w.RepoFns {
		sig := fn.Signature
		if sig.Recv() != nil || fn.Parent() != nil || sig.Results().Len() != 2 || len(fn.Blocks) == 0 {
			continue
		}
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); !ok || sig.Results().At(1).Type().String() != "error" {
			continue
		}
		n, other := 0, false
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if types.Identical(t, lt) {
				n++
			} else if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				other = true
			}
		}
		if n != 1 || other {
			continue
		}
		it := NewInterp(w)
		ps, err := it.Run(fn, nil)
		if err != nil {
			continue
		}
		ok, val := len(ps) > 0, 0
		for _, p := range ps {
			if p.Kind != KReturn || len(p.Ret) != 2 {
				ok = false
				continue
			}
			switch {
			case it.T.Holds(p.Facts, it.T.RefEq(p.Ret[1], it.T.Nil())):
				if p.Ret[0].IsNil() {
					// only if the attribute is not there
					no := false
					p.Facts.Each(func(a *Term, v bool) {
						if !v && a.Op == OSel && isMemKey(a.Args[0].Sym, "H:"+attrMap) {
							no = true
						}
					})
					ok = ok && no
					continue
				}
				x := bare(p.Ret[0])
				if _, isA := attrKey(x); !isA {
					ok = false
				}
				val++
			case it.T.Refuted(p.Facts, it.T.RefEq(p.Ret[1], it.T.Nil())):
			default:
				ok = false
			}
		}
		if ok && val > 0 {
			c.acc[fn] = true
		}
	}
	return c.acc
}

// attrModel treats attribute reads as one step: the value (absent or not) or an error.
func (c *Ctx) attrModel(it *Interp) func(ci *CallInfo) (bool, []ModelOut) {
	acc := c.accessors()
	return func(ci *CallInfo) (bool, []ModelOut) {
		if ci.Fn == nil || !acc[ci.Fn] {
			return false, nil
		}
		T := it.T
		sub := it.child()
		st := ci.St.copy()
		st.env = map[ssa.Value]*Term{}
		st.trace, st.defers = nil, nil
		ps, err := sub.RunFrom(ci.Fn, ci.Args, st, nil)
		if err != nil || len(ps) == 0 {
			return false, nil
		}
		for f := range sub.FnsSeen {
			it.FnsSeen[f] = true
		}
		rt := ci.Sig.Results()
		tuple := func(v, e *Term) *Term { return T.mk(OTuple, "", rt, false, v, e) }
		var val, bad *Term
		for _, p := range ps {
			if p.Kind != KReturn || len(p.Ret) != 2 {
				return false, nil
			}
			if T.Holds(p.Facts, T.RefEq(p.Ret[1], T.Nil())) {
				if !p.Ret[0].IsNil() || val == nil {
					val = p.Ret[0]
				}
			} else {
				bad = p.Ret[1]
			}
		}
		var outs []ModelOut
		if val != nil {
			if x := bare(val); x.Op == OSel {
				if _, ok := attrKey(x); ok {
					val = T.mk(OFn, "attr", rt.At(0).Type(), false, x)
				}
			}
			outs = append(outs, ModelOut{St: ci.St.copy(), Kind: KReturn, Ret: tuple(val, T.Nil())})
		}
		if bad != nil {
			outs = append(outs, ModelOut{St: ci.St.copy(), Kind: KReturn, Ret: tuple(T.Nil(), bad)})
		}
		return true, outs
	}
}
