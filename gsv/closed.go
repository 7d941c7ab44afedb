package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Closed forms of loop variables: if a loop has a variable i that changes by a constant in every
// iteration, every other variable that is known to be a function of i is replaced by it:
//   - a number that changes by the same loop invariant amount in every iteration,
//   - a value that is, at the end of every iteration, one fixed expression of i (what the previous
//     iteration looked at), if its value before the loop is that expression for the i before the first one.
//
// It is an induction: the form is right before the first iteration, and every round checks that it is right after
// an iteration if it was right before it.

// invariantTerm: t has the same value in all iterations (apart from the symbols in except).
func invariantTerm(t *Term, inLoop map[*Term]bool, st0 *State, except *Term) bool {
	bases := map[*Term]bool{}
	for _, m := range st0.mem {
		bases[m.base] = true
	}
	return !t.Contains(func(x *Term) bool {
		if x == except {
			return false
		}
		if inLoop[x] {
			return true
		}
		if strings.HasPrefix(x.Sym, "mem~") && !bases[x] {
			return true
		}
		if x.Op == OSel && len(x.Args) > 0 && !bases[x.Args[0]] {
			return true
		}
		return false
	})
}

// substIdx puts by for sym into a number or into the index of an element; nil if it occurs elsewhere.
func (tt *Terms) substIdx(t, sym, by *Term) *Term {
	if t == sym {
		return by
	}
	if !t.Contains(func(x *Term) bool { return x == sym }) {
		return t
	}
	switch t.Op {
	case OPoly:
		r := tt.subst(t, map[*Term]*Term{sym: by})
		return r
	case OSel:
		args := append([]*Term(nil), t.Args...)
		for i, a := range args {
			if i == 0 {
				if a.Contains(func(x *Term) bool { return x == sym }) {
					return nil
				}
				continue
			}
			if args[i] = tt.substIdx(a, sym, by); args[i] == nil {
				return nil
			}
		}
		return tt.mk(OSel, t.Sym, t.Typ, false, args...)
	}
	return nil
}

// primaryCounter: the position of the variable all others are expressed with; -1 if there is none.
func (it *Interp) primaryCounter(ps []*ssa.Phi, head []*Term, latches [][]*Term) (int, *Term) {
	best, bestStep := -1, (*Term)(nil)
	for i, p := range ps {
		if head[i].Op != OSym || !isInteger(p.Type()) || len(latches) == 0 {
			continue
		}
		var step *Term
		for _, lv := range latches {
			d := it.T.Sub(lv[i], head[i])
			if n, ok := d.ConstInt(); !ok || (n != 1 && n != -1) || (step != nil && step != d) {
				step = nil
				break
			}
			step = d
		}
		if step == nil {
			continue
		}
		if best < 0 || phiName(p) == "rangeindex."+p.Name() && bestStep != nil {
			best, bestStep = i, step
		}
	}
	return best, bestStep
}

// closedForms looks for loop variables that can be expressed by the primary counter.
func (it *Interp) closedForms(ps []*ssa.Phi, init, head []*Term, latches [][]*Term, inLoop map[*Term]bool, st0 *State, refused map[int]bool) (prim int, forms map[int]*Term) {
	T := it.T
	prim, step := it.primaryCounter(ps, head, latches)
	if prim < 0 {
		return
	}
	for i, p := range ps {
		if i == prim || head[i].Op != OSym || refused[i] {
			continue
		}
		l := latches[0][i]
		same := true
		for _, lv := range latches {
			if lv[i] != l {
				same = false
			}
		}
		if !same || l == head[i] {
			continue
		}
		var form *Term
		if isInteger(p.Type()) {
			d := T.Sub(l, head[i])
			if invariantTerm(d, inLoop, st0, nil) {
				// init + d * (number of iterations so far)
				n := T.Mul(T.Sub(head[prim], init[prim]), step) // the step is 1 or -1
				form = T.Add(init[i], T.Mul(d, n))
			}
		}
		if form == nil && invariantTerm(l, inLoop, st0, head[prim]) {
			form = T.substIdx(l, head[prim], T.Sub(head[prim], step))
			if form != nil && T.substIdx(form, head[prim], init[prim]) != init[i] {
				form = nil
			}
		}
		if form == nil {
			continue
		}
		if forms == nil {
			forms = map[int]*Term{}
		}
		forms[i] = form
	}
	return
}
