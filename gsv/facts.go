package main

import (
	"math/big"
	"strings"
)

// Facts is the persistent set of branch literals that hold on a path of the analysed program.
type Facts struct {
	up   *Facts
	atom *Term
	val  bool
	n    int

	qs    *qlist
	qdone bool
}

type decKey struct {
	f *Facts
	t *Term
}

func (f *Facts) Len() int {
	if f == nil {
		return 0
	}
	return f.n
}

// Upto returns the facts as they were when n literals were known.
func (f *Facts) Upto(n int) *Facts {
	for f != nil && f.n > n {
		f = f.up
	}
	return f
}

func (f *Facts) Each(cb func(atom *Term, val bool)) {
	for g := f; g != nil; g = g.up {
		cb(g.atom, g.val)
	}
}

// List in chronological order.
func (f *Facts) List() []*Facts {
	var l []*Facts
	for g := f; g != nil; g = g.up {
		l = append(l, g)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func (f *Facts) String() string {
	s := ""
	for _, g := range f.List() {
		if s != "" {
			s += " && "
		}
		if g.val {
			s += g.atom.String()
		} else {
			s += "!(" + g.atom.String() + ")"
		}
	}
	return s
}

type ineq struct {
	form   *Term // form <= b (strict: <)
	b      *big.Rat
	strict bool
	isInt  bool
}

var one = big.NewRat(1, 1)

func (tt *Terms) ineqsOf(atom *Term, val bool) []ineq {
	switch atom.Op {
	case OLe:
		b, _ := atom.Args[1].ConstNum()
		isInt := atom.Sym[0] == 'i'
		strict := atom.Sym == "<"
		if val {
			return []ineq{{atom.Args[0], b, strict, isInt}}
		}
		nb := new(big.Rat).Neg(b)
		if isInt {
			nb.Sub(nb, one)
			return []ineq{{tt.Neg(atom.Args[0]), nb, false, true}}
		}
		return []ineq{{tt.Neg(atom.Args[0]), nb, !strict, false}}
	case OEq:
		if atom.Sym == "num" && val {
			b, _ := atom.Args[1].ConstNum()
			return []ineq{{atom.Args[0], b, false, false}, {tt.Neg(atom.Args[0]), new(big.Rat).Neg(b), false, false}}
		}
		if atom.Sym == "ref" && val {
			for i := 0; i < 2; i++ {
				if atom.Args[i].IsNil() {
					l := tt.Len(atom.Args[1-i])
					return []ineq{{l, new(big.Rat), false, true}}
				}
			}
		}
	}
	return nil
}

// implicit inequalities about the atoms of a form.
func (tt *Terms) implicit(form *Term, out []ineq) []ineq {
	for _, m := range tt.monosOf(form) {
		if len(m.A) != 1 {
			continue
		}
		a := m.A[0]
		switch {
		case a.Op == OLen:
			out = append(out, ineq{tt.Neg(a), new(big.Rat), false, true})
		case a.Op == OFn && a.Sym == "rem":
			if c, ok := a.Args[1].ConstNum(); ok && c.Sign() > 0 {
				u := new(big.Rat).Sub(c, one)
				out = append(out, ineq{a, u, false, true}, ineq{tt.Neg(a), u, false, true})
			}
		}
	}
	return out
}

// qlist is the list of inequalities of a fact list, sharing its tail with shorter lists.
type qlist struct {
	up *qlist
	q  ineq
}

func (tt *Terms) factIneqs(f *Facts) *qlist {
	if f == nil {
		return nil
	}
	if f.qdone {
		return f.qs
	}
	l := tt.factIneqs(f.up)
	for _, q := range tt.ineqsOf(f.atom, f.val) {
		l = &qlist{l, q}
		for _, i := range tt.implicit(q.form, nil) {
			l = &qlist{l, i}
		}
	}
	f.qs, f.qdone = l, true
	return l
}

func (tt *Terms) ineqs(f *Facts, form *Term) []ineq {
	var out []ineq
	for l := tt.factIneqs(f); l != nil; l = l.up {
		out = append(out, l.q)
	}
	return tt.implicit(form, out)
}

type bnd struct {
	b      *big.Rat
	strict bool
}

// upper searches for the smallest derivable upper bound of form.
func (tt *Terms) upper(qs []ineq, form *Term, depth int) *bnd {
	if c, ok := form.ConstNum(); ok {
		return &bnd{c, false}
	}
	if depth == 0 {
		return nil
	}
	ms := tt.monosOf(form)
	// constant part contributes directly
	lead := ms[0]
	if len(lead.A) == 0 && len(ms) > 1 {
		lead = ms[1]
	}
	k := monoKey(lead.A)
	var best *bnd
	for _, q := range qs {
		var cf *big.Rat
		for _, m := range tt.monosOf(q.form) {
			if monoKey(m.A) == k {
				cf = m.C
			}
		}
		if cf == nil {
			continue
		}
		r := new(big.Rat).Quo(lead.C, cf)
		if r.Sign() <= 0 {
			continue
		}
		rest := tt.Sub(form, tt.Scale(q.form, r))
		rb := tt.upper(qs, rest, depth-1)
		if rb == nil {
			continue
		}
		b := new(big.Rat).Add(rb.b, new(big.Rat).Mul(r, q.b))
		st := rb.strict || q.strict
		if best == nil || b.Cmp(best.b) < 0 || (b.Cmp(best.b) == 0 && st && !best.strict) {
			best = &bnd{b, st}
		}
	}
	return best
}

const boundDepth = 4

// Decide returns whether cond is known to be true or false under the facts.
func (tt *Terms) Decide(f *Facts, cond *Term) (val, known bool) {
	k := decKey{f, cond}
	if r, ok := tt.decC[k]; ok {
		return r == 1, r != 0
	}
	val, known = tt.decide(f, cond)
	r := int8(0)
	if known {
		r = -1
		if val {
			r = 1
		}
	}
	tt.decC[k] = r
	return val, known
}

func (tt *Terms) decide(f *Facts, cond *Term) (val, known bool) {
	if b, ok := cond.IsBool(); ok {
		return b, true
	}
	if cond.Op == ONot {
		v, k := tt.Decide(f, cond.Args[0])
		return !v, k
	}
	for g := f; g != nil; g = g.up {
		if g.atom == cond {
			return g.val, true
		}
	}
	switch cond.Op {
	case OLe:
		b, _ := cond.Args[1].ConstNum()
		strict := cond.Sym == "<"
		isInt := cond.Sym[0] == 'i'
		form := cond.Args[0]
		qs := tt.ineqs(f, form)
		if u := tt.upper(qs, form, boundDepth); u != nil {
			ub := u.b
			us := u.strict
			if isInt {
				ub, us = intUpper(ub, us)
				for tt.knownNe(f, form, ub) {
					ub = new(big.Rat).Sub(ub, one)
				}
			} else if !us && tt.knownNe(f, form, ub) {
				us = true
			}
			c := ub.Cmp(b)
			if c < 0 || (c == 0 && (!strict || us)) {
				return true, true
			}
		}
		if l := tt.upper(qs, tt.Neg(form), boundDepth); l != nil {
			lb := l.b
			ls := l.strict
			if isInt {
				lb, ls = intUpper(lb, ls)
				for tt.knownNe(f, form, new(big.Rat).Neg(lb)) {
					lb = new(big.Rat).Sub(lb, one)
				}
			} else if !ls && tt.knownNe(f, form, new(big.Rat).Neg(lb)) {
				ls = true
			}
			// form >= -lb
			low := new(big.Rat).Neg(lb)
			c := low.Cmp(b)
			if c > 0 || (c == 0 && (strict || ls)) {
				return false, true
			}
		}
	case OEq:
		if cond.Sym == "num" {
			b, _ := cond.Args[1].ConstNum()
			form := cond.Args[0]
			qs := tt.ineqs(f, form)
			u := tt.upper(qs, form, boundDepth)
			l := tt.upper(qs, tt.Neg(form), boundDepth)
			if u != nil {
				if c := u.b.Cmp(b); c < 0 || (c == 0 && u.strict) {
					return false, true
				}
			}
			if l != nil {
				low := new(big.Rat).Neg(l.b)
				if c := low.Cmp(b); c > 0 || (c == 0 && l.strict) {
					return false, true
				}
			}
			if u != nil && l != nil && u.b.Cmp(b) == 0 && new(big.Rat).Neg(l.b).Cmp(b) == 0 {
				return true, true
			}
			return false, false
		}
		// reference equality: x == nil with len(x) > 0 known
		for i := 0; i < 2; i++ {
			if cond.Args[i].IsNil() {
				o := cond.Args[1-i]
				if o.Op == OIface {
					return false, true
				}
				// a map that contains a key is not nil
				for g := f; g != nil; g = g.up {
					if g.val && g.atom != nil && g.atom.Op == OSel && len(g.atom.Args) > 1 && g.atom.Args[1] == o &&
						(strings.HasPrefix(g.atom.Args[0].Sym, "H:") || strings.HasPrefix(g.atom.Args[0].Sym, "mem~H:")) {
						return false, true
					}
				}
				switch o.Op {
				case OSel, OField, OCall, ORes, OSym, OConcat, OSub, OFn:
					l := tt.Len(o)
					qs := tt.ineqs(f, l)
					if lo := tt.upper(qs, tt.Neg(l), 2); lo != nil && lo.b.Sign() < 0 {
						return false, true
					}
				}
			}
		}
		// substitution through known equalities (x == y, y == nil)
		for i := 0; i < 2; i++ {
			if v, k := tt.eqVia(f, cond.Args[i], cond.Args[1-i]); k {
				return v, true
			}
		}
	case OFn:
		// errors.Is(e, t) is false for e == nil
		if cond.Sym == "errors.Is" {
			if v, k := tt.Decide(f, tt.RefEq(cond.Args[0], tt.Nil())); k && v {
				return false, true
			}
		}
	}
	return false, false
}

// eqVia decides a == b if a is known equal to some c with c == b decided syntactically.
func (tt *Terms) eqVia(f *Facts, a, b *Term) (val, known bool) {
	for g := f; g != nil; g = g.up {
		if g.val && g.atom.Op == OEq && g.atom.Sym == "ref" {
			for i := 0; i < 2; i++ {
				if g.atom.Args[i] == a {
					c := g.atom.Args[1-i]
					e := tt.RefEq(c, b)
					if v, ok := e.IsBool(); ok {
						return v, true
					}
					if e.Op == OEq {
						for h := f; h != nil; h = h.up {
							if h.atom == e {
								return h.val, true
							}
						}
					}
				}
			}
		}
	}
	return false, false
}

func intUpper(b *big.Rat, strict bool) (*big.Rat, bool) {
	if strict && b.IsInt() {
		return new(big.Rat).Sub(b, one), false
	}
	return ratFloor(b), false
}

func (tt *Terms) knownNe(f *Facts, form *Term, v *big.Rat) bool {
	e := tt.NumEq(form, tt.Rat(v))
	neg := false
	if e.Op == ONot {
		e, neg = e.Args[0], true
	}
	for g := f; g != nil; g = g.up {
		if g.atom == e {
			return g.val == neg
		}
	}
	return false
}

// Assume adds a literal; ok=false if it contradicts the known facts.
func (tt *Terms) Assume(f *Facts, cond *Term, val bool) (*Facts, bool) {
	for cond.Op == ONot {
		cond, val = cond.Args[0], !val
	}
	if v, k := tt.Decide(f, cond); k {
		return f, v == val
	}
	n := 1
	if f != nil {
		n = f.n + 1
	}
	f = &Facts{up: f, atom: cond, val: val, n: n}
	// consequences
	if cond.Op == OFn && cond.Sym == "errors.Is" && val {
		return tt.Assume(f, tt.RefEq(cond.Args[0], tt.Nil()), false)
	}
	return f, true
}

// Holds / Refuted helpers.
func (tt *Terms) Holds(f *Facts, cond *Term) bool {
	v, k := tt.Decide(f, cond)
	return k && v
}
func (tt *Terms) Refuted(f *Facts, cond *Term) bool {
	v, k := tt.Decide(f, cond)
	return k && !v
}
