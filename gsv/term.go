package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the head symbol of a value number (term).
type Op int

const (
	OPoly    Op = iota // rational polynomial over number atoms (also number constants)
	OStr               // string constant
	OBool              // boolean constant
	ONil               // nil of any type
	OSym               // unknown value with a name
	OField             // field of a struct value
	OAddrF             // address of a field
	OAddrI             // address of an element
	OAlloc             // a fresh memory cell (per allocation site and inlining context)
	OGlobal            // address of a package variable
	OSel               // content of memory: args[0]=memory token, args[1..]=key
	OStruct            // struct value
	OArray             // array value
	OIface             // interface value with known dynamic type
	ODyn               // dynamic value of an interface value of unknown type
	OSub               // slice expression base[lo:hi]
	OConcat            // list concatenation
	OLit               // list segment holding one element
	OCall              // result of an un-inlined call
	ORes               // k-th result of a tuple valued call
	OTuple             // tuple of values
	OClosure           // closure
	OFunc              // function value
	OFn                // pure operator / pure function
	OLen               // length
	OLe                // linear form <= bound
	OEq                // equality atom
	OLt                // float / string order atom
	ONot               // negation
	OStrCat            // string concatenation
	OFmt               // formatted value, sym is the verb
)

// Mono is a monomial of a polynomial.
type Mono struct {
	C *big.Rat
	A []*Term
}

// Term is an immutable, hash-consed value number. Two equal terms denote equal run time values.
type Term struct {
	ID   int
	Op   Op
	Sym  string
	Args []*Term
	P    []Mono // OPoly
	Typ  types.Type
	Fn   *ssa.Function
	Info interface{} // extra, not part of identity (e.g. site)
	key  string
}

// Terms is a term table.
type Terms struct {
	tab  map[string]*Term
	n    int
	addC map[[2]int]*Term
	negC map[int]*Term
	decC map[decKey]int8
}

func NewTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, addC: map[[2]int]*Term{}, negC: map[int]*Term{}, decC: map[decKey]int8{}}
}

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (tt *Terms) mk(op Op, sym string, typ types.Type, withTyp bool, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(sym)
	if withTyp {
		b.WriteByte('|')
		b.WriteString(typKey(typ))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{ID: tt.n, Op: op, Sym: sym, Args: args, Typ: typ, key: k}
	tt.tab[k] = t
	return t
}

func (tt *Terms) Str(s string) *Term { return tt.mk(OStr, s, types.Typ[types.String], false) }
func (tt *Terms) Bool(b bool) *Term {
	return tt.mk(OBool, strconv.FormatBool(b), types.Typ[types.Bool], false)
}
func (tt *Terms) Nil() *Term { return tt.mk(ONil, "", nil, false) }
func (tt *Terms) SymT(name string, typ types.Type) *Term {
	return tt.mk(OSym, name, typ, false)
}
func (tt *Terms) FuncVal(fn *ssa.Function) *Term {
	t := tt.mk(OFunc, fn.String(), fn.Signature, false)
	t.Fn = fn
	return t
}
func (tt *Terms) Fnc(name string, typ types.Type, args ...*Term) *Term {
	return tt.mk(OFn, name, typ, false, args...)
}

// ---- polynomials ----

func (tt *Terms) Rat(r *big.Rat) *Term {
	return tt.fromMonos([]Mono{{C: r}})
}
func (tt *Terms) Int(i int64) *Term { return tt.Rat(big.NewRat(i, 1)) }

func (tt *Terms) monosOf(t *Term) []Mono {
	if t.Op == OPoly {
		return t.P
	}
	if t.P == nil {
		t.P = []Mono{{C: one, A: []*Term{t}}}
	}
	return t.P
}

func monoKey(a []*Term) string {
	var b strings.Builder
	for _, x := range a {
		b.WriteString(strconv.Itoa(x.ID))
		b.WriteByte('*')
	}
	return b.String()
}

func (tt *Terms) fromMonos(ms []Mono) *Term {
	acc := map[string]*Mono{}
	var keys []string
	for _, m := range ms {
		k := monoKey(m.A)
		if e, ok := acc[k]; ok {
			e.C = new(big.Rat).Add(e.C, m.C)
		} else {
			c := m
			acc[k] = &c
			keys = append(keys, k)
		}
	}
	var out []Mono
	for _, k := range keys {
		if acc[k].C.Sign() != 0 {
			out = append(out, *acc[k])
		}
	}
	sort.Slice(out, func(i, j int) bool { return monoLess(out[i].A, out[j].A) })
	if len(out) == 1 && len(out[0].A) == 1 && out[0].C.Cmp(big.NewRat(1, 1)) == 0 {
		return out[0].A[0]
	}
	var b strings.Builder
	b.WriteString("P|")
	for _, m := range out {
		b.WriteString(m.C.RatString())
		b.WriteByte('@')
		b.WriteString(monoKey(m.A))
		b.WriteByte('+')
	}
	k := b.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{ID: tt.n, Op: OPoly, P: out, key: k}
	tt.tab[k] = t
	return t
}

func monoLess(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i].ID != b[i].ID {
			return a[i].ID < b[i].ID
		}
	}
	return false
}

func (tt *Terms) Add(a, b *Term) *Term {
	k := [2]int{a.ID, b.ID}
	if r, ok := tt.addC[k]; ok {
		return r
	}
	r := tt.fromMonos(append(append([]Mono{}, tt.monosOf(a)...), tt.monosOf(b)...))
	tt.addC[k] = r
	return r
}
func (tt *Terms) Scale(a *Term, r *big.Rat) *Term {
	var out []Mono
	for _, m := range tt.monosOf(a) {
		out = append(out, Mono{C: new(big.Rat).Mul(m.C, r), A: m.A})
	}
	return tt.fromMonos(out)
}
func (tt *Terms) Neg(a *Term) *Term {
	if r, ok := tt.negC[a.ID]; ok {
		return r
	}
	r := tt.Scale(a, big.NewRat(-1, 1))
	tt.negC[a.ID] = r
	return r
}
func (tt *Terms) Sub(a, b *Term) *Term { return tt.Add(a, tt.Neg(b)) }
func (tt *Terms) Mul(a, b *Term) *Term {
	var out []Mono
	for _, m := range tt.monosOf(a) {
		for _, n := range tt.monosOf(b) {
			as := append(append([]*Term{}, m.A...), n.A...)
			sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
			out = append(out, Mono{C: new(big.Rat).Mul(m.C, n.C), A: as})
		}
	}
	return tt.fromMonos(out)
}

// ConstNum returns the value of a constant number term.
func (t *Term) ConstNum() (*big.Rat, bool) {
	if t.Op != OPoly {
		return nil, false
	}
	if len(t.P) == 0 {
		return new(big.Rat), true
	}
	if len(t.P) == 1 && len(t.P[0].A) == 0 {
		return t.P[0].C, true
	}
	return nil, false
}

func (t *Term) ConstInt() (int64, bool) {
	r, ok := t.ConstNum()
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

func (t *Term) IsInt(i int64) bool {
	v, ok := t.ConstInt()
	return ok && v == i
}

func (t *Term) IsNil() bool { return t.Op == ONil }

func (t *Term) IsBool() (bool, bool) {
	if t.Op == OBool {
		return t.Sym == "true", true
	}
	return false, false
}

// split separates the constant part from the non constant part.
func (tt *Terms) split(t *Term) (*Term, *big.Rat) {
	c := new(big.Rat)
	var out []Mono
	for _, m := range tt.monosOf(t) {
		if len(m.A) == 0 {
			c.Add(c, m.C)
		} else {
			out = append(out, m)
		}
	}
	return tt.fromMonos(out), c
}

func (tt *Terms) Quo(a, b *Term) *Term { // integer division (Go: truncated)
	if ca, ok := a.ConstNum(); ok {
		if cb, ok := b.ConstNum(); ok && cb.Sign() != 0 && ca.IsInt() && cb.IsInt() {
			q := new(big.Int).Quo(ca.Num(), cb.Num())
			return tt.Rat(new(big.Rat).SetInt(q))
		}
	}
	if cb, ok := b.ConstNum(); ok {
		if cb.Cmp(big.NewRat(1, 1)) == 0 {
			return a
		}
		// canonical sign: (-a)/c = -(a/c) for truncated division
		if l := leadSign(a); l < 0 {
			return tt.Neg(tt.Quo(tt.Neg(a), b))
		}
	}
	// (-a)/(-b) = a/b
	if b.Op == OPoly && leadSign(b) < 0 {
		return tt.Quo(tt.Neg(a), tt.Neg(b))
	}
	return tt.Fnc("quo", nil, a, b)
}

func leadSign(t *Term) int {
	if t.Op != OPoly || len(t.P) == 0 {
		return 1
	}
	return t.P[0].C.Sign()
}

func (tt *Terms) FDiv(a, b *Term) *Term {
	if cb, ok := b.ConstNum(); ok && cb.Sign() != 0 {
		return tt.Scale(a, new(big.Rat).Inv(cb))
	}
	// x/y = x * inv(y)
	return tt.Mul(a, tt.Fnc("inv", nil, b))
}

func (tt *Terms) Rem(a, b *Term) *Term {
	if ca, ok := a.ConstNum(); ok {
		if cb, ok := b.ConstNum(); ok && cb.Sign() != 0 && ca.IsInt() && cb.IsInt() {
			q := new(big.Int).Rem(ca.Num(), cb.Num())
			return tt.Rat(new(big.Rat).SetInt(q))
		}
	}
	return tt.Fnc("rem", nil, a, b)
}

// ---- booleans ----

func (tt *Terms) Not(a *Term) *Term {
	if b, ok := a.IsBool(); ok {
		return tt.Bool(!b)
	}
	if a.Op == ONot {
		return a.Args[0]
	}
	return tt.mk(ONot, "", types.Typ[types.Bool], false, a)
}

// Le builds form <= 0 for numbers. isInt selects integer tightening.
func (tt *Terms) Le(p *Term, isInt bool) *Term {
	return tt.order(p, false, isInt)
}

// order builds p <= 0 (strict: p < 0)
func (tt *Terms) order(p *Term, strict, isInt bool) *Term {
	form, c := tt.split(p)
	if f, ok := form.ConstNum(); ok {
		s := new(big.Rat).Add(f, c).Sign()
		if strict {
			return tt.Bool(s < 0)
		}
		return tt.Bool(s <= 0)
	}
	// scale so that leading coefficient is +-1 normalised: primitive with positive lead
	neg := leadSign(form) < 0
	sc := contentOf(form)
	inv := new(big.Rat).Inv(sc)
	form = tt.Scale(form, inv)
	c = new(big.Rat).Mul(c, inv)
	// form + c <= 0  => form <= -c
	bound := new(big.Rat).Neg(c)
	if isInt {
		// integers: form integral (coefficients integral and primitive)
		if strict {
			// form < bound => form <= ceil(bound)-1
			bound = ratCeil(bound)
			bound.Sub(bound, big.NewRat(1, 1))
			strict = false
		} else {
			bound = ratFloor(bound)
		}
		if neg {
			// -F <= b  <=> F >= -b  <=> not (F <= -b-1)
			F := tt.Neg(form)
			nb := new(big.Rat).Neg(bound)
			nb.Sub(nb, big.NewRat(1, 1))
			return tt.Not(tt.leAtom(F, nb, false, true))
		}
		return tt.leAtom(form, bound, false, true)
	}
	if neg {
		// -F <= b <=> F >= -b <=> not (F < -b);  -F < b <=> not (F <= -b)
		F := tt.Neg(form)
		nb := new(big.Rat).Neg(bound)
		return tt.Not(tt.leAtom(F, nb, !strict, false))
	}
	return tt.leAtom(form, bound, strict, false)
}

func (tt *Terms) leAtom(form *Term, b *big.Rat, strict, isInt bool) *Term {
	s := "<="
	if strict {
		s = "<"
	}
	if isInt {
		s = "i" + s
	}
	return tt.mk(OLe, s, types.Typ[types.Bool], false, form, tt.Rat(b))
}

func ratFloor(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean: denom positive => floor
	return new(big.Rat).SetInt(q)
}
func ratCeil(r *big.Rat) *big.Rat {
	n := new(big.Rat).Neg(r)
	f := ratFloor(n)
	return f.Neg(f)
}

// contentOf returns positive rational g such that form/g is primitive integral.
func contentOf(form *Term) *big.Rat {
	var num, den *big.Int
	ms := form.P
	if form.Op != OPoly {
		return big.NewRat(1, 1)
	}
	for _, m := range ms {
		n := new(big.Int).Abs(m.C.Num())
		d := m.C.Denom()
		if num == nil {
			num, den = n, new(big.Int).Set(d)
			continue
		}
		num = new(big.Int).GCD(nil, nil, num, n)
		g := new(big.Int).GCD(nil, nil, den, d)
		den = new(big.Int).Div(new(big.Int).Mul(den, d), g)
	}
	return new(big.Rat).SetFrac(num, den)
}

// NumEq builds a == b for numbers.
func (tt *Terms) NumEq(a, b *Term) *Term {
	p := tt.Sub(a, b)
	form, c := tt.split(p)
	if f, ok := form.ConstNum(); ok {
		return tt.Bool(new(big.Rat).Add(f, c).Sign() == 0)
	}
	sc := contentOf(form)
	if leadSign(form) < 0 {
		sc.Neg(sc)
	}
	inv := new(big.Rat).Inv(sc)
	form = tt.Scale(form, inv)
	c = new(big.Rat).Mul(c, inv)
	return tt.mk(OEq, "num", types.Typ[types.Bool], false, form, tt.Rat(new(big.Rat).Neg(c)))
}

// RefEq builds a == b for non-numbers.
func (tt *Terms) RefEq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.Op == OStr && b.Op == OStr {
		return tt.Bool(false)
	}
	if a.Op == OBool && b.Op == OBool {
		return tt.Bool(false)
	}
	if a.Op == OBool {
		a, b = b, a
	}
	if v, ok := b.IsBool(); ok {
		if v {
			return a
		}
		return tt.Not(a)
	}
	if (a.IsNil() && nonNil(b)) || (b.IsNil() && nonNil(a)) {
		return tt.Bool(false)
	}
	if distinctRefs(a, b) {
		return tt.Bool(false)
	}
	return tt.mk(OEq, "ref", types.Typ[types.Bool], false, a, b)
}

// nonNil: the term certainly is not nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case OIface, OAlloc, OClosure, OFunc, OGlobal, OAddrF, OAddrI, OStruct, OStr:
		return true
	case OConcat:
		for _, a := range t.Args {
			if a.Op == OLit {
				return true
			}
			if a.Op != OLit && nonNil(a) && false {
				return true
			}
		}
		return false
	case OSub:
		return nonNil(t.Args[0])
	case OFn:
		return strings.HasPrefix(t.Sym, "err:")
	}
	return false
}

func rootOf(t *Term) *Term {
	for t.Op == OAddrF || t.Op == OAddrI || t.Op == OSub {
		t = t.Args[0]
	}
	return t
}

// distinctRefs: two addresses which cannot be equal.
func distinctRefs(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.Typ, b.Typ) {
			return true
		}
		return distinctRefs(a.Args[0], b.Args[0])
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		// a fresh allocation is not any value that existed before it
		if ra.Op == OAlloc && (rb.Op == OAlloc || rb.Op == OSym || rb.Op == OGlobal || rb.Op == OSel || rb.Op == OField || rb.Op == ODyn || rb.Op == OCall || rb.Op == ORes || rb.Op == OFn) {
			return true
		}
		if rb.Op == OAlloc {
			return distinctRefs(b, a)
		}
		if ra.Op == OGlobal && rb.Op == OGlobal {
			return true
		}
		return false
	}
	// same root: compare field paths
	ca, cb := addrChain(a), addrChain(b)
	for i := 0; i < len(ca) && i < len(cb); i++ {
		x, y := ca[i], cb[i]
		if x == y {
			continue
		}
		if x.Op == OAddrF && y.Op == OAddrF {
			return x.Sym != y.Sym && x.Args[0] == y.Args[0]
		}
		if x.Op == OAddrI && y.Op == OAddrI && x.Args[0] == y.Args[0] {
			m, ok1 := x.Args[1].ConstInt()
			n, ok2 := y.Args[1].ConstInt()
			return ok1 && ok2 && m != n
		}
		return false
	}
	return false
}

// addrChain: the addresses that lead to a field or element, outermost object first.
func addrChain(t *Term) []*Term {
	var r []*Term
	for t.Op == OAddrF || t.Op == OAddrI {
		r = append(r, t)
		t = t.Args[0]
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- misc constructors ----

func (tt *Terms) StrCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		ps := []*Term{p}
		if p.Op == OStrCat {
			ps = p.Args
		}
		for _, q := range ps {
			if q.Op == OStr {
				if q.Sym == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].Op == OStr {
					out[n-1] = tt.Str(out[n-1].Sym + q.Sym)
					continue
				}
			}
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return tt.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(OStrCat, "", types.Typ[types.String], false, out...)
}

func (tt *Terms) Lit(e *Term) *Term { return tt.mk(OLit, "", nil, false, e) }

// Concat builds a list value from segments; an empty list is OConcat without args (non-nil) or nil.
func (tt *Terms) Concat(typ types.Type, parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		switch {
		case p.IsNil():
		case p.Op == OConcat:
			out = append(out, p.Args...)
		default:
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		for _, p := range parts {
			if !p.IsNil() {
				return tt.mk(OConcat, "", typ, false)
			}
		}
		return tt.Nil()
	}
	if len(out) == 1 && out[0].Op != OLit {
		return out[0]
	}
	return tt.mk(OConcat, "", typ, false, out...)
}

func (tt *Terms) Len(x *Term) *Term {
	switch x.Op {
	case ONil:
		return tt.Int(0)
	case OStr:
		return tt.Int(int64(len(x.Sym)))
	case OConcat:
		r := tt.Int(0)
		for _, a := range x.Args {
			if a.Op == OLit {
				r = tt.Add(r, tt.Int(1))
			} else {
				r = tt.Add(r, tt.Len(a))
			}
		}
		return r
	case OArray:
		return tt.Int(int64(len(x.Args)))
	case OSub:
		return tt.Sub(x.Args[2], x.Args[1])
	case OAlloc:
		if n, ok := x.Info.(*AllocInfo); ok && n.Len != nil {
			return n.Len
		}
	}
	return tt.mk(OLen, "", types.Typ[types.Int], false, x)
}

func (tt *Terms) SubSlice(base, lo, hi *Term) *Term {
	if base.Op == OSub {
		// base[l:h][lo:hi] = root[l+lo : l+hi]
		l := base.Args[1]
		return tt.SubSlice(base.Args[0], tt.Add(l, lo), tt.Add(l, hi))
	}
	if lo.IsInt(0) && hi == tt.Len(base) {
		return base
	}
	return tt.mk(OSub, "", base.Typ, false, base, lo, hi)
}

func (tt *Terms) FieldOf(v *Term, name string, idx int, typ types.Type) *Term {
	if v.Op == OStruct {
		return v.Args[idx]
	}
	return tt.mk(OField, name, typ, false, v)
}

// ---- rendering ----

func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if d > 12 {
		return "…"
	}
	as := func(from int) string {
		var s []string
		for _, a := range t.Args[from:] {
			s = append(s, a.render(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OPoly:
		if len(t.P) == 0 {
			return "0"
		}
		var b strings.Builder
		for i, m := range t.P {
			c := new(big.Rat).Set(m.C)
			if i > 0 {
				if c.Sign() < 0 {
					b.WriteString(" - ")
					c.Neg(c)
				} else {
					b.WriteString(" + ")
				}
			}
			if len(m.A) == 0 {
				b.WriteString(c.RatString())
				continue
			}
			if c.Cmp(big.NewRat(1, 1)) != 0 {
				b.WriteString(c.RatString() + "*")
			}
			for j, a := range m.A {
				if j > 0 {
					b.WriteString("*")
				}
				b.WriteString(a.render(d + 1))
			}
		}
		return "(" + b.String() + ")"
	case OStr:
		return strconv.Quote(t.Sym)
	case OBool:
		return t.Sym
	case ONil:
		return "nil"
	case OSym:
		return t.Sym
	case OField:
		return t.Args[0].render(d+1) + "." + t.Sym
	case OAddrF:
		return "&" + t.Args[0].render(d+1) + "." + t.Sym
	case OAddrI:
		return "&" + t.Args[0].render(d+1) + "[" + t.Args[1].render(d+1) + "]"
	case OAlloc:
		return "new:" + t.Sym
	case OGlobal:
		return "&" + t.Sym
	case OSel:
		switch {
		case strings.HasPrefix(t.Args[0].Sym, "F:"):
			return derefStr(t.Args[1].render(d+1)) + "." + t.Args[0].Sym[strings.LastIndexByte(t.Args[0].Sym, '.')+1:]
		case strings.HasPrefix(t.Args[0].Sym, "E:"):
			if len(t.Args) > 2 {
				return t.Args[1].render(d+1) + "[" + t.Args[2].render(d+1) + "]"
			}
		}
		return t.Args[0].Sym + "⟨" + as(1) + "⟩"
	case OStruct:
		return shortT(t.Typ) + "{" + as(0) + "}"
	case OArray:
		return "[" + as(0) + "]"
	case OIface:
		return t.Args[0].render(d + 1)
	case ODyn:
		return t.Args[0].render(d + 1)
	case OSub:
		return t.Args[0].render(d+1) + "[" + t.Args[1].render(d+1) + ":" + t.Args[2].render(d+1) + "]"
	case OConcat:
		return "list(" + as(0) + ")"
	case OLit:
		return "·" + t.Args[0].render(d+1)
	case OCall:
		return t.Sym + "(" + as(0) + ")"
	case ORes:
		return t.Args[0].render(d+1) + "#" + t.Sym
	case OTuple:
		return "(" + as(0) + ")"
	case OClosure:
		return "closure " + t.Sym
	case OFunc:
		return t.Sym
	case OFn:
		return t.Sym + "(" + as(0) + ")"
	case OLen:
		return "len(" + as(0) + ")"
	case OLe:
		return t.Args[0].render(d+1) + " " + strings.TrimPrefix(t.Sym, "i") + " " + t.Args[1].render(d+1)
	case OEq:
		return t.Args[0].render(d+1) + " == " + t.Args[1].render(d+1)
	case OLt:
		return t.Args[0].render(d+1) + " < " + t.Args[1].render(d+1)
	case ONot:
		return "!(" + t.Args[0].render(d+1) + ")"
	case OStrCat:
		return "cat(" + as(0) + ")"
	case OFmt:
		return t.Sym + "(" + as(0) + ")"
	}
	return fmt.Sprintf("?%d", t.Op)
}

func derefStr(s string) string { return strings.TrimPrefix(s, "&") }

// Contains reports whether sub occurs in t.
func (t *Term) Contains(pred func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		for _, m := range t.P {
			for _, a := range m.A {
				if f(a) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

// constTerm converts an SSA constant.
func (tt *Terms) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return tt.zero(c.Type())
	}
	return tt.constVal(c.Value, c.Type())
}

func (tt *Terms) constVal(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return tt.Bool(constant.BoolVal(v))
	case constant.String:
		return tt.Str(constant.StringVal(v))
	case constant.Int, constant.Float:
		if isFloat(typ) {
			v = constant.ToFloat(v)
		}
		if r, ok := new(big.Rat).SetString(v.ExactString()); ok {
			return tt.Rat(r)
		}
	}
	return tt.Fnc("const:"+v.ExactString(), typ)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// zero is the zero value of a type.
func (tt *Terms) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsString != 0:
			return tt.Str("")
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return tt.Int(0)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return tt.Nil()
		}
		return tt.Fnc("zero", t)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, tt.zero(u.Field(i).Type()))
		}
		return tt.mk(OStruct, "", t, true, fs...)
	case *types.Array:
		if u.Len() <= 16 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, tt.zero(u.Elem()))
			}
			return tt.mk(OArray, "", t, true, fs...)
		}
		return tt.Fnc("zeroarr", t)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, tt.zero(u.At(i).Type()))
		}
		return tt.mk(OTuple, "", t, false, fs...)
	}
	return tt.Nil()
}

// AllocInfo describes a fresh allocation.
type AllocInfo struct {
	Site ssa.Instruction
	Elem types.Type
	Len  *Term // slices and arrays
	Kind string
}
