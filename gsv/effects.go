package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A points-to and effect analysis. Each function is summarised on its own: which objects its parameters lead
// to, what it stores where, what it returns, and which of the objects that existed before the call it changes.
// Summaries are instantiated at each call, so objects a caller has made itself are told apart from those it got.

// enode is an abstract object.
type enode struct {
	kind   byte // a: made here, p: a parameter (or captured variable) leads to it, l: found by a load, g: global, f: function
	id     int
	typ    types.Type
	fn     *ssa.Function // closures and functions
	box    bool          // an interface holds a value of type typ that is not a pointer
	origin ssa.Instruction
	parent *enode
	path   string
	idx    int
	glob   *ssa.Global
	kids   map[string]*enode
}

func (n *enode) outside() bool { return n.kind == 'p' || n.kind == 'l' || n.kind == 'g' }

// eptr points into an object.
type eptr struct {
	n     *enode
	path  string
	trunc bool // a slice that may end before its array does
	clip  bool // a slice without room behind it
}

type eset map[eptr]bool

// emod is a change of an object.
type emod struct {
	ins ssa.Instruction
	via ssa.Instruction // the call in the summarised function
}

// eframe is the summary of a function.
type eframe struct {
	fx      *effects
	fn      *ssa.Function
	params  []*enode
	vals    map[ssa.Value]eset
	tup     map[ssa.Value][]eset
	fields  map[*enode]map[string]eset
	allocs  map[ekey]*enode
	mods    map[eptr]emod
	appends map[eptr]emod
	ret     []eset
	changed bool
	growth  int
}

type ekey struct {
	call   ssa.Instruction
	origin ssa.Instruction
	what   string
}

type effects struct {
	w       *World
	frames  map[*ssa.Function]*eframe
	order   []*ssa.Function
	busy    map[*ssa.Function]bool
	done    map[*ssa.Function]bool
	dirty   bool
	globals map[*ssa.Global]*enode
	funcs   map[*ssa.Function]*enode
	caps    map[*ssa.Function][]*enode
	named   []*types.Named
	implC   map[*types.Interface][]*types.Named
	types   map[string]types.Type
	taken   map[string][]*ssa.Function
	calls   int
	n       int
}

// newEffects analyses everything the roots lead to.
func newEffects(w *World, roots []*ssa.Function) *effects {
	fx := &effects{w: w, frames: map[*ssa.Function]*eframe{}, globals: map[*ssa.Global]*enode{}, funcs: map[*ssa.Function]*enode{},
		caps: map[*ssa.Function][]*enode{}, implC: map[*types.Interface][]*types.Named{}, types: map[string]types.Type{}, taken: map[string][]*ssa.Function{}}
	paths := []string{}
	for p := range w.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, pp := range paths {
		if first := strings.SplitN(pp, "/", 2)[0]; !strings.Contains(first, ".") {
			continue
		}
		sc := w.Pkgs[pp].Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && !types.IsInterface(nt) && nt.TypeParams().Len() == 0 {
					fx.named = append(fx.named, nt)
				}
			}
		}
	}
	// functions whose value is taken
	seen := map[*ssa.Function]bool{}
	for f := range w.AllFns {
		if !fx.body(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = &ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && op != callee && !seen[g] && fx.body(g) {
						if mc, isMC := in.(*ssa.MakeClosure); isMC && mc.Fn != ssa.Value(g) {
							continue
						}
						seen[g] = true
						k := sigKey(g.Signature)
						fx.taken[k] = append(fx.taken[k], g)
					}
				}
			}
		}
	}
	for _, l := range fx.taken {
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	}
	for pass := 0; pass < 12; pass++ {
		fx.done, fx.busy, fx.dirty = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, false
		for _, r := range roots {
			fx.frame(r)
		}
		if !fx.dirty {
			return fx
		}
	}
	return nil
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// standard packages whose code is analysed like that of the repository
var stdBodies = map[string]bool{"slices": true, "maps": true, "container/heap": true, "container/list": true, "container/ring": true}

// body: the code of the function is analysed.
func (fx *effects) body(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if !isStd(f) {
		return true
	}
	p := fnPkg(f)
	return p != nil && stdBodies[p.Path()]
}

func (fx *effects) node(kind byte, typ types.Type) *enode {
	fx.n++
	return &enode{kind: kind, id: fx.n, typ: typ}
}

// frame gives the summary of a function (of the last pass while it is being computed).
func (fx *effects) frame(fn *ssa.Function) *eframe {
	fr := fx.frames[fn]
	if fr == nil {
		fr = &eframe{fx: fx, fn: fn, vals: map[ssa.Value]eset{}, tup: map[ssa.Value][]eset{}, fields: map[*enode]map[string]eset{},
			allocs: map[ekey]*enode{}, mods: map[eptr]emod{}, appends: map[eptr]emod{}}
		fx.frames[fn] = fr
		fx.order = append(fx.order, fn)
		par := func(v ssa.Value) {
			t := v.Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			n := fx.node('p', t)
			n.idx = len(fr.params)
			fr.params = append(fr.params, n)
			fr.vals[v] = eset{eptr{n: n}: true}
			if !hasPtr(v.Type()) {
				fr.vals[v] = eset{}
			}
		}
		for _, p := range fn.Params {
			par(p)
		}
		for _, p := range fn.FreeVars {
			par(p)
		}
		fr.ret = make([]eset, fn.Signature.Results().Len())
		for i := range fr.ret {
			fr.ret[i] = eset{}
		}
	}
	if fx.done[fn] || fx.busy[fn] {
		return fr
	}
	fx.busy[fn] = true
	before := fr.growth
	fr.run()
	if fr.growth != before {
		fx.dirty = true
	}
	fx.busy[fn] = false
	fx.done[fn] = true
	return fr
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

// isView: values of the type are copied as a whole.
func isView(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type leaf struct {
	path string
	typ  types.Type
}

func leaves(t types.Type) []leaf {
	var r []leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				r = append(r, leaf{"." + u.Field(i).Name() + l.path, l.typ})
			}
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			r = append(r, leaf{"[]" + l.path, l.typ})
		}
	default:
		if hasPtr(t) {
			r = append(r, leaf{"", t})
		}
	}
	return r
}

// typeAt: the type of what a path of an object holds.
func (fx *effects) typeAt(n *enode, path string) types.Type {
	t := n.typ
	for path != "" && t != nil {
		u := t.Underlying()
		switch {
		case strings.HasPrefix(path, "<"):
			i := closing(path)
			t = fx.types[path[1:i]]
			path = path[i+1:]
		case strings.HasPrefix(path, "[]"):
			path = path[2:]
			switch x := u.(type) {
			case *types.Slice:
				t = x.Elem()
			case *types.Array:
				t = x.Elem()
			case *types.Pointer:
				if a, ok := x.Elem().Underlying().(*types.Array); ok {
					t = a.Elem()
				} else {
					return nil
				}
			default:
				return nil
			}
		case strings.HasPrefix(path, "{k}"), strings.HasPrefix(path, "{v}"):
			m, ok := u.(*types.Map)
			if !ok {
				return nil
			}
			if path[1] == 'k' {
				t = m.Key()
			} else {
				t = m.Elem()
			}
			path = path[3:]
		case path[0] == '*':
			path = path[1:]
		case path[0] == '.':
			s, ok := u.(*types.Struct)
			if !ok {
				return nil
			}
			e := 1
			for e < len(path) && !strings.ContainsRune(".[{<*", rune(path[e])) {
				e++
			}
			name := path[1:e]
			path = path[e:]
			t = nil
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					t = s.Field(i).Type()
				}
			}
		default:
			return nil
		}
	}
	return t
}

func closing(s string) int {
	d := 0
	for i, r := range s {
		if r == '<' {
			d++
		} else if r == '>' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

func (fx *effects) dyn(t types.Type) string {
	s := strings.NewReplacer("<-", "chan_").Replace(types.TypeString(t, nil))
	fx.types[s] = t
	return "<" + s + ">"
}

// cat appends a path; false: it cannot be there.
func (fx *effects) cat(n *enode, p, q string) (string, bool) {
	if strings.HasPrefix(q, "<") {
		t := fx.typeAt(n, p)
		if t == nil {
			return "", false
		}
		if !types.IsInterface(t) {
			i := closing(q)
			if !sameObj(t, fx.types[q[1:i]]) {
				return "", false
			}
			return p + q[i+1:], true
		}
		if strings.Contains(p, "<") {
			return "", false
		}
	} else if q != "" {
		if t := fx.typeAt(n, p); t == nil || types.IsInterface(t) {
			return "", false
		}
		r := p + q
		if fx.typeAt(n, r) == nil {
			return "", false
		}
		return r, true
	}
	return p + q, true
}

// sameObj: an object of type a can be looked at as one of type b.
func sameObj(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	if types.Identical(a, b) {
		return true
	}
	ea, eb := elemType(a), elemType(b)
	return ea != nil && eb != nil && types.Identical(ea, eb) || isMap(a) && isMap(b) && types.Identical(a.Underlying(), b.Underlying())
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// kid is the object a load from an outside object finds.
func (fx *effects) kid(n *enode, path string, t types.Type) *enode {
	if k := n.kids[path]; k != nil {
		return k
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for a := n; a != nil; a = a.parent {
		if types.Identical(a.typ, t) && !types.IsInterface(t) {
			return a
		}
	}
	depth := 0
	for a := n; a != nil; a = a.parent {
		if types.Identical(a.typ, t) {
			depth++
		}
		if depth > 2 {
			return a
		}
	}
	k := fx.node('l', t)
	k.parent, k.path = n, path
	if n.kids == nil {
		n.kids = map[string]*enode{}
	}
	n.kids[path] = k
	return k
}

func (fr *eframe) add(s eset, p eptr) {
	if !s[p] {
		s[p] = true
		fr.changed = true
		fr.growth++
	}
}

func (fr *eframe) addAll(s, o eset) {
	for p := range o {
		fr.add(s, p)
	}
}

func (fr *eframe) field(n *enode, path string) eset {
	m := fr.fields[n]
	if m == nil {
		m = map[string]eset{}
		fr.fields[n] = m
	}
	s := m[path]
	if s == nil {
		s = eset{}
		m[path] = s
	}
	return s
}

// load reads a value of type t.
func (fr *eframe) load(n *enode, path string, t types.Type) eset {
	if isView(t) {
		if !hasPtr(t) {
			return nil
		}
		return eset{eptr{n: n, path: path}: true}
	}
	if !hasPtr(t) {
		return nil
	}
	s := fr.field(n, path)
	if n.outside() {
		fr.add(s, eptr{n: fr.fx.kid(n, path, t)})
	}
	return s
}

func (fr *eframe) loadAll(v eset, suffix string, t types.Type) eset {
	r := eset{}
	for p := range v {
		if q, ok := fr.fx.cat(p.n, p.path, suffix); ok {
			for x := range fr.load(p.n, q, t) {
				r[x] = true
			}
		}
	}
	return r
}

// store writes a value of type t.
func (fr *eframe) store(n *enode, path string, v eset, t types.Type) {
	if isView(t) {
		for _, l := range leaves(t) {
			q, ok := fr.fx.cat(n, path, l.path)
			if !ok {
				continue
			}
			for p := range v {
				if r, ok := fr.fx.cat(p.n, p.path, l.path); ok {
					fr.addAll(fr.field(n, q), fr.load(p.n, r, l.typ))
				}
			}
		}
		return
	}
	if hasPtr(t) {
		fr.addAll(fr.field(n, path), v)
	}
}

func (fr *eframe) mod(p eptr, suffix string, ins, via ssa.Instruction) {
	if !p.n.outside() {
		return
	}
	q, ok := fr.fx.cat(p.n, p.path, suffix)
	if !ok {
		return
	}
	k := eptr{n: p.n, path: q}
	if _, ok := fr.mods[k]; !ok {
		fr.mods[k] = emod{ins, via}
		fr.changed = true
		fr.growth++
	}
}

func (fr *eframe) storeAt(v eset, suffix string, x eset, t types.Type, ins ssa.Instruction) {
	for p := range v {
		if q, ok := fr.fx.cat(p.n, p.path, suffix); ok {
			fr.store(p.n, q, x, t)
			fr.mod(eptr{n: p.n, path: q}, "", ins, ins)
		}
	}
}

func (fr *eframe) alloc(k ekey, t types.Type) *enode {
	n := fr.allocs[k]
	if n == nil {
		n = fr.fx.node('a', t)
		n.origin = k.origin
		fr.allocs[k] = n
		fr.changed = true
		fr.growth++
	}
	return n
}

// val gives what a value may point to.
func (fr *eframe) val(v ssa.Value) eset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		n := fr.fx.globals[x]
		if n == nil {
			n = fr.fx.node('g', x.Type().(*types.Pointer).Elem())
			n.glob = x
			fr.fx.globals[x] = n
		}
		return eset{eptr{n: n}: true}
	case *ssa.Function:
		n := fr.fx.funcs[x]
		if n == nil {
			n = fr.fx.node('f', x.Type())
			n.fn = x
			fr.fx.funcs[x] = n
		}
		return eset{eptr{n: n}: true}
	}
	s := fr.vals[v]
	if s == nil {
		s = eset{}
		fr.vals[v] = s
	}
	return s
}

func (fr *eframe) set(v ssa.Value, s eset) { fr.addAll(fr.val(v), s) }

func (fr *eframe) run() {
	for n := 0; n < 60; n++ {
		fr.changed = false
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				fr.instr(in)
			}
		}
		if !fr.changed {
			return
		}
	}
}

func (fr *eframe) instr(in ssa.Instruction) {
	fx := fr.fx
	switch x := in.(type) {
	case *ssa.Alloc:
		n := fr.alloc(ekey{nil, in, ""}, x.Type().Underlying().(*types.Pointer).Elem())
		fr.add(fr.val(x), eptr{n: n})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		fr.add(fr.val(v), eptr{n: fr.alloc(ekey{nil, in, ""}, v.Type())})
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		n := fr.alloc(ekey{nil, in, ""}, x.Type())
		n.fn = f
		for i, b := range x.Bindings {
			fr.addAll(fr.field(n, bindKey(i)), fr.val(b))
		}
		fr.add(fr.val(x), eptr{n: n})
	case *ssa.MakeInterface:
		t := x.X.Type()
		if !hasPtr(t) {
			return
		}
		_, isPtr := t.Underlying().(*types.Pointer)
		if isPtr || isView(t) {
			fr.set(x, fr.val(x.X))
			return
		}
		n := fr.alloc(ekey{nil, in, ""}, t)
		n.box = true
		fr.addAll(fr.field(n, "*"), fr.val(x.X))
		fr.add(fr.val(x), eptr{n: n})
	case *ssa.ChangeInterface:
		fr.set(x, fr.val(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.val(x.X))
	case *ssa.Convert:
		if hasPtr(x.Type()) && hasPtr(x.X.Type()) {
			fr.set(x, fr.val(x.X))
		} else if hasPtr(x.Type()) {
			fr.add(fr.val(x), eptr{n: fr.alloc(ekey{nil, in, ""}, x.Type())})
		}
	case *ssa.MultiConvert:
		fr.set(x, fr.val(x.X))
	case *ssa.SliceToArrayPointer:
		fr.set(x, fr.val(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			fr.set(x, fr.val(e))
		}
	case *ssa.FieldAddr:
		s := structOf(x.X.Type().Underlying().(*types.Pointer).Elem())
		for p := range fr.val(x.X) {
			if q, ok := fx.cat(p.n, p.path, "."+s.Field(x.Field).Name()); ok {
				fr.add(fr.val(x), eptr{n: p.n, path: q})
			}
		}
	case *ssa.Field:
		s := structOf(x.X.Type())
		fr.set(x, fr.loadAll(fr.val(x.X), "."+s.Field(x.Field).Name(), x.Type()))
	case *ssa.IndexAddr:
		for p := range fr.val(x.X) {
			if q, ok := fx.cat(p.n, p.path, "[]"); ok {
				fr.add(fr.val(x), eptr{n: p.n, path: q})
			}
		}
	case *ssa.Index:
		fr.set(x, fr.loadAll(fr.val(x.X), "[]", x.Type()))
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			s := fr.loadAll(fr.val(x.X), "{v}", m.Elem())
			if x.CommaOk {
				fr.setTup(x, 0, s)
			} else {
				fr.set(x, s)
			}
		}
	case *ssa.Range:
		fr.set(x, fr.val(x.X))
	case *ssa.Next:
		if m, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
			fr.setTup(x, 1, fr.loadAll(fr.val(x.Iter), "{k}", m.Key()))
			fr.setTup(x, 2, fr.loadAll(fr.val(x.Iter), "{v}", m.Elem()))
		}
	case *ssa.Extract:
		if t := fr.tup[x.Tuple]; t != nil && x.Index < len(t) {
			fr.set(x, t[x.Index])
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			fr.set(x, fr.loadAll(fr.val(x.X), "", x.Type()))
		case token.ARROW:
			fr.set(x, fr.val(x.X))
		}
	case *ssa.Store:
		fr.storeAt(fr.val(x.Addr), "", fr.val(x.Val), x.Val.Type(), in)
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		fr.storeAt(fr.val(x.Map), "{k}", fr.val(x.Key), m.Key(), in)
		fr.storeAt(fr.val(x.Map), "{v}", fr.val(x.Value), m.Elem(), in)
	case *ssa.Send:
		fr.addAll(fr.val(x.Chan), fr.val(x.X))
	case *ssa.Slice:
		clipped := x.Max != nil && sameExpr(x.Max, x.High)
		full := x.High == nil || clipped
		if c, ok := x.High.(*ssa.Call); ok && !full {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				full = sameLoad(c.Call.Args[0], x.X)
			}
		}
		for p := range fr.val(x.X) {
			fr.add(fr.val(x), eptr{p.n, p.path, (p.trunc || !full) && !clipped, clipped || full && p.clip})
		}
	case *ssa.TypeAssert:
		s := fr.assert(fr.val(x.X), x.AssertedType)
		if x.CommaOk {
			fr.setTup(x, 0, s)
		} else {
			fr.set(x, s)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			fr.addAll(fr.ret[i], fr.val(r))
		}
	case ssa.CallInstruction:
		fr.call(x)
	}
}

// sameExpr: both are computed in the same way from the same values.
func sameExpr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameExpr(x.X, y.X) && sameExpr(x.Y, y.Y)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		f, ok1 := x.Call.Value.(*ssa.Builtin)
		g, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && f.Name() == "len" && g.Name() == "len" && sameExpr(x.Call.Args[0], y.Call.Args[0])
	}
	return false
}

// sameLoad: both values are the same or are read from the same place.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return sameLoad(x.X, y.X)
	}
	fx, ok1 := a.(*ssa.FieldAddr)
	fy, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return fx.Field == fy.Field && sameLoad(fx.X, fy.X)
	}
	ix, ok1 := a.(*ssa.IndexAddr)
	iy, ok2 := b.(*ssa.IndexAddr)
	if ok1 && ok2 {
		return ix.Index == iy.Index && sameLoad(ix.X, iy.X)
	}
	return false
}

func bindKey(i int) string { return "!" + string(rune('0'+i)) }

func (fr *eframe) setTup(v ssa.Value, i int, s eset) {
	t := fr.tup[v]
	for len(t) <= i {
		t = append(t, eset{})
	}
	fr.tup[v] = t
	fr.addAll(t[i], s)
}

// assert: the objects behind an interface that may have the type.
func (fr *eframe) assert(v eset, t types.Type) eset {
	if types.IsInterface(t) {
		return v
	}
	fx := fr.fx
	obj := t
	p, isPtr := t.Underlying().(*types.Pointer)
	if isPtr {
		obj = p.Elem()
	}
	r := eset{}
	for p := range v {
		at := fx.typeAt(p.n, p.path)
		if at == nil {
			continue
		}
		switch {
		case isPtr || isView(t):
			if types.IsInterface(at) {
				if !strings.Contains(p.path, "<") {
					r[eptr{n: p.n, path: p.path + fx.dyn(obj)}] = true
				}
			} else if types.Identical(at, obj) && !p.n.box {
				r[p] = true
			}
		case p.n.box && p.path == "":
			if types.Identical(p.n.typ, t) {
				for x := range fr.field(p.n, "*") {
					r[x] = true
				}
			}
		case types.IsInterface(at):
			if !strings.Contains(p.path, "<") {
				for x := range fr.load(p.n, p.path+fx.dyn(t)+"*", t) {
					r[x] = true
				}
			}
		}
	}
	return r
}

// impls are the types with code that implement an interface.
func (fx *effects) impls(i *types.Interface) []*types.Named {
	if r, ok := fx.implC[i]; ok {
		return r
	}
	var r []*types.Named
	for _, n := range fx.named {
		if types.Implements(n, i) || types.Implements(types.NewPointer(n), i) {
			r = append(r, n)
		}
	}
	fx.implC[i] = r
	return r
}

func (fx *effects) method(t types.Type, name string, pkg *types.Package) *ssa.Function {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	sel := fx.w.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return fx.w.Prog.MethodValue(sel)
}

// target is a function a call may run.
type target struct {
	fn   *ssa.Function
	recv eset
	has  bool
	bind func(i int) eset
}

// invoked: the methods an interface call may run.
func (fr *eframe) invoked(v eset, name string, pkg *types.Package, iface *types.Interface) []target {
	fx := fr.fx
	m := map[*ssa.Function]eset{}
	var order []*ssa.Function
	put := func(t types.Type, recv eset) {
		f := fx.method(t, name, pkg)
		if f == nil || !fx.body(f) {
			return
		}
		if m[f] == nil {
			m[f] = eset{}
			order = append(order, f)
		}
		for p := range recv {
			m[f][p] = true
		}
	}
	for p := range v {
		at := fx.typeAt(p.n, p.path)
		switch {
		case at == nil:
		case p.n.box && p.path == "":
			put(p.n.typ, fr.boxed(p.n))
		case types.IsInterface(at):
			if strings.Contains(p.path, "<") {
				continue
			}
			for _, n := range fx.impls(iface) {
				s := eset{}
				if isView(n) {
					s[eptr{n: p.n, path: p.path + fx.dyn(n)}] = true
				} else {
					for x := range fr.load(p.n, p.path+fx.dyn(n)+"*", n) {
						s[x] = true
					}
					if len(s) == 0 {
						s[eptr{n: p.n, path: p.path + fx.dyn(n)}] = true
					}
				}
				put(n, s)
			}
		default:
			put(at, eset{p: true})
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	var r []target
	for _, f := range order {
		r = append(r, target{fn: f, recv: m[f], has: true})
	}
	return r
}

// boxed: a pointer receiver wrapper reads the value from what it is given.
func (fr *eframe) boxed(n *enode) eset {
	return eset{eptr{n: n}: true}
}

func (fr *eframe) call(c ssa.CallInstruction) {
	cc := c.Common()
	fx := fr.fx
	var ts []target
	args := make([]eset, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = fr.val(a)
	}
	if cc.IsInvoke() {
		iface := cc.Value.Type().Underlying().(*types.Interface)
		ts = fr.invoked(fr.val(cc.Value), cc.Method.Name(), cc.Method.Pkg(), iface)
		if len(ts) == 0 {
			if p := cc.Method.Pkg(); p == nil || !strings.Contains(strings.SplitN(p.Path(), "/", 2)[0], ".") {
				fr.std(c, nil, args)
			}
			return
		}
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		fr.builtin(c, b.Name(), args)
		return
	} else {
		ts = fr.funcs(fr.val(cc.Value), cc.Signature())
	}
	for _, t := range ts {
		a := args
		if t.has {
			a = append([]eset{t.recv}, args...)
		}
		if !fx.body(t.fn) {
			fr.std(c, t.fn, a)
			continue
		}
		rs := fr.apply(c, t, a)
		if v := c.Value(); v != nil {
			if len(rs) == 1 {
				fr.set(v, rs[0])
			}
			for i := range rs {
				fr.setTup(v, i, rs[i])
			}
		}
	}
}

// funcs: the functions a function value may be.
func (fr *eframe) funcs(v eset, sig *types.Signature) []target {
	var ts []target
	seen := map[*enode]bool{}
	var ns []*enode
	for p := range v {
		if !seen[p.n] {
			seen[p.n] = true
			ns = append(ns, p.n)
		}
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].id < ns[j].id })
	open := false
	for _, n := range ns {
		if n.fn == nil {
			open = open || n.outside()
			continue
		}
		n := n
		ts = append(ts, target{fn: n.fn, bind: func(i int) eset { return fr.field(n, bindKey(i)) }})
	}
	if open {
		for _, f := range fr.fx.taken[sigKey(sig)] {
			f := f
			ts = append(ts, target{fn: f, bind: func(i int) eset { return eset{eptr{n: fr.fx.captured(f, i)}: true} }})
		}
	}
	return ts
}

// captured is a variable of a closure that was made elsewhere.
func (fx *effects) captured(f *ssa.Function, i int) *enode {
	for len(fx.caps[f]) < len(f.FreeVars) {
		n := fx.node('g', f.FreeVars[len(fx.caps[f])].Type().Underlying().(*types.Pointer).Elem())
		n.fn = f
		fx.caps[f] = append(fx.caps[f], n)
	}
	return fx.caps[f][i]
}

// apply instantiates the summary of a function.
func (fr *eframe) apply(c ssa.CallInstruction, t target, args []eset) []eset {
	fx := fr.fx
	fx.calls++
	g := fx.frame(t.fn)
	np := len(t.fn.Params)
	mu := map[*enode]eset{}
	var m func(n *enode) eset
	m = func(n *enode) eset {
		if s, ok := mu[n]; ok {
			return s
		}
		s := eset{}
		mu[n] = s
		switch n.kind {
		case 'p':
			if n.idx < np {
				if n.idx < len(args) {
					for p := range args[n.idx] {
						s[p] = true
					}
				}
			} else if t.bind != nil {
				for p := range t.bind(n.idx - np) {
					s[p] = true
				}
			}
		case 'l':
			r := n
			for r.parent != nil {
				r = r.parent
			}
			if r.kind == 'g' {
				s[eptr{n: n}] = true
				break
			}
			for p := range m(n.parent) {
				if q, ok := fx.cat(p.n, p.path, n.path); ok {
					lt := fx.typeAt(p.n, q)
					if lt == nil || isView(lt) {
						continue
					}
					for x := range fr.load(p.n, q, lt) {
						s[x] = true
					}
				}
			}
		case 'a':
			k := ekey{c, n.origin, ""}
			if n.box {
				k.what = "box"
			}
			a := fr.alloc(k, n.typ)
			a.fn, a.box = n.fn, n.box
			s[eptr{n: a}] = true
		default:
			s[eptr{n: n}] = true
		}
		return s
	}
	tr := func(o eset) eset {
		r := eset{}
		for p := range o {
			for x := range m(p.n) {
				if q, ok := fx.cat(x.n, x.path, p.path); ok {
					whole := p.path == ""
					r[eptr{x.n, q, !p.clip && (p.trunc || whole && x.trunc), p.clip || whole && x.clip && !p.trunc}] = true
				}
			}
		}
		return r
	}
	// objects the caller can reach
	live := g.live()
	// fields until nothing changes: what is loaded depends on what is stored
	for {
		before := fr.growth
		for _, n := range live {
			for path, o := range g.fields[n] {
				o2 := o
				if n.outside() {
					if k := n.kids[path]; k != nil && len(o) == 1 && o[eptr{n: k}] {
						continue
					}
				}
				v := tr(o2)
				for x := range m(n) {
					if strings.HasPrefix(path, "!") || path == "*" {
						fr.addAll(fr.field(x.n, path), v)
					} else if q, ok := fx.cat(x.n, x.path, path); ok {
						fr.addAll(fr.field(x.n, q), v)
					}
				}
			}
		}
		if fr.growth == before {
			break
		}
		mu = map[*enode]eset{}
	}
	for p, e := range g.mods {
		for x := range m(p.n) {
			fr.mod(eptr{n: x.n, path: x.path}, p.path, e.ins, c)
		}
	}
	for p, e := range g.appends {
		for x := range m(p.n) {
			if q, ok := fx.cat(x.n, x.path, p.path); ok {
				fr.appendTo(eptr{x.n, q, p.path == "" && x.trunc, p.path == "" && x.clip}, e.ins, c)
			}
		}
	}
	r := make([]eset, len(g.ret))
	for i := range g.ret {
		r[i] = tr(g.ret[i])
	}
	return r
}

// live: the objects that can be reached from outside of the function.
func (fr *eframe) live() []*enode {
	seen := map[*enode]bool{}
	var r []*enode
	var add func(n *enode)
	add = func(n *enode) {
		if seen[n] {
			return
		}
		seen[n] = true
		r = append(r, n)
		for _, s := range fr.fields[n] {
			for p := range s {
				add(p.n)
			}
		}
	}
	for n := range fr.fields {
		if n.outside() {
			add(n)
		}
	}
	for _, s := range fr.ret {
		for p := range s {
			add(p.n)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (fr *eframe) appendTo(p eptr, ins, via ssa.Instruction) {
	if !p.n.outside() || p.clip {
		return
	}
	if p.trunc {
		fr.mod(p, "[]", ins, via)
		return
	}
	k := eptr{n: p.n, path: p.path}
	if _, ok := fr.appends[k]; !ok {
		fr.appends[k] = emod{ins, via}
		fr.changed = true
		fr.growth++
	}
}

func (fr *eframe) builtin(c ssa.CallInstruction, name string, args []eset) {
	fx := fr.fx
	cc := c.Common()
	switch name {
	case "append":
		v := c.Value()
		if v == nil {
			return
		}
		et := elemType(v.Type())
		n := fr.alloc(ekey{nil, c, ""}, v.Type())
		res := fr.val(v)
		fr.add(res, eptr{n: n})
		for p := range args[0] {
			if p.clip {
				continue
			}
			fr.add(res, eptr{n: p.n, path: p.path})
			fr.appendTo(p, c, c)
		}
		if et == nil || !hasPtr(et) {
			return
		}
		var src []eset
		src = append(src, args...)
		for _, s := range src {
			for p := range s {
				q, ok := fx.cat(p.n, p.path, "[]")
				if !ok {
					continue
				}
				x := fr.load(p.n, q, et)
				for d := range res {
					if dq, ok := fx.cat(d.n, d.path, "[]"); ok && !(d.n == p.n && dq == q) {
						fr.store(d.n, dq, x, et)
					}
				}
			}
		}
	case "copy":
		et := elemType(cc.Args[0].Type())
		for d := range args[0] {
			dq, ok := fx.cat(d.n, d.path, "[]")
			if !ok {
				continue
			}
			fr.mod(eptr{n: d.n, path: dq}, "", c, c)
			for p := range args[1] {
				if q, ok := fx.cat(p.n, p.path, "[]"); ok {
					fr.store(d.n, dq, fr.load(p.n, q, et), et)
				}
			}
		}
	case "delete":
		for p := range args[0] {
			fr.mod(p, "{v}", c, c)
		}
	case "clear":
		suffix := "[]"
		if isMap(cc.Args[0].Type()) {
			suffix = "{v}"
		}
		for p := range args[0] {
			fr.mod(p, suffix, c, c)
		}
	case "min", "max":
		if v := c.Value(); v != nil {
			for _, a := range args {
				fr.set(v, a)
			}
		}
	case "ssa:wrapnilchk":
		if v := c.Value(); v != nil {
			fr.set(v, args[0])
		}
	}
}

// std models a function whose code is not analysed.
func (fr *eframe) std(c ssa.CallInstruction, fn *ssa.Function, args []eset) {
	fx := fr.fx
	cc := c.Common()
	name := cc.Value.Name()
	pkg := ""
	var fargs []ssa.Value
	fargs = append(fargs, cc.Args...)
	if cc.IsInvoke() {
		name = cc.Method.Name()
		if cc.Method.Pkg() != nil {
			pkg = cc.Method.Pkg().Path()
		}
	} else if fn != nil {
		name = fn.Name()
		if p := fnPkg(fn); p != nil {
			pkg = p.Path()
		}
	}
	through := func(s eset, t types.Type) {
		// the value behind an interface
		for p := range s {
			at := fx.typeAt(p.n, p.path)
			if p.n.box && p.path == "" {
				for x := range fr.field(p.n, "*") {
					if q, ok := fx.cat(x.n, x.path, "[]"); ok {
						fr.mod(eptr{n: x.n, path: q}, "", c, c)
					}
				}
				continue
			}
			if at == nil || types.IsInterface(at) {
				continue
			}
			if elemType(at) != nil {
				fr.mod(p, "[]", c, c)
			} else if isMap(at) {
				fr.mod(p, "{v}", c, c)
			} else {
				fr.mod(p, "", c, c)
			}
		}
	}
	switch {
	case pkg == "sort" && len(args) > 0 && strings.HasPrefix(name, "S") && name != "Search" && !strings.HasPrefix(name, "Search") && (name == "Slice" || name == "SliceStable" || name == "Strings"),
		pkg == "sort" && (name == "Ints" || name == "Float64s"):
		through(args[0], nil)
	case strings.HasPrefix(name, "Unmarshal"), strings.HasPrefix(name, "Decode"), strings.HasPrefix(name, "Scan"), strings.HasPrefix(name, "Sscan"), strings.HasPrefix(name, "Fscan"):
		for _, a := range args {
			through(a, nil)
		}
	case pkg == "reflect" && strings.HasPrefix(name, "Set"):
		for _, a := range args {
			through(a, nil)
		}
	}
	// objects of the standard library that hold state
	if !cc.IsInvoke() && fn != nil && fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ptr := fn.Signature.Recv().Type().(*types.Pointer); ptr && holdsState(fn.Signature.Recv().Type()) && !readsOnly[name] {
			for p := range args[0] {
				fr.mod(p, "", c, c)
			}
		}
	}
	if pkg == "sync/atomic" && len(args) > 0 && !strings.HasPrefix(name, "Load") {
		for p := range args[0] {
			fr.mod(p, "", c, c)
		}
	}
	// values handed to the standard library: their methods and functions may be called
	for i, a := range args {
		if fn != nil && i < len(fn.Params) || fn == nil && i < cc.Signature().Params().Len() {
			var pt types.Type
			if fn != nil {
				pt = fn.Params[i].Type()
			} else {
				pt = cc.Signature().Params().At(i).Type()
			}
			if it, ok := pt.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				for p := range a {
					if at := fx.typeAt(p.n, p.path); at != nil && (holdsState(at) || holdsState(types.NewPointer(at))) {
						fr.mod(p, "", c, c)
					}
				}
				for j := 0; j < it.NumMethods(); j++ {
					m := it.Method(j)
					for _, t := range fr.invoked(a, m.Name(), m.Pkg(), it) {
						fr.apply(c, t, append([]eset{t.recv}, make([]eset, 8)...))
					}
				}
			}
			if sg, ok := pt.Underlying().(*types.Signature); ok {
				for _, t := range fr.funcs(a, sg) {
					if fx.body(t.fn) {
						fr.apply(c, t, make([]eset, len(t.fn.Params)))
					}
				}
			}
		}
	}
	v := c.Value()
	if v == nil || !hasPtr(v.Type()) {
		return
	}
	one := func(i int, t types.Type, set func(s eset)) {
		if !hasPtr(t) {
			return
		}
		o := t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			o = p.Elem()
		}
		r := eset{}
		if !types.IsInterface(o) {
			r[eptr{n: fr.alloc(ekey{nil, c, "std" + string(rune('0'+i))}, o)}] = true
		}
		for j, a := range args {
			if j < len(fargs) && types.Identical(fargs[j].Type(), t) && !types.IsInterface(t) {
				for p := range a {
					r[p] = true
				}
			}
		}
		set(r)
	}
	if tp, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			one(i, tp.At(i).Type(), func(s eset) { fr.setTup(v, i, s) })
		}
		return
	}
	one(0, v.Type(), func(s eset) { fr.set(v, s) })
}

// methods of such objects that leave them as they are
var readsOnly = map[string]bool{"String": true, "Bytes": true, "Len": true, "Cap": true, "Available": true, "Buffered": true, "Size": true,
	"Front": true, "Back": true, "Value": true, "Load": true, "Range": true}

// holdsState: a type of the standard library whose methods change it.
func holdsState(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "bytes", "strings", "bufio", "text/template", "math/rand", "math/rand/v2", "hash/maphash", "encoding/json", "encoding/csv", "text/tabwriter", "sync/atomic", "expvar":
		return true
	case "sync":
		return n.Obj().Name() == "Map"
	}
	return false
}

// describe names what a path of an outside object is: parameter and accesses; and the types along the way.
func (fr *eframe) describe(p eptr) (string, []types.Type) {
	var rec func(n *enode) (string, []types.Type)
	fx := fr.fx
	along := func(n *enode, path string) []types.Type {
		var ts []types.Type
		ts = append(ts, n.typ)
		depth := 0
		for i := 0; i < len(path); i++ {
			switch path[i] {
			case '<':
				depth++
			case '>':
				depth--
				continue
			}
			if i > 0 && (depth == 0 || depth == 1 && path[i] == '<') && strings.ContainsRune(".[{<*", rune(path[i])) {
				if t := fx.typeAt(n, path[:i]); t != nil {
					ts = append(ts, t)
				}
			}
		}
		return ts
	}
	rec = func(n *enode) (string, []types.Type) {
		switch n.kind {
		case 'l':
			s, ts := rec(n.parent)
			return s + n.path, append(ts, along(n.parent, n.path)...)
		case 'g':
			if n.glob != nil {
				return "global " + n.glob.Name(), nil
			}
			return "captured", nil
		case 'p':
			if n.idx < len(fr.fn.Params) {
				return fr.fn.Params[n.idx].Name(), nil
			}
			if i := n.idx - len(fr.fn.Params); i < len(fr.fn.FreeVars) {
				return fr.fn.FreeVars[i].Name(), nil
			}
		}
		return "?", nil
	}
	s, ts := rec(p.n)
	return s + p.path, append(ts, along(p.n, p.path)...)
}
