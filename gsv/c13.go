package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Settings and finished geometry are never modified in place", checkC13)
}

// valueTypes tells the types that make up settings and geometry.
type valueTypes struct {
	w        *World
	ifaces   []*types.Named
	geo      map[string]bool
	settings map[string]bool
}

func (c *Ctx) valueTypes() *valueTypes {
	w := c.W
	v := &valueTypes{w: w, geo: map[string]bool{}, settings: map[string]bool{}}
	for _, n := range []string{"MicroPoint", "MicroVec3", "LayerPart", "PartitionedLayer", "Layer", "Model", "OptimizedModel", "Face", "OptimizedFace"} {
		if it := w.TypeNamed("data", n); it != nil && types.IsInterface(it) {
			v.ifaces = append(v.ifaces, it)
			v.geo[types.TypeString(it, nil)] = true
			for _, im := range w.Impls(it) {
				v.geo[types.TypeString(im, nil)] = true
			}
		}
	}
	// types of the repository that only collect geometry, like paths
	for changed := true; changed; {
		changed = false
		for _, p := range w.Repo {
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() || v.geo[types.TypeString(tn.Type(), nil)] {
					continue
				}
				switch tn.Type().Underlying().(type) {
				case *types.Slice, *types.Array:
					if v.geometry(tn.Type()) {
						v.geo[types.TypeString(tn.Type(), nil)] = true
						changed = true
					}
				}
			}
		}
	}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Named:
			if st, ok := u.Underlying().(*types.Struct); ok && inRepoPkg(u.Obj().Pkg()) && !v.settings[types.TypeString(u, nil)] && !v.geo[types.TypeString(u, nil)] {
				v.settings[types.TypeString(u, nil)] = true
				for i := 0; i < st.NumFields(); i++ {
					add(st.Field(i).Type())
				}
			}
		}
	}
	if o := w.TypeNamed("data", "Options"); o != nil {
		add(o)
	}
	return v
}

func (v *valueTypes) geometry(t types.Type) bool {
	if t == nil {
		return false
	}
	if v.geo[types.TypeString(t, nil)] {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return v.geometry(u.Elem())
	case *types.Slice:
		return v.geometry(u.Elem())
	case *types.Array:
		return v.geometry(u.Elem())
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		i, isI := u.Elem().Underlying().(*types.Interface)
		return ok && b.Kind() == types.String && isI && i.NumMethods() == 0 || v.geometry(u.Elem()) || v.geometry(u.Key())
	}
	return false
}

func (v *valueTypes) isSettings(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return t != nil && v.settings[types.TypeString(t, nil)]
}

// operations: the functions other code can call.
func (w *World) operations() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.RepoFns {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		p := fnPkg(f)
		if p == nil || p.Name() == "main" || strings.Contains(p.Path(), "/util/") {
			continue
		}
		if s := f.Signature; s.Recv() == nil && s.Params().Len() == 0 && s.Results().Len() > 0 && w.TypeNamed("data", "Options") != nil && types.Identical(s.Results().At(0).Type(), w.TypeNamed("data", "Options")) {
			continue // makes settings
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// isFlagSet: the method with which a settings value takes the text of a command line flag.
func isFlagSet(f *ssa.Function) bool {
	s := f.Signature
	return f.Name() == "Set" && s.Recv() != nil && s.Params().Len() == 1 && types.Identical(s.Params().At(0).Type(), types.Typ[types.String]) &&
		s.Results().Len() == 1 && s.Results().At(0).Type().String() == "error"
}

func checkC13(c *Ctx) {
	const rule = "operations-leave-their-operands"
	c.Rule("operations-leave-their-operands: a points-to and effect analysis summarises every function of the repository and of its dependencies: which objects that existed before the call it changes, told by the way from its parameters or from package variables to the changed cell. For every exported function and method no such cell belongs to settings (data.Options and the structs it consists of; only the Set(string) error methods that take a command line flag may change their own receiver) or to geometry (everything implementing a point, vector, face, model, part or layer interface, lists of them, and attribute maps). Procedures without result whose receiver is geometry may change the receiver itself (SetX, Rotate, AppendTriangle), but not points it only leads to; a modifier may replace entries of the list of layers it was given and add entries to the attribute map of those layers, nothing else. A change is reported with the function, the store and the call that leads there")
	w := c.W
	v := c.valueTypes()
	roots := w.operations()
	fx := newEffects(w, roots)
	if fx == nil {
		c.Undecided(rule, nil, 0, "analysis", "the effect analysis did not come to an end")
		return
	}
	modify := map[*ssa.Function]bool{}
	if m := w.TypeNamed("handler", "LayerModifier"); m != nil {
		for _, f := range w.ImplMethods(m, "Modify") {
			modify[f] = true
		}
	}
	arith, own := 0, 0
	for _, f := range roots {
		fr := fx.frames[f]
		if fr == nil {
			c.Undecided(rule, f, f.Pos(), "analysis", "%s has not been analysed", FnName(f))
			continue
		}
		c.Count("operations", 1)
		if f.Signature.Recv() != nil && v.geometry(f.Signature.Recv().Type()) {
			arith++
		}
		var ps []eptr
		for p := range fr.mods {
			ps = append(ps, p)
		}
		type mod struct {
			text  string
			chain []types.Type
			p     eptr
			m     emod
		}
		var ms []mod
		for _, p := range ps {
			t, ch := fr.describe(p)
			ms = append(ms, mod{t, ch, p, fr.mods[p]})
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].text < ms[j].text })
		for _, m := range ms {
			c.Count("changes of objects from before the call", 1)
			set, geo := false, false
			for _, t := range m.chain {
				set = set || v.isSettings(t)
				geo = geo || v.geometry(t)
			}
			if t := fx.typeAt(m.p.n, m.p.path); t != nil {
				if _, ptr := t.(*types.Pointer); !ptr {
					set = set || v.isSettings(t)
				}
			}
			what := ""
			ownCell := false
			if recv := f.Signature.Recv(); recv != nil {
				// a field of the receiver, or an entry of the lists it consists of
				cell := strings.TrimPrefix(m.text, f.Params[0].Name())
				_, slice := recv.Type().Underlying().(*types.Slice)
				own := m.p.n
				for own.kind == 'l' {
					own = own.parent
				}
				ownCell = own.kind == 'p' && own.idx == 0 && (slice && strings.ReplaceAll(cell, "[]", "") == "" || m.p.n.kind == 'p' && !strings.ContainsAny(cell, "[{<*"))
			}
			root := m.p.n
			for root.kind == 'l' {
				root = root.parent
			}
			switch {
			case isFlagSet(f) && root.kind == 'p' && root.idx == 0:
				own++
			case set:
				what = "settings"
			case !geo:
			case ownCell && f.Signature.Results().Len() == 0 && v.geometry(f.Signature.Recv().Type()):
				own++
			case modify[f] && v.modifierMay(fr, m.p):
				own++
			default:
				what = "geometry"
			}
			site, call := m.m.ins, ""
			if m.m.via != nil && m.m.via != m.m.ins {
				call = fmt.Sprintf(", reached by the call at %s", w.Pos(m.m.via.Pos()))
			}
			var at *ssa.Function
			if site != nil {
				at = site.Parent()
			}
			if what != "" {
				where := ""
				if site != nil {
					where = w.Pos(site.Pos())
				}
				c.Oblige(false, rule, f, f.Pos(), m.text, "%s changes %s it was given: %s is overwritten at %s in %s%s", FnName(f), what, m.text, where, FnName(at), call)
			} else {
				c.Oblige(true, rule, f, f.Pos(), m.text, "")
			}
		}
		c.Oblige(true, rule, f, f.Pos(), "summary", "")
	}
	c.Count("functions summarised", len(fx.frames))
	c.Count("changes allowed", own)
	c.AtLeast(rule, "operations", len(roots), 60)
	c.AtLeast(rule, "methods of geometry", arith, 40)
	c.AtLeast(rule, "modifiers", len(modify), 3)
}

// modifierMay: a slot of the list of layers given to the modifier or an entry of the attributes of such a layer.
func (v *valueTypes) modifierMay(fr *eframe, p eptr) bool {
	fx := fr.fx
	list := func(n *enode) bool {
		if n.kind != 'p' || n.idx == 0 {
			return false
		}
		s, ok := n.typ.Underlying().(*types.Slice)
		if !ok {
			if a, isA := n.typ.Underlying().(*types.Array); isA {
				return isLayer(v, a.Elem())
			}
			return false
		}
		return isLayer(v, s.Elem())
	}
	if list(p.n) && p.path == "[]" {
		return true
	}
	// an entry of an attribute map held by a layer of the list
	if !strings.HasPrefix(p.path, "{") || strings.Count(p.path, "{") != 1 || strings.ContainsAny(p.path, "[<*.") {
		return false
	}
	if m, ok := p.n.typ.Underlying().(*types.Map); !ok || !v.geometry(m) {
		return false
	}
	n := p.n
	if n.kind != 'l' || n.parent == nil {
		return false
	}
	// the field of the layer
	layer := n.parent
	for layer != nil && layer.kind == 'l' {
		if isLayerImpl(v, fx, layer) {
			break
		}
		if _, ok := layer.typ.Underlying().(*types.Interface); ok {
			break
		}
		layer = layer.parent
	}
	for layer != nil && layer.kind == 'l' {
		layer = layer.parent
	}
	return layer != nil && list(layer)
}

func isLayer(v *valueTypes, t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	l := v.w.TypeNamed("data", "PartitionedLayer")
	return l != nil && types.Identical(n, l)
}

func isLayerImpl(v *valueTypes, fx *effects, n *enode) bool {
	l := v.w.TypeNamed("data", "PartitionedLayer")
	return l != nil && (types.Implements(n.typ, l.Underlying().(*types.Interface)) || types.Implements(types.NewPointer(n.typ), l.Underlying().(*types.Interface)))
}
