package main

import (
	"sort"
	"strings"
)

// gather reads which elements a list built by a program has, in terms of the lists they come from. An element taken
// in a loop over all of V is written each(V). The order is not kept.
type gather struct {
	it *Interp
	// conv: the term is only a conversion of the result (same elements in the same order)
	conv func(p *Path, t *Term) *Term
	why  string
	run  map[string]*Term // the lists the loops run over
}

// gframe: a loop the described element is in
type gframe struct {
	l    *LoopNode
	p    *Path // where the loop was
	b    *Path // the iteration
	name string
}

// gitem: an element of a list, or (raw set) all elements of the list raw
type gitem struct {
	s    string
	raw  *Term
	over *Term // there is no such element if this list is empty
}

func (g *gather) fail(why string) {
	if g.why == "" {
		g.why = why
	}
}

// text renders a value with the loop elements replaced.
func (g *gather) text(p *Path, t *Term, fr []gframe) string {
	it, T := g.it, g.it.T
	t = bare(t)
	if t == nil {
		return "?"
	}
	if g.conv != nil {
		if x := g.conv(p, t); x != nil {
			return g.text(p, x, fr)
		}
	}
	if v, i, ok := elemOf(t); ok {
		for k := len(fr) - 1; k >= 0; k-- {
			f := fr[k]
			n := T.Len(v)
			cv, full := it.covers(f.l, n)
			if !full || !T.Holds(f.b.Facts, T.NumEq(cv.Idx, i)) {
				continue
			}
			if !it.exhausted(f.p, cv, n) {
				g.fail("the loop over " + clipT(v) + " may be left before its end")
				continue
			}
			if g.run == nil {
				g.run = map[string]*Term{}
			}
			g.run[f.name] = v
			return "each" + f.name + "(" + g.text(p, v, fr) + ")"
		}
		if i == T.Sub(T.Len(v), T.Int(1)) {
			return g.text(p, v, fr) + "[last]"
		}
		return g.text(p, v, fr) + "[" + i.String() + "]"
	}
	if t.Op == OAddrF {
		return g.text(p, t.Args[0], fr) // embedded part of the same object
	}
	if t.Op == OStruct {
		var as []string
		for _, a := range t.Args {
			as = append(as, g.text(p, a, fr))
		}
		return shortT(t.Typ) + "{" + strings.Join(as, ", ") + "}"
	}
	if t.Op == ORes {
		return g.text(p, t.Args[0], fr) + "#" + t.Sym
	}
	if k := callKeyOf(t); k != "" {
		var as []string
		for _, a := range t.Args {
			as = append(as, g.text(p, a, fr))
		}
		return k + "(" + strings.Join(as, ", ") + ")"
	}
	if t.Op == OConcat || t.IsNil() || it.LoopDefs[t] != nil {
		if its, ok := g.list(p, t, nil, fr); ok {
			if len(its) == 1 && its[0].raw != nil {
				if its[0].raw == t {
					return t.String()
				}
				return g.text(p, its[0].raw, fr)
			}
			return "list{" + strings.Join(itemTexts(its), "; ") + "}"
		}
	}
	return t.String()
}

func itemTexts(its []gitem) []string {
	var r []string
	for _, i := range its {
		r = append(r, i.s)
	}
	sort.Strings(r)
	return r
}

// list: the elements that come after start (nil: the list is empty at first) in L, a list known on path p.
func (g *gather) list(p *Path, L, start *Term, fr []gframe) ([]gitem, bool) {
	it := g.it
	L = bare(L)
	if L == start || L == nil || L.IsNil() || L.Op == OAlloc && it.T.Holds(p.Facts, it.T.NumEq(it.T.Len(L), it.T.Int(0))) {
		if start != nil && L != start {
			g.fail("elements collected before are lost")
			return nil, false
		}
		return nil, true
	}
	if start == nil && g.conv != nil {
		if x := g.conv(p, L); x != nil {
			return g.list(p, x, nil, fr)
		}
	}
	if L.Op == OConcat {
		var r []gitem
		for _, a := range L.Args {
			if start != nil && bare(a) == start {
				start = nil
				continue
			}
			if a.Op == OLit {
				r = append(r, gitem{s: g.text(p, a.Args[0], fr)})
				continue
			}
			if start != nil {
				// the start must be inside this part
				x, ok := g.list(p, a, start, fr)
				if !ok {
					return nil, false
				}
				start = nil
				r = append(r, x...)
				continue
			}
			x, ok := g.list(p, a, nil, fr)
			if !ok {
				return nil, false
			}
			r = append(r, x...)
		}
		if start != nil {
			g.fail("elements collected before are lost")
			return nil, false
		}
		return r, true
	}
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		for _, d := range l.Defs {
			if d.Sym != L || len(d.Latch) != len(l.Bodies) {
				continue
			}
			r, ok := g.list(p, d.Init, start, fr)
			if !ok {
				return nil, false
			}
			x, ok := g.loop(p, l, fr, func(b *Path, k int, fr []gframe) ([]gitem, bool) {
				return g.list(b, d.Latch[k], d.Sym, fr)
			})
			if !ok {
				return nil, false
			}
			return append(r, x...), true
		}
	}
	// built before the loop the described element is in
	if d := it.LoopDefs[L]; d != nil {
		for k := len(fr) - 1; k >= 0; k-- {
			if fr[k].l == d.Loop {
				break
			}
			for _, nd := range fr[k].p.Trace {
				if nd.Loop == d.Loop && nd.Loop != fr[k].l {
					return g.list(fr[k].p, L, start, fr[:k])
				}
			}
		}
	}
	if start != nil {
		g.fail("elements collected before are lost: " + clipT(L))
		return nil, false
	}
	if it.emptyVal(p.Facts, L) {
		return nil, true
	}
	// a list of the same length filled element by element
	if L.Op == OAlloc {
		if x, ok := g.filled(p, L, fr); ok {
			return x, true
		}
		g.fail("the list " + clipT(L) + " is not filled completely")
		return nil, false
	}
	if it.LoopDefs[L] != nil {
		inFrame := false
		for _, f := range fr {
			for _, d := range f.l.Defs {
				if d.Sym == L {
					inFrame = true
				}
			}
		}
		if inFrame {
			g.fail("a list under construction is used")
			return nil, false
		}
	}
	name := L.String()
	if it.LoopDefs[L] == nil {
		name = g.text(p, L, fr)
	}
	return []gitem{{s: "each(" + name + ")", raw: L, over: L}}, true
}

// loop: what the iterations of a loop over whole lists contribute together.
func (g *gather) loop(p *Path, l *LoopNode, fr []gframe, one func(b *Path, k int, fr []gframe) ([]gitem, bool)) ([]gitem, bool) {
	it := g.it
	name := "‹" + l.Name + "›"
	per := make([][]gitem, len(l.Bodies))
	all := map[string]gitem{}
	for k, b := range l.Bodies {
		f2 := append(append([]gframe{}, fr...), gframe{l, p, b, name})
		x, ok := one(b, k, f2)
		if !ok {
			return nil, false
		}
		per[k] = x
		for _, i := range x {
			all[i.s] = i
		}
	}
	if len(all) == 0 {
		return nil, true
	}
	var res []gitem
	keys := make([]string, 0, len(all))
	for s := range all {
		keys = append(keys, s)
	}
	sort.Strings(keys)
	for _, s := range keys {
		i := all[s]
		n := 0
		for k, b := range l.Bodies {
			c := 0
			for _, j := range per[k] {
				if j.s == s {
					c++
				}
			}
			if c == 0 && !it.noElem(b.Facts, i.over) {
				g.fail(clean(s) + " is left out when " + clipStr(factsFrom(b.Facts, l.NFact), 260))
				return nil, false
			}
			if c > n {
				n = c
			}
		}
		if !strings.Contains(s, name) {
			if g.why == "" {
				g.fail(clean(s) + " is taken in a loop that does not run over all of a list of these")
			}
			return nil, false
		}
		for ; n > 0; n-- {
			res = append(res, gitem{s: strings.ReplaceAll(s, name, ""), over: g.run[name]})
		}
	}
	return res, true
}

func clean(s string) string {
	var b strings.Builder
	skip := 0
	for _, r := range s {
		switch {
		case r == '‹':
			skip++
		case r == '›':
			skip--
		case skip == 0:
			b.WriteRune(r)
		}
	}
	return clipStr(strings.ReplaceAll(b.String(), "github.com/aligator/", ""), 300)
}

// filled: L was made with a length and a loop stores every element.
func (g *gather) filled(p *Path, L *Term, fr []gframe) ([]gitem, bool) {
	it, T := g.it, g.it.T
	n := T.Len(L)
	for _, nd := range p.Trace {
		l := nd.Loop
		if l == nil {
			continue
		}
		cv, full := it.covers(l, n)
		if !full || !it.exhausted(p, cv, n) {
			continue
		}
		found := false
		x, ok := g.loop(p, l, fr, func(b *Path, k int, f2 []gframe) ([]gitem, bool) {
			var r []gitem
			for _, e := range b.Trace {
				if e.Ev == nil || e.Ev.Kind != "elemstore" || len(e.Ev.Args) != 2 {
					continue
				}
				a := e.Ev.Args[0]
				if a.Op != OAddrI || a.Args[0] != L {
					continue
				}
				found = true
				if !T.Holds(b.Facts, T.NumEq(a.Args[1], cv.Idx)) {
					g.fail("an element is stored at another index than the loop's")
					return nil, false
				}
				r = []gitem{{s: g.text(b, e.Ev.Args[1], f2)}}
			}
			return r, true
		})
		if found && ok {
			return x, true
		}
		if found {
			return nil, false
		}
	}
	return nil, false
}

// done: events below the trace of p (loops included) that contribute elements, as the list they form together.
// pick returns the list (or, with one set, the single element) an event contributes.
func (g *gather) events(p *Path, nodes []Node, fr []gframe, pick func(e *Event) (v *Term, one bool, tag string, ok bool)) ([]gitem, bool) {
	var r []gitem
	for _, nd := range nodes {
		switch {
		case nd.Ev != nil:
			v, one, tag, ok := pick(nd.Ev)
			if !ok {
				continue
			}
			if one {
				r = append(r, gitem{s: tag + g.text(p, v, fr)})
				continue
			}
			x, ok := g.list(p, v, nil, fr)
			if !ok {
				return nil, false
			}
			for _, i := range x {
				r = append(r, gitem{s: tag + i.s, raw: i.raw, over: i.over})
			}
		case nd.Loop != nil:
			l := nd.Loop
			x, ok := g.loop(p, l, fr, func(b *Path, k int, fr []gframe) ([]gitem, bool) {
				return g.events(b, b.Trace, fr, pick)
			})
			if !ok {
				return nil, false
			}
			r = append(r, x...)
		}
	}
	return r, true
}

// same: the lists have the same elements.
func sameItems(its []gitem, want []string) bool {
	a := itemTexts(its)
	b := append([]string{}, want...)
	sort.Strings(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// noElem: the list has no elements, or is itself an element of a list without any.
func (it *Interp) noElem(f *Facts, v *Term) bool {
	for n := 0; v != nil && n < 5; n++ {
		if it.emptyVal(f, v) {
			return true
		}
		b, _, ok := elemOf(bare(v))
		if !ok {
			return false
		}
		v = b
	}
	return false
}

// list2: the elements of a list that may have been built by a loop on the path, whether or not it is known to be empty.
func (g *gather) list2(p *Path, L *Term) ([]gitem, bool) { return g.list(p, L, nil, nil) }
