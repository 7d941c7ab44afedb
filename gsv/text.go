package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textLine is one line of text written to the builder.
type textLine struct {
	Tpl   string // text without the newline, \x00 for each value
	Vals  []textPart
	Ev    *Event // the event that completed the line
	Facts *Facts // facts of the path (or iteration) the line is written on
	At    *Facts
	Loops []*LoopNode
	Path  *Path
	Index int // position in the top level trace
	Open  bool
}

func (l textLine) site() (*ssa.Function, token.Pos) { return l.Ev.caller() }

func (l textLine) show() string { return strings.ReplaceAll(l.Tpl, "\x00", "<value>") }

// linesOf assembles the lines written on a path to buffers that live outside of it. f also gets the lines of
// complete iterations of loops.
func linesOf(p *Path, f func(l textLine)) {
	var rec func(p *Path, loops []*LoopNode, top int)
	rec = func(p *Path, loops []*LoopNode, top int) {
		cur := ""
		var vals []textPart
		var last *Event
		idx := top
		flush := func(open bool) {
			if cur != "" && last != nil {
				f(textLine{cur, vals, last, p.Facts, p.Facts.Upto(last.NFact), loops, p, idx, open})
			}
			cur, vals = "", nil
		}
		for i, nd := range p.Trace {
			if top < 0 {
				idx = i
			}
			switch {
			case nd.Loop != nil:
				flush(true)
				for _, b := range nd.Loop.Bodies {
					rec(b, append(append([]*LoopNode{}, loops...), nd.Loop), idx)
				}
			case nd.Ev != nil && nd.Ev.Kind == "emit" && rootOf(nd.Ev.Args[0]).Op != OAlloc:
				last = nd.Ev
				for _, pt := range textParts(nd.Ev.Args[1]) {
					if pt.Verb != "" {
						cur += "\x00"
						vals = append(vals, pt)
						continue
					}
					rest := pt.Str
					for {
						k := strings.IndexByte(rest, '\n')
						if k < 0 {
							break
						}
						cur += rest[:k]
						if cur == "" {
							cur = " "
						}
						flush(false)
						rest = rest[k+1:]
					}
					cur += rest
				}
			}
		}
		flush(true)
	}
	rec(p, nil, -1)
}

var tempCode = regexp.MustCompile(`^\s*(M104|M109|M140|M190|M106|M107|M141|M191)(?:\D|$)`)
var sWord = regexp.MustCompile(`^\s*M[0-9]+\s+S(\x00|[0-9]+)\s*(?:;.*)?$`)

// optVal reads options.A.B... of settings passed by value.
func (it *Interp) optVal(opt *Term, path string) *Term {
	n := it.W.TypeNamed("data", "Options")
	if n == nil {
		return nil
	}
	v, t := opt, types.Type(n)
	for _, nm := range strings.Split(path, ".") {
		s := structOf(t)
		i := 0
		for s != nil && i < s.NumFields() && s.Field(i).Name() != nm {
			i++
		}
		if s == nil || i == s.NumFields() {
			return nil
		}
		v, t = it.T.FieldOf(v, nm, i, s.Field(i).Type()), s.Field(i).Type()
	}
	return v
}

// optTerm reads options.A.B... through a pointer to the options.
func (it *Interp) optTerm(st *State, opt *Term, path string) *Term {
	n := it.W.TypeNamed("data", "Options")
	if n == nil {
		return nil
	}
	a := opt
	t := n.Underlying()
	owner := it.W.TypeNamed("data", "Options").Obj().Type()
	for _, nm := range strings.Split(path, ".") {
		s := structOf(t)
		if s == nil {
			return nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm {
				a = it.addrField(a, owner, i)
				owner = s.Field(i).Type()
				t = owner
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return it.loadAddr(st, a, owner)
}

// hunkBoundary keeps the queries of custom G-code as pure functions.
func hunkBoundary(ci *CallInfo) Action {
	if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && strings.HasPrefix(ci.Key, "data.GCodeHunk.") && ci.Sig.Results().Len() == 1 && ci.Sig.Results().At(0).Type().String() == "bool" {
		return APure
	}
	return moveRenderBoundary(ci)
}
