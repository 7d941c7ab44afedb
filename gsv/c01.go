package main

import (
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C01", "No failure is swallowed", checkC01) }

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func lastResult(sig *types.Signature) types.Type {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	return sig.Results().At(n - 1).Type()
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// okKeys: calls whose trailing bool reports success.
func okKey(key string) bool {
	return strings.HasPrefix(key, "clip.Clipper.") || strings.HasPrefix(key, "github.com/aligator/go.clipper.Clipper.Execute")
}

// fallibleSig: does a call of this key report failure through its last result?
func fallibleSig(key string, sig *types.Signature) (isErr, isOk bool) {
	l := lastResult(sig)
	if l == nil {
		return
	}
	if isErrorType(l) {
		return true, false
	}
	if isBool(l) && okKey(key) {
		return false, true
	}
	return
}

// exemptFallible: calls whose failure carries no meaning for a run.
func exemptFallible(key string) bool {
	switch key {
	case "fmt.Print", "fmt.Printf", "fmt.Println", "os.Stat", "os.Lstat",
		"errors.New", "fmt.Errorf", "errors.Unwrap", "errors.Join":
		return true
	}
	// in-memory buffers never fail
	return strings.HasPrefix(key, "log.") || strings.HasPrefix(key, "bytes.Buffer.Write") || strings.HasPrefix(key, "strings.Builder.Write")
}

// toTerminal: writes to the standard streams.
func toTerminal(args []*Term) bool {
	if len(args) == 0 {
		return false
	}
	a := args[0]
	for a.Op == OIface || a.Op == ODyn {
		a = a.Args[0]
	}
	return a.Contains(func(t *Term) bool {
		return t.Op == OGlobal && (t.Sym == "os.Stdout" || t.Sym == "os.Stderr")
	})
}

// callKeysIn lists the fallible calls directly contained in fn.
func (w *World) fallibleCallIn(in ssa.Instruction) bool {
	switch x := in.(type) {
	case ssa.CallInstruction:
		cc := x.Common()
		var key string
		if cc.IsInvoke() {
			key = w.calleeKey(nil, cc.Method)
		} else if f := cc.StaticCallee(); f != nil {
			key = w.calleeKey(f, nil)
		} else {
			key = "dynamic"
		}
		e, o := fallibleSig(key, cc.Signature())
		if strings.HasPrefix(key, "fmt.Fprint") && len(cc.Args) > 0 {
			if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok && bufferKind(mi.X.Type()) != "" {
				return false // an in-memory buffer never fails
			}
		}
		return (e || o) && !exemptFallible(key)
	case *ssa.TypeAssert:
		return x.CommaOk
	}
	return false
}

// checkC01 decides error / ok propagation for every function of the repository.
func checkC01(c *Ctx) {
	w := c.W
	c.Rule("C01.propagate: on every abstract path on which the failure of a fallible call (error result, ok result of the polygon clipper, comma-ok type assertion of an attribute) is not excluded by the branch facts, the enclosing operation fails: it returns that error or a provably non-nil one, or ok=false, or panics, or exits non-zero; a loop iteration that completes must have excluded it")
	c.Rule("C01.coverage: every fallible call site in the repository lies on at least one analysed path")

	// functions containing (transitively, through static repo calls) a fallible call, or taking an error
	direct := map[*ssa.Function][]ssa.Instruction{}
	var sites []ssa.Instruction
	for _, fn := range w.RepoFns {
		if strings.HasSuffix(fnPkg(fn).Path(), "/util/test") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if w.fallibleCallIn(in) {
					direct[fn] = append(direct[fn], in)
					sites = append(sites, in)
				}
			}
		}
	}
	contains := map[*ssa.Function]bool{}
	for fn := range direct {
		contains[fn] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.RepoFns {
			if contains[fn] {
				continue
			}
			for _, callee := range w.staticCallees(fn) {
				if contains[callee] {
					contains[fn] = true
					changed = true
				}
			}
		}
	}
	takesError := func(sig *types.Signature) bool {
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			if isErrorType(t) {
				return true
			}
		}
		return false
	}
	policy := func(ci *CallInfo) Action {
		e, o := fallibleSig(ci.Key, ci.Sig)
		if ci.Fn != nil && w.InRepo(ci.Fn) {
			closure := ci.Fn.Parent() != nil
			if takesError(ci.Sig) {
				return AInline
			}
			if (e || o) && !closure {
				return AEvent
			}
			if contains[ci.Fn] || closure {
				return AInline
			}
			l := lastResult(ci.Sig)
			if l != nil && isBool(l) {
				return AInline
			}
			for _, a := range ci.Args {
				if a.Op == OClosure || a.Op == OFunc {
					return AInline // callback helpers
				}
			}
			if len(ci.Fn.Blocks) == 1 {
				return AInline // accessors and arithmetic: keeps conditions correlated
			}
			return ASkip
		}
		if e || o {
			return ADefault
		}
		if ci.Iface != nil {
			if pureAccessors[ci.Key] {
				return APure
			}
			return ASkip
		}
		return ADefault
	}

	covered := map[ssa.Instruction]bool{}
	analyse := func(fn *ssa.Function) {
		it := NewInterp(w)
		it.Policy = policy
		ps := c.Run(it, fn, nil)
		sig := fn.Signature
		okTrail := false
		if l := lastResult(sig); l != nil && isBool(l) {
			okTrail = true
		}
		reports := func(p *Path, e *Term, isErr bool) bool {
			switch p.Kind {
			case KPanic:
				return true
			case KExit:
				return exitNonZero(p)
			case KReturn:
				n := len(p.Ret)
				if n == 0 {
					return false
				}
				r := p.Ret[n-1]
				l := lastResult(sig)
				if isErrorType(l) {
					return errNonNil(it.T, p.Facts, r) || (isErr && r == e)
				}
				if okTrail {
					if !isErr && r == e {
						return true
					}
					return it.T.Refuted(p.Facts, r)
				}
			}
			return false
		}
		var walk func(p *Path, ns []Node, top bool)
		walk = func(p *Path, ns []Node, top bool) {
			for _, n := range ns {
				if n.Loop != nil {
					for _, b := range n.Loop.Bodies {
						walk(b, b.Trace, false)
					}
				}
				ev := n.Ev
				if ev == nil {
					continue
				}
				var e *Term
				var isErr bool
				switch ev.Kind {
				case "assert":
					e = ev.Res
				case "call":
					ci, ok := ev.Instr.(ssa.CallInstruction)
					if !ok {
						continue
					}
					sig := ci.Common().Signature()
					er, okb := fallibleSig(ev.Key, sig)
					if !er && !okb {
						continue
					}
					covered[ev.Instr] = true
					if exemptFallible(ev.Key) || toTerminal(ev.Args) || readOnlyClose(ev) {
						continue
					}
					isErr = er
					e = ev.Res
					if sig.Results().Len() > 1 {
						i := sig.Results().Len() - 1
						e = resultOf(it.T, ev.Res, i, sig.Results().At(i).Type())
					}
				default:
					continue
				}
				covered[ev.Instr] = true
				excluded := false
				if isErr {
					excluded = it.T.Holds(p.Facts, it.T.RefEq(e, it.T.Nil()))
				} else {
					excluded = it.T.Holds(p.Facts, e)
				}
				good := excluded || reports(p, e, isErr)
				if good {
					c.Oblige(true, "C01.propagate", ev.Fn, ev.Instr.Pos(), "failure of "+ev.Key, "")
					continue
				}
				how := "return"
				if p.Kind == KLatch {
					how = "the iteration completes"
				} else if p.Kind != KReturn {
					how = p.Kind.String()
				}
				c.Oblige(good, "C01.propagate", ev.Fn, ev.Instr.Pos(), "failure of "+ev.Key,
					"the failure of %s is possible on a path where %s still reports success (%s at %s; facts: %s)",
					ev.Key, FnName(fn), how, c.W.Pos(instrPos(p.Instr, ev.Instr)), clipStr(factsFrom(p.Facts, 0), 400))
			}
		}
		for _, p := range ps {
			walk(p, p.Trace, true)
		}
	}
	n := 0
	for _, fn := range w.RepoFns {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		if !contains[fn] {
			continue
		}
		e, o := fallibleSig(w.calleeKey(fn, nil), fn.Signature)
		exported := fn.Object() != nil && fn.Object().Exported()
		if e || o || exported || fn.Name() == "main" || fn.Name() == "init" {
			analyse(fn)
			n++
		}
	}
	// whatever has not been seen through a caller is analysed on its own (closures, unexported helpers)
	for _, s := range sites {
		if !covered[s] {
			if f := s.Parent(); f != nil && !(isAssertInTypeSwitch(s)) {
				analyse(f)
				n++
			}
		}
	}
	for _, s := range sites {
		c.Oblige(covered[s], "C01.coverage", s.Parent(), s.Pos(), "call site "+siteDesc(w, s), "the fallible call is on no analysed path")
	}
	c.Count("fallible_call_sites", len(sites))
	c.Count("operations", n)
	c.AtLeast("C01.anchors", "fallible call sites", len(sites), 40)
}

func isAssertInTypeSwitch(in ssa.Instruction) bool { return false }

func siteDesc(w *World, in ssa.Instruction) string {
	switch x := in.(type) {
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			return w.calleeKey(nil, cc.Method)
		}
		if f := cc.StaticCallee(); f != nil {
			return w.calleeKey(f, nil)
		}
		return "dynamic call"
	case *ssa.TypeAssert:
		return "assertion to " + typeKey(x.AssertedType)
	}
	return in.String()
}

func instrPos(ins ...ssa.Instruction) token.Pos {
	for _, i := range ins {
		if i != nil && i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func clipStr(s string, n int) string {
	if len(s) > n {
		for n > 0 && !utf8.RuneStart(s[n]) {
			n-- // not within a rune
		}
		return s[:n] + "…"
	}
	return s
}

func resultOf(T *Terms, r *Term, i int, typ types.Type) *Term {
	if r.Op == OTuple {
		return r.Args[i]
	}
	return T.mk(ORes, itoa(i), typ, false, r)
}

// errNonNil: the error value is known to be non-nil.
func errNonNil(T *Terms, f *Facts, r *Term) bool {
	if nonNil(r) {
		return true
	}
	if r.Contains(func(t *Term) bool { return t.Op == OGlobal && strings.HasPrefix(globalName(t), "Err") }) && r.Op == OSel {
		return true // package level error values
	}
	return T.Holds(f, T.Not(T.RefEq(r, T.Nil())))
}

func globalName(t *Term) string {
	s := t.Sym
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// readOnlyClose: closing a file that was opened for reading only.
func readOnlyClose(ev *Event) bool {
	if !strings.HasSuffix(ev.Key, ".Close") || len(ev.Args) == 0 {
		return false
	}
	return ev.Args[0].Contains(func(t *Term) bool {
		return t.Op == OCall && (strings.HasPrefix(t.Sym, "os.Open@"))
	})
}

func exitNonZero(p *Path) bool {
	for i := len(p.Trace) - 1; i >= 0; i-- {
		if e := p.Trace[i].Ev; e != nil && e.Key == "os.Exit" {
			if v, ok := e.Args[0].ConstNum(); ok {
				return v.Sign() != 0
			}
			return false
		}
		if e := p.Trace[i].Ev; e != nil && strings.HasPrefix(e.Key, "log.") && strings.Contains(e.Key, "Fatal") {
			return true
		}
	}
	return false
}

// staticCallees lists the repo functions fn calls or creates closures of.
func (w *World) staticCallees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					r = append(r, f)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, mc.Fn.(*ssa.Function))
			}
		}
	}
	return r
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

// boundary is the usual policy: the exported stage interfaces are not entered.
func boundary(ci *CallInfo) Action {
	switch {
	case strings.HasPrefix(ci.Key, "clip.Clipper."), ci.Key == "clip.Pattern.Fill", ci.Key == "data.DouglasPeucker":
		return AEvent
	case strings.HasPrefix(ci.Key, "log.Logger."):
		return ASkip
	}
	return ADefault
}
