package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeKey gives the canonical name of a callee: methods of repository types that
// implement a repository interface are named after the interface.
func (w *World) calleeKey(fn *ssa.Function, m *types.Func) string {
	var obj *types.Func
	if m != nil {
		obj = m
	} else {
		o, ok := fn.Object().(*types.Func)
		if !ok {
			if fn.Parent() != nil {
				return "closure:" + fn.String()
			}
			return fn.String()
		}
		obj = o
	}
	sig := obj.Type().(*types.Signature)
	pk := ""
	if obj.Pkg() != nil {
		pk = obj.Pkg().Name()
		if !inRepoPkg(obj.Pkg()) {
			pk = obj.Pkg().Path()
		}
	}
	if sig.Recv() == nil {
		return pk + "." + obj.Name()
	}
	rt := sig.Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	n, ok := types.Unalias(rt).(*types.Named)
	if !ok {
		return pk + ".?." + obj.Name()
	}
	if obj.Pkg() != nil && inRepoPkg(obj.Pkg()) && !types.IsInterface(n) {
		var cands []string
		for i, cs := range w.impls {
			it := i.Underlying().(*types.Interface)
			for k := 0; k < it.NumExplicitMethods(); k++ {
				if it.ExplicitMethod(k).Name() != obj.Name() {
					continue
				}
				for _, c := range cs {
					if c.Obj() == n.Obj() {
						cands = append(cands, i.Obj().Pkg().Name()+"."+i.Obj().Name()+"."+obj.Name())
					}
				}
			}
		}
		if len(cands) > 0 {
			sort.Strings(cands)
			return cands[0]
		}
	}
	return pk + "." + n.Obj().Name() + "." + obj.Name()
}

func (it *Interp) call(fr *Frame, x *ssa.Call, st *State, sink func(Outcome), cont func(*State, *Term)) {
	var args []*Term
	var fnv *Term
	if x.Call.IsInvoke() {
		args = append(args, it.val(fr, x.Call.Value, st))
	} else {
		fnv = it.val(fr, x.Call.Value, st)
	}
	for _, a := range x.Call.Args {
		args = append(args, it.val(fr, a, st))
	}
	it.doCall(fr, x, &x.Call, fnv, args, st, sink, cont)
}

func (it *Interp) doCall(fr *Frame, in ssa.CallInstruction, cc *ssa.CallCommon, fnv *Term, args []*Term, st *State, sink func(Outcome), cont func(*State, *Term)) {
	T := it.T
	ci := &CallInfo{It: it, Args: args, Instr: in, St: st, Frame: fr, Sig: cc.Signature()}
	var bind []*Term
	if cc.IsInvoke() {
		recv := args[0]
		m := cc.Method
		if recv.Op == OIface {
			fn := it.lookupMethod(recv.Typ, m)
			if fn != nil {
				ci.Fn = fn
				ci.Args = append([]*Term{it.derefRecv(st, it.recvFor(fn, recv))}, args[1:]...)
			}
		}
		if ci.Fn == nil {
			if d := it.W.SoleImpl(cc.Value.Type()); d != nil && it.devirt(cc.Value.Type()) {
				fn := it.lookupMethod(d, m)
				if fn != nil {
					ci.Fn = fn
					ci.Args = append([]*Term{T.mk(ODyn, "", d, false, recv)}, args[1:]...)
				}
			}
		}
		if ci.Fn != nil {
			ci.Key = it.W.calleeKey(it.declared(ci.Fn), nil)
		} else {
			ci.Iface = m
			ci.Key = it.W.calleeKey(nil, m)
		}
	} else {
		switch fnv.Op {
		case OFunc:
			ci.Fn = fnv.Fn
		case OClosure:
			ci.Fn = fnv.Fn
			bind = fnv.Args
		case OFn:
			if strings.HasPrefix(fnv.Sym, "builtin:") {
				it.builtin(fr, in, fnv.Sym[8:], args, cc, st, cont)
				return
			}
		}
		if ci.Fn != nil {
			// bound method values: thunks
			if strings.HasSuffix(ci.Fn.Name(), "$bound") && len(bind) == 1 {
				if obj, ok := ci.Fn.Object().(*types.Func); ok {
					recv := bind[0]
					sig := obj.Type().(*types.Signature)
					if types.IsInterface(sig.Recv().Type()) {
						var f2 *ssa.Function
						if recv.Op == OIface {
							f2 = it.lookupMethod(recv.Typ, obj)
							recv = it.derefRecv(st, it.recvFor(f2, recv))
						}
						if f2 != nil {
							ci.Fn = f2
						} else {
							ci.Fn = nil
							ci.Iface = obj
						}
					} else {
						ci.Fn = it.W.Prog.FuncValue(obj)
					}
					ci.Args = append([]*Term{recv}, args...)
					bind = nil
				}
			}
			if ci.Fn != nil {
				ci.Key = it.W.calleeKey(it.declared(ci.Fn), nil)
			} else {
				ci.Key = it.W.calleeKey(nil, ci.Iface)
			}
		} else {
			ci.Key = "dynamic:" + fnv.String()
		}
	}
	if ci.Fn != nil {
		for f := fr; f != nil; f = f.up {
			if f.fn == ci.Fn {
				ci.Recur = true
			}
		}
	}
	if it.Model != nil {
		if handled, outs := it.Model(ci); handled {
			for _, o := range outs {
				if o.Kind == KReturn {
					cont(o.St, o.Ret)
				} else {
					sink(Outcome{Kind: o.Kind, St: o.St, Instr: in})
				}
			}
			return
		}
	}
	act := ADefault
	if it.Policy != nil {
		act = it.Policy(ci)
	}
	if act == ADefault {
		if it.std(fr, ci, st, sink, cont) {
			return
		}
		act = it.defaultAction(ci)
	}
	rt := resultType(ci.Sig)
	switch act {
	case AInline:
		if ci.Fn == nil || len(ci.Fn.Blocks) == 0 || ci.Recur || fr.depth > it.MaxDepth {
			act = AEvent
			break
		}
		nf := &Frame{fn: ci.Fn, ctx: it.siteName(fr, in) + ">", up: fr, site: in, depth: fr.depth + 1, loops: it.loopsOf(ci.Fn)}
		saved := st.env
		callee := &State{env: map[ssa.Value]*Term{}, mem: st.mem, facts: st.facts, trace: st.trace, defers: st.defers}
		first := true
		it.enter(nf, ci.Args, bind, callee, func(o Outcome) {
			if o.Kind != KReturn {
				sink(o)
				return
			}
			s := o.St
			if first {
				first = false
			}
			env := make(map[ssa.Value]*Term, len(saved)+4)
			for k, v := range saved {
				env[k] = v
			}
			s.env = env
			var r *Term
			switch len(o.Ret) {
			case 0:
			case 1:
				r = o.Ret[0]
			default:
				r = T.mk(OTuple, "", rt, false, o.Ret...)
			}
			cont(s, r)
		})
		return
	case APure:
		cont(st, T.mk(OCall, ci.Key, rt, false, it.snapshotArgs(st, ci)...))
		return
	case ASkip:
		var r *Term
		if rt != nil {
			r = it.uniqueCall(fr, in, ci, rt)
		}
		cont(st, r)
		return
	}
	var r *Term
	if rt != nil {
		r = it.uniqueCall(fr, in, ci, rt)
	}
	it.Unknown[ci.Key]++
	it.event(fr, st, in, "call", ci.Key, it.snapshotArgs(st, ci), r)
	if ci.Key == "os.Exit" {
		sink(Outcome{Kind: KExit, St: st, Instr: in})
		return
	}
	cont(st, r)
}

func (it *Interp) uniqueCall(fr *Frame, in ssa.Instruction, ci *CallInfo, rt types.Type) *Term {
	r := it.T.mk(OCall, ci.Key+"@"+it.siteName(fr, in), rt, false, ci.Args...)
	it.markFresh(r)
	return r
}

// snapshotArgs replaces references to literal argument arrays by list values.
func (it *Interp) snapshotArgs(st *State, ci *CallInfo) []*Term {
	var out []*Term
	sig := ci.Sig
	off := len(ci.Args) - sig.Params().Len()
	for i, a := range ci.Args {
		if i-off >= 0 && i-off < sig.Params().Len() {
			if sl, ok := sig.Params().At(i - off).Type().Underlying().(*types.Slice); ok {
				a = it.listVal(st, a, sl.Elem())
			}
		}
		out = append(out, a)
	}
	return out
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// declared unwraps synthetic wrappers to the declared function for naming.
func (it *Interp) declared(fn *ssa.Function) *ssa.Function { return fn }

// devirt: interfaces with one repo implementation that are resolved to it.
func (it *Interp) devirt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	switch n.Obj().Name() {
	case "MicroVec3", "MicroPoint":
		return true
	}
	return false
}

func (it *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	ms := it.W.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		sel = ms.Lookup(nil, m.Name())
	}
	if sel == nil {
		return nil
	}
	fo := sel.Obj().(*types.Func)
	direct := it.W.Prog.FuncValue(fo)
	if direct != nil && len(sel.Index()) == 1 {
		return direct
	}
	return it.W.Prog.MethodValue(sel)
}

// recvFor adapts the dynamic value of an interface to the receiver a method expects.
func (it *Interp) recvFor(fn *ssa.Function, iface *Term) *Term {
	if fn == nil || fn.Signature.Recv() == nil {
		return iface.Args[0]
	}
	rt := fn.Signature.Recv().Type()
	if types.Identical(rt, iface.Typ) {
		return iface.Args[0]
	}
	if p, ok := iface.Typ.(*types.Pointer); ok && types.Identical(p.Elem(), rt) {
		return it.T.Fnc("derefRecv", rt, iface.Args[0])
	}
	return iface.Args[0]
}

// derefRecv loads the struct a value receiver method is called on through a pointer.
func (it *Interp) derefRecv(st *State, t *Term) *Term {
	if t.Op == OFn && t.Sym == "derefRecv" && t.Args[0].Op != OSym {
		return it.loadAddr(st, t.Args[0], t.Typ)
	}
	return t
}

var pureAccessors = map[string]bool{
	"data.PartitionedLayer.LayerParts": true, "data.PartitionedLayer.Attributes": true, "data.PartitionedLayer.Bounds": true,
	"data.LayerPart.Outline": true, "data.LayerPart.Holes": true, "data.LayerPart.Attributes": true,
	"data.Layer.Polygons":  true,
	"data.Model.FaceCount": true, "data.Model.Face": true, "data.Model.Min": true, "data.Model.Max": true,
	"data.Face.Points": true, "data.OptimizedModel.Size": true, "data.OptimizedModel.OptimizedFace": true,
	"data.OptimizedFace.TouchingFaceIndices": true, "data.OptimizedFace.MinZ": true, "data.OptimizedFace.MaxZ": true,
	"handler.Namer.GetName": true,
}

func (it *Interp) defaultAction(ci *CallInfo) Action {
	if ci.Iface != nil {
		if pureAccessors[ci.Key] {
			return APure
		}
		return AEvent
	}
	if ci.Fn != nil && it.W.InRepo(ci.Fn) && len(ci.Fn.Blocks) > 0 {
		if ci.Recur {
			return AEvent
		}
		return AInline
	}
	if ci.Fn != nil && ci.Fn.Synthetic != "" && len(ci.Fn.Blocks) > 0 {
		// promoted method wrappers etc. of repo types
		if r := ci.Fn.Signature.Recv(); r != nil {
			return AInline
		}
	}
	return AEvent
}

func (it *Interp) builtin(fr *Frame, in ssa.CallInstruction, name string, args []*Term, cc *ssa.CallCommon, st *State, cont func(*State, *Term)) {
	T := it.T
	switch name {
	case "len":
		t := cc.Args[0].Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if ar, ok := t.Underlying().(*types.Array); ok {
			cont(st, T.Int(ar.Len()))
			return
		}
		cont(st, T.Len(args[0]))
	case "cap":
		cont(st, T.Fnc("cap", types.Typ[types.Int], args[0]))
	case "append":
		typ := cc.Args[0].Type()
		el := typ.Underlying().(*types.Slice).Elem()
		a := it.refresh(st, it.listVal(st, args[0], el), el)
		if len(args) < 2 {
			cont(st, a)
			return
		}
		b := args[1]
		if isString(cc.Args[1].Type()) {
			b = T.Fnc("bytes", typ, b)
		} else {
			b = it.refresh(st, it.listVal(st, b, el), el)
		}
		cont(st, T.Concat(typ, a, b))
	case "copy":
		e := it.event(fr, st, in, "copy", "copy", args, nil)
		_ = e
		// destination content becomes the source content
		if dt, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			mk := "E:" + typeKey(dt.Elem())
			it.write(st, mk, []*Term{args[0], T.Fnc("all", types.Typ[types.Int], args[1])}, T.Fnc("copied", nil, args[1]))
		}
		cont(st, it.fresh(fr, in, "copied", types.Typ[types.Int]))
	case "delete":
		it.event(fr, st, in, "mapdel", "delete", args, nil)
		cont(st, nil)
	case "panic":
		cont(st, nil)
	case "min", "max":
		cont(st, T.Fnc(name, cc.Args[0].Type(), args...))
	case "print", "println", "close", "recover", "clear":
		it.event(fr, st, in, "call", "builtin."+name, args, nil)
		var r *Term
		if rt := resultType(cc.Signature()); rt != nil {
			r = it.fresh(fr, in, name, rt)
		}
		cont(st, r)
	default:
		if strings.HasPrefix(name, "ssa:wrapnilchk") {
			cont(st, args[0])
			return
		}
		it.fail("builtin %s not supported", name)
	}
}

// ---- standard library ----

var purePkgs = map[string]bool{"math": true, "strings": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "math/bits": true}

// std models standard library calls. It returns true if it handled the call.
func (it *Interp) std(fr *Frame, ci *CallInfo, st *State, sink func(Outcome), cont func(*State, *Term)) bool {
	T := it.T
	if ci.Fn == nil {
		switch ci.Key {
		case "io.Writer.Write", "io.StringWriter.WriteString":
			// unknown writer
		}
		return false
	}
	p := fnPkg(ci.Fn)
	if p == nil || inRepoPkg(p) {
		return false
	}
	args := ci.Args
	rt := resultType(ci.Sig)
	switch ci.Key {
	case "fmt.Sprintf":
		cont(st, it.sprintf(st, args[0], it.listVal(st, args[1], nilIfaceType)))
		return true
	case "fmt.Sprint", "fmt.Sprintln":
		cont(st, it.sprint(st, ci.Key, it.listVal(st, args[0], nilIfaceType)))
		return true
	case "strconv.FormatFloat":
		n, ok := args[2].ConstInt()
		if f, isC := args[1].ConstInt(); ok && n >= 0 && isC && f == 'f' && args[3].IsInt(64) {
			cont(st, T.mk(OFmt, fmt.Sprintf("%%.%df", n), types.Typ[types.String], false, args[0]))
			return true
		}
	case "fmt.Errorf":
		cont(st, T.Fnc("err:fmt.Errorf", rt, args[0], it.listVal(st, args[1], nilIfaceType)))
		return true
	case "errors.New":
		cont(st, T.Fnc("err:errors.New", rt, args[0]))
		return true
	case "errors.Is":
		cont(st, T.Fnc("errors.Is", rt, args...))
		return true
	case "strconv.Itoa":
		cont(st, it.fmtVal(st, "%v", args[0]))
		return true
	case "strconv.FormatInt":
		if args[1].IsInt(10) {
			cont(st, it.fmtVal(st, "%v", args[0]))
			return true
		}
	case "strings.ReplaceAll":
		cont(st, T.Fnc("strings.Replace", rt, args[0], args[1], args[2]))
		return true
	case "strings.Replace":
		if n, ok := args[3].ConstInt(); ok && n < 0 {
			cont(st, T.Fnc("strings.Replace", rt, args[0], args[1], args[2]))
			return true
		}
	case "strings.Replacer.Replace":
		// replacements of different constant texts, one after the other
		if r := args[0]; r.Op == OFn && r.Sym == "strings.NewReplacer" && len(r.Args) == 1 {
			if es, ok := listElems(r.Args[0]); ok && len(es)%2 == 0 {
				v := args[1]
				for i := 0; i+1 < len(es); i += 2 {
					v = T.Fnc("strings.Replace", rt, v, es[i], es[i+1])
				}
				cont(st, v)
				return true
			}
		}
	case "strings.Join":
		if l := it.listVal(st, args[0], types.Typ[types.String]); l.Op == OConcat {
			var ps []*Term
			ok := true
			for i, a := range l.Args {
				if a.Op != OLit {
					ok = false
					break
				}
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, a.Args[0])
			}
			if ok {
				cont(st, T.StrCat(ps...))
				return true
			}
		}
	case "bytes.Buffer.WriteString", "strings.Builder.WriteString":
		it.emit(fr, ci, st, args[0], args[1])
		cont(st, T.mk(OTuple, "", rt, false, T.Len(args[1]), T.Nil()))
		return true
	case "bytes.Buffer.Write", "strings.Builder.Write":
		s := args[1]
		if s.Op == OFn && s.Sym == "bytes" {
			s = s.Args[0]
		}
		it.emit(fr, ci, st, args[0], s)
		cont(st, T.mk(OTuple, "", rt, false, T.Len(s), T.Nil()))
		return true
	case "bytes.Buffer.WriteByte", "strings.Builder.WriteByte", "bytes.Buffer.WriteRune", "strings.Builder.WriteRune":
		s := T.Fnc("chr", types.Typ[types.String], args[1])
		if n, ok := args[1].ConstInt(); ok {
			s = T.Str(string(rune(n)))
		}
		it.emit(fr, ci, st, args[0], s)
		if ci.Sig.Results().Len() == 2 {
			cont(st, T.mk(OTuple, "", rt, false, T.Int(1), T.Nil()))
		} else {
			cont(st, T.Nil())
		}
		return true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w := args[0]
		if w.Op == OIface {
			if key := bufferKind(w.Typ); key != "" {
				var s *Term
				switch ci.Key {
				case "fmt.Fprintf":
					s = it.sprintf(st, args[1], it.listVal(st, args[2], nilIfaceType))
				case "io.WriteString":
					s = args[1]
				default:
					s = it.sprint(st, strings.Replace(ci.Key, "Fp", "Sp", 1), it.listVal(st, args[1], nilIfaceType))
				}
				it.emit(fr, ci, st, w.Args[0], s)
				cont(st, T.mk(OTuple, "", rt, false, T.Len(s), T.Nil()))
				return true
			}
		}
		return false
	case "bytes.Buffer.String", "strings.Builder.String":
		cont(st, it.load(st, "BUF", []*Term{args[0]}, types.Typ[types.String]))
		return true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		a := it.newAlloc(fr, ci.Instr.(ssa.Instruction), "buffer", nil, nil, rt)
		c := args[0]
		if c.Op == OFn && c.Sym == "bytes" {
			c = c.Args[0]
		}
		if l := it.listVal(st, c, types.Typ[types.Byte]); l.IsNil() || (l.Op == OConcat && len(l.Args) == 0) {
			c = T.Str("")
		} else if c.Op != OStr && ci.Key == "bytes.NewBuffer" {
			if n, ok := T.Len(c).ConstInt(); ok && n == 0 {
				c = T.Str("")
			} else {
				c = T.Fnc("string", types.Typ[types.String], c)
			}
		}
		it.write(st, "BUF", []*Term{a}, c)
		cont(st, a)
		return true
	}
	if purePkgs[p.Path()] || (p.Path() == "strconv") {
		// pure functions of their arguments
		if rt == nil {
			return false
		}
		ok := true
		for i := 0; i < ci.Sig.Params().Len(); i++ {
			if _, isF := ci.Sig.Params().At(i).Type().Underlying().(*types.Signature); isF {
				ok = false
			}
			if _, isP := ci.Sig.Params().At(i).Type().Underlying().(*types.Pointer); isP {
				ok = false
			}
		}
		if ci.Sig.Recv() != nil {
			ok = false
		}
		if ok {
			as := it.snapshotArgs(st, ci)
			if v := it.constFold(ci.Key, as, rt); v != nil {
				cont(st, v)
				return true
			}
			name := ci.Key
			if ci.Sig.Results().Len() > 1 {
				// keep an event for fallible parsers
				r := T.mk(OCall, name, rt, false, as...)
				it.event(fr, st, ci.Instr, "call", ci.Key, as, r)
				cont(st, r)
			} else {
				cont(st, T.Fnc(name, rt, as...))
			}
			return true
		}
	}
	return false
}

var nilIfaceType = types.NewInterfaceType(nil, nil)

func bufferKind(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
			if k == "bytes.Buffer" || k == "strings.Builder" {
				return k
			}
		}
	}
	return ""
}

func (it *Interp) constFold(key string, as []*Term, rt types.Type) *Term {
	T := it.T
	strs := func(n int) bool {
		for i := 0; i < n; i++ {
			if i >= len(as) || as[i].Op != OStr {
				return false
			}
		}
		return true
	}
	switch key {
	case "strings.Contains":
		if strs(2) {
			return T.Bool(strings.Contains(as[0].Sym, as[1].Sym))
		}
	case "strings.HasPrefix":
		if strs(2) {
			return T.Bool(strings.HasPrefix(as[0].Sym, as[1].Sym))
		}
	case "strings.TrimSpace":
		if strs(1) {
			return T.Str(strings.TrimSpace(as[0].Sym))
		}
	case "math.RoundToEven", "math.Round", "math.Floor", "math.Ceil", "math.Trunc":
		if integral(as[0]) {
			return as[0]
		}
		// odd functions: canonical sign
		if key != "math.Floor" && key != "math.Ceil" && leadSign(as[0]) < 0 {
			return T.Neg(T.Fnc(key, rt, T.Neg(as[0])))
		}
	case "math.Sin", "math.Tan":
		if leadSign(as[0]) < 0 {
			return T.Neg(T.Fnc(key, rt, T.Neg(as[0])))
		}
	case "math.Cos", "math.Abs":
		if leadSign(as[0]) < 0 {
			return T.Fnc(key, rt, T.Neg(as[0]))
		}
	}
	return nil
}

// emit records text appended to a buffer.
func (it *Interp) emit(fr *Frame, ci *CallInfo, st *State, buf, s *Term) {
	cur := it.load(st, "BUF", []*Term{buf}, types.Typ[types.String])
	if rootOf(buf).Op == OAlloc && cur.Op == OSel {
		cur = it.T.Str("")
	}
	it.write(st, "BUF", []*Term{buf}, it.T.StrCat(cur, s))
	it.event(fr, st, ci.Instr, "emit", "emit", []*Term{buf, s}, nil)
}

// fmtVal formats one operand.
func (it *Interp) fmtVal(st *State, verb string, v *Term) *Term {
	T := it.T
	var typ types.Type
	for v.Op == OIface {
		typ = v.Typ
		v = v.Args[0]
	}
	if typ == nil {
		typ = v.Typ
	}
	if v.Op == OStr && (verb == "%s" || verb == "%v") {
		return v
	}
	if strings.HasPrefix(verb, "%0.") {
		verb = "%" + verb[2:] // the zero flag has no effect without a width
	}
	if typ != nil {
		hasString := false
		if _, isNamed := types.Unalias(typ).(*types.Named); isNamed {
			ms := types.NewMethodSet(typ)
			hasString = ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
		}
		if isString(typ) && (verb == "%s" || verb == "%v") && !hasString {
			return v
		}
		if isInteger(typ) && (verb == "%d" || verb == "%v") && (!hasString || verb == "%d") {
			if n, ok := v.ConstInt(); ok {
				return T.Str(strconv.FormatInt(n, 10))
			}
			return T.mk(OFmt, "%d", types.Typ[types.String], false, v)
		}
		if isInteger(typ) && hasString && verb == "%v" {
			// data.Micrometer.String is the decimal representation
			return T.mk(OFmt, "%d", types.Typ[types.String], false, v)
		}
	} else if n, ok := v.ConstInt(); ok && (verb == "%d" || verb == "%v") {
		return T.Str(strconv.FormatInt(n, 10))
	} else if (v.Op == OPoly || v.Op == OLen) && verb == "%v" {
		verb = "%d"
	}
	return T.mk(OFmt, verb, types.Typ[types.String], false, v)
}

// sprint models Sprint and Sprintln.
func (it *Interp) sprint(st *State, key string, l *Term) *Term {
	T := it.T
	if l.IsNil() {
		l = T.mk(OConcat, "", nil, false)
	}
	if l.Op == OConcat {
		var ps []*Term
		okAll, prevStr := true, false
		for i, a := range l.Args {
			if a.Op != OLit {
				okAll = false
				break
			}
			x := a.Args[0]
			if x.Op != OIface && x.Op != OStr {
				okAll = okAll && len(l.Args) == 1
			}
			isStr := x.Op == OStr || (x.Op == OIface && isString(x.Typ))
			if i > 0 && (key == "fmt.Sprintln" || (!isStr && !prevStr)) {
				ps = append(ps, T.Str(" "))
			}
			prevStr = isStr
			ps = append(ps, it.fmtVal(st, "%v", x))
		}
		if okAll {
			if key == "fmt.Sprintln" {
				ps = append(ps, T.Str("\n"))
			}
			return T.StrCat(ps...)
		}
	}
	return T.Fnc(key, types.Typ[types.String], l)
}

// sprintf evaluates formatting with a constant format into text pieces.
func (it *Interp) sprintf(st *State, format, args *Term) *Term {
	T := it.T
	var pre []*Term
	f := format
	var lits []*Term
	ok := args.IsNil() || args.Op == OConcat
	if args.Op == OConcat {
		for _, a := range args.Args {
			if a.Op != OLit {
				ok = false
				break
			}
			lits = append(lits, a.Args[0])
		}
	}
	if !ok {
		return T.Fnc("fmt.Sprintf", types.Typ[types.String], format, args)
	}
	segs := []*Term{f}
	if f.Op == OStrCat {
		segs = f.Args
	}
	k := 0
	for _, s := range segs {
		if s.Op != OStr {
			// text that is not constant is interpreted as a format
			pre = append(pre, T.mk(OFmt, "FORMAT", types.Typ[types.String], false, append([]*Term{s}, lits...)...))
			continue
		}
		str := s.Sym
		i := 0
		for i < len(str) {
			j := strings.IndexByte(str[i:], '%')
			if j < 0 {
				pre = append(pre, T.Str(str[i:]))
				break
			}
			if j > 0 {
				pre = append(pre, T.Str(str[i:i+j]))
			}
			i += j
			e := i + 1
			for e < len(str) && strings.IndexByte("+-# 0123456789.", str[e]) >= 0 {
				e++
			}
			if e >= len(str) {
				pre = append(pre, T.Str("%!(NOVERB)"))
				break
			}
			verb := str[i : e+1]
			i = e + 1
			if verb == "%%" {
				pre = append(pre, T.Str("%"))
				continue
			}
			if k >= len(lits) {
				pre = append(pre, T.mk(OFmt, "MISSING"+verb, types.Typ[types.String], false))
				continue
			}
			pre = append(pre, it.fmtVal(st, verb, lits[k]))
			k++
		}
	}
	if k < len(lits) && f.Op == OStr {
		pre = append(pre, T.mk(OFmt, "EXTRA", types.Typ[types.String], false, lits[k:]...))
	}
	return T.StrCat(pre...)
}

// ---- globals ----

// globalVal gives the value of a package variable that is only assigned by its initialiser.
func (it *Interp) globalVal(a *Term, st *State) *Term {
	g, ok := a.Info.(*ssa.Global)
	if !ok {
		return nil
	}
	if it.globals == nil {
		it.globals = map[*ssa.Global]*Term{}
		it.initGlobals()
	}
	return it.globals[g]
}

func (it *Interp) initGlobals() {
	T := it.T
	// globals assigned outside init or with address escaping are unknown
	bad := map[*ssa.Global]bool{}
	initVal := map[*ssa.Global][]ssa.Value{}
	for fn := range it.W.AllFns {
		p := fnPkg(fn)
		if p == nil || !inRepoPkg(p) {
			continue
		}
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr == g && isInit {
							initVal[g] = append(initVal[g], x.Val)
						} else {
							bad[g] = true
						}
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g, vs := range initVal {
		if bad[g] || len(vs) != 1 {
			continue
		}
		if g.Pkg != nil && g.Pkg.Pkg.Name() == "main" && isString(g.Type().(*types.Pointer).Elem()) {
			continue // may be set by the linker
		}
		if t := it.staticVal(vs[0]); t != nil {
			it.globals[g] = t
		}
	}
	_ = T
}

// staticVal evaluates an initialiser made of constants and slice literals.
func (it *Interp) staticVal(v ssa.Value) *Term {
	T := it.T
	switch x := v.(type) {
	case *ssa.Const:
		return T.constTerm(x)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		ar, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		elems := make([]*Term, ar.Len())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				if r == x {
					continue
				}
				return nil
			}
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			i, _ := constant.Int64Val(c.Value)
			for _, r2 := range *ia.Referrers() {
				s, ok := r2.(*ssa.Store)
				if !ok {
					return nil
				}
				elems[i] = it.staticVal(s.Val)
			}
		}
		var parts []*Term
		for _, e := range elems {
			if e == nil {
				return nil
			}
			parts = append(parts, T.Lit(e))
		}
		return T.mk(OConcat, "", x.Type(), false, parts...)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
			return T.Fnc("err:"+f.String(), x.Type(), T.Str(v.Name()+x.Parent().String()))
		}
	}
	return nil
}

var _ = fmt.Sprintf
