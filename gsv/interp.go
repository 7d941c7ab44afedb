package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind of an outcome of analysing a function or a region of it.
type Kind int

const (
	KReturn Kind = iota
	KPanic
	KExit // process exit
	KLatch
	KLoopExit
)

func (k Kind) String() string {
	return [...]string{"return", "panic", "exit", "latch", "loopexit"}[k]
}

// Event is something observable that happens on a path.
type Event struct {
	Kind  string // call, store, mapset, go, send, div, make, index, defercall, exit
	Key   string // callee key or memory key
	Args  []*Term
	Res   *Term
	Instr ssa.Instruction
	Fn    *ssa.Function // function containing the instruction
	Stack []ssa.Instruction
	NFact int // number of facts known when it happened
	Write int // number of the write (stores)
}

// Node of a structured path trace: either an event or a loop.
type Node struct {
	Ev   *Event
	Loop *LoopNode
	Exit *LoopNode // marks the start of the partial iteration with which the loop was left
}

// LoopNode describes a loop that was passed on a path: any number of complete
// iterations, each following one of Bodies.
type LoopNode struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Name   string
	Bodies []*Path // complete iterations (facts include the facts before the loop)
	Defs   []*LoopDef
	NFact  int // facts known on entry
	Facts  *Facts
	Entry  *State // when the loop is reached
}

// LoopDef describes a value that changes in a loop: Sym is its (unknown) value at the
// start of an iteration, Init the value before the first one and Latch its value at the end
// of an iteration, one per body.
type LoopDef struct {
	Sym   *Term
	Init  *Term
	Latch []*Term
	Phi   *ssa.Phi
	Mem   string
	Addr  []*Term
	Loop  *LoopNode
}

// Path is one abstract path through a function (or loop body).
type Path struct {
	Kind  Kind
	Ret   []*Term
	Facts *Facts
	Trace []Node
	St    *State
	Instr ssa.Instruction
}

type tlist struct {
	up *tlist
	n  Node
}

func (t *tlist) slice() []Node {
	var l []Node
	for x := t; x != nil; x = x.up {
		l = append(l, x.n)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func push(t *tlist, ns ...Node) *tlist {
	for _, n := range ns {
		t = &tlist{t, n}
	}
	return t
}

// memory: persistent write chains per memory key
type mwrite struct {
	up  *mwrite
	key []*Term
	val *Term
	n   int
}
type memory struct {
	base *Term
	top  *mwrite
}

// State of the abstract machine.
type State struct {
	env    map[ssa.Value]*Term
	mem    map[string]memory
	facts  *Facts
	trace  *tlist
	defers []deferred
}

type deferred struct {
	call  *ssa.Defer
	fn    *Term
	args  []*Term
	frame *Frame
}

func (s *State) copy() *State {
	n := &State{facts: s.facts, trace: s.trace}
	n.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.mem = make(map[string]memory, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	return n
}

// Outcome of a region.
type Outcome struct {
	Kind  Kind
	St    *State
	Ret   []*Term
	To    *ssa.BasicBlock
	From  *ssa.BasicBlock
	Instr ssa.Instruction
}

// Frame is an activation in the inlining tree.
type Frame struct {
	fn    *ssa.Function
	ctx   string
	up    *Frame
	site  ssa.Instruction
	depth int
	loops map[*ssa.BasicBlock]*loopInfo
	home  *Frame // the activation itself, if this is a copy made for an unrolled iteration
}

func (f *Frame) self() *Frame {
	if f.home != nil {
		return f.home
	}
	return f
}

func (f *Frame) stack() []ssa.Instruction {
	var s []ssa.Instruction
	for g := f; g != nil && g.site != nil; g = g.up {
		s = append(s, g.site)
	}
	return s
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type region struct {
	loop *loopInfo
}

// CallInfo describes a call met by the analysis.
type CallInfo struct {
	It    *Interp
	Key   string
	Fn    *ssa.Function
	Iface *types.Func
	Args  []*Term
	Instr ssa.CallInstruction
	St    *State
	Frame *Frame
	Sig   *types.Signature
	Recur bool
}

// Action tells the analysis how to treat a call.
type Action int

const (
	ADefault Action = iota
	AInline
	AEvent // record an event, unknown result
	APure  // result is a function of the arguments
	ASkip  // no event, unknown result
)

// Policy lets a check decide per call. It may return a result and handled=true.
type Policy func(c *CallInfo) Action

// Interp is the path sensitive abstract interpreter.
type Interp struct {
	W      *World
	T      *Terms
	Policy Policy
	// Model may completely handle a call: it appends events to st and returns results.
	Model func(c *CallInfo) (handled bool, outs []ModelOut)

	RecordAllocs  bool // record allocations of heap objects and field stores into them
	RecordStores  bool // record stores through unknown pointers and into slices
	RecordDivs    bool
	RecordIndex   bool
	RecordLookups bool
	Unroll        bool // execute loops with a constant trip count iteration by iteration

	MaxPaths int
	MaxDepth int
	paths    int
	err      error

	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	havoc     map[string]map[string]bool // loop ctx -> havoced phi / cell names
	entryNo   map[string]int
	active    []map[*Term]bool // terms created inside the running loops
	allocIn   map[*Term][]int  // unused
	LoopDefs  map[*Term]*LoopDef
	Unknown   map[string]int // call keys treated as unknown
	FnsSeen   map[*ssa.Function]bool
	globals   map[*ssa.Global]*Term
	visited   []map[string]bool
	callSeen  int
	writeNo   int
}

// ModelOut is one possible outcome of a modelled call.
type ModelOut struct {
	St   *State
	Ret  *Term
	Kind Kind
}

func NewInterp(w *World) *Interp {
	return &Interp{W: w, T: NewTerms(), MaxPaths: 60000, MaxDepth: 14,
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		havoc:     map[string]map[string]bool{}, entryNo: map[string]int{},
		LoopDefs: map[*Term]*LoopDef{}, Unknown: map[string]int{}, FnsSeen: map[*ssa.Function]bool{}}
}

func (it *Interp) fail(format string, a ...interface{}) {
	if it.err == nil {
		it.err = fmt.Errorf(format, a...)
	}
}

// Run analyses fn on symbolic (or given) arguments and returns all abstract paths.
func (it *Interp) Run(fn *ssa.Function, args []*Term) ([]*Path, error) {
	return it.RunFrom(fn, args, nil, nil)
}

func (it *Interp) NewState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[string]memory{}}
}

// ParamSyms returns symbolic arguments for fn.
func (it *Interp) ParamSyms(fn *ssa.Function) []*Term {
	var args []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = "arg" + strconv.Itoa(i)
		}
		args = append(args, it.T.SymT(n, p.Type()))
	}
	return args
}

func (it *Interp) RunFrom(fn *ssa.Function, args []*Term, st *State, bind []*Term) (paths []*Path, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ip, ok := r.(interpPanic); ok {
				err = ip.err
				return
			}
			panic(r)
		}
	}()
	if fn == nil || len(fn.Blocks) == 0 {
		return nil, fmt.Errorf("function not found or without body")
	}
	if args == nil {
		args = it.ParamSyms(fn)
	}
	if st == nil {
		st = it.NewState()
	}
	fr := &Frame{fn: fn, ctx: "", loops: it.loopsOf(fn)}
	it.enter(fr, args, bind, st, func(o Outcome) {
		paths = append(paths, &Path{Kind: o.Kind, Ret: o.Ret, Facts: o.St.facts, Trace: o.St.trace.slice(), St: o.St, Instr: o.Instr})
	})
	return paths, it.err
}

var gsvDebug = os.Getenv("GSVDEBUG") != ""

type interpPanic struct{ err error }

func (it *Interp) enter(fr *Frame, args, bind []*Term, st *State, sink func(Outcome)) {
	it.FnsSeen[fr.fn] = true
	for i, p := range fr.fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, v := range fr.fn.FreeVars {
		if i < len(bind) {
			st.env[v] = bind[i]
		} else {
			st.env[v] = it.T.SymT("free:"+v.Name(), v.Type())
		}
	}
	it.block(fr, fr.fn.Blocks[0], nil, st, nil, sink)
}

// ---- loops ----

func (it *Interp) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := it.loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				li := res[h]
				if li == nil {
					li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					res[h] = li
				}
				var stack []*ssa.BasicBlock
				if !li.blocks[b] {
					li.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !li.blocks[p] {
							li.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	it.loopCache[fn] = res
	return res
}

func (it *Interp) markFresh(t *Term) {
	for _, a := range it.active {
		a[t] = true
	}
}

func (it *Interp) block(fr *Frame, b, pred *ssa.BasicBlock, st *State, reg *region, sink func(Outcome)) {
	if it.err != nil {
		return
	}
	if reg != nil && pred != nil {
		if b == reg.loop.header {
			sink(Outcome{Kind: KLatch, St: st, To: b, From: pred})
			return
		}
		if !reg.loop.blocks[b] {
			sink(Outcome{Kind: KLoopExit, St: st, To: b, From: pred})
			return
		}
	}
	if li := fr.loops[b]; li != nil {
		it.runLoop(fr, li, pred, st, reg, sink)
		return
	}
	it.phis(fr, b, pred, st)
	it.instrs(fr, b, firstNonPhi(b), st, reg, sink)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (it *Interp) phis(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	idx := predIndex(b, pred)
	var vals []*Term
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, it.val(fr, p.Edges[idx], st))
	}
	for i, p := range ps {
		st.env[p] = vals[i]
	}
}

func cellName(mk string, key []*Term) string {
	s := mk
	for _, k := range key {
		s += "," + strconv.Itoa(k.ID)
	}
	return s
}

// constTrip: does the loop head decide by constants alone whether another iteration follows?
func (it *Interp) constTrip(fr *Frame, h, pred *ssa.BasicBlock, st0 *State) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	st := st0.copy()
	it.phis(fr, h, pred, st)
	for _, in := range h.Instrs[firstNonPhi(h):] {
		switch x := in.(type) {
		case *ssa.If:
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field:
			it.simple(fr, in, st)
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			it.call(fr, x, st, nil, func(s *State, r *Term) { s.env[x] = r })
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	_, ok = it.val(fr, iff.Cond, st).IsBool()
	return ok
}

// unroll executes a loop whose trip count is constant, iteration by iteration.
func (it *Interp) unroll(fr *Frame, li *loopInfo, pred *ssa.BasicBlock, st *State, reg *region, sink func(Outcome), n int) {
	it2 := *fr
	it2.home = fr.self()
	it2.ctx = fr.ctx + "#" + strconv.Itoa(n)
	f := &it2
	it.phis(f, li.header, pred, st)
	it.instrs(f, li.header, firstNonPhi(li.header), st, &region{li}, func(o Outcome) {
		switch o.Kind {
		case KLatch:
			if n < 64 && it.constTrip(fr, li.header, o.From, o.St) {
				it.unroll(fr, li, o.From, o.St, reg, sink, n+1)
			} else {
				it.runLoop2(fr, li, o.From, o.St, reg, sink)
			}
		case KLoopExit:
			it.block(fr, o.To, o.From, o.St, reg, sink)
		default:
			sink(o)
		}
	})
}

func (it *Interp) runLoop(fr *Frame, li *loopInfo, pred *ssa.BasicBlock, st0 *State, reg *region, sink func(Outcome)) {
	if it.Unroll && it.constTrip(fr, li.header, pred, st0) {
		it.unroll(fr, li, pred, st0, reg, sink, 0)
		return
	}
	if rng, to, exit := copyLoop(li); rng != nil {
		// the new map has the entries of the old one (whether they share memory is decided by the effects)
		old := it.val(fr, rng.X, st0)
		it.branch(fr, st0, it.T.RefEq(old, it.T.Nil()), func(st *State, isNil bool) {
			if !isNil {
				st.env[to] = old
			}
			it.block(fr, exit, li.header, st, reg, sink)
		})
		return
	}
	it.runLoop2(fr, li, pred, st0, reg, sink)
}

func (it *Interp) runLoop2(fr *Frame, li *loopInfo, pred *ssa.BasicBlock, st0 *State, reg *region, sink func(Outcome)) {
	T := it.T
	h := li.header
	base := fr.ctx + ":" + fr.fn.Name() + "." + strconv.Itoa(h.Index)
	hv := it.havoc[base]
	if hv == nil {
		hv = map[string]bool{}
		it.havoc[base] = hv
	}
	for _, v := range it.visited {
		v[base] = true
	}
	it.entryNo[base]++
	name := base
	if it.entryNo[base] > 1 {
		name += "/" + strconv.Itoa(it.entryNo[base])
	}
	idx := predIndex(h, pred)
	var ps []*ssa.Phi
	var init []*Term
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		iv := it.val(fr, p.Edges[idx], st0)
		init = append(init, iv)
		// flags are first assumed not to change (checked by the first round), everything else to vary
		if iv.Op == OBool || (iv.IsNil() && types.IsInterface(p.Type())) {
			continue
		}
		for i, e := range p.Edges {
			if h.Dominates(h.Preds[i]) && e != p {
				hv["phi:"+p.Name()] = true
			}
		}
	}
	// monotone[i]: +1 phi only grows, -1 only shrinks (candidate refuted by probing)
	mono := make([]int, len(ps))
	type cellDef struct {
		mk   string
		key  []*Term
		init *Term
		sym  *Term
	}
	var outs []Outcome
	var node *LoopNode
	closed, refused := map[int]*Term{}, map[int]bool{}
	for round := 0; ; round++ {
		if round > 40 {
			it.fail("loop at %s did not stabilise", it.W.Pos(fr.fn.Pos()))
			return
		}
		node = &LoopNode{Fn: fr.fn, Header: h, Name: name, Entry: st0.copy()}
		it.active = append(it.active, map[*Term]bool{})
		it.visited = append(it.visited, map[string]bool{})
		inLoop := it.active[len(it.active)-1]
		st := st0.copy()
		st.trace = nil
		headVals := make([]*Term, len(ps))
		for i, p := range ps {
			if f := closed[i]; f != nil {
				headVals[i] = f
			} else if hv["phi:"+p.Name()] {
				s := T.SymT("~"+name+":"+phiName(p), p.Type())
				s.Info = node
				it.markFresh(s)
				headVals[i] = s
				node.Defs = append(node.Defs, &LoopDef{Sym: s, Init: init[i], Phi: p, Loop: node})
				delete(it.LoopDefs, s) // of an earlier round
			} else {
				headVals[i] = init[i]
			}
			st.env[p] = headVals[i]
		}
		var cells []cellDef
		// memory havoc
		var mks []string
		for c := range hv {
			if strings.HasPrefix(c, "mem:") {
				mks = append(mks, c[4:])
			}
		}
		sort.Strings(mks)
		for _, mk := range mks {
			m := it.getMem(st, mk)
			nb := T.SymT("mem~"+mk+"@"+name, nil)
			// keep what is known about allocations made before the loop unless they are havoced themselves
			var keep []*mwrite
			for w := m.top; w != nil; w = w.up {
				if r := rootOf(w.key[0]); r.Op == OAlloc && !hv["root:"+mk+":"+strconv.Itoa(r.ID)] {
					keep = append(keep, w)
				}
			}
			nm := memory{base: nb}
			for i := len(keep) - 1; i >= 0; i-- {
				nm.top = &mwrite{nm.top, keep[i].key, keep[i].val, keep[i].n}
			}
			st.mem[mk] = nm
		}
		for _, c := range sortedCells(hv) {
			mk, key := it.cellOf(c)
			if mk == "" {
				continue
			}
			iv := it.load(st0, mk, key, it.cellType(c))
			s := T.SymT("~"+name+":"+mk+"⟨"+keyStr(key)+"⟩", it.cellType(c))
			s.Info = node
			it.markFresh(s)
			it.write(st, mk, key, s)
			cells = append(cells, cellDef{mk, key, iv, s})
			node.Defs = append(node.Defs, &LoopDef{Sym: s, Init: iv, Mem: mk, Addr: key, Loop: node})
		}
		for i := range ps {
			if mono[i] != 0 && headVals[i].Op == OSym {
				// init <= phi (or >=): induction established by the previous round and rechecked below
				var c *Term
				if mono[i] > 0 {
					c = T.Le(T.Sub(init[i], headVals[i]), isInteger(ps[i].Type()))
				} else {
					c = T.Le(T.Sub(headVals[i], init[i]), isInteger(ps[i].Type()))
				}
				if nf, ok := T.Assume(st.facts, c, true); ok {
					st.facts = nf
				}
			}
		}
		headMem := map[string]*mwrite{}
		headBase := map[string]*Term{}
		for k, m := range st.mem {
			headMem[k] = m.top
			headBase[k] = m.base
		}
		node.Facts = st.facts
		node.NFact = st.facts.Len()
		outs = nil
		stHead := st.copy()
		it.instrs(fr, h, firstNonPhi(h), st, &region{li}, func(o Outcome) { outs = append(outs, o) })
		it.active = it.active[:len(it.active)-1]
		inner := it.visited[len(it.visited)-1]
		it.visited = it.visited[:len(it.visited)-1]
		if it.err != nil {
			return
		}
		changed := false
		// values first: which memory an iteration touches is only known once its phis are
		for _, o := range outs {
			if o.Kind != KLatch {
				continue
			}
			li := predIndex(h, o.From)
			for i, p := range ps {
				if it.val(fr, p.Edges[li], o.St) != headVals[i] && !hv["phi:"+p.Name()] {
					hv["phi:"+p.Name()] = true
					changed = true
				}
			}
		}
		if changed {
			for b := range inner {
				delete(it.havoc, b)
			}
			continue
		}
		var newCells []string
		var latches [][]*Term
		newMono := make([]int, len(ps))
		for i := range newMono {
			newMono[i] = 2 // undetermined
		}
		for _, o := range outs {
			if o.Kind != KLatch {
				continue
			}
			li := predIndex(h, o.From)
			var lv []*Term
			for i, p := range ps {
				v := it.val(fr, p.Edges[li], o.St)
				lv = append(lv, v)
				if isNumber(p.Type()) && headVals[i].Op == OSym {
					d := T.Sub(v, headVals[i])
					sg := 0
					if x, ok := d.ConstNum(); ok {
						sg = x.Sign()
						if sg == 0 {
							sg = 2
						}
					} else {
						// decide sign of the step by the facts
						if T.Holds(o.St.facts, T.Le(T.Neg(d), isInteger(p.Type()))) {
							sg = 1
						} else if T.Holds(o.St.facts, T.Le(d, isInteger(p.Type()))) {
							sg = -1
						}
					}
					switch {
					case sg == 2:
					case newMono[i] == 2:
						newMono[i] = sg
					case newMono[i] != sg:
						newMono[i] = 0
					}
				} else {
					newMono[i] = 0
				}
			}
			latches = append(latches, lv)
			for k := range node.Defs {
				d := node.Defs[k]
				if d.Phi != nil {
					for i, p := range ps {
						if p == d.Phi {
							d.Latch = append(d.Latch, lv[i])
						}
					}
				} else {
					d.Latch = append(d.Latch, it.load(o.St, d.Mem, d.Addr, d.Sym.Typ))
				}
			}
			// memory written in the body
			for mk, m := range o.St.mem {
				hb, had := headBase[mk]
				if had && hb != m.base && !hv["mem:"+mk] {
					hv["mem:"+mk] = true
					changed = true
				}
				if !had && m.base.Sym != mk && !hv["mem:"+mk] {
					hv["mem:"+mk] = true
					changed = true
				}
				for w := m.top; w != nil && w != headMem[mk]; w = w.up {
					root := w.key[0]
					if r := rootOf(root); r.Op == OAlloc && inLoop[r] {
						continue // initialisation of an object made in this iteration
					}
					variant := false
					for _, k := range w.key {
						if k.Contains(func(x *Term) bool { return inLoop[x] }) {
							variant = true
						}
					}
					if variant {
						if !hv["mem:"+mk] {
							hv["mem:"+mk] = true
							changed = true
						}
						if r := rootOf(root); r.Op == OAlloc {
							if rk := "root:" + mk + ":" + strconv.Itoa(r.ID); !hv[rk] {
								hv[rk] = true
								changed = true
							}
						}
						continue
					}
					// unchanged?
					if it.load(stHead, mk, w.key, w.val.Typ) == it.load(o.St, mk, w.key, w.val.Typ) {
						continue
					}
					c := it.regCell(mk, w.key, w.val)
					if !hv[c] {
						newCells = append(newCells, c)
					}
				}
			}
		}
		if !changed {
			for _, c := range newCells {
				if !hv[c] {
					hv[c] = true
					changed = true
				}
			}
		}
		for i := range newMono {
			if newMono[i] == 2 {
				newMono[i] = 0
			}
			if hv["phi:"+ps[i].Name()] && newMono[i] != mono[i] && headVals[i].Op == OSym {
				if mono[i] != 0 {
					// assumed monotonicity refuted
					mono[i] = 0
					hv["nomono:"+ps[i].Name()] = true
					changed = true
				} else if !hv["nomono:"+ps[i].Name()] {
					mono[i] = newMono[i]
					changed = true
				}
			}
		}
		if len(closed) > 0 {
			// still right after another iteration?
			prim, _ := it.primaryCounter(ps, headVals, latches)
			for i, f := range closed {
				for _, lv := range latches {
					if prim < 0 || T.substIdx(f, headVals[prim], lv[prim]) != lv[i] {
						delete(closed, i)
						refused[i] = true
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			if _, fs := it.closedForms(ps, init, headVals, latches, inLoop, st0, refused); len(fs) > 0 {
				for i, f := range fs {
					closed[i] = f
				}
				changed = true
			}
		}
		if !changed {
			break
		}
		if round > 35 && gsvDebug {
			println(base, round)
			for k := range hv {
				println("   ", k)
			}
		}
		for b := range inner {
			delete(it.havoc, b)
		}
	}
	for _, d := range node.Defs {
		it.LoopDefs[d.Sym] = d
	}
	for _, o := range outs {
		if o.Kind == KLatch {
			node.Bodies = append(node.Bodies, &Path{Kind: KLatch, Facts: o.St.facts, Trace: o.St.trace.slice(), St: o.St})
		}
	}
	pre := push(st0.trace, Node{Loop: node}, Node{Exit: node})
	for _, o := range outs {
		if o.Kind == KLatch {
			continue
		}
		part := o.St.trace.slice()
		o.St.trace = push(pre, part...)
		if o.Kind == KLoopExit {
			it.block(fr, o.To, o.From, o.St, reg, sink)
			continue
		}
		sink(o)
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment + "." + p.Name()
	}
	return p.Name()
}

func keyStr(k []*Term) string {
	var s []string
	for _, x := range k {
		s = append(s, x.String())
	}
	return strings.Join(s, ",")
}

// registry of havoced cells
type cellReg struct {
	mk  string
	key []*Term
	typ types.Type
}

var cellRegs = map[*Interp]map[string]*cellReg{}

func (it *Interp) regCell(mk string, key []*Term, val *Term) string {
	m := cellRegs[it]
	if m == nil {
		m = map[string]*cellReg{}
		cellRegs[it] = m
	}
	n := "cell:" + cellName(mk, key)
	if m[n] == nil {
		m[n] = &cellReg{mk, key, val.Typ}
	}
	return n
}
func (it *Interp) cellOf(n string) (string, []*Term) {
	r := cellRegs[it][n]
	if r == nil {
		return "", nil
	}
	return r.mk, r.key
}
func (it *Interp) cellType(n string) types.Type {
	if r := cellRegs[it][n]; r != nil {
		return r.typ
	}
	return nil
}
func sortedCells(hv map[string]bool) []string {
	var l []string
	for c := range hv {
		if strings.HasPrefix(c, "cell:") {
			l = append(l, c)
		}
	}
	sort.Strings(l)
	return l
}

// ---- memory ----

func (it *Interp) getMem(st *State, mk string) memory {
	m, ok := st.mem[mk]
	if !ok {
		m = memory{base: it.T.SymT(mk, nil)}
		st.mem[mk] = m
	}
	return m
}

func (it *Interp) write(st *State, mk string, key []*Term, v *Term) {
	m := it.getMem(st, mk)
	it.writeNo++
	st.mem[mk] = memory{m.base, &mwrite{m.top, key, v, it.writeNo}}
}

// load reads a memory cell.
// arrayCopy: the element at an unknown index of a local array that holds a copy of another array.
func (it *Interp) arrayCopy(m *memory, mk string, key []*Term, typ types.Type) *Term {
	if mk[0] != 'E' || len(key) != 2 || key[0].Op != OAlloc {
		return nil
	}
	ai, ok := key[0].Info.(*AllocInfo)
	if !ok || ai.Site == nil {
		return nil
	}
	al, ok := ai.Site.(*ssa.Alloc)
	if !ok {
		return nil
	}
	ar, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || ar.Len() > 16 {
		return nil
	}
	seen := map[int64]bool{}
	var base *Term
	for w := m.top; w != nil && int64(len(seen)) < ar.Len(); w = w.up {
		if w.key[0] != key[0] {
			if w.key[0].Op == OAlloc || rootOf(w.key[0]) != key[0] {
				continue
			}
			return nil
		}
		i, ok := w.key[1].ConstInt()
		if !ok {
			return nil
		}
		if seen[i] {
			continue
		}
		seen[i] = true
		v := w.val
		if v.Op != OFn || v.Sym != "idx" || !v.Args[1].IsInt(i) || base != nil && v.Args[0] != base {
			return nil
		}
		base = v.Args[0]
	}
	if int64(len(seen)) < ar.Len() {
		return nil
	}
	return it.T.Fnc("idx", typ, base, key[1])
}

func (it *Interp) load(st *State, mk string, key []*Term, typ types.Type) *Term {
	T := it.T
	m := it.getMem(st, mk)
	for w := m.top; w != nil; w = w.up {
		same, diff := true, false
		for i := range key {
			if key[i] == w.key[i] {
				continue
			}
			same = false
			if i == 0 {
				if distinctRefs(key[i], w.key[i]) {
					diff = true
				} else if mk[0] == 'E' && rootOf(key[0]) != rootOf(w.key[0]) {
					diff = true // different slices are assumed not to overlap
				} else if it.T.Refuted(st.facts, it.T.RefEq(key[i], w.key[i])) {
					diff = true
				}
			} else {
				var eq *Term
				if isNumTerm(key[i]) || isNumTerm(w.key[i]) {
					eq = T.NumEq(key[i], w.key[i])
				} else {
					eq = T.RefEq(key[i], w.key[i])
				}
				if v, k := T.Decide(st.facts, eq); k {
					if !v {
						diff = true
					} else {
						// equal by facts
						if i == len(key)-1 && !diff {
							allEq := true
							for j := 0; j < i; j++ {
								if key[j] != w.key[j] {
									allEq = false
								}
							}
							if allEq {
								return w.val
							}
						}
					}
				}
			}
			if diff {
				break
			}
		}
		if same {
			return w.val
		}
		if !diff {
			if v := it.arrayCopy(&m, mk, key, typ); v != nil {
				return v
			}
			// may alias: unknown content, named after the write chain
			it.callSeen++
			tok := T.SymT(fmt.Sprintf("%s@w%d", m.base.Sym, w.n), nil)
			s := T.mk(OSel, "", typ, false, append([]*Term{tok}, key...)...)
			return s
		}
	}
	// initial content
	if r := rootOf(key[0]); r.Op == OAlloc && m.base.Sym == mk {
		switch mk[0] {
		case 'E':
			if ai, ok := r.Info.(*AllocInfo); ok && ai.Elem != nil && typ != nil {
				return it.T.zero(typ)
			}
		case 'M':
			if typ != nil {
				return it.T.zero(typ)
			}
		case 'H':
			return it.T.Bool(false)
		}
	}
	return T.mk(OSel, "", typ, false, append([]*Term{m.base}, key...)...)
}

func isNumTerm(t *Term) bool {
	if t.Op == OPoly || t.Op == OLen {
		return true
	}
	return t.Typ != nil && isNumber(t.Typ)
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldKey(owner types.Type, name string) string {
	return "F:" + typeKey(owner) + "." + name
}

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface {}", "any")
	return strings.ReplaceAll(s, "interface{}", "any")
}

// loadAddr reads the value of type typ at address a.
func (it *Interp) loadAddr(st *State, a *Term, typ types.Type) *Term {
	T := it.T
	if s := structOf(typ); s != nil {
		var fs []*Term
		var base *Term
		whole := true
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := it.loadAddr(st, it.addrField(a, typ, i), f.Type())
			fs = append(fs, v)
			if whole {
				if v.Op == OField && v.Sym == f.Name() {
					if base == nil {
						base = v.Args[0]
					} else if base != v.Args[0] {
						whole = false
					}
				} else {
					whole = false
				}
			}
		}
		if whole && base != nil && len(fs) > 0 {
			return base
		}
		return T.mk(OStruct, "", typ, true, fs...)
	}
	if ar, ok := typ.Underlying().(*types.Array); ok && ar.Len() <= 16 {
		// an array that was stored as one opaque value
		var fs []*Term
		var base *Term
		whole := true
		for i := int64(0); i < ar.Len(); i++ {
			v := it.loadAddr(st, it.addrIdx(a, T.Int(i)), ar.Elem())
			fs = append(fs, v)
			if v.Op == OFn && v.Sym == "idx" && v.Args[1].IsInt(i) && (base == nil || base == v.Args[0]) {
				base = v.Args[0]
			} else {
				whole = false
			}
		}
		if whole && base != nil {
			return base
		}
		return T.mk(OArray, "", typ, true, fs...)
	}
	switch a.Op {
	case OAddrF:
		owner := a.Typ // owner struct type stored
		return it.load(st, fieldKey(owner, a.Sym), []*Term{a.Args[0]}, typ)
	case OAddrI:
		return it.load(st, "E:"+typeKey(typ), []*Term{a.Args[0], a.Args[1]}, typ)
	case OGlobal:
		if v := it.globalVal(a, st); v != nil {
			return v
		}
	}
	return it.load(st, "C:"+typeKey(typ), []*Term{a}, typ)
}

func (it *Interp) storeAddr(st *State, a *Term, typ types.Type, v *Term) {
	T := it.T
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			it.storeAddr(st, it.addrField(a, typ, i), f.Type(), T.FieldOf(v, f.Name(), i, f.Type()))
		}
		return
	}
	if ar, ok := typ.Underlying().(*types.Array); ok && ar.Len() <= 16 {
		for i := int64(0); i < ar.Len(); i++ {
			var e *Term
			if v.Op == OArray {
				e = v.Args[i]
			} else {
				e = T.Fnc("idx", ar.Elem(), v, T.Int(i))
			}
			it.storeAddr(st, it.addrIdx(a, T.Int(i)), ar.Elem(), e)
		}
		return
	}
	switch a.Op {
	case OAddrF:
		it.write(st, fieldKey(a.Typ, a.Sym), []*Term{a.Args[0]}, v)
	case OAddrI:
		it.write(st, "E:"+typeKey(typ), []*Term{a.Args[0], a.Args[1]}, v)
	default:
		it.write(st, "C:"+typeKey(typ), []*Term{a}, v)
	}
}

// addrField: address of field i of the struct (of type owner) at a. The Typ of the term is the owner type.
func (it *Interp) addrField(a *Term, owner types.Type, i int) *Term {
	f := structOf(owner).Field(i)
	return it.T.mk(OAddrF, f.Name(), owner, true, a)
}

func (it *Interp) addrIdx(s, i *Term) *Term {
	if s.Op == OSub {
		return it.T.mk(OAddrI, "", nil, false, s.Args[0], it.T.Add(s.Args[1], i))
	}
	return it.T.mk(OAddrI, "", nil, false, s, i)
}

// before: a list that was only appended to in a loop has the same elements as before up to its old length.
func (it *Interp) before(st *State, s, i *Term) *Term {
	for n := 0; n < 8; n++ {
		d := it.LoopDefs[s]
		if d == nil || d.Phi == nil || d.Loop == nil || len(d.Latch) == 0 || len(d.Latch) != len(d.Loop.Bodies) || d.Init == nil || d.Init.IsNil() {
			return s
		}
		for _, l := range d.Latch {
			if !it.appended(l, s, 0) {
				return s
			}
		}
		if !it.T.Holds(st.facts, it.T.Lt(i, it.T.Len(d.Init))) {
			return s
		}
		s = d.Init
	}
	return s
}

// appended: l is s with nothing or something appended.
func (it *Interp) appended(l, s *Term, depth int) bool {
	if l == s {
		return true
	}
	if depth > 5 {
		return false
	}
	if l.Op == OConcat {
		return len(l.Args) > 0 && it.appended(l.Args[0], s, depth+1)
	}
	// by an inner loop
	if d := it.LoopDefs[l]; d != nil && d.Loop != nil && len(d.Latch) == len(d.Loop.Bodies) {
		for _, x := range d.Latch {
			if !it.appended(x, l, depth+1) {
				return false
			}
		}
		return d.Init != nil && it.appended(d.Init, s, depth+1)
	}
	return false
}

// elem reads s[i] for a slice / array value.
func (it *Interp) elem(st *State, s, i *Term, typ types.Type) *Term {
	switch s.Op {
	case OArray:
		if k, ok := i.ConstInt(); ok && k >= 0 && int(k) < len(s.Args) {
			return s.Args[k]
		}
		return it.T.Fnc("idx", typ, s, i)
	case OConcat:
		if k, ok := i.ConstInt(); ok && k >= 0 {
			for _, p := range s.Args {
				if p.Op != OLit {
					break
				}
				if k == 0 {
					return p.Args[0]
				}
				k--
			}
		}
		// inside the leading list
		if f := s.Args[0]; f.Op != OLit {
			if it.T.Holds(st.facts, it.T.Le(it.T.Add(it.T.Sub(i, it.T.Len(f)), it.T.Int(1)), true)) {
				return it.elem(st, f, i, typ)
			}
		}
		// last element
		n := it.T.Sub(it.T.Sub(it.T.Len(s), i), it.T.Int(1))
		if k, ok := n.ConstInt(); ok && k >= 0 {
			for j := len(s.Args) - 1; j >= 0 && s.Args[j].Op == OLit; j-- {
				if k == 0 {
					return s.Args[j].Args[0]
				}
				k--
			}
		}
	}
	return it.loadAddr(st, it.addrIdx(s, i), typ)
}

// written: the element was assigned after the list value was built.
func (it *Interp) written(st *State, mk string, base, idx *Term) bool {
	for w := it.getMem(st, mk).top; w != nil; w = w.up {
		if len(w.key) == 2 && w.key[0] == base && w.key[1] == idx {
			return true
		}
	}
	return false
}

// refresh rebuilds a list value whose literal elements were reassigned.
func (it *Interp) refresh(st *State, l *Term, elem types.Type) *Term {
	if l.Op != OConcat {
		return l
	}
	mk := "E:" + typeKey(elem)
	pos := it.T.Int(0)
	var parts []*Term
	changed := false
	for _, a := range l.Args {
		if a.Op == OLit {
			if it.written(st, mk, l, pos) {
				v := it.load(st, mk, []*Term{l, pos}, elem)
				if v != a.Args[0] {
					changed = true
					a = it.T.Lit(v)
				}
			}
			pos = it.T.Add(pos, it.T.Int(1))
		} else {
			pos = it.T.Add(pos, it.T.Len(a))
		}
		parts = append(parts, a)
	}
	if !changed {
		return l
	}
	return it.T.mk(OConcat, "", l.Typ, false, parts...)
}

// ---- values ----

func (it *Interp) val(fr *Frame, v ssa.Value, st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return it.T.constTerm(x)
	case *ssa.Function:
		return it.T.FuncVal(x)
	case *ssa.Global:
		t := it.T.mk(OGlobal, x.String(), x.Type(), false)
		if t.Info == nil {
			t.Info = x
		}
		return t
	case *ssa.Builtin:
		return it.T.Fnc("builtin:"+x.Name(), nil)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	it.fail("value %s of %s not available", v.Name(), fr.fn)
	return it.T.SymT("?"+v.Name(), v.Type())
}

func (it *Interp) fresh(fr *Frame, in ssa.Instruction, what string, typ types.Type) *Term {
	t := it.T.SymT(what+"@"+it.siteName(fr, in), typ)
	it.markFresh(t)
	return t
}

func (it *Interp) siteName(fr *Frame, in ssa.Instruction) string {
	b := in.Block()
	i := 0
	for j, x := range b.Instrs {
		if x == in {
			i = j
		}
	}
	return fmt.Sprintf("%s:%s.%d.%d", fr.ctx, fr.fn.Name(), b.Index, i)
}

func (it *Interp) event(fr *Frame, st *State, in ssa.Instruction, kind, key string, args []*Term, res *Term) *Event {
	e := &Event{Kind: kind, Key: key, Args: args, Res: res, Instr: in, Fn: fr.fn, Stack: fr.stack(), NFact: st.facts.Len()}
	st.trace = push(st.trace, Node{Ev: e})
	return e
}

func (it *Interp) branch(fr *Frame, st *State, cond *Term, f func(st *State, val bool)) {
	if v, k := it.T.Decide(st.facts, cond); k {
		f(st, v)
		return
	}
	it.paths++
	if it.paths > it.MaxPaths {
		it.fail("path budget exceeded in %s", fr.fn)
		panic(interpPanic{it.err})
	}
	st2 := st.copy()
	if nf, ok := it.T.Assume(st.facts, cond, true); ok {
		st.facts = nf
		f(st, true)
	}
	if nf, ok := it.T.Assume(st2.facts, cond, false); ok {
		st2.facts = nf
		f(st2, false)
	}
}

func (it *Interp) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, reg *region, sink func(Outcome)) {
	T := it.T
	for ; i < len(b.Instrs); i++ {
		if it.err != nil {
			return
		}
		in := b.Instrs[i]
		next := i + 1
		switch x := in.(type) {
		case *ssa.Jump:
			it.block(fr, b.Succs[0], b, st, reg, sink)
			return
		case *ssa.If:
			c := it.val(fr, x.Cond, st)
			it.branch(fr, st, c, func(s *State, v bool) {
				if v {
					it.block(fr, b.Succs[0], b, s, reg, sink)
				} else {
					it.block(fr, b.Succs[1], b, s, reg, sink)
				}
			})
			return
		case *ssa.Return:
			var r []*Term
			for _, v := range x.Results {
				r = append(r, it.val(fr, v, st))
			}
			sink(Outcome{Kind: KReturn, St: st, Ret: r, Instr: x})
			return
		case *ssa.Panic:
			it.event(fr, st, x, "panic", "panic", []*Term{it.val(fr, x.X, st)}, nil)
			sink(Outcome{Kind: KPanic, St: st, Instr: x})
			return
		case *ssa.Call:
			it.call(fr, x, st, sink, func(s *State, r *Term) {
				if r != nil {
					s.env[x] = r
				}
				it.instrs(fr, b, next, s, reg, sink)
			})
			return
		case *ssa.Defer:
			var args []*Term
			var fnv *Term
			if x.Call.IsInvoke() {
				args = append(args, it.val(fr, x.Call.Value, st))
			} else {
				fnv = it.val(fr, x.Call.Value, st)
			}
			for _, a := range x.Call.Args {
				args = append(args, it.val(fr, a, st))
			}
			st.defers = append(st.defers, deferred{x, fnv, args, fr.self()})
		case *ssa.RunDefers:
			it.runDefers(fr, st, sink, func(s *State) {
				it.instrs(fr, b, next, s, reg, sink)
			})
			return
		case *ssa.Go:
			it.event(fr, st, x, "go", "go", nil, nil)
		case *ssa.TypeAssert:
			it.typeAssert(fr, x, st)
		case *ssa.DebugRef:
		default:
			it.simple(fr, in, st)
		}
	}
	_ = T
}

func (it *Interp) runDefers(fr *Frame, st *State, sink func(Outcome), cont func(*State)) {
	n := len(st.defers)
	if n == 0 || st.defers[n-1].frame != fr.self() {
		cont(st)
		return
	}
	d := st.defers[n-1]
	st.defers = st.defers[:n-1]
	it.doCall(fr, d.call, &d.call.Call, d.fn, d.args, st, sink, func(s *State, r *Term) {
		it.runDefers(fr, s, sink, cont)
	})
}

func (it *Interp) newAlloc(fr *Frame, in ssa.Instruction, kind string, elem types.Type, n *Term, typ types.Type) *Term {
	name := kind + "@" + it.siteName(fr, in)
	if n != nil {
		name += "#" + strconv.Itoa(n.ID)
	}
	a := it.T.mk(OAlloc, name, typ, false)
	if a.Info == nil {
		a.Info = &AllocInfo{Site: in, Elem: elem, Len: n, Kind: kind}
	}
	it.markFresh(a)
	return a
}

func (it *Interp) simple(fr *Frame, in ssa.Instruction, st *State) {
	T := it.T
	val := func(v ssa.Value) *Term { return it.val(fr, v, st) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		a := it.newAlloc(fr, x, "new", t, nil, x.Type())
		if ar, ok := t.Underlying().(*types.Array); ok {
			a.Info.(*AllocInfo).Len = T.Int(ar.Len())
		}
		st.env[x] = a
		if it.RecordAllocs && x.Heap {
			it.event(fr, st, x, "alloc", "alloc", []*Term{a}, nil)
		}
		it.storeAddr(st, a, t, T.zero(t))
	case *ssa.MakeSlice:
		n := val(x.Len)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if it.RecordDivs {
			it.event(fr, st, x, "make", "make", []*Term{n, val(x.Cap)}, nil)
		}
		st.env[x] = it.newAlloc(fr, x, "make", et, n, x.Type())
	case *ssa.MakeMap:
		st.env[x] = it.newAlloc(fr, x, "map", nil, nil, x.Type())
	case *ssa.MakeChan:
		st.env[x] = it.newAlloc(fr, x, "chan", nil, nil, x.Type())
		it.event(fr, st, x, "chan", "makechan", nil, nil)
	case *ssa.Send:
		it.event(fr, st, x, "chan", "send", nil, nil)
	case *ssa.Select:
		it.event(fr, st, x, "chan", "select", nil, nil)
		st.env[x] = it.fresh(fr, x, "select", x.Type())
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, val(b))
		}
		c := T.mk(OClosure, x.Fn.String(), x.Type(), false, bs...)
		c.Fn = x.Fn.(*ssa.Function)
		st.env[x] = c
	case *ssa.MakeInterface:
		st.env[x] = T.mk(OIface, "", x.X.Type(), true, val(x.X))
	case *ssa.ChangeInterface:
		st.env[x] = val(x.X)
	case *ssa.ChangeType:
		st.env[x] = val(x.X)
	case *ssa.Convert:
		st.env[x] = it.convert(val(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		st.env[x] = T.Fnc("conv", x.Type(), val(x.X))
	case *ssa.SliceToArrayPointer:
		st.env[x] = val(x.X)
	case *ssa.BinOp:
		st.env[x] = it.binop(fr, x, st)
	case *ssa.UnOp:
		v := val(x.X)
		switch x.Op {
		case token.MUL:
			st.env[x] = it.loadAddr(st, v, x.Type())
		case token.NOT:
			st.env[x] = T.Not(v)
		case token.SUB:
			st.env[x] = T.Neg(v)
		case token.ARROW:
			it.event(fr, st, x, "chan", "recv", nil, nil)
			st.env[x] = it.fresh(fr, x, "recv", x.Type())
		default:
			st.env[x] = T.Fnc("un"+x.Op.String(), x.Type(), v)
		}
	case *ssa.Store:
		a := val(x.Addr)
		v := val(x.Val)
		var ev *Event
		if it.RecordStores && rootOf(a).Op != OAlloc {
			ev = it.event(fr, st, x, "store", it.memKeyOf(a, x.Val.Type()), []*Term{a, v}, nil)
		} else if it.RecordStores && a.Op == OAddrI && !isVarargs(x.Addr) {
			ev = it.event(fr, st, x, "elemstore", it.memKeyOf(a, x.Val.Type()), []*Term{a, v}, nil)
		} else if it.RecordAllocs && a.Op == OAddrF {
			it.event(fr, st, x, "allocstore", it.memKeyOf(a, x.Val.Type()), []*Term{a, v}, nil)
		}
		it.storeAddr(st, a, x.Val.Type(), v)
		if ev != nil {
			ev.Write = it.writeNo
		}
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		st.env[x] = it.addrField(val(x.X), pt, x.Field)
	case *ssa.Field:
		s := structOf(x.X.Type())
		f := s.Field(x.Field)
		st.env[x] = T.FieldOf(val(x.X), f.Name(), x.Field, f.Type())
	case *ssa.IndexAddr:
		base, idx := val(x.X), val(x.Index)
		base = it.before(st, base, idx)
		if it.RecordIndex {
			it.event(fr, st, x, "index", "index", []*Term{base, idx}, nil)
		}
		et := x.Type().(*types.Pointer).Elem()
		if base.Op == OConcat || base.Op == OArray {
			// element of a list value: materialise so that a following load sees it
			a := it.addrIdx(base, idx)
			if !it.written(st, "E:"+typeKey(et), base, idx) {
				e := it.elem(st, base, idx, et)
				if e.Op == OSel && len(e.Args) == 3 && strings.HasPrefix(e.Args[0].Sym, "E:") && e.Args[1] != base {
					a = it.addrIdx(e.Args[1], e.Args[2])
				} else if e.Op != OSel || e.Args[1] != base {
					it.storeAddr(st, a, et, e)
				}
			}
			st.env[x] = a
			return
		}
		st.env[x] = it.addrIdx(base, idx)
	case *ssa.Index:
		base, idx := val(x.X), val(x.Index)
		if isString(x.X.Type()) {
			st.env[x] = T.Fnc("at", x.Type(), base, idx)
		} else {
			st.env[x] = it.elem2(base, idx, x.Type())
		}
	case *ssa.Lookup:
		m, k := val(x.X), val(x.Index)
		if isString(x.X.Type()) {
			st.env[x] = T.Fnc("at", x.Type(), m, k)
			return
		}
		mt := x.X.Type().Underlying().(*types.Map)
		v := it.load(st, "M:"+typeKey(mt), []*Term{m, k}, mt.Elem())
		if x.CommaOk {
			ok := it.load(st, "H:"+typeKey(mt), []*Term{m, k}, types.Typ[types.Bool])
			st.env[x] = T.mk(OTuple, "", x.Type(), false, v, ok)
		} else {
			st.env[x] = v
		}
		if it.RecordLookups {
			it.event(fr, st, x, "mapget", typeKey(mt), []*Term{m, k}, v)
		}
	case *ssa.MapUpdate:
		m, k, v := val(x.Map), val(x.Key), val(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		it.event(fr, st, x, "mapset", typeKey(mt), []*Term{m, k, v}, nil)
		it.write(st, "M:"+typeKey(mt), []*Term{m, k}, v)
		it.write(st, "H:"+typeKey(mt), []*Term{m, k}, T.Bool(true))
	case *ssa.Range:
		st.env[x] = T.Fnc("range", x.X.Type(), val(x.X))
	case *ssa.Next:
		r := val(x.Iter)
		ok := it.fresh(fr, x, "next.ok", types.Typ[types.Bool])
		tu := x.Type().(*types.Tuple)
		k := it.fresh(fr, x, "next.key", tu.At(1).Type())
		var v *Term
		if x.IsString {
			v = it.fresh(fr, x, "next.val", tu.At(2).Type())
		} else {
			it.event(fr, st, x, "maprange", "maprange", []*Term{r.Args[0]}, nil)
			if mt, isM := r.Typ.Underlying().(*types.Map); isM {
				v = it.load(st, "M:"+typeKey(mt), []*Term{r.Args[0], k}, mt.Elem())
			} else {
				v = it.fresh(fr, x, "next.val", tu.At(2).Type())
			}
		}
		st.env[x] = T.mk(OTuple, "", x.Type(), false, ok, k, v)
	case *ssa.Slice:
		st.env[x] = it.slice(fr, x, st)
	case *ssa.Extract:
		t := val(x.Tuple)
		if t.Op == OTuple {
			st.env[x] = t.Args[x.Index]
		} else {
			st.env[x] = T.mk(ORes, strconv.Itoa(x.Index), x.Type(), false, t)
		}
	default:
		it.fail("instruction %T not supported in %s", in, fr.fn)
	}
}

// isVarargs: the store initialises a composite literal / variadic argument array.
func isVarargs(addr ssa.Value) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	return ok && (al.Comment == "varargs" || al.Comment == "slicelit")
}

func (it *Interp) memKeyOf(a *Term, typ types.Type) string {
	switch a.Op {
	case OAddrF:
		return fieldKey(a.Typ, a.Sym)
	case OAddrI:
		return "E:" + typeKey(typ)
	}
	return "C:" + typeKey(typ)
}

func (it *Interp) elem2(base, idx *Term, typ types.Type) *Term {
	if base.Op == OArray {
		if k, ok := idx.ConstInt(); ok && k >= 0 && int(k) < len(base.Args) {
			return base.Args[k]
		}
	}
	return it.T.Fnc("idx", typ, base, idx)
}

func (it *Interp) slice(fr *Frame, x *ssa.Slice, st *State) *Term {
	T := it.T
	base := it.val(fr, x.X, st)
	lo, hi := T.Int(0), (*Term)(nil)
	if x.Low != nil {
		lo = it.val(fr, x.Low, st)
	}
	if isString(x.X.Type()) {
		if x.High != nil {
			hi = it.val(fr, x.High, st)
		} else {
			hi = T.Len(base)
		}
		if lo.IsInt(0) && hi == T.Len(base) {
			return base
		}
		if base.Op == OStr {
			l, ok1 := lo.ConstInt()
			h, ok2 := hi.ConstInt()
			if ok1 && ok2 && l >= 0 && h <= int64(len(base.Sym)) && l <= h {
				return T.Str(base.Sym[l:h])
			}
		}
		return T.Fnc("substr", x.Type(), base, lo, hi)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		// slicing an array: literal lists become values
		ar := pt.Elem().Underlying().(*types.Array)
		if x.High != nil {
			hi = it.val(fr, x.High, st)
		} else {
			hi = T.Int(ar.Len())
		}
		if base.Op == OAlloc && lo.IsInt(0) && hi.IsInt(ar.Len()) {
			return base
		}
		return T.SubSlice(base, lo, hi)
	}
	if x.High != nil {
		hi = it.val(fr, x.High, st)
	} else {
		hi = T.Len(base)
	}
	return T.SubSlice(base, lo, hi)
}

// listVal turns a reference to a literal array allocation into a list value (its elements now).
func (it *Interp) listVal(st *State, s *Term, elem types.Type) *Term {
	if s.Op == OAlloc {
		ai, ok := s.Info.(*AllocInfo)
		if ok && ai.Len != nil {
			if n, ok := ai.Len.ConstInt(); ok && n <= 64 {
				var parts []*Term
				for i := int64(0); i < n; i++ {
					parts = append(parts, it.T.Lit(it.loadAddr(st, it.addrIdx(s, it.T.Int(i)), elem)))
				}
				if n == 0 {
					return it.T.mk(OConcat, "", s.Typ, false)
				}
				return it.T.mk(OConcat, "", s.Typ, false, parts...)
			}
		}
	}
	return s
}

func (it *Interp) convert(v *Term, from, to types.Type) *Term {
	T := it.T
	switch {
	case isInteger(from) && isInteger(to):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if tb.Info()&types.IsUnsigned != 0 && fb.Info()&types.IsUnsigned == 0 {
			if _, ok := v.ConstNum(); ok {
				return v
			}
			return T.Fnc("uint", to, v)
		}
		return v
	case isInteger(from) && isFloat(to), isFloat(from) && isFloat(to):
		return v
	case isFloat(from) && isInteger(to):
		if integral(v) {
			return v
		}
		return T.Fnc("trunc", to, v)
	case isString(from) && isString(to):
		return v
	}
	if c, ok := v.ConstNum(); ok && isString(to) && c.IsInt() {
		return T.Str(string(rune(c.Num().Int64())))
	}
	if isString(from) || isString(to) {
		return T.Fnc("bytes", to, v)
	}
	return v
}

// integral: the number is an integer whatever the values of its atoms.
func integral(t *Term) bool {
	if t.Op == OPoly {
		for _, m := range t.P {
			if !m.C.IsInt() {
				return false
			}
			for _, a := range m.A {
				if !integral(a) {
					return false
				}
			}
		}
		return true
	}
	switch t.Op {
	case OLen:
		return true
	case OFn:
		switch t.Sym {
		case "quo", "rem", "trunc", "math.RoundToEven", "math.Round", "math.Floor", "math.Ceil", "math.Trunc":
			return true
		}
	}
	return t.Typ != nil && isInteger(t.Typ)
}

func (it *Interp) binop(fr *Frame, x *ssa.BinOp, st *State) *Term {
	T := it.T
	a, b := it.val(fr, x.X, st), it.val(fr, x.Y, st)
	xt := x.X.Type()
	isInt := isInteger(xt)
	num := isNumber(xt)
	switch x.Op {
	case token.ADD:
		if isString(xt) {
			return T.StrCat(a, b)
		}
		return T.Add(a, b)
	case token.SUB:
		return T.Sub(a, b)
	case token.MUL:
		return T.Mul(a, b)
	case token.QUO:
		if isInt {
			if it.RecordDivs {
				it.event(fr, st, x, "div", x.Op.String(), []*Term{a, b}, nil)
			}
			return T.Quo(a, b)
		}
		return T.FDiv(a, b)
	case token.REM:
		if it.RecordDivs && isInt {
			it.event(fr, st, x, "div", x.Op.String(), []*Term{a, b}, nil)
		}
		return T.Rem(a, b)
	case token.EQL, token.NEQ:
		var e *Term
		if num {
			e = T.NumEq(a, b)
		} else {
			e = T.RefEq(a, b)
		}
		if x.Op == token.NEQ {
			return T.Not(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !num {
			switch x.Op {
			case token.LSS:
				return T.mk(OLt, "", types.Typ[types.Bool], false, a, b)
			case token.GTR:
				return T.mk(OLt, "", types.Typ[types.Bool], false, b, a)
			case token.LEQ:
				return T.Not(T.mk(OLt, "", types.Typ[types.Bool], false, b, a))
			default:
				return T.Not(T.mk(OLt, "", types.Typ[types.Bool], false, a, b))
			}
		}
		d := T.Sub(a, b)
		switch x.Op {
		case token.LSS:
			return T.order(d, true, isInt)
		case token.LEQ:
			return T.order(d, false, isInt)
		case token.GTR:
			return T.order(T.Neg(d), true, isInt)
		default:
			return T.order(T.Neg(d), false, isInt)
		}
	}
	if x.Op == token.XOR || x.Op == token.AND || x.Op == token.OR {
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return T.Fnc("bin"+x.Op.String(), x.Type(), a, b)
}

func (it *Interp) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) {
	T := it.T
	v := it.val(fr, x.X, st)
	set := func(r, ok *Term) {
		if x.CommaOk {
			st.env[x] = T.mk(OTuple, "", x.Type(), false, r, ok)
		} else {
			st.env[x] = r
		}
	}
	if v.Op == OIface {
		if types.IsInterface(x.AssertedType) {
			if types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)) {
				set(v, T.Bool(true))
			} else {
				set(T.Nil(), T.Bool(false))
			}
		} else if types.Identical(v.Typ, x.AssertedType) {
			set(v.Args[0], T.Bool(true))
		} else {
			set(T.zero(x.AssertedType), T.Bool(false))
		}
		return
	}
	r := T.Fnc("as:"+typeKey(x.AssertedType), x.AssertedType, v)
	ok := T.Fnc("is:"+typeKey(x.AssertedType), types.Typ[types.Bool], v)
	if types.IsInterface(x.AssertedType) {
		r = v
	}
	if x.CommaOk {
		it.event(fr, st, x, "assert", typeKey(x.AssertedType), []*Term{v}, ok)
	} else {
		it.event(fr, st, x, "mustassert", typeKey(x.AssertedType), []*Term{v}, ok)
	}
	set(r, ok)
}

// copyLoop: the loop does nothing else than copying every entry of a map into a new, until then unused one.
func copyLoop(li *loopInfo) (rng *ssa.Range, to *ssa.MakeMap, exit *ssa.BasicBlock) {
	h := li.header
	if len(li.blocks) != 2 || len(h.Instrs) < 3 {
		return nil, nil, nil
	}
	var next *ssa.Next
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Next:
			next = x
		case *ssa.Extract, *ssa.If, *ssa.DebugRef:
		default:
			return nil, nil, nil
		}
	}
	if next == nil || next.IsString {
		return nil, nil, nil
	}
	part := func(v ssa.Value, i int) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == next && e.Index == i
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !part(br.Cond, 0) || !li.blocks[h.Succs[0]] || li.blocks[h.Succs[1]] {
		return nil, nil, nil
	}
	exit = h.Succs[1]
	body := h.Succs[0]
	var upd *ssa.MapUpdate
	for _, in := range body.Instrs {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if upd != nil {
				return nil, nil, nil
			}
			upd = x
		case *ssa.Extract, *ssa.Jump, *ssa.DebugRef:
		default:
			return nil, nil, nil
		}
	}
	if upd == nil || !part(upd.Key, 1) || !part(upd.Value, 2) {
		return nil, nil, nil
	}
	rng, ok = next.Iter.(*ssa.Range)
	if !ok {
		return nil, nil, nil
	}
	to, ok = upd.Map.(*ssa.MakeMap)
	if !ok || len(exit.Preds) != 1 || !types.Identical(to.Type().Underlying(), rng.X.Type().Underlying()) {
		return nil, nil, nil
	}
	for _, r := range *to.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); dbg || r == upd {
			continue
		}
		if _, phi := r.(*ssa.Phi); phi || !exit.Dominates(r.Block()) {
			return nil, nil, nil
		}
	}
	return rng, to, exit
}
