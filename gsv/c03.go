package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "Output appears only after success, complete, and nothing else is touched", checkC03)
}

var stageKeys = []string{"handler.ModelReader.Read", "handler.ModelOptimizer.Optimize", "handler.ModelSlicer.Slice",
	"handler.LayerModifier.Modify", "handler.GCodeGenerator.Generate"}

// errOf gives the error result of a fallible call event.
func errOf(T *Terms, ev *Event) *Term {
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	sig := ci.Common().Signature()
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return nil
	}
	if n == 1 {
		return ev.Res
	}
	return resultOf(T, ev.Res, n-1, errorType)
}

func (w *World) processFn() *ssa.Function {
	return w.Method(w.TypeNamed("", "GoSlice"), "Process")
}

func checkC03(c *Ctx) {
	w := c.W
	c.Rule("C03.owner: in the call graph of the command every call that creates, changes or deletes a file or starts a program is inside an implementation of handler.GCodeWriter.Write")
	c.Rule("C03.order: Process calls Write only where the failures of Read, Optimize, Slice, every Modify and Generate are excluded, exactly once on every successful path, with the text returned by Generate and the configured output path, or the input path + \".gcode\" if it is empty")
	c.Rule("C03.writer: on every path of the writer that may return nil the file of the given name was created (truncated) once and the whole text was written to it once, unchanged; no path of the writer creates, changes or deletes anything else")

	// owner
	isWriter := func(f *ssa.Function) bool {
		return w.InRepo(f) && w.calleeKey(f, nil) == "handler.GCodeWriter.Write"
	}
	roots := w.mainRoots()
	r := w.reachable(roots, isWriter)
	nw, nf := 0, 0
	for _, f := range r.sorted() {
		if f.Object() == nil && f.Parent() == nil && f.Synthetic == "" {
			continue
		}
		if isWriter(f) {
			nw++
		}
		if !isStd(f) {
			nf++
		}
	}
	calls := 0
	for _, f := range r.sorted() {
		if !isStd(f) && !isWriter(f) {
			calls++
			c.fns[f] = true
		}
		if fsMutator(f) {
			by := r.From[f]
			// read-only OpenFile is harmless
			if f.Name() == "OpenFile" && !mutatingOpen(w, r, f) {
				continue
			}
			pos := r.Site[f].Pos()
			c.Oblige(false, "C03.owner", by, pos, "call of "+f.String(), "files are changed outside the writer: %s", r.chain(f))
		}
	}
	c.Oblige(true, "C03.owner", nil, 0, "reachable functions without file mutators", "")
	c.Count("reachable_functions", nf)
	c.AtLeast("C03.anchors", "writers reachable from main", nw, 1)
	c.AtLeast("C03.anchors", "functions reachable from main", nf, 150)

	// order
	fn := w.processFn()
	if fn == nil {
		c.Undecided("C03.order", nil, 0, "Process", "not found")
		return
	}
	it := NewInterp(w)
	it.Policy = boundary
	ps := c.Run(it, fn, nil)
	T := it.T
	writes := 0
	for _, p := range ps {
		var stages []evCtx
		var ws []evCtx
		modLoop := false
		walkEvents(p, func(e evCtx) {
			for _, k := range stageKeys {
				if e.Ev.Key == k {
					stages = append(stages, e)
				}
			}
			if e.Ev.Key == "handler.GCodeWriter.Write" {
				ws = append(ws, e)
			}
			if e.Ev.Key == "handler.LayerModifier.Modify" && len(e.Loops) > 0 {
				modLoop = true
			}
		})
		_ = modLoop
		for _, wr := range ws {
			writes++
			pos := wr.Ev.Instr.Pos()
			c.Oblige(len(wr.Loops) == 0 && len(ws) == 1, "C03.order", fn, pos, "one write", "the output is written more than once on a path")
			seen := map[string]bool{}
			for _, s := range stages {
				seen[s.Ev.Key] = true
				e := errOf(T, s.Ev)
				// inside a loop: the iteration must have excluded the error at its end
				f := wr.At
				if len(s.Loops) > 0 {
					f = s.Facts
				}
				c.Oblige(e != nil && T.Holds(f, T.RefEq(e, T.Nil())), "C03.order", fn, s.Ev.Instr.Pos(), "no write after failed "+s.Ev.Key,
					"the output file is written on a path where %s may have failed", s.Ev.Key)
			}
			for _, k := range stageKeys {
				c.Oblige(seen[k], "C03.order", fn, pos, "write after "+k, "the output is written on a path on which %s has not run", k)
			}
			// content and destination
			var gen *Event
			for _, s := range stages {
				if s.Ev.Key == "handler.GCodeGenerator.Generate" {
					gen = s.Ev
				}
			}
			if gen != nil && len(wr.Ev.Args) == 3 {
				c.Oblige(wr.Ev.Args[1] == resultOf(T, gen.Res, 0, types.Typ[types.String]), "C03.order", fn, pos, "written text is the generated text",
					"Write gets %s instead of the text returned by Generate", clipStr(wr.Ev.Args[1].String(), 200))
				// order: generate happens before write
				c.Oblige(gen.NFact <= wr.Ev.NFact, "C03.order", fn, pos, "generate before write", "")
			}
			if len(wr.Ev.Args) == 3 {
				d := wr.Ev.Args[2]
				outp := func(t *Term) bool { return isOpt(t, "GoSlice.OutputFilePath") || isOpt(t, "Options.OutputFilePath") }
				inp := func(t *Term) bool { return isOpt(t, "GoSlice.InputFilePath") || isOpt(t, "Options.InputFilePath") }
				empty, nonEmpty := false, false
				strEmpty(T, wr.Path.Facts, outp, &empty, &nonEmpty)
				switch {
				case outp(d):
					c.Oblige(nonEmpty, "C03.order", fn, pos, "configured path used", "the configured output path is used although it may be empty")
				default:
					ok := d.Op == OStrCat && len(d.Args) == 2 && inp(d.Args[0]) && d.Args[1].Op == OStr && d.Args[1].Sym == ".gcode"
					c.Oblige(ok, "C03.order", fn, pos, "default path", "the output path is neither the configured one nor the input path + .gcode: %s", clipStr(d.String(), 200))
					c.Oblige(empty, "C03.order", fn, pos, "default path only without configured path", "the default path is used although an output path may be configured")
				}
			}
		}
		if p.Kind == KReturn && len(ws) == 0 {
			c.Oblige(errNonNil(T, p.Facts, p.Ret[0]), "C03.order", fn, instrPos(p.Instr), "success implies written", "Process reports success on a path that never wrote the output")
		}
	}
	c.AtLeast("C03.anchors", "write paths in Process", writes, 2)

	// writer
	impls := 0
	n := w.TypeNamed("handler", "GCodeWriter")
	for _, m := range w.ImplMethods(n, "Write") {
		impls++
		c.checkWriter(m)
	}
	c.AtLeast("C03.anchors", "writer implementations", impls, 1)
}

func mutatingOpen(w *World, r *Reach, open *ssa.Function) bool {
	for f := range r.From {
		if isStd(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ci.Common().StaticCallee() != open {
					for _, op := range in.Operands(nil) {
						if op != nil && *op == open {
							return true
						}
					}
					continue
				}
				k, ok := ci.Common().Args[1].(*ssa.Const)
				if !ok || k.Int64() != 0 {
					return true
				}
			}
		}
	}
	return false
}

func strEmpty(T *Terms, f *Facts, is func(*Term) bool, empty, nonEmpty *bool) {
	f.Each(func(a *Term, v bool) {
		if a.Op == OEq && len(a.Args) == 2 {
			for i, x := range a.Args {
				o := a.Args[1-i]
				if is(x) && o.Op == OStr && o.Sym == "" {
					if v {
						*empty = true
					} else {
						*nonEmpty = true
					}
				}
			}
		}
		a.Contains(func(x *Term) bool {
			if x.Op == OLen && is(x.Args[0]) {
				if T.Holds(f, T.LeT(x, T.Int(0))) {
					*empty = true
				} else if T.Holds(f, T.Lt(T.Int(0), x)) {
					*nonEmpty = true
				}
			}
			return false
		})
	})
}

// asText: the string a byte slice or string argument denotes.
func asText(t *Term) *Term {
	t = strip(t)
	if t.Op == OFn && (t.Sym == "bytes" || t.Sym == "string") {
		return asText(t.Args[0])
	}
	return t
}

func (c *Ctx) checkWriter(fn *ssa.Function) {
	w := c.W
	it := NewInterp(w)
	ps := c.Run(it, fn, nil)
	T := it.T
	var text, name *Term
	args := it.ParamSyms(fn)
	if len(args) != 3 {
		c.Undecided("C03.writer", fn, fn.Pos(), "signature", "unexpected signature")
		return
	}
	text, name = args[1], args[2]
	good := 0
	for _, p := range ps {
		if p.Kind != KReturn {
			continue
		}
		// what was written to which handle
		var handle *Term
		var written []*Term
		opened, flushed := 0, true
		bufs := map[*Term]*Term{} // bufio writer -> handle
		okPath := true
		bad := ""
		isHandle := func(t *Term) bool { t = strip(t); return t == handle || bufs[t] == handle && handle != nil }
		walkEvents(p, func(e evCtx) {
			if e.Ev.Kind != "call" {
				return
			}
			ev := e.Ev
			inLoop := len(e.Loops) > 0
			switch {
			case ev.Key == "os.Create" || ev.Key == "os.OpenFile":
				opened++
				handle = resultOf(T, ev.Res, 0, nil)
				handle = ev.ResAt(T, 0)
				c.Oblige(ev.Args[0] == name, "C03.writer", fn, ev.Instr.Pos(), "created file is the given one", "the writer creates %s instead of the given file", clipStr(ev.Args[0].String(), 200))
				if ev.Key == "os.OpenFile" {
					fl, ok := ev.Args[1].ConstInt()
					const oCreate, oTrunc, oAppend, oW = 0x40, 0x200, 0x400, 3
					c.Oblige(ok && fl&oCreate != 0 && fl&oTrunc != 0 && fl&oAppend == 0 && fl&oW != 0, "C03.writer", fn, ev.Instr.Pos(), "file is truncated", "the file is opened without create and truncate: old content could remain")
				}
				if inLoop {
					okPath, bad = false, "file opened in a loop"
				}
			case ev.Key == "os.WriteFile" || ev.Key == "io/ioutil.WriteFile":
				opened++
				c.Oblige(ev.Args[0] == name, "C03.writer", fn, ev.Instr.Pos(), "created file is the given one", "the writer creates %s instead of the given file", clipStr(ev.Args[0].String(), 200))
				written = append(written, asText(ev.Args[1]))
				if inLoop {
					okPath, bad = false, "write in a loop"
				}
			case strings.HasPrefix(ev.Key, "bufio.NewWriter"):
				if strip(ev.Args[0]) == handle {
					bufs[ev.Res] = handle
				}
			case ev.Key == "os.File.WriteString" || ev.Key == "os.File.Write" || ev.Key == "io.WriteString" ||
				ev.Key == "bufio.Writer.WriteString" || ev.Key == "bufio.Writer.Write" || ev.Key == "io.Writer.Write" || ev.Key == "io.StringWriter.WriteString":
				if isHandle(ev.Args[0]) {
					written = append(written, asText(ev.Args[1]))
					if bufs[strip(ev.Args[0])] != nil {
						flushed = false
					}
					if inLoop {
						okPath, bad = false, "write in a loop"
					}
				}
			case ev.Key == "fmt.Fprint":
				if isHandle(ev.Args[0]) {
					es, ok := listElems(ev.Args[1])
					if ok && len(es) == 1 {
						written = append(written, asText(es[0]))
					} else {
						okPath, bad = false, "unknown text is written"
					}
					if bufs[strip(ev.Args[0])] != nil {
						flushed = false
					}
				}
			case ev.Key == "io.Copy":
				if isHandle(ev.Args[0]) {
					src := strip(ev.Args[1])
					if callKeyOf(src) == "strings.NewReader" || (src.Op == OFn && src.Sym == "strings.NewReader") {
						written = append(written, asText(src.Args[0]))
					} else {
						okPath, bad = false, "unknown text is written"
					}
				}
			case ev.Key == "bufio.Writer.Flush":
				flushed = true
			case ev.Key == "os.File.Close" || ev.Key == "os.File.Sync" || ev.Key == "os.File.Name":
				if ev.Key == "os.File.Close" && !flushed {
					okPath, bad = false, "closed before the buffer was flushed"
				}
			default:
				if ci, isCall := ev.Instr.(ssa.CallInstruction); isCall {
					if g := ci.Common().StaticCallee(); g != nil && fsMutator(g) {
						own, tidy := false, true
						switch ev.Key {
						case "os.Remove", "os.RemoveAll", "os.Truncate":
							// the file itself: before it is created or after a failure
							own = ev.Args[0] == name
							tidy = opened == 0 || errNonNil(T, p.Facts, p.Ret[len(p.Ret)-1])
						case "os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes":
							own = ev.Args[0] == name
						case "os.File.Chmod", "os.File.Chown":
							own = isHandle(ev.Args[0])
						case "os.File.Truncate":
							own, tidy = isHandle(ev.Args[0]), len(written) == 0
						}
						c.Oblige(own, "C03.writer", fn, ev.Instr.Pos(), "no other file is touched", "the writer calls %s with %s: something else than the given file is changed", ev.Key, clipStr(termList(ev.Args), 200))
						c.Oblige(!own || tidy, "C03.writer", fn, ev.Instr.Pos(), "the written file stays", "the writer calls %s after it has created the file", ev.Key)
					}
				}
				for _, a := range ev.Args {
					if handle != nil && a.Contains(func(t *Term) bool { return t == handle }) {
						okPath, bad = false, "the file is passed to "+ev.Key
					}
				}
			}
		})
		if errNonNil(T, p.Facts, p.Ret[len(p.Ret)-1]) {
			continue
		}
		// may succeed
		failed := false
		walkEvents(p, func(e evCtx) {
			if e.Ev.Key == "os.Create" || e.Ev.Key == "os.OpenFile" {
				if x := errOf(T, e.Ev); x != nil && T.Refuted(p.Facts, T.RefEq(x, T.Nil())) {
					failed = true // the returned error is that of opening the file (decided by C01)
				}
			}
		})
		if failed {
			continue
		}
		good++
		pos := instrPos(p.Instr)
		c.Oblige(okPath, "C03.writer", fn, pos, "written once", "%s", bad)
		c.Oblige(opened == 1, "C03.writer", fn, pos, "file created once", "the writer may succeed after creating %d files", opened)
		c.Oblige(len(written) == 1 && written[0] == text, "C03.writer", fn, pos, "complete text written", "the writer may succeed without having written exactly the given text (wrote %s)", clipStr(termList(written), 300))
		c.Oblige(flushed, "C03.writer", fn, pos, "buffer flushed", "the writer may succeed without flushing its buffer")
	}
	c.AtLeast("C03.anchors", "successful writer paths", good, 1)
}

func termList(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// ResAt gives the i-th result of a call event.
func (e *Event) ResAt(T *Terms, i int) *Term {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok || e.Res == nil {
		return nil
	}
	rs := ci.Common().Signature().Results()
	if rs.Len() < 2 {
		return e.Res
	}
	return resultOf(T, e.Res, i, rs.At(i).Type())
}
