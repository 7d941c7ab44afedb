package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C02", "The exit status of the command tells the truth", checkC02) }

// exitCode gives the constant exit status of a terminated path.
func exitCode(p *Path) (int64, bool) {
	switch p.Kind {
	case KReturn:
		return 0, true
	case KPanic:
		return 2, true
	case KExit:
		for i := len(p.Trace) - 1; i >= 0; i-- {
			e := p.Trace[i].Ev
			if e == nil {
				continue
			}
			if e.Key == "os.Exit" {
				// the system keeps the lowest eight bits
				k, ok := e.Args[0].ConstInt()
				return k & 0xff, ok
			}
			if strings.HasPrefix(e.Key, "log.") && strings.Contains(e.Key, "Fatal") {
				return 1, true
			}
		}
	}
	return 0, false
}

// isUsage: the event prints the usage of the flags.
func isUsage(e *Event) bool {
	if e.Kind != "call" {
		return false
	}
	return strings.Contains(e.Key, "spf13/pflag") && (strings.Contains(e.Key, "Usage") || strings.Contains(e.Key, "PrintDefaults"))
}

// isPrint: output to the terminal or a log.
func isPrint(e *Event) bool {
	if e.Kind != "call" {
		return false
	}
	switch {
	case strings.HasPrefix(e.Key, "fmt.Print"), strings.HasPrefix(e.Key, "log."), e.Key == "print", e.Key == "println":
		return true
	case strings.HasPrefix(e.Key, "fmt.Fprint"), e.Key == "io.WriteString", strings.HasPrefix(e.Key, "os.File.Write"), e.Key == "io.Writer.Write":
		return toTerminal(e.Args)
	}
	return false
}

// factsAbout lists the decided atoms that satisfy pred.
func factsAbout(f *Facts, pred func(*Term) bool) (t, fl bool) {
	f.Each(func(a *Term, v bool) {
		if pred(a) {
			if v {
				t = true
			} else {
				fl = true
			}
		}
	})
	return
}

func checkC02(c *Ctx) {
	w := c.W
	c.Rule("C02.exit: on every abstract path of main the exit status is a constant; it is 0 only if the version was printed because PrintVersion is set or Process ran and its error is excluded; a path that ran Process without error exits 0")
	c.Rule("C02.input: Process runs only if an input file is given; without one (and without -v) the usage is printed, the status is non-zero and no slicer is created")
	c.Rule("C02.report: if Process may have failed the status is non-zero and the error value reaches an output statement")
	c.Rule("C02.wiring: NewGoSlice receives the parsed options, Process runs on the object it returned, once")
	c.Rule("C02.noescape: nothing else in the repository ends the process with status 0 and nothing recovers from a panic")
	fn := w.Func("cmd/goslice", "main")
	if fn == nil {
		c.Undecided("C02.exit", nil, 0, "main", "cmd/goslice.main not found")
		return
	}
	it := NewInterp(w)
	it.Policy = func(ci *CallInfo) Action {
		switch ci.Key {
		case "data.ParseFlags", "goslice.NewGoSlice", "goslice.GoSlice.Process":
			return AEvent
		}
		return ADefault
	}
	ps := c.Run(it, fn, nil)
	var nProc, nUsage, nVersion int
	for _, p := range ps {
		code, ok := exitCode(p)
		pos := instrPos(p.Instr)
		if pos == 0 {
			pos = fn.Pos()
		}
		if p.Kind == KPanic {
			continue // loud abort
		}
		if !c.Oblige(ok, "C02.exit", fn, pos, "exit status is constant", "the exit status of a path of main cannot be determined (facts: %s)", clipStr(factsFrom(p.Facts, 0), 300)) {
			continue
		}
		var parse, newG, proc, usage, version *Event
		procs := 0
		printed := []*Event{}
		walkEvents(p, func(e evCtx) {
			switch e.Ev.Key {
			case "data.ParseFlags":
				parse = e.Ev
			case "goslice.NewGoSlice":
				newG = e.Ev
			case "goslice.GoSlice.Process":
				proc = e.Ev
				procs++
			}
			if isUsage(e.Ev) {
				usage = e.Ev
			}
			if isPrint(e.Ev) {
				printed = append(printed, e.Ev)
				for _, a := range e.Ev.Args {
					if a.Contains(func(t *Term) bool { return t.Op == OGlobal && strings.HasSuffix(t.Sym, ".Version") }) {
						version = e.Ev
					}
				}
			}
		})
		c.Oblige(parse != nil, "C02.wiring", fn, pos, "options are parsed", "main ends without parsing the command line")
		if parse == nil {
			continue
		}
		optIs := func(path string) func(*Term) bool {
			return func(t *Term) bool {
				return isOpt(t, path) && t.Contains(func(x *Term) bool { return x == parse.Res })
			}
		}
		pvTrue, _ := factsAbout(p.Facts, optIs("GoSlice.PrintVersion"))
		// is the input path empty?
		var empty, nonEmpty bool
		p.Facts.Each(func(a *Term, v bool) {
			isIn := false
			switch a.Op {
			case OEq:
				var other *Term
				for i, x := range a.Args {
					if optIs("GoSlice.InputFilePath")(x) {
						isIn = true
						other = a.Args[1-i]
					}
				}
				if isIn && !(other.Op == OStr && other.Sym == "") {
					isIn = false
				}
				if isIn {
					if v {
						empty = true
					} else {
						nonEmpty = true
					}
				}
			}
		})
		// length tests
		if !empty && !nonEmpty {
			p.Facts.Each(func(a *Term, v bool) {
				a.Contains(func(x *Term) bool {
					if x.Op == OLen && optIs("GoSlice.InputFilePath")(x.Args[0]) {
						if it.T.Holds(p.Facts, it.T.NumEq(x, it.T.Int(0))) || it.T.Holds(p.Facts, it.T.LeT(x, it.T.Int(0))) {
							empty = true
						} else if it.T.Holds(p.Facts, it.T.Lt(it.T.Int(0), x)) {
							nonEmpty = true
						}
					}
					return false
				})
			})
		}
		if newG != nil {
			c.Oblige(len(newG.Args) == 1 && newG.Args[0] == parse.Res, "C02.wiring", newG.Fn, newG.Instr.Pos(), "NewGoSlice gets the parsed options", "NewGoSlice is called with something else than the parsed options: %s", clipStr(newG.Args[0].String(), 200))
		}
		if proc != nil {
			nProc++
			c.Oblige(procs == 1, "C02.wiring", proc.Fn, proc.Instr.Pos(), "Process runs once", "Process is called %d times", procs)
			c.Oblige(newG != nil && proc.Args[0] == newG.Res, "C02.wiring", proc.Fn, proc.Instr.Pos(), "Process runs on the new slicer", "Process does not run on the object returned by NewGoSlice")
			c.Oblige(nonEmpty, "C02.input", proc.Fn, proc.Instr.Pos(), "Process needs an input file", "Process runs on a path where the input file may be empty")
			failExcluded := it.T.Holds(p.Facts, it.T.RefEq(proc.Res, it.T.Nil()))
			if failExcluded {
				c.Oblige(code == 0, "C02.exit", fn, pos, "success exits 0", "Process succeeded but the exit status is %d", code)
			} else {
				c.Oblige(code != 0, "C02.report", proc.Fn, proc.Instr.Pos(), "failure exits non-zero", "Process may have failed on a path that exits with status 0")
				rep := false
				for _, e := range printed {
					for _, a := range e.Args {
						if a.Contains(func(t *Term) bool { return t == proc.Res }) {
							rep = true
						}
					}
				}
				c.Oblige(rep, "C02.report", proc.Fn, proc.Instr.Pos(), "failure is reported", "the error of Process is not printed on a path where it may have failed")
			}
			continue
		}
		c.Oblige(newG == nil, "C02.input", fn, pos, "no slicer without processing", "a slicer is created but not run")
		if pvTrue && version != nil {
			nVersion++
			c.Oblige(code == 0, "C02.exit", fn, pos, "printing the version exits 0", "the version is printed but the exit status is %d", code)
			continue
		}
		c.Oblige(code != 0, "C02.exit", fn, pos, "status 0 without result", "main exits with status 0 although it neither processed a model nor printed the version (facts: %s)", clipStr(factsFrom(p.Facts, 0), 300))
		if empty {
			nUsage++
			c.Oblige(usage != nil, "C02.input", fn, pos, "usage is printed", "without an input file main exits without printing the usage")
		}
	}
	c.AtLeast("C02.anchors", "paths that process a model", nProc, 2)
	c.AtLeast("C02.anchors", "paths that print the version", nVersion, 1)
	c.AtLeast("C02.anchors", "paths without input file", nUsage, 1)

	// nothing else ends the process successfully
	sites := 0
	for _, f := range w.RepoFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					c.Oblige(false, "C02.noescape", f, in.Pos(), "recover", "a recovered panic would not be reported in the exit status")
				}
				cal := ci.Common().StaticCallee()
				if cal == nil || fnPkg(cal) == nil {
					continue
				}
				key := w.calleeKey(cal, nil)
				if key == "os.Exit" || key == "syscall.Exit" || key == "runtime.Goexit" {
					sites++
					if fnPkg(f) == fnPkg(fn) {
						continue // decided on the paths of main
					}
					k, isC := ci.Common().Args[0].(*ssa.Const)
					c.Oblige(isC && k.Value != nil && k.Int64()&0xff != 0, "C02.noescape", f, in.Pos(), "os.Exit outside of main", "%s may end the process with status 0", FnName(f))
				}
			}
		}
	}
	c.Count("exit_sites", sites)
	_ = types.Typ
	_ = big.NewRat
}
