package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FindFn resolves "pkg.Func", "pkg.Type.Method" (pkg relative, "" = goslice root).
func (w *World) FindFn(s string) *ssa.Function {
	parts := strings.Split(s, ".")
	rel := parts[0]
	if rel == "goslice" {
		rel = ""
	}
	switch len(parts) {
	case 2:
		return w.Func(rel, parts[1])
	case 3:
		return w.Method(w.TypeNamed(rel, parts[1]), parts[2])
	}
	return nil
}

func fmtTrace(w *World, ns []Node, ind string, sb *strings.Builder) {
	for _, n := range ns {
		switch {
		case n.Ev != nil:
			e := n.Ev
			var as []string
			for _, a := range e.Args {
				as = append(as, a.String())
			}
			fmt.Fprintf(sb, "%s%s %s(%s)", ind, e.Kind, e.Key, strings.Join(as, ", "))
			if e.Res != nil {
				fmt.Fprintf(sb, " = %s", e.Res)
			}
			fmt.Fprintf(sb, "   [%s]\n", w.Pos(e.Instr.Pos()))
		case n.Loop != nil:
			fmt.Fprintf(sb, "%sLOOP %s\n", ind, n.Loop.Name)
			for _, d := range n.Loop.Defs {
				fmt.Fprintf(sb, "%s  def %s init %s latch %v\n", ind, d.Sym, d.Init, d.Latch)
			}
			for i, b := range n.Loop.Bodies {
				fmt.Fprintf(sb, "%s  body %d facts %s\n", ind, i, factsFrom(b.Facts, n.Loop.NFact))
				fmtTrace(w, b.Trace, ind+"    ", sb)
			}
		case n.Exit != nil:
			fmt.Fprintf(sb, "%sEXIT %s\n", ind, n.Exit.Name)
		}
	}
}

func factsFrom(f *Facts, n int) string {
	var s []string
	for i, x := range f.List() {
		if i < n {
			continue
		}
		p := ""
		if !x.val {
			p = "!"
		}
		s = append(s, p+x.atom.String())
	}
	return strings.Join(s, " & ")
}

func dumpFn(w *World, it *Interp, name string) {
	fn := w.FindFn(name)
	if fn == nil {
		fmt.Println("not found", name)
		os.Exit(2)
	}
	ps, err := it.Run(fn, nil)
	fmt.Printf("%s: %d paths, err=%v\n", name, len(ps), err)
	for i, p := range ps {
		if i > 40 {
			break
		}
		var rs []string
		for _, r := range p.Ret {
			rs = append(rs, r.String())
		}
		fmt.Printf("-- path %d %s ret(%s)\n   facts %s\n", i, p.Kind, strings.Join(rs, ", "), factsFrom(p.Facts, 0))
		var sb strings.Builder
		fmtTrace(w, p.Trace, "   ", &sb)
		fmt.Print(sb.String())
	}
	for k, n := range it.Unknown {
		fmt.Println("unknown", k, n)
	}
}

func dumpRepo() string {
	if d := os.Getenv("GSVREPO"); d != "" {
		return d
	}
	return "/repo"
}
