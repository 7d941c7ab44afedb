package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "Every setting has exactly one command line flag, bound to itself", checkC08)
}

// flagTable: the documented flags and the setting each is named for.
var flagTable = map[string]string{
	"version":                      "GoSlice.PrintVersion",
	"output":                       "GoSlice.OutputFilePath",
	"meld-distance":                "Slicing.MeldDistance",
	"join-polygon-snap-distance":   "Slicing.JoinPolygonSnapDistance",
	"finish-polygon-snap-distance": "Slicing.FinishPolygonSnapDistance",
	"initial-layer-speed":          "Print.IntialLayerSpeed",
	"layer-speed":                  "Print.LayerSpeed",
	"outer-perimeter-speed":        "Print.OuterPerimeterSpeed",
	"move-speed":                   "Print.MoveSpeed",
	"initial-layer-thickness":      "Print.InitialLayerThickness",
	"layer-thickness":              "Print.LayerThickness",
	"inset-count":                  "Print.InsetCount",
	"infill-overlap-percent":       "Print.InfillOverlapPercent",
	"additional-internal-infill-overlap-percent": "Print.AdditionalInternalInfillOverlapPercent",
	"infill-percent":                  "Print.InfillPercent",
	"infill-rotation-degree":          "Print.InfillRotationDegree",
	"infill-zig-zag":                  "Print.InfillZigZag",
	"number-bottom-layers":            "Print.NumberBottomLayers",
	"number-top-layers":               "Print.NumberTopLayers",
	"support-enabled":                 "Print.Support.Enabled",
	"support-threshold-angle":         "Print.Support.ThresholdAngle",
	"support-top-gap-layers":          "Print.Support.TopGapLayers",
	"support-interface-layers":        "Print.Support.InterfaceLayers",
	"support-pattern-spacing":         "Print.Support.PatternSpacing",
	"support-gap":                     "Print.Support.Gap",
	"skirt-count":                     "Print.BrimSkirt.SkirtCount",
	"skirt-distance":                  "Print.BrimSkirt.SkirtDistance",
	"brim-count":                      "Print.BrimSkirt.BrimCount",
	"filament-diameter":               "Filament.FilamentDiameter",
	"initial-bed-temperature":         "Filament.InitialBedTemperature",
	"initial-hot-end-temperature":     "Filament.InitialHotEndTemperature",
	"bed-temperature":                 "Filament.BedTemperature",
	"hot-end-temperature":             "Filament.HotEndTemperature",
	"initial-temperature-layer-count": "Filament.InitialTemperatureLayerCount",
	"retraction-speed":                "Filament.RetractionSpeed",
	"retraction-length":               "Filament.RetractionLength",
	"retraction-z-hop":                "Filament.RetractionZHop",
	"fan-speed":                       "Filament.FanSpeed",
	"extrusion-multiplier":            "Filament.ExtrusionMultiplier",
	"extrusion-width":                 "Printer.ExtrusionWidth",
	"center":                          "Printer.Center",
	"force-safe-gcode":                "Printer.ForceSafeStartStopGCode",
	"has-heated-bed":                  "Printer.HasHeatedBed",
	"start-gcode":                     "Printer.StartGCode",
	"end-gcode":                       "Printer.EndGCode",
}

var flagShort = map[string]string{"version": "v", "output": "o"}

const pflagPkg = "github.com/spf13/pflag."

type boundFlag struct {
	name, short string
	addr        *Term
	typ         types.Type
	in          ssa.Instruction
	fn          *ssa.Function
}

// optLeaf is one setting.
type optLeaf struct {
	path string
	typ  types.Type
	idx  []int
}

// optLeaves enumerates the settings: struct fields, a type which can be set from text as a whole counts as one.
func optLeaves(t types.Type, path string, idx []int) []optLeaf {
	s := structOf(t)
	isVal := false
	if n, ok := t.(*types.Named); ok {
		ms := types.NewMethodSet(types.NewPointer(n))
		isVal = ms.Lookup(n.Obj().Pkg(), "Set") != nil && ms.Lookup(n.Obj().Pkg(), "Type") != nil
	}
	if s == nil || isVal {
		return []optLeaf{{path, t, idx}}
	}
	var r []optLeaf
	for i := 0; i < s.NumFields(); i++ {
		p := s.Field(i).Name()
		if path != "" {
			p = path + "." + p
		}
		r = append(r, optLeaves(s.Field(i).Type(), p, append(append([]int{}, idx...), i))...)
	}
	return r
}

// flagRun analyses ParseFlags with all or no flags given.
type flagRun struct {
	it     *Interp
	fn     *ssa.Function
	paths  []*Path
	flags  []*boundFlag
	parsed map[*State]bool
	bad    []string
}

func (c *Ctx) flagRun(given bool) *flagRun {
	fn := c.W.Func("data", "ParseFlags")
	if fn == nil {
		c.Undecided("C08.bind", nil, 0, "ParseFlags", "not found")
		return nil
	}
	r := &flagRun{fn: fn}
	it := NewInterp(c.W)
	it.Unroll = true
	r.it = it
	T := it.T
	byInstr := map[string]*boundFlag{}
	args := T.SymT("flag.Args", types.NewSlice(types.Typ[types.String]))
	ev := func(ci *CallInfo) {
		it.event(ci.Frame, ci.St, ci.Instr.(ssa.Instruction), "call", ci.Key, ci.Args, nil)
	}
	done := func(ci *CallInfo, ret *Term) (bool, []ModelOut) {
		return true, []ModelOut{{St: ci.St, Kind: KReturn, Ret: ret}}
	}
	it.Model = func(ci *CallInfo) (bool, []ModelOut) {
		if !strings.HasPrefix(ci.Key, pflagPkg) {
			return false, nil
		}
		name := strings.TrimPrefix(ci.Key, pflagPkg)
		a := ci.Args
		if strings.HasPrefix(name, "FlagSet.") {
			name = name[len("FlagSet."):]
			if len(a) > 0 {
				a = a[1:]
			}
		}
		sig := ci.Sig
		par := map[string]*Term{}
		ptyp := map[string]types.Type{}
		for i := 0; i < sig.Params().Len() && i < len(a); i++ {
			par[sig.Params().At(i).Name()] = a[i]
			ptyp[sig.Params().At(i).Name()] = sig.Params().At(i).Type()
		}
		isVar := strings.HasSuffix(name, "Var") || strings.HasSuffix(name, "VarP") || name == "VarPF"
		switch {
		case isVar && par["name"] != nil:
			ev(ci)
			b := &boundFlag{in: ci.Instr.(ssa.Instruction), fn: ci.Frame.fn}
			if par["name"].Op != OStr || par["shorthand"] != nil && par["shorthand"].Op != OStr {
				r.bad = append(r.bad, "flag without a constant name: "+clipT(par["name"]))
				return done(ci, nil)
			}
			b.name = par["name"].Sym
			if par["shorthand"] != nil {
				b.short = par["shorthand"].Sym
			}
			if p := par["p"]; p != nil {
				b.addr = p
				b.typ = ptyp["p"].(*types.Pointer).Elem()
				it.storeAddr(ci.St, p, b.typ, par["value"]) // the default
			} else if v := par["value"]; v != nil && v.Op == OIface {
				pt, ok := v.Typ.Underlying().(*types.Pointer)
				if !ok {
					r.bad = append(r.bad, "flag "+b.name+" is bound to something that cannot be changed: "+v.Typ.String())
					return done(ci, nil)
				}
				b.addr, b.typ = v.Args[0], pt.Elem()
			} else {
				r.bad = append(r.bad, "flag "+b.name+" is bound to an unknown value")
				return done(ci, nil)
			}
			k := it.siteName(ci.Frame, b.in) + "|" + b.name
			if byInstr[k] == nil {
				byInstr[k] = b
				r.flags = append(r.flags, b)
			}
			return done(ci, nil)
		case name == "Parse":
			ev(ci)
			if given {
				for _, b := range r.flags {
					it.storeAddr(ci.St, b.addr, b.typ, T.SymT("parsed⟨"+b.name+"⟩", b.typ))
				}
			}
			var ret *Term
			if sig.Results().Len() > 0 {
				ret = T.Nil()
			}
			return done(ci, ret)
		case name == "NArg":
			ev(ci)
			return done(ci, T.Len(args))
		case name == "Args":
			ev(ci)
			return done(ci, args)
		case name == "Arg":
			ev(ci)
			return done(ci, T.Fnc("flag.Arg", types.Typ[types.String], a[0]))
		case name == "PrintDefaults", name == "NewFlagSet", name == "SetOutput", name == "FlagUsages", name == "Changed", name == "Lookup", name == "Parsed":
			return false, nil
		}
		ev(ci)
		r.bad = append(r.bad, "unexpected use of the flag library: "+name)
		return false, nil
	}
	r.paths = c.Run(it, fn, it.ParamSyms(fn))
	return r
}

func checkC08(c *Ctx) {
	c.Rule("C08.bind: every flag of the documented table exists once, with its short form, and with all flags given every setting of the returned options holds exactly the parsed value of its own flag")
	c.Rule("C08.all: every setting of the slicing, print, filament and printer groups has a flag; no setting has two")
	c.Rule("C08.default: with no flag given every setting of the returned options is that of DefaultOptions")
	c.Rule("C08.input: the input file is the first positional argument, read after parsing, and empty if there is none; the flags are parsed exactly once, after all were registered")
	r := c.flagRun(true)
	if r == nil {
		return
	}
	optT := c.W.TypeNamed("data", "Options")
	if optT == nil {
		c.Undecided("C08.bind", nil, 0, "Options", "type not found")
		return
	}
	it, T, fn := r.it, r.it.T, r.fn
	for _, b := range r.bad {
		c.Oblige(false, "C08.bind", fn, fn.Pos(), "flag", "%s", b)
	}
	leaves := optLeaves(optT, "", nil)
	names := map[string]*boundFlag{}
	for _, b := range r.flags {
		c.Oblige(names[b.name] == nil, "C08.all", b.fn, b.in.Pos(), "flag "+b.name, "the flag is registered twice")
		names[b.name] = b
	}
	var ns []string
	for n := range flagTable {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		b := names[n]
		if c.Oblige(b != nil, "C08.bind", fn, fn.Pos(), "flag "+n, "the documented flag --%s is not registered", n) && flagShort[n] != "" {
			c.Oblige(b.short == flagShort[n], "C08.bind", b.fn, b.in.Pos(), "short form of "+n, "the short form is %q instead of %q", b.short, flagShort[n])
		}
	}
	c.AtLeast("C08.anchors", "settings", len(leaves), len(flagTable))
	c.AtLeast("C08.anchors", "flags", len(r.flags), len(flagTable))
	want := map[string]string{}
	for n, p := range flagTable {
		want[p] = n
	}
	// each setting holds the value of its flag
	none := 0
	for _, p := range r.paths {
		if p.Kind != KReturn || len(p.Ret) != 1 {
			continue
		}
		c.parseOrder(r, p)
		for _, l := range leaves {
			v := leafVal(it, p.Ret[0], optT, l)
			got := parsedFlag(it, p.St, v, l.typ)
			wantFlag := want[l.path]
			group := l.path[:strings.IndexByte(l.path+".", '.')]
			switch {
			case l.path == "GoSlice.InputFilePath":
				c.inputArg(r, p, v)
			case wantFlag != "":
				pos := fn.Pos()
				if b := names[wantFlag]; b != nil {
					pos = b.in.Pos()
				}
				c.Oblige(got == wantFlag, "C08.bind", fn, pos, "setting "+l.path, "with all flags given the setting holds %s instead of the value of --%s", clipT(v), wantFlag)
			case group == "GoSlice":
				// not settable by a flag (logger)
				c.Oblige(got == "" || flagTable[got] == "", "C08.all", fn, fn.Pos(), "setting "+l.path, "the setting is changed by --%s", got)
				none++
			default:
				c.Oblige(got != "" && flagTable[got] == "", "C08.all", fn, fn.Pos(), "setting "+l.path, "the setting has no flag of its own: it holds %s", clipT(v))
			}
		}
	}
	// no two flags write to the same place, every flag sets a setting
	for i, a := range r.flags {
		for _, b := range r.flags[:i] {
			c.Oblige(a.addr != b.addr, "C08.all", a.fn, a.in.Pos(), "flags "+a.name+", "+b.name, "both flags set the same setting")
		}
		used := false
		for _, p := range r.paths {
			if p.Kind == KReturn && len(p.Ret) == 1 {
				for _, l := range leaves {
					used = used || parsedFlag(it, p.St, leafVal(it, p.Ret[0], optT, l), l.typ) == a.name
				}
			}
		}
		c.Oblige(used, "C08.bind", a.fn, a.in.Pos(), "flag "+a.name, "the value of the flag does not reach any setting")
	}
	// defaults
	d := c.flagRun(false)
	def := c.W.Func("data", "DefaultOptions")
	if d == nil || def == nil {
		c.Undecided("C08.default", fn, fn.Pos(), "DefaultOptions", "not found")
		return
	}
	dit := d.it
	dps, err := NewInterpWith(dit).RunFrom(def, nil, dit.NewState(), nil)
	if err != nil || len(dps) != 1 || len(dps[0].Ret) != 1 {
		c.Undecided("C08.default", def, def.Pos(), "DefaultOptions", "not understood: %v", err)
		return
	}
	n := 0
	for _, p := range d.paths {
		if p.Kind != KReturn || len(p.Ret) != 1 {
			continue
		}
		for _, l := range leaves {
			if l.path == "GoSlice.InputFilePath" {
				continue
			}
			n++
			a := showLeaf(c, dit, p, leafVal(dit, p.Ret[0], optT, l), l.typ)
			b := showLeaf(c, dit, dps[0], leafVal(dit, dps[0].Ret[0], optT, l), l.typ)
			c.Oblige(a == b, "C08.default", fn, fn.Pos(), "default of "+l.path, "without any flag the setting is %s instead of its default %s", clipStr(a, 120), clipStr(b, 120))
		}
	}
	c.AtLeast("C08.anchors", "default values", n, 45)
	_ = T
}

// NewInterpWith is an interpreter on the same terms.
func NewInterpWith(it *Interp) *Interp { ch := it.child(); ch.Model = nil; ch.Unroll = true; return ch }

func leafVal(it *Interp, v *Term, t types.Type, l optLeaf) *Term {
	for _, i := range l.idx {
		s := structOf(t)
		v = it.T.FieldOf(v, s.Field(i).Name(), i, s.Field(i).Type())
		t = s.Field(i).Type()
	}
	return v
}

// parsedFlag: the value is exactly what was parsed for a flag.
func parsedFlag(it *Interp, st *State, v *Term, typ types.Type) string {
	get := func(t *Term) string {
		if t != nil && t.Op == OSym && strings.HasPrefix(t.Sym, "parsed⟨") {
			return strings.TrimSuffix(strings.TrimPrefix(t.Sym, "parsed⟨"), "⟩")
		}
		return ""
	}
	if n := get(v); n != "" {
		return n
	}
	if _, ok := typ.Underlying().(*types.Interface); ok {
		// an object: its coordinates
		name := ""
		for i, m := range []string{"X", "Y", "Z"} {
			x := it.invokeOn(st, v, typ, m)
			if x == nil || x.Op != OField || get(x.Args[0]) == "" {
				return ""
			}
			fi := -1
			if s := structOf(x.Args[0].Typ); s != nil {
				for k := 0; k < s.NumFields(); k++ {
					if s.Field(k).Name() == x.Sym {
						fi = k
					}
				}
			}
			if fi != i || name != "" && name != get(x.Args[0]) {
				return ""
			}
			name = get(x.Args[0])
		}
		return name
	}
	if s := structOf(typ); s != nil && v != nil && v.Op == OStruct {
		name := ""
		for i, f := range v.Args {
			if f.Op != OField || f.Sym != s.Field(i).Name() || get(f.Args[0]) == "" || name != "" && name != get(f.Args[0]) {
				return ""
			}
			name = get(f.Args[0])
		}
		return name
	}
	return ""
}

var siteRe = regexp.MustCompile(`@:[^ ,)}\]⟩]*`)

// showLeaf renders a value independently of where it was made.
func showLeaf(c *Ctx, it *Interp, p *Path, v *Term, typ types.Type) string {
	if v == nil {
		return "?"
	}
	clean := func(s string) string { return siteRe.ReplaceAllString(s, "") }
	switch u := typ.Underlying().(type) {
	case *types.Interface:
		if hasMethod(c.W, typ, "X") {
			s := ""
			for _, m := range []string{"X", "Y", "Z"} {
				s += fmt.Sprint(it.invokeOn(p.St, v, typ, m)) + " "
			}
			return s
		}
	case *types.Slice:
		return clean(it.listVal(p.St, v, u.Elem()).String())
	case *types.Struct:
		s := ""
		for i := 0; i < u.NumFields(); i++ {
			s += u.Field(i).Name() + "=" + showLeaf(c, it, p, it.T.FieldOf(v, u.Field(i).Name(), i, u.Field(i).Type()), u.Field(i).Type()) + ";"
		}
		return s
	case *types.Map:
		s := clean(v.String()) + "{"
		walkEvents(p, func(e evCtx) {
			if e.Ev.Kind == "mapset" && e.Ev.Args[0] == v {
				s += clean(e.Ev.Args[1].String()+":"+e.Ev.Args[2].String()) + ","
				if len(e.Loops) > 0 {
					s += "(loop)"
				}
			}
		})
		return s + "}"
	case *types.Pointer:
		return clean(v.String())
	}
	return clean(v.String())
}

// parseOrder: all flags are registered, then parsed once.
func (c *Ctx) parseOrder(r *flagRun, p *Path) {
	const R = "C08.input"
	parses, late := 0, false
	bound := map[string]bool{}
	walkEvents(p, func(e evCtx) {
		k := e.Ev.Key
		if e.Ev.Kind != "call" || !strings.HasPrefix(k, pflagPkg) {
			return
		}
		switch {
		case strings.HasSuffix(k, ".Parse"):
			parses++
			if k == pflagPkg+"FlagSet.Parse" {
				ok := len(e.Ev.Args) == 2 && strings.Contains(e.Ev.Args[1].String(), "os.Args") && e.Ev.Args[1].Op == OSub && e.Ev.Args[1].Args[1].IsInt(1)
				c.Oblige(ok, R, e.Ev.Fn, e.Ev.Instr.Pos(), "parsed arguments", "not the arguments of the command are parsed: %s", clipT(e.Ev.Args[len(e.Ev.Args)-1]))
			}
			c.Oblige(len(e.Loops) == 0, R, e.Ev.Fn, e.Ev.Instr.Pos(), "flags parsed", "the flags are parsed in a loop")
		case strings.HasSuffix(k, "Var") || strings.HasSuffix(k, "VarP"):
			if parses > 0 {
				late = true
			}
			for _, a := range e.Ev.Args {
				if a != nil && a.Op == OStr && flagTable[a.Sym] != "" {
					bound[a.Sym] = true
				}
			}
			c.Oblige(len(e.Loops) == 0, R, e.Ev.Fn, e.Ev.Instr.Pos(), "flag registered", "a flag is registered in a loop that is not understood")
		case strings.HasSuffix(k, ".NArg") || strings.HasSuffix(k, ".Args") || strings.HasSuffix(k, ".Arg"):
			c.Oblige(parses > 0, R, e.Ev.Fn, e.Ev.Instr.Pos(), "positional arguments", "the positional arguments are read before the flags were parsed")
		}
	})
	c.Oblige(parses == 1, R, r.fn, r.fn.Pos(), "flags parsed", "the flags are parsed %d times on a path", parses)
	c.Oblige(!late, R, r.fn, r.fn.Pos(), "flags registered", "a flag is registered after the flags were parsed")
	for n := range flagTable {
		if !bound[n] {
			c.Oblige(false, "C08.bind", r.fn, r.fn.Pos(), "flag "+n, "the flag is not registered on every path")
		}
	}
}

// inputArg: the input file is the first positional argument.
func (c *Ctx) inputArg(r *flagRun, p *Path, v *Term) {
	T := r.it.T
	args := T.SymT("flag.Args", types.NewSlice(types.Typ[types.String]))
	some := T.Lt(T.Int(0), T.Len(args))
	first := v != nil && v.Op == OFn && v.Sym == "flag.Arg" && v.Args[0].IsInt(0)
	if b, i, ok := elemOf(v); ok && b == args && i.IsInt(0) && T.Holds(p.Facts, some) {
		first = true
	}
	if !first && v != nil && v.Op == OStr && v.Sym == "" && T.Refuted(p.Facts, some) {
		first = true
	}
	c.Oblige(first, "C08.input", r.fn, r.fn.Pos(), "input file", "the input file is %s (%s)", clipT(v), clipStr(p.Facts.String(), 150))
}
