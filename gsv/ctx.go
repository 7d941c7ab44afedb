package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one construct that breaks a property (or that could not be decided).
type Finding struct {
	Rule string // rule applied
	Fn   string // function
	What string // stable description of the construct (no line numbers)
	Pos  string
	Msg  string
}

// Key identifies the construct independent of line numbers.
func (f Finding) Key() string { return f.Rule + "|" + f.Fn + "|" + f.What }

// Ctx collects what one check analysed and found.
type Ctx struct {
	ID       string
	Tier     string
	W        *World
	Findings []Finding
	seen     map[string]bool

	obligations int
	discharged  int
	samples     []string
	fns         map[*ssa.Function]bool
	paths       int
	sites       map[ssa.Instruction]bool
	rules       []string
	counts      map[string]int
	acc         map[*ssa.Function]bool // attribute accessors
	notes       []string
}

func NewCtx(id, tier string, w *World) *Ctx {
	return &Ctx{ID: id, Tier: tier, W: w, seen: map[string]bool{}, fns: map[*ssa.Function]bool{},
		sites: map[ssa.Instruction]bool{}, counts: map[string]int{}}
}

// Rule documents a rule that this run applied.
func (c *Ctx) Rule(s string) { c.rules = append(c.rules, s) }

// Oblige records a proof obligation and, if it is not met, a finding.
func (c *Ctx) Oblige(ok bool, rule string, fn *ssa.Function, pos token.Pos, what, msg string, a ...interface{}) bool {
	c.obligations++
	name := "-"
	if fn != nil {
		name = FnName(topFn(fn))
		c.fns[fn] = true
	}
	if ok {
		c.discharged++
		if len(c.samples) < 12 || (len(c.samples) < 40 && !c.seen["s:"+rule]) {
			c.seen["s:"+rule] = true
			c.samples = append(c.samples, fmt.Sprintf("%s: %s in %s (%s): holds", rule, what, name, c.W.Pos(pos)))
		}
		return true
	}
	f := Finding{Rule: rule, Fn: name, What: what, Pos: c.W.Pos(pos), Msg: fmt.Sprintf(msg, a...)}
	if !c.seen[f.Key()] {
		c.seen[f.Key()] = true
		c.Findings = append(c.Findings, f)
	}
	return false
}

// Count measures something for the evidence.
func (c *Ctx) Count(name string, n int) { c.counts[name] += n }

// AtLeast is an instance-count obligation: an anchor that vanished would make a rule vacuous.
func (c *Ctx) AtLeast(rule, what string, n, min int) {
	c.Oblige(n >= min, rule, nil, token.NoPos, "instances of "+what,
		"found %d instances of %s, at least %d expected: the rule lost its anchor", n, what, min)
}

// Fail records that the analysis could not decide.
func (c *Ctx) Undecided(rule string, fn *ssa.Function, pos token.Pos, what, msg string, a ...interface{}) {
	c.Oblige(false, rule, fn, pos, what, "undecided: "+msg, a...)
}

func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// Run runs the interpreter and accounts for what it covered.
func (c *Ctx) Run(it *Interp, fn *ssa.Function, args []*Term) []*Path {
	return c.RunFrom(it, fn, args, nil, nil)
}

func (c *Ctx) RunFrom(it *Interp, fn *ssa.Function, args []*Term, st *State, bind []*Term) []*Path {
	if fn == nil {
		return nil
	}
	ps, err := c.tryRun(it, fn, args, st, bind)
	if err != nil {
		c.Undecided("engine", fn, fn.Pos(), "abstract execution", "%v", err)
	}
	return ps
}

// tryRun leaves it to the caller what to do if the function could not be executed to its end.
func (c *Ctx) tryRun(it *Interp, fn *ssa.Function, args []*Term, st *State, bind []*Term) ([]*Path, error) {
	it.entryNo = map[string]int{}
	ps, err := it.RunFrom(fn, args, st, bind)
	for f := range it.FnsSeen {
		c.fns[f] = true
	}
	c.paths += len(ps)
	for _, p := range ps {
		c.countTrace(p.Trace)
	}
	return ps, err
}

func (c *Ctx) countTrace(ns []Node) {
	for _, n := range ns {
		if n.Ev != nil {
			c.sites[n.Ev.Instr] = true
		}
		if n.Loop != nil {
			c.paths += len(n.Loop.Bodies)
			for _, b := range n.Loop.Bodies {
				c.countTrace(b.Trace)
			}
		}
	}
}

type known struct {
	prop, key, text string
}

func loadKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var res []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<key> :: <text>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			return nil, fmt.Errorf("malformed line in %s: %s", path, l)
		}
		res = append(res, known{l[:i], l[i+5 : j], l[j+4:]})
	}
	return res, sc.Err()
}

// checkDef is a registered check.
type checkDef struct {
	id    string
	title string
	run   func(c *Ctx)
}

var checks = map[string]*checkDef{}

func register(id, title string, run func(c *Ctx)) {
	checks[id] = &checkDef{id, title, run}
}

// runCheck runs one property's rules on a loaded program.
func runCheck(d *checkDef, w *World, tier string) (c *Ctx) {
	c = NewCtx(d.id, tier, w)
	defer func() {
		if r := recover(); r != nil {
			c.Undecided("engine", nil, token.NoPos, "analysis aborted", "%v\n%s", r, debug.Stack())
		}
	}()
	d.run(c)
	return c
}

func cmdCheck(id, repo, verif, tier string) int {
	start := time.Now()
	d := checks[id]
	if d == nil {
		fmt.Println("no such check", id)
		return 2
	}
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, id+".report.txt")
	var c *Ctx
	w, err := Load(repo, nil)
	if err != nil {
		c = NewCtx(id, tier, &World{Fset: token.NewFileSet()})
		c.Findings = append(c.Findings, Finding{Rule: "load", Fn: "-", What: "the program does not type-check", Msg: err.Error()})
		c.obligations++
	} else {
		c = runCheck(d, w, tier)
	}
	ks, kerr := loadKnown(filepath.Join(verif, "known_findings.txt"))
	if kerr != nil {
		c.Findings = append(c.Findings, Finding{Rule: "known-findings", Fn: "-", What: "file unreadable", Msg: kerr.Error()})
	}
	var bad []Finding
	var knownHit []string
	for _, f := range c.Findings {
		hit := false
		for _, k := range ks {
			if k.prop == id && k.key == f.Key() {
				hit = true
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s %s)", id, k.text, f.Fn, f.Pos)
				fmt.Println(line)
				knownHit = append(knownHit, line)
			}
		}
		if !hit {
			bad = append(bad, f)
		}
	}
	var mut *mutReport
	if tier == "thorough" && err == nil && len(bad) == 0 {
		mut = selfTest(d, repo, c)
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Pos < bad[j].Pos })
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n", id, d.title)
	fmt.Fprintf(&sb, "repository %s, tier %s\n\nrules:\n", repo, tier)
	for _, r := range c.rules {
		fmt.Fprintf(&sb, "  - %s\n", r)
	}
	fmt.Fprintf(&sb, "\n%d obligations, %d discharged, %d violations\n\n", c.obligations, c.discharged, len(bad))
	for _, f := range bad {
		fmt.Fprintf(&sb, "VIOLATED %s\n  at %s in %s: %s\n  %s\n  key: %s\n\n", f.Rule, f.Pos, f.Fn, f.What, f.Msg, f.Key())
	}
	for _, k := range knownHit {
		fmt.Fprintln(&sb, k)
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)

	wall := time.Since(start).Seconds()
	cov := map[string]interface{}{
		"obligations":        c.obligations,
		"discharged":         c.discharged,
		"functions_analysed": len(c.fns),
		"abstract_paths":     c.paths,
		"event_sites":        len(c.sites),
		"rule":               strings.Join(c.rules, " || "),
		"samples":            c.samples,
		"explanation": "static analysis of the type-checked SSA form of the current /repo source: every obligation is one rule instance " +
			"(a function path, call site, emission, store or attribute) decided by abstract interpretation / dataflow; nothing is executed",
		"checker_cmd":  "./check.sh " + id,
		"trusted_base": []string{"go/types and golang.org/x/tools/go/ssa", "gsv abstract interpreter and its models of the standard library (gsv/*.go)", "documented behaviour of go.clipper, stl, pflag"},
	}
	var names []string
	for f := range c.fns {
		names = append(names, FnName(f))
	}
	sort.Strings(names)
	cov["functions"] = names
	for k, n := range c.counts {
		cov["count_"+k] = n
	}
	if mut != nil {
		cov["mutation_selftest"] = mut
	}
	if len(c.samples) == 0 {
		cov["samples"] = []string{"none"}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed(), "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(bad),
		"assumptions": append([]string{
			"the standard library and the dependencies behave as documented",
			"distinct slices held in different variables do not overlap unless one is a re-slice of the other",
		}, c.notes...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(evDir, id+".json"), b, 0o644)

	for _, f := range bad {
		fmt.Printf("%s: %s in %s: %s: %s\n", f.Pos, f.Rule, f.Fn, f.What, firstLine(f.Msg))
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs\n", id, c.obligations, len(c.fns), c.paths, wall)
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

type mutReport struct {
	Possible int      `json:"possible"`
	Mutants  int      `json:"mutants"`
	Caught   int      `json:"reported"`
	Survived []string `json:"not_reported"`
}
