package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// mutation is a small change of the text of one file.
type mutation struct {
	file     string
	from, to int // bytes replaced
	text     string
	what     string
}

// mutations lists small changes of the functions the check has looked at: comparisons shifted or turned round, numbers
// changed, operands exchanged, statements and conditions left out.
func (c *Ctx) mutations() []mutation {
	return mutationsOf(c.W, c.fns)
}

func mutationsOf(w *World, fns map[*ssa.Function]bool) []mutation {
	var r []mutation
	seen := map[ast.Node]bool{}
	src := map[string][]byte{}
	for fn := range fns {
		if !w.InRepo(fn) {
			continue
		}
		n := fn.Syntax()
		if n == nil || seen[n] {
			continue
		}
		seen[n] = true
		file := w.Fset.Position(n.Pos()).Filename
		if src[file] == nil {
			b, err := os.ReadFile(file)
			if err != nil {
				continue
			}
			src[file] = b
		}
		off := func(p token.Pos) int { return w.Fset.Position(p).Offset }
		text := func(x ast.Node) string { return string(src[file][off(x.Pos()):off(x.End())]) }
		add := func(x ast.Node, s, what string) {
			r = append(r, mutation{file, off(x.Pos()), off(x.End()), s, fmt.Sprintf("%s:%d: %s", w.relFile(file), w.Fset.Position(x.Pos()).Line, what)})
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BinaryExpr:
				swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
					token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
				if s, ok := swap[y.Op]; ok {
					add(y, text(y.X)+" "+s+" "+text(y.Y), y.Op.String()+" becomes "+s)
				}
			case *ast.BasicLit:
				if y.Kind == token.INT {
					if k, err := strconv.Atoi(y.Value); err == nil {
						add(y, strconv.Itoa(k+1), y.Value+" becomes "+strconv.Itoa(k+1))
					}
				}
			case *ast.CallExpr:
				if len(y.Args) >= 2 {
					for i := 0; i+1 < len(y.Args); i++ {
						a, b := y.Args[i], y.Args[i+1]
						r = append(r, mutation{file, off(a.Pos()), off(b.End()), text(b) + ", " + text(a),
							fmt.Sprintf("%s:%d: arguments %d and %d of %s exchanged", w.relFile(file), w.Fset.Position(a.Pos()).Line, i+1, i+2, text(y.Fun))})
					}
				}
			case *ast.IfStmt:
				add(y.Cond, "("+text(y.Cond)+") && false", "condition is never true")
			case *ast.ExprStmt:
				add(y, "", "left out: "+clipStr(text(y), 60))
			case *ast.AssignStmt:
				if y.Tok == token.ASSIGN {
					add(y, "", "left out: "+clipStr(text(y), 60))
				}
			case *ast.BranchStmt:
				if y.Tok == token.CONTINUE && y.Label == nil {
					add(y, "break", "continue becomes break")
				}
			}
			return true
		})
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].file != r[j].file {
			return r[i].file < r[j].file
		}
		if r[i].from != r[j].from {
			return r[i].from < r[j].from
		}
		return r[i].what < r[j].what
	})
	return r
}

// selfTest measures how sensitive the rules are: the check is repeated with small changes of the source (in memory, none of it is run).
// Not every change breaks the property, so the result is no verdict.
func selfTest(d *checkDef, repo string, c *Ctx) *mutReport {
	ms := c.mutations()
	rnd := rand.New(rand.NewSource(int64(seed())))
	rnd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	rep := &mutReport{Possible: len(ms)}
	start := time.Now()
	for _, m := range ms {
		if rep.Mutants >= 60 || time.Since(start) > 5*time.Minute {
			break
		}
		b, err := os.ReadFile(m.file)
		if err != nil || m.to > len(b) {
			continue
		}
		var nb bytes.Buffer
		nb.Write(b[:m.from])
		nb.WriteString(m.text)
		nb.Write(b[m.to:])
		w, err := Load(repo, map[string][]byte{m.file: nb.Bytes()})
		if err != nil {
			continue // does not compile
		}
		rep.Mutants++
		if k := runCheck(d, w, "quick"); len(k.Findings) > 0 {
			rep.Caught++
		} else {
			rep.Survived = append(rep.Survived, m.what)
		}
	}
	return rep
}

// survey tries changes of all functions that can run with all checks and prints those no check reports (a development tool).
func survey(repo string, count, shard, shards int) {
	w, err := Load(repo, nil)
	if err != nil {
		fmt.Println(err)
		return
	}
	r := w.reachable(w.mainRoots(), nil)
	fns := map[*ssa.Function]bool{}
	for f := range r.From {
		fns[f] = true
	}
	ms := mutationsOf(w, fns)
	rnd := rand.New(rand.NewSource(int64(seed())))
	rnd.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	first := map[string]string{"clip/": "C16 C21 C18 C13", "data/option": "C09 C08 C07 C20", "data/": "C13 C19 C21 C16", "gcode/builder": "C05 C06 C10 C20",
		"gcode/renderer/skirt": "C23 C14", "gcode/renderer/layer": "C07 C20 C10", "gcode/": "C14 C10 C11 C07", "modifier/support": "C24 C15 C14", "modifier/brim": "C23 C14",
		"modifier/": "C25 C15 C14", "optimizer/": "C19", "reader/": "C19", "slicer/": "C17 C22 C11", "goslice": "C04 C01 C03 C10", "cmd/": "C02", "writer/": "C03 C01"}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for i, m := range ms {
		if i >= count {
			break
		}
		if i%shards != shard {
			continue
		}
		b, _ := os.ReadFile(m.file)
		nb := string(b[:m.from]) + m.text + string(b[m.to:])
		mw, err := Load(repo, map[string][]byte{m.file: []byte(nb)})
		if err != nil {
			fmt.Println("nobuild ", m.what)
			continue
		}
		order := []string{}
		best := ""
		for p := range first {
			if strings.HasPrefix(w.relFile(m.file), p) && len(p) > len(best) {
				best = p
			}
		}
		order = append(order, strings.Fields(first[best])...)
		for _, id := range ids {
			if !strings.Contains(first[best], id) {
				order = append(order, id)
			}
		}
		by := ""
		for _, id := range order {
			if k := runCheck(checks[id], mw, "quick"); len(k.Findings) > 0 {
				by = id
				break
			}
		}
		if by == "" {
			by = "SURVIVED"
		}
		fmt.Println(by, m.what)
	}
}

// relFile: the file name without the directory of the repository.
func (w *World) relFile(f string) string {
	if len(f) > len(w.RepoDir)+1 && f[:len(w.RepoDir)] == w.RepoDir {
		return f[len(w.RepoDir)+1:]
	}
	return f
}
