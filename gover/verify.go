package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// OblReport is one proof obligation and what became of it.
type OblReport struct {
	Label  string   `json:"label"`
	Props  []string `json:"props,omitempty"`
	Pos    string   `json:"pos,omitempty"`
	Note   string   `json:"note,omitempty"`
	Status string   `json:"status"` // proved | failed
	Solver string   `json:"solver,omitempty"`
	Ms     int64    `json:"ms"`
	Out    string   `json:"out,omitempty"`
	Goal   string   `json:"goal,omitempty"`
}

// FnReport is the outcome of verifying one function against its contract.
type FnReport struct {
	Key         string         `json:"key"`
	Props       []string       `json:"props"`
	Obls        []OblReport    `json:"obligations"`
	Unsupported string         `json:"unsupported,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Used        []string       `json:"used,omitempty"`
	Trusted     []string       `json:"trusted,omitempty"`
	Paths       int            `json:"paths"`
	Ends        int            `json:"ends"`
	Loops       int            `json:"loops"`
	Invs        int            `json:"invariants"`
	Vacuous     string         `json:"vacuous,omitempty"`
	Queries     int            `json:"queries"`
	SolverMs    int64          `json:"solver_ms"`
	WallMs      int64          `json:"wall_ms"`
	BySolver    map[string]int `json:"by_solver"`
	Optional    bool           `json:"optional_absent,omitempty"`
}

var goalTO = slow * 12 * time.Second

func setupFiles(dir, contracts string) (*Prog, error) {
	theory, err := os.ReadFile(filepath.Join(contracts, "theory.smt"))
	if err != nil {
		return nil, err
	}
	initTerms()
	initTheory(string(theory))
	overlay := map[string][]byte{}
	clients, _ := filepath.Glob(filepath.Join(contracts, "clients", "*.go"))
	for _, c := range clients {
		data, err := os.ReadFile(c)
		if err != nil {
			return nil, err
		}
		pk := strings.TrimSuffix(filepath.Base(c), ".go")
		pk = strings.ReplaceAll(pk, "__", "/")
		overlay[filepath.Join(dir, pk, "zz_gover_client.go")] = data
	}
	p, err := loadProg(dir, overlay)
	if err != nil {
		return nil, err
	}
	files, _ := filepath.Glob(filepath.Join(contracts, "*.gvs"))
	sort.Strings(files)
	for _, f := range files {
		parseContracts(f, p)
	}
	return p, nil
}

func clauseLabel(c *Clause, def string) string {
	l := c.label
	if l == "" {
		l = def
	}
	return l
}

// verifyFn generates and discharges every obligation of one function.
func verifyFn(p *Prog, con *Contract) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Key: con.key, Props: con.props}
	fn := p.funcs[con.key]
	if fn == nil {
		if con.optional {
			rep.Optional = true
			return rep
		}
		rep.Unsupported = "function " + con.key + " does not exist in the current source"
		return rep
	}
	x := newExec(p)
	x.fn, x.con = fn, con
	mathU32 = con.abstract
	x.specVars = map[string]SVal{}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*Unsupported); ok {
				rep.Unsupported = u.msg
			} else if os.Getenv("GOVER_PANIC") != "" {
				panic(r)
			} else {
				rep.Unsupported = fmt.Sprintf("internal: %v", r)
			}
		}
		rep.WallMs = time.Since(t0).Milliseconds()
		rep.Queries, rep.SolverMs, rep.BySolver = stats.queries, stats.solverMs, stats.bySolver
		rep.Inlined, rep.Used, rep.Trusted = sortedKeys(x.inlined), sortedKeys(x.used), sortedKeys(x.trusted)
		rep.Paths, rep.Loops, rep.Invs = x.paths+1, x.loops, x.loopInvs
	}()
	st := &State{cells: map[*Cell]Val{}, fwd: map[*Cell]*Node{}, heap: map[string]*Node{}, pcset: map[*Node]bool{}, top: p.top0, conc: newConc()}
	var args []Val
	for _, pr := range fn.Params {
		v := x.havocVal(st, pr.Name(), pr.Type())
		args = append(args, v)
	}
	x.init = st // for old() inside requires
	e := x.env(st)
	bindNames(e, con.params, args, fn.Signature.Params(), fn.Signature.Recv())
	x.specVars = e.vars
	isInit := strings.Contains(con.key, ".init")
	x.inInit = isInit
	for _, g := range p.globFacts {
		if isInit || p.funcs[g.fn] == nil || p.contracts[g.fn] == nil || fn.Pkg == nil || !strings.HasPrefix(g.fn, strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")+".") {
			continue
		}
		if p.contracts[g.fn].optional && len(p.contracts[g.fn].ensures) == 0 {
			continue
		}
		st.assume(x.env(st).bool(g.c.expr))
		x.used[g.fn] = true
	}
	for _, l := range con.lets {
		x.specVars[l.name] = x.env(st).eval(l.expr)
	}
	for _, r := range con.requires {
		st.assume(x.env(st).bool(r.expr))
	}
	x.initContract(st)
	x.init = st.clone()
	nend := 0
	var endHyps [][]*Node
	x.onEnd = func(st *State, res []Val, panicked bool, pv *Node) {
		rep.Ends++
		x.procsAtExit(st, panicked)
		if panicked {
			if con.panics == nil {
				x.oblige(st, "nopanic.explicit", False, fn.Pos(), "the function can panic")
				return
			}
			en := x.env(st)
			en.shuf = true
			if pv != nil {
				en.vars["pv"] = SVal{pv, types.NewInterfaceType(nil, nil)}
			}
			x.obligeC(st, con.panics, "panics", en.bool(con.panics.expr), fn)
			return
		}
		nend++
		x.returned(st, res)
		en := x.env(st)
		en.shuf = true
		bindNames(en, con.results, res, fn.Signature.Results(), nil)
		for i, c := range con.ensures {
			x.obligeC(st, c, fmt.Sprintf("ensures%d", i+1), en.bool(c.expr), fn)
		}
		if len(endHyps) < 400 {
			endHyps = append(endHyps, st.pc)
		}
	}
	x.pushCall(st, fn, args, nil, nil)
	x.run(st)
	// discharge
	to := goalTO
	if con.timeoutMS > 0 {
		to = slow * time.Duration(con.timeoutMS) * time.Millisecond
	}
	var wg sync.WaitGroup
	for _, o := range x.obls {
		o := o
		if o.goal == True {
			o.res = Result{status: "unsat", solver: "simplifier"}
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.res = prove(o.hyps, o.goal, to, true)
		}()
	}
	wg.Wait()
	for _, o := range x.obls {
		r := OblReport{Label: o.label, Pos: o.pos, Note: o.note, Props: o.props, Solver: o.res.solver, Ms: o.res.ms, Status: "proved"}
		if os.Getenv("GOVER_DUMP") == "slow" && o.res.ms > 2000 {
			os.WriteFile(fmt.Sprintf("/tmp/gover_%s_%d.smt2", sanitize(con.key+o.label), len(rep.Obls)), []byte(strings.Replace(buildQueryLocked(o.hyps, o.goal), "@OPTIONS@", solvers["z3"].opts, 1)), 0644)
		}
		if o.res.status != "unsat" {
			r.Status = "failed"
			r.Goal = show(o.goal)
			r.Out = o.res.status
			if os.Getenv("GOVER_DUMP") == "1" {
				os.WriteFile(fmt.Sprintf("/tmp/gover_%s_%d.smt2", sanitize(con.key+o.label), len(rep.Obls)), []byte(strings.Replace(buildQueryLocked(o.hyps, o.goal), "@OPTIONS@", solvers["z3"].opts, 1)), 0644)
			}
		}
		statMu.Lock()
		stats.bySolver[o.res.solver]++
		statMu.Unlock()
		rep.Obls = append(rep.Obls, r)
	}
	// vacuity: the precondition, and the state at some normal exit, must not be refutable
	if r := prove(x.init.pc, False, 1500*time.Millisecond, false); r.status == "unsat" {
		rep.Vacuous = "the precondition is contradictory"
	}
	if len(endHyps) > 0 {
		ok := false
		for i, h := range endHyps {
			if i > 12 {
				break
			}
			if r := prove(h, False, 700*time.Millisecond, false); r.status != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			rep.Vacuous = "no reachable normal exit: every path condition is contradictory"
		}
	} else if con.panics == nil && !con.noReturn {
		rep.Vacuous = "no normal exit explored"
	}
	return rep
}

// obligeC emits the obligation of a contract clause.
func (x *Exec) obligeC(st *State, c *Clause, def string, g *Node, fn *ssa.Function) {
	n := len(x.obls)
	x.oblige(st, clauseLabel(c, def), g, fn.Pos(), c.text)
	if len(x.obls) > n {
		x.obls[n].props = c.props
	}
}

// returned: what the caller receives must not have been given away.
func (x *Exec) returned(st *State, res []Val) {
	for _, r := range res {
		var ref *Node
		switch y := r.(type) {
		case *SliceV:
			ref = y.ref
		case *PtrV:
			ref = y.ref
		}
		if ref != nil && st.conc.given[ref] {
			x.oblige(st, "ownership", False, x.fn.Pos(), "a value that was given away is returned")
		}
		if n, ok := r.(*Node); ok && n.sort == "Any" {
			for g := range st.conc.given {
				if containsNode(n, g) {
					x.oblige(st, "ownership", False, x.fn.Pos(), "a value that was given away is returned")
				}
			}
		}
	}
}

func containsNode(n, g *Node) bool {
	if n == g {
		return true
	}
	for _, a := range n.args {
		if containsNode(a, g) {
			return true
		}
	}
	return false
}

func (r *FnReport) failed() (f []OblReport) {
	for _, o := range r.Obls {
		if o.Status != "proved" {
			f = append(f, o)
		}
	}
	return
}

func printReport(r *FnReport, verbose bool) {
	st := "OK"
	if r.Unsupported != "" {
		st = "UNSUPPORTED " + r.Unsupported
	} else if len(r.failed()) > 0 {
		st = "FAILED"
	} else if r.Vacuous != "" {
		st = "VACUOUS " + r.Vacuous
	}
	fmt.Printf("%-50s %s  obls=%d paths=%d ends=%d loops=%d inv=%d %dms (solver %dms/%d)\n", r.Key, st, len(r.Obls), r.Paths, r.Ends, r.Loops, r.Invs, r.WallMs, r.SolverMs, r.Queries)
	for _, o := range r.failed() {
		fmt.Printf("    FAIL %s @%s %s [%s]\n", o.Label, o.Pos, o.Note, o.Out)
		if verbose {
			fmt.Printf("         %s\n", o.Goal)
		}
	}
}

func dumpJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}
