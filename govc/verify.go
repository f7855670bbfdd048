package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("GOVC_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type OblReport struct {
	Kind   string `json:"kind"`
	Label  string `json:"label"`
	Pos    string `json:"pos"`
	OK     bool   `json:"ok"`
	By     string `json:"by"`
	Ms     int64  `json:"ms"`
	Detail string `json:"detail,omitempty"`
}

type FuncReport struct {
	Key       string      `json:"key"`
	Short     string      `json:"short"`
	Pos       string      `json:"pos"`
	Err       string      `json:"err,omitempty"`
	Obls      []OblReport `json:"obls"`
	Called    []string    `json:"called"`
	Inlined   []string    `json:"inlined"`
	Notes     []string    `json:"notes"`
	Loops     []*LoopInfo `json:"loops"`
	Paths     int         `json:"paths"`
	SolverMs  int64       `json:"solver_ms"`
	Queries   int64       `json:"queries"`
	WallMs    int64       `json:"wall_ms"`
	Ensures   int         `json:"ensures"`
	Reachable bool        `json:"reachable"`
	Gone      bool        `json:"gone,omitempty"`
}

func (pr *Program) verify(con *Contract, prop string, budget int) (rep *FuncReport) {
	t0 := time.Now()
	q0, s0 := atomic.LoadInt64(&queryCount), atomic.LoadInt64(&solverNs)
	rep = &FuncReport{Key: con.Key, Short: con.Short}
	var c *Ctx
	fail := func(kind, msg string) {
		rep.Err = msg
		rep.Obls = append(rep.Obls, OblReport{Kind: kind, Label: msg, By: "none"})
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(engineError)
			if ok {
				if debugOn {
					debug.PrintStack()
				}
				fail("unsupported", "cannot be verified: "+e.msg)
			} else {
				fail("unsupported", fmt.Sprintf("verifier failure: %v", r))
				debugf("%s", debug.Stack())
			}
		}
		rep.WallMs = time.Since(t0).Milliseconds()
		rep.Queries = atomic.LoadInt64(&queryCount) - q0
		rep.SolverMs = (atomic.LoadInt64(&solverNs) - s0) / 1e6
		if c != nil {
			rep.Called = sortedKeys(c.called)
			rep.Inlined = sortedKeys(c.inlined)
			rep.Notes = sortedKeys(c.notes)
			for _, k := range sortedKeys(c.loops) {
				rep.Loops = append(rep.Loops, c.loops[k])
			}
		}
	}()
	if con.Gone {
		rep.Gone = true
		rep.Notes = append(rep.Notes, con.Err.Error()+"; its callers are verified with the new code in place")
		return
	}
	if con.Err != nil {
		fail("contract", con.Err.Error())
		return
	}
	fn := con.Fn
	c = &Ctx{prog: pr, fn: fn, con: con, prop: prop, strs: map[strKey]*Term{}, boxes: map[*Term]box{}, funcs: map[*Term]FuncV{}, wraps: map[*Term][]*Term{}, interior: map[*Term]PtrV{}, distinct: map[[2]*Term]bool{}, notes: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, maxStep: 400000, retry: budget > 20000 || scale_ > 1}
	rep.Pos = c.pos(fn.Pos())
	symSeq = 0
	c.entry = &State{heap: map[string]*Node{}, facts: map[*Term]bool{}, bnds: map[*Term]bnd{}}
	c.useBits = pr.usesBitmap(fn)
	st := &State{heap: map[string]*Node{}, facts: map[*Term]bool{}, bnds: map[*Term]bnd{}, own: true}
	c.loadAxioms(st)
	regs := map[ssa.Value]Val{}
	c.topVars = map[string]tv{}
	var args []Val
	for i, p := range fn.Params {
		v := c.freshVal(st, p.Type(), strings.ReplaceAll(p.Name(), "_", "u_"))
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(PtrV); ok {
				c.assume(st, ne(pv.ref, tZero))
			}
		}
		regs[p] = v
		args = append(args, v)
		if con.Params[i] != "_" {
			c.topVars[con.Params[i]] = tv{v, p.Type()}
		}
	}
	pre := &env{c: c, cur: st, old: c.entry, vars: c.topVars, con: con}
	for _, r := range con.Requires {
		c.assume(st, pre.boolean(r.Expr))
	}
	for t := range st.facts {
		if t.op == ONot && t.args[0].op == OEq0 {
			l := t.args[0].args[0]
			if l.op == OLin && len(l.args) == 2 && l.val.Sign() == 0 && new(big.Int).Mul(l.coef[0], l.coef[1]).Cmp(bigMinus) == 0 {
				c.distinct[[2]*Term{l.args[0], l.args[1]}] = true
			}
		}
	}
	preSt := st.clone()
	preBad := make(chan bool, 1)
	go func() { preBad <- c.askAll(preSt, tFalse, 1500) }()
	for _, m := range con.Modifies {
		for _, t := range pre.targets(m) {
			t := t
			c.modified = append(c.modified, &t)
		}
	}
	f := newFrame(fn)
	f.con, f.top = con, true
	c.stack = []*ssa.Function{fn}
	c.region(f, f.rpo[0], []*Path{{st: st, regs: regs}}, nil, nil)
	outs := f.rets
	rep.Paths = len(outs)
	for _, o := range outs {
		vars := map[string]tv{}
		for k, v := range c.topVars {
			vars[k] = v
		}
		for i, n := range con.Results {
			if n != "_" {
				if i >= len(o.vals) {
					panic(engErr("contract has too many results"))
				}
				vars[n] = tv{o.vals[i], fn.Signature.Results().At(i).Type()}
			}
		}
		post := &env{c: c, cur: o.st, old: c.entry, vars: vars, con: con}
		for _, e := range con.Ensures {
			if e.Assumed || !tagsMatch(e.Tags, prop) {
				continue
			}
			g := post.boolean(e.Expr)
			c.oblige2(o.st, "postcondition", e.Label, rep.Pos, e.Tags, g)
		}
		c.frame(o.st)
	}
	for _, e := range con.Ensures {
		if !e.Assumed && tagsMatch(e.Tags, prop) {
			rep.Ensures++
		}
	}
	if len(outs) == 0 && rep.Ensures > 0 {
		fail("vacuity", "the function never returns")
	}
	// every path's assumptions might contradict each other
	if <-preBad {
		fail("vacuity", "the precondition is contradictory")
	}
	reach := make(chan bool, len(outs))
	for _, o := range outs {
		go func() { reach <- !c.askAll(o.st, tFalse, 1000) }()
	}
	for range outs {
		if <-reach {
			rep.Reachable = true
			break
		}
	}
	if len(outs) > 0 && !rep.Reachable {
		fail("vacuity", "the assumptions at every return contradict each other")
	}
	if n := len(con.Results); n > 0 && os.Getenv("GOVC_VAC") != "" && strings.HasSuffix(strings.ToLower(fn.Signature.Results().At(n-1).Type().String()), "error") {
		succeeds := false
		for _, o := range outs {
			succeeds = succeeds || !c.askAll(o.st, not(eq(o.vals[n-1].(*Term), tZero)), 3000)
		}
		fmt.Printf("%s: succeeds=%v\n", con.Short, succeeds)
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, solverSlots)
	for _, ob := range c.obls {
		if ob.Result != Unknown || ob.By == "no variant found" {
			continue
		}
		wg.Add(1)
		go func(ob *Obligation) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			t := time.Now()
			ob.Result, ob.By = prove(ob.Asm, ob.Goal, c.allAxioms, budget)
			ob.Ms = time.Since(t).Milliseconds()
		}(ob)
	}
	wg.Wait()
	for i, ob := range c.obls {
		r := OblReport{Kind: ob.Kind, Label: ob.Label, Pos: ob.Pos, OK: ob.Result == Unsat, By: ob.By, Ms: ob.Ms}
		if !r.OK {
			r.Detail = "goal: " + clip(ob.Goal.String(), 1500)
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", d, strings.ReplaceAll(con.Short, "/", "_"), i), []byte(script(ob.Asm, ob.Goal, c.allAxioms, false)+"(check-sat)\n"), 0o644)
			}
		}
		rep.Obls = append(rep.Obls, r)
	}
	return
}

var solverSlots = 4

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// oblige2 is oblige without simplifying away the record of trivial goals.
func (c *Ctx) oblige2(st *State, kind, label, pos string, tags []string, g *Term) {
	c.oblige(st, kind, label, pos, tags, g)
}

func (pr *Program) usesBitmap(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	for _, i := range fn.Pkg.Pkg.Imports() {
		if strings.HasSuffix(i.Path(), "go-bitmap") {
			return true
		}
	}
	return false
}

func (c *Ctx) loadAxioms(st *State) {
	for _, a := range c.prog.spec.axioms {
		e := &env{c: c, cur: st, old: c.entry, vars: map[string]tv{}, pkgPath: a.pkg}
		if c.prog.typePkg(a.pkg) == nil {
			continue
		}
		if a.by != "" && c.fn != nil && c.fn.Name() == a.by {
			continue // this is where it's proved
		}
		ax := &Axiom{Name: a.name}
		for _, v := range a.vars {
			bv := freshBound(v)
			e = e.bind(v, tv{bv, tInt})
			ax.Vars = append(ax.Vars, bv)
		}
		for _, p := range a.pats {
			t := e.eval(p).v.(*Term)
			ax.Pats = append(ax.Pats, t)
		}
		ax.Body = e.boolean(a.expr)
		used := map[string]bool{}
		collectSyms(ax.Body, used, map[*Term]bool{})
		for _, t := range a.trig {
			found := false
			for _, n := range sortedKeys(used) {
				if n == "F:"+t || strings.HasPrefix(n, "F:"+t+":") || strings.HasPrefix(n, "P:") && strings.Contains(n, "."+t+"#") {
					ax.Trig = append(ax.Trig, n)
					found = true
				}
			}
			if !found {
				panic(engErr("axiom %s doesn't mention %s", a.name, t))
			}
		}
		if len(ax.Trig) == 0 {
			// the patterns can't match without their symbols
			in := map[string]bool{}
			for _, t := range ax.Pats {
				collectSyms(t, in, map[*Term]bool{})
			}
			for _, n := range sortedKeys(in) {
				if strings.HasPrefix(n, "F:") || strings.HasPrefix(n, "P:") {
					ax.Trig = append(ax.Trig, n)
				}
			}
		}
		c.allAxioms = append(c.allAxioms, ax)
	}
}

// frame checks that only what the contract mentions was modified.
func (c *Ctx) frame(st *State) {
	if st.dead {
		return
	}
	done := map[*Term]bool{}
	for _, key := range sortedKeys(st.heap) {
		if strings.HasPrefix(key, "bits:") {
			continue
		}
		base := c.entry.heap[key]
		var goals []*Term
		for n := st.heap[key]; n != nil && n != base; n = n.prev {
			g := tTrue
			switch n.kind {
			case nBase:
				ok := false
				for _, m := range c.modified {
					ok = ok || m.key == key && m.all
				}
				g = boolT(ok)
			case nFresh:
				g = le(n.hi, tZero)
			default:
				if !n.log {
					continue
				}
				ors := []*Term{lt(n.ref, tZero)}
				if strings.HasPrefix(key, "glob:") {
					ors = nil
				}
				for _, m := range c.modified {
					if m.key != key {
						continue
					}
					if m.all {
						ors = append(ors, tTrue)
						continue
					}
					e := eq(n.ref, m.ref)
					if m.lo != nil {
						switch n.kind {
						case nStore:
							e = and(e, le(m.lo, n.idx), lt(n.idx, m.hi))
						case nRange:
							e = and(e, or(le(n.hi, n.lo), and(le(m.lo, n.lo), le(n.hi, m.hi))))
						case nObj:
							e = tFalse
						}
					}
					ors = append(ors, e)
				}
				if n.kind == nRange {
					ors = append(ors, le(n.hi, n.lo))
				}
				g = or(ors...)
				if g != tTrue && strings.HasPrefix(key, "ghost:") {
					// It may have its old value again.
					if gh := c.prog.spec.ghosts[strings.TrimPrefix(key, "ghost:")]; gh != nil && gh.N == 1 {
						g = or(g, eq(c.rd(st, key, gh.L, n.ref, tZero), c.rd(c.entry, key, gh.L, n.ref, tZero)))
					}
				}
			}
			if g != tTrue && !done[g] {
				done[g] = true
				goals = append(goals, g)
			}
		}
		for _, g := range goals {
			c.oblige(st, "frame", "only what the contract allows is modified: "+key, c.pos(c.fn.Pos()), nil, g)
		}
	}
}
