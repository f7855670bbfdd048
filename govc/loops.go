package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Loops are verified with inductive invariants. The cells and objects a loop writes
// are found by executing its body once or more; everything it writes is forgotten at
// the loop's head. Candidate invariants (derived from the loop's conditions and steps,
// and the contract's templates) are then weakened until the rest is inductive.

type LoopInfo struct {
	Where string
	Kept  []string
	Auto  int
}

type wset struct {
	all    bool
	fresh  bool
	refs   []*Term             // objects that existed before the loop
	ranges map[*Term]modTarget // restrict the havoc of an object to a range
	whole  map[*Term]bool
	cells  map[*Term]bool // only index 0 matters (one-level maps)
}

type loopVar struct {
	name  string
	phi   bool
	rng   bool // the hidden counter of a range loop, which begins at -1
	phiOf *ssa.Phi
	isB   bool
	kind  string // int, bool, ref, str, opq
	head  *Term
	init  *Term
	get   func(q *Path) *Term
}

type cand struct {
	name string
	user bool
	at   func(q *Path) *Term
	key  string
	of   *loopVar // for fresh-or-initial candidates
}

func (c *Ctx) valLeaves(v Val) ([]*Term, []string) {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}, []string{""}
	case PtrV:
		return []*Term{x.ref}, []string{"ref"}
	case FuncV:
		return []*Term{x.id}, []string{"ref"}
	case SliceV:
		return []*Term{x.obj, x.off, x.len, x.cap}, []string{"ref", "int", "int", "int"}
	case *StructV:
		var out []*Term
		var ks []string
		st := under(x.typ).(*types.Struct)
		for i, f := range x.f {
			a, b := c.valLeaves(f)
			for k := range b {
				if b[k] == "" {
					b[k] = leafKind(st.Field(i).Type())
				}
			}
			out = append(out, a...)
			ks = append(ks, b...)
		}
		return out, ks
	}
	return nil, nil
}

func leafKind(t types.Type) string {
	l, ok := scalarLeaf(t)
	switch {
	case !ok:
		return "?"
	case l.isB:
		return "bool"
	case l.rng == "ref":
		return "ref"
	case l.rng == "str":
		return "str"
	case l.rng == "opq" || l.rng == "":
		return "opq"
	}
	return "int"
}

func (c *Ctx) havocLike(st *State, init Val, t types.Type, name string) Val {
	switch x := init.(type) {
	case PtrV:
		v := c.freshVal(st, t, name).(PtrV)
		if x.ref != tZero && (x.key != v.key || x.idx != tZero) {
			if x.idx != tZero {
				panic(engErr("loop variable %s is an interior pointer", name))
			}
			v.key = x.key
		}
		return v
	case SliceV:
		v := c.freshVal(st, t, name).(SliceV)
		v.key = x.key
		return v
	case *mapIter:
		return x
	}
	return c.freshVal(st, t, name)
}

func (c *Ctx) headNode(st *State, key string) *Node {
	if n, ok := st.heap[key]; ok {
		return n
	}
	return c.entry.heap[key]
}

func (c *Ctx) execLoop(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, p *Path) map[*ssa.BasicBlock][]*Path {
	if p.st.dead {
		return nil
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if c.fewTrips(f, h, body, p, phis) {
		return c.unroll(f, h, body, p)
	}
	k0 := c.save()
	N, S := c.alloc, symSeq
	retN := len(f.rets)
	ndef := len(p.defers)
	tg := map[string]*wset{}
	where := c.loopPos(f, h)

	mkHead := func() *Path {
		c.restore(k0)
		f.rets = f.rets[:retN:retN]
		c.alloc = N + 1000
		hp := p.clone()
		for _, ph := range phis {
			init := p.regs[ph]
			hp.regs[ph] = c.havocLike(hp.st, init, ph.Type(), phiName(ph))
		}
		for _, key := range sortedKeys(tg) {
			w := tg[key]
			l := c.headNode(p.st, key).root().l
			if w.all {
				c.havocAll(hp.st, key, l)
				continue
			}
			if w.fresh {
				c.havocFresh(hp.st, key, l, num(int64(-N)))
			}
			for _, r := range w.refs {
				t := modTarget{key: key, l: l, ref: r}
				if rg, ok := w.ranges[r]; ok && !w.whole[r] {
					t.lo, t.hi = rg.lo, rg.hi
				}
				c.havocTarget(hp.st, t)
			}
		}
		// slices in memory stay well-formed
		for _, key := range sortedKeys(tg) {
			if strings.HasSuffix(key, "#len") && !isTwoLevel(key) {
				b := strings.TrimSuffix(key, "#len")
				for _, r := range tg[key].refs {
					ln := c.rd(hp.st, key, leaf{"", false, "len"}, r, tZero)
					cp := c.rd(hp.st, b+"#cap", leaf{"", false, "len"}, r, tZero)
					ob := c.rd(hp.st, b+"#obj", leaf{"", false, "ref"}, r, tZero)
					c.assume(hp.st, le(ln, cp), implies(eq(ob, tZero), eq(cp, tZero)))
				}
			}
		}
		return hp
	}
	run := func(hp *Path, sink map[*Term]bool) ([]*Path, map[*ssa.BasicBlock][]*Path) {
		if sink != nil {
			c.condSinks = append(c.condSinks, sink)
			defer func() { c.condSinks = c.condSinks[:len(c.condSinks)-1] }()
		}
		c.loopDepth++
		defer func() { c.loopDepth-- }()
		back, exits := c.region(f, h, []*Path{hp.clone()}, body, h)
		for _, b := range back {
			if len(b.defers) != ndef {
				panic(engErr("defer in a loop"))
			}
		}
		return back, exits
	}

	var vars []*loopVar
	mkVars := func(hp *Path) {
		vars = nil
		for _, ph := range phis {
			ph := ph
			ts, ks := c.valLeaves(hp.regs[ph])
			for i := range ts {
				i := i
				k := ks[i]
				if k == "" {
					k = leafKind(ph.Type())
				}
				nm := phiName(ph)
				if _, isS := hp.regs[ph].(SliceV); isS {
					nm += []string{"#obj", "#off", "#len", "#cap"}[i]
				}
				vars = append(vars, &loopVar{name: nm, phi: true, phiOf: ph, rng: ph.Comment == "rangeindex" && ph.Block().Comment == "rangeindex.loop", isB: ts[i].bool_, kind: k, get: func(q *Path) *Term {
					x, _ := c.valLeaves(q.regs[ph])
					return x[i]
				}})
			}
		}
		for _, key := range sortedKeys(tg) {
			w := tg[key]
			if isTwoLevel(key) || w.all {
				continue
			}
			l := c.headNode(p.st, key).root().l
			k := "int"
			switch {
			case l.isB:
				k = "bool"
			case l.rng == "ref", l.rng == "str":
				k = l.rng
			case l.rng == "opq" || l.rng == "":
				k = "opq"
			}
			for _, r := range w.refs {
				key, r := key, r
				vars = append(vars, &loopVar{name: key, isB: l.isB, kind: k, get: func(q *Path) *Term { return c.rd(q.st, key, l, r, tZero) }})
			}
		}
		for _, v := range vars {
			v.head, v.init = v.get(hp), v.get(p)
		}
	}
	isHeadVar := func(t *Term) *loopVar {
		for _, v := range vars {
			if v.head == t {
				return v
			}
		}
		return nil
	}
	invariant := func(t *Term) bool {
		if t.born > S {
			return false
		}
		return true
	}
	loopRef := func(t *Term) bool { // allocated inside of the loop
		v, ok := t.constInt()
		return ok && v < int64(-N)
	}
	usedDep := map[*loopVar]bool{}
	forceAll := map[string]bool{}
	// collect adds the writes of the paths that reach the head again.
	collect := func(back []*Path, hp *Path) bool {
		changed := false
		usedDep = map[*loopVar]bool{}
		for _, b := range back {
			for _, key := range sortedKeys(b.st.heap) {
				hn := c.headNode(hp.st, key)
				n := b.st.heap[key]
				if n == hn {
					continue
				}
				w := tg[key]
				if w == nil {
					w = &wset{ranges: map[*Term]modTarget{}, whole: map[*Term]bool{}}
				}
				add := func(r *Term, n *Node) {
					if r.op == OVar {
						if v := isHeadVar(r); v != nil && v.kind == "ref" && !forceAll[key] {
							usedDep[v] = true
							if !w.fresh {
								w.fresh, changed = true, true
							}
							r = v.init
							if loopRef(r) || r == tZero {
								return
							}
						}
					}
					if loopRef(r) {
						if !w.fresh {
							w.fresh, changed = true, true
						}
						return
					}
					if !invariant(r) {
						if !w.all {
							w.all, changed = true, true
						}
						return
					}
					have := false
					for _, x := range w.refs {
						have = have || x == r
					}
					if !have {
						w.refs = append(w.refs, r)
						changed = true
						if isTwoLevel(key) {
							for _, m := range c.modified {
								if m.key == key && m.ref == r && m.lo != nil && invariant(m.lo) && invariant(m.hi) {
									w.ranges[r] = *m
								}
							}
						}
					}
					if rg, ok := w.ranges[r]; ok && !w.whole[r] {
						in := false
						switch n.kind {
						case nStore:
							in = c.entails(b.st, and(le(rg.lo, n.idx), lt(n.idx, rg.hi)), 1500)
						case nRange:
							in = c.entails(b.st, or(le(n.hi, n.lo), and(le(rg.lo, n.lo), le(n.hi, rg.hi))), 1500)
						}
						if !in {
							w.whole[r] = true
							changed = true
						}
					}
				}
				for n != hn {
					switch n.kind {
					case nBase:
						if !w.all {
							w.all, changed = true, true
						}
					case nFresh:
						if !w.fresh {
							w.fresh, changed = true, true
						}
						if v, ok := n.hi.constInt(); !ok || v > int64(-N) {
							if !w.all {
								w.all, changed = true, true
							}
						}
					default:
						add(n.ref, n)
					}
					if n.prev == nil {
						break
					}
					n = n.prev
				}
				if w.all || w.fresh || len(w.refs) > 0 {
					tg[key] = w
				}
			}
		}
		return changed
	}

restart:
	var cands []*cand
	var conds map[*Term]bool
	var back []*Path
	var hp *Path
	c.quiet++
	c.discover++
	for round := 0; ; round++ {
		if round > 12 {
			c.quiet--
			c.discover--
			panic(engErr("the writes of the loop at %s cannot be determined", where))
		}
		hp = mkHead()
		mkVars(hp)
		conds = map[*Term]bool{}
		back, _ = run(hp, conds)
		if !collect(back, hp) {
			break
		}
	}
	c.quiet--
	c.discover--

	substAt := func(t *Term) func(q *Path) *Term {
		vs := vars
		return func(q *Path) *Term {
			m := map[*Term]*Term{}
			for _, v := range vs {
				m[v.head] = v.get(q)
			}
			return subst(t, m)
		}
	}
	seen := map[*Term]bool{}
	addT := func(name string, t *Term) *cand {
		if t == tTrue || t == tFalse || seen[t] {
			return nil
		}
		seen[t] = true
		cd := &cand{name: name + ": " + t.String(), at: substAt(t)}
		cands = append(cands, cd)
		return cd
	}
	onlyHead := func(t *Term) bool {
		used := false
		ok := true
		var walk func(t *Term)
		memo := map[*Term]bool{}
		walk = func(t *Term) {
			if memo[t] || !ok {
				return
			}
			memo[t] = true
			if t.born <= S {
				return
			}
			if t.op == OVar {
				if isHeadVar(t) == nil {
					ok = false
				}
				used = true
				return
			}
			if t.op == OApp && nameBorn(t.name) > S || t.bound {
				ok = false
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
		return ok && used
	}
	genAuto := func() {
		for _, v := range vars {
			if v.isB {
				addT("constant", iff(v.head, v.init))
				continue
			}
			addT("constant", eq(v.head, v.init))
			switch v.kind {
			case "int":
				addT("grows", le(v.init, v.head))
				addT("shrinks", le(v.head, v.init))
			case "ref":
				if cd := addT("initial or new", or(eq(v.head, v.init), lt(v.head, num(int64(-N))))); cd != nil {
					cd.of = v
				}
				addT("initial or not nil", or(eq(v.head, v.init), ne(v.head, tZero)))
			}
		}
		for i := 0; i+3 < len(vars); i++ {
			if strings.HasSuffix(vars[i].name, "#obj") && strings.HasSuffix(vars[i+1].name, "#off") {
				o, l, k := vars[i+1], vars[i+2], vars[i+3]
				addT("end", eq(add(o.head, l.head), add(o.init, l.init)))
				addT("cap", eq(add(o.head, k.head), add(o.init, k.init)))
			}
		}
		// conditions
		var cs []*Term
		for t := range conds {
			cs = append(cs, t)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, t := range cs {
			var atoms func(t *Term)
			atoms = func(t *Term) {
				switch t.op {
				case ONot, OAnd, OOr:
					for _, a := range t.args {
						atoms(a)
					}
				case OGe0:
					if onlyHead(t) && !elemIdentity(t) {
						l := t.args[0]
						addT("condition", ge0(l))
						addT("condition", ge0(addK(l, 1)))
						addT("condition", ge0(neg(l)))
						addT("condition", ge0(addK(neg(l), -1)))
					}
				case OEq0:
					if onlyHead(t) && !elemIdentity(t) {
						l := t.args[0]
						addT("condition", t)
						addT("condition", ge0(l))
						addT("condition", ge0(neg(l)))
					}
				}
			}
			atoms(t)
		}
		// steps: variables that change together
		type step struct {
			v *loopVar
			d *Term
		}
		var steps []step
		for _, v := range vars {
			if v.kind != "int" {
				continue
			}
			var d *Term
			ok := len(back) > 0
			for _, b := range back {
				x := sub(v.get(b), v.head)
				if d == nil {
					d = x
				} else if d != x {
					ok = false
				}
			}
			if ok && d != tZero && (d.born <= S) && d.size < 40 {
				steps = append(steps, step{v, d})
			}
		}
		for i := range steps {
			for j := range steps {
				if i == j {
					continue
				}
				a, b := steps[i], steps[j]
				if i > j && a.d.isConst() && b.d.isConst() {
					continue
				}
				if !a.d.isConst() && b.d != tOne {
					continue
				}
				addT("together", eq(mul(sub(a.v.head, a.v.init), b.d), mul(sub(b.v.head, b.v.init), a.d)))
			}
			// a multiple of the step
			if k, ok := steps[i].d.constInt(); ok && (k > 1 || k < -1) {
				v := steps[i].v
				if k < 0 {
					k = -k
				}
				addT("step", eq(modC(sub(v.head, v.init), num(k).val), tZero))
			}
		}
		// the same change on each path of an iteration
		var ints []*loopVar
		for _, v := range vars {
			if v.kind == "int" {
				ints = append(ints, v)
			}
		}
		if len(ints) <= 8 {
			for i := range ints {
				for j := i + 1; j < len(ints); j++ {
					for _, sg := range []int{1, -1} {
						same := len(back) > 0
						nz := false
						for _, b := range back {
							x := sub(ints[i].get(b), ints[i].head)
							y := sub(ints[j].get(b), ints[j].head)
							if sg < 0 {
								y = neg(y)
							}
							if x != y {
								same = false
							}
							if x != tZero {
								nz = true
							}
						}
						if same && nz {
							x := sub(ints[i].head, ints[i].init)
							y := sub(ints[j].head, ints[j].init)
							if sg < 0 {
								y = neg(y)
							}
							addT("together", eq(x, y))
						}
					}
				}
			}
		}
	}
	genAuto()
	c.quiet++
	cands = c.filterInit(p, cands)
	// a second look with the candidates assumed gives better steps
	{
		hp = mkHead()
		mkVars(hp)
		for _, cd := range cands {
			if t := cd.at(hp); t != tFalse {
				c.assume(hp.st, t)
			}
		}
		if !hp.st.dead {
			sink := map[*Term]bool{}
			c.discover++
			back, _ = run(hp, sink)
			c.discover--
			for t := range sink {
				conds[t] = true
			}
			n := len(cands)
			genAuto()
			cands = append(cands[:n:n], c.filterInit(p, cands[n:])...)
		}
	}
	us := c.userInvs(f, p, hp, vars, phis, S, where)
	us = c.filterInit(p, us)
	cands = append(cands, us...)
	for round := 0; ; round++ {
		hp = mkHead()
		for _, cd := range cands {
			c.assume(hp.st, cd.at(hp))
		}
		back, _ = run(hp, nil)
		if collect(back, hp) {
			c.quiet--
			goto restart
		}
		bad := map[*cand]bool{}
		for _, b := range back {
			c.checkCands(b, cands, bad)
		}
		if len(bad) == 0 {
			break
		}
		var nc []*cand
		for _, cd := range cands {
			if !bad[cd] {
				nc = append(nc, cd)
			} else {
				debugf("loop %s: dropped %s", where, cd.name)
			}
		}
		cands = nc
	}
	c.quiet--
	// writes through loop variables rely on their candidates
	for v := range usedDep {
		ok := false
		for _, cd := range cands {
			if cd.of != nil && cd.of.name == v.name {
				ok = true
			}
		}
		if !ok {
			for key := range tg {
				if tg[key].fresh {
					tg[key].all = true
					forceAll[key] = true
				}
			}
			goto restart
		}
	}

	hp = mkHead()
	var kept []string
	for _, cd := range cands {
		c.assume(hp.st, cd.at(hp))
		if c.quiet == 0 {
			kind := "inferred invariant"
			if cd.user {
				kind = "loop invariant"
				kept = append(kept, cd.name)
			}
			c.obls = append(c.obls, &Obligation{Kind: kind, Label: "established and preserved: " + cd.name, Pos: where, Goal: tTrue, Result: Unsat, By: "z3 5.3.2 (inference)"})
		}
	}
	debugf("loop %s: %d invariants", where, len(cands))
	if debugOn {
		for _, cd := range cands {
			debugf("    %s", cd.name)
		}
	}
	if c.quiet == 0 {
		if c.loops == nil {
			c.loops = map[string]*LoopInfo{}
		}
		c.loops[where] = &LoopInfo{Where: where, Kept: kept, Auto: len(cands) - len(kept)}
	}
	sink := map[*Term]bool{}
	back, exits := run(hp, sink)
	if collect(back, hp) {
		goto restart
	}
	if c.wantVariant() {
		c.variant(f, p, hp, back, conds, vars, where)
	}
	return exits
}

// fewTrips recognises short loops whose number of iterations is fixed: a counter that
// begins with a constant, has a constant step, and is compared with a constant.
func (c *Ctx) fewTrips(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, p *Path, phis []*ssa.Phi) bool {
	ins, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || body[h.Succs[0]] == body[h.Succs[1]] {
		return false
	}
	size := 0
	for b := range body {
		size += len(b.Instrs)
		if b != h && f.loop[b] != nil {
			return false
		}
	}
	cmp, ok := ins.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	constOf := func(v ssa.Value) (int64, bool) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			n, ok := constant.Int64Val(constant.ToInt(k.Value))
			return n, ok
		}
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return 0, false
		}
		if t, ok := p.regs[v].(*Term); ok && !t.bool_ {
			return t.constInt()
		}
		return 0, false
	}
	stepOf := func(v ssa.Value, ph *ssa.Phi) (int64, bool) {
		if v == ssa.Value(ph) {
			return 0, true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(ph) {
			return 0, false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		n, ok := constant.Int64Val(constant.ToInt(k.Value))
		switch {
		case ok && b.Op == token.ADD:
			return n, true
		case ok && b.Op == token.SUB:
			return -n, true
		}
		return 0, false
	}
	for _, ph := range phis {
		x, y, op := cmp.X, cmp.Y, cmp.Op
		off, okx := stepOf(x, ph)
		if !okx {
			if off, okx = stepOf(y, ph); !okx {
				continue
			}
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		lim, okl := constOf(y)
		t, okt := p.regs[ph].(*Term)
		if !okl || !okt || t.bool_ {
			continue
		}
		v, okv := t.constInt()
		step, oks := int64(0), true
		for i, e := range ph.Edges {
			if body[h.Preds[i]] {
				s, ok := stepOf(e, ph)
				if !ok || s == 0 || step != 0 && s != step {
					oks = false
				}
				step = s
			}
		}
		if !okv || !oks || step == 0 {
			continue
		}
		stay := body[h.Succs[0]]
		n := 0
		for ; n <= 16; n++ {
			a := v + off
			r := false
			switch op {
			case token.LSS:
				r = a < lim
			case token.LEQ:
				r = a <= lim
			case token.GTR:
				r = a > lim
			case token.GEQ:
				r = a >= lim
			case token.NEQ:
				r = a != lim
			case token.EQL:
				r = a == lim
			}
			if r != stay {
				break
			}
			v += step
		}
		if n <= 16 && n*size <= 250 {
			debugf("loop %s: %d iterations", c.loopPos(f, h), n)
			return true
		}
	}
	return false
}

// unroll executes a loop iteration by iteration, until no path returns to its head.
func (c *Ctx) unroll(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, p *Path) map[*ssa.BasicBlock][]*Path {
	c.loopDepth++
	defer func() { c.loopDepth-- }()
	exits := map[*ssa.BasicBlock][]*Path{}
	paths := []*Path{p}
	for n := 0; len(paths) > 0; n++ {
		if n > 17 {
			panic(engErr("the loop at %s has too many iterations", c.loopPos(f, h)))
		}
		back, ex := c.region(f, h, paths, body, h)
		for to, xs := range ex {
			exits[to] = append(exits[to], xs...)
		}
		paths = back
	}
	return exits
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return strings.Map(func(r rune) rune {
			if r == '!' || r == ':' {
				return '_'
			}
			return r
		}, ph.Comment)
	}
	return ph.Name()
}

func (c *Ctx) loopPos(f *Frame, h *ssa.BasicBlock) string {
	for _, ins := range h.Instrs {
		if ins.Pos().IsValid() {
			return f.fn.Name() + " " + c.pos(ins.Pos())
		}
	}
	return fmt.Sprintf("%s block %d", f.fn.Name(), h.Index)
}

func (c *Ctx) checkCands(b *Path, cands []*cand, bad map[*cand]bool) {
	if b.st.dead {
		return
	}
	var qf, all []*cand
	var qt []*Term
	for _, cd := range cands {
		if bad[cd] {
			continue
		}
		t := cd.at(b)
		if v, k := c.decide(b.st, t); k && v {
			continue
		}
		if quantFree(t, qfMemo) {
			qf = append(qf, cd)
			qt = append(qt, t)
		} else {
			all = append(all, cd)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	par := func(cd *cand, f func() bool) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if !f() {
				mu.Lock()
				bad[cd] = true
				mu.Unlock()
			}
		}()
	}
	as := b.st.asm.list()
	ask := func(t *Term, ms int) bool {
		r, _ := ask2(as, t, c.allAxioms, script(as, t, c.allAxioms, false), ms)
		return r == Unsat
	}
	if len(qt) > 0 && !c.qfEntails(b.st, and(qt...), ite_(c.retry, 1500, 400)) {
		hq0 := c.hasQuant(b.st)
		for i, cd := range qf {
			t := qt[i]
			hq := hq0 || c.axiomatic(t)
			if v, k := c.decide(b.st, t); k {
				if !v {
					bad[cd] = true
				}
				continue
			}
			par(cd, func() bool {
				lim := 600
				if !c.retry && !cd.user && c.discover > 0 {
					lim = 300
				}
				if c.qfAsk(as, t, lim) {
					return true
				}
				if hq && cd.user {
					r, _ := prove(as, t, c.allAxioms, ite_(c.holes > 0 && !c.retry, 700, 3000))
					if d := os.Getenv("GOVC_DUMP"); d != "" && r != Unsat {
						os.WriteFile(fmt.Sprintf("%s/inv.%d.smt2", d, time.Now().UnixNano()), []byte(script(as, t, c.allAxioms, false)+"(check-sat)\n"), 0o644)
					}
					return r == Unsat
				}
				return hq && ask(t, min(lim, 500))
			})
		}
	}
	for _, cd := range all {
		t := cd.at(b)
		if v, k := c.decide(b.st, t); k && v {
			continue
		}
		par(cd, func() bool {
			budget := c.invBudget()
			if cd.user {
				budget *= 2
				if !c.retry && (c.discover > 0 || c.failedBefore(cd.key)) {
					budget = 1500
				}
			}
			t0 := time.Now()
			r, by := prove(as, t, c.allAxioms, budget)
			if d := time.Since(t0); debugOn && d > time.Second {
				debugf("candidate %v %s %v: %s", d, by, r == Unsat, cd.name)
			}
			if r != Unsat && cd.user && c.discover == 0 {
				c.noteFailed(cd.key)
			}
			return r == Unsat
		})
	}
	wg.Wait()
}

var failedMu sync.Mutex

// failedBefore says whether an invariant candidate failed under stronger assumptions.
func (c *Ctx) failedBefore(key string) bool {
	failedMu.Lock()
	defer failedMu.Unlock()
	return c.invFailed[key]
}

func (c *Ctx) noteFailed(key string) {
	failedMu.Lock()
	defer failedMu.Unlock()
	if c.invFailed == nil {
		c.invFailed = map[string]bool{}
	}
	c.invFailed[key] = true
}

// elemIdentity says whether t is about strings or references stored in slices: their
// identities are no good for inequalities.
func elemIdentity(t *Term) bool {
	if t.op == OApp && strings.HasPrefix(t.name, "H:elem:") {
		i := strings.LastIndexByte(t.name, ':')
		if k := t.name[i+1:]; i < len("H:elem:") || !strings.HasPrefix(k, "u") && !strings.HasPrefix(k, "i") {
			return true
		}
	}
	for _, a := range t.args {
		if elemIdentity(a) {
			return true
		}
	}
	return false
}

func (c *Ctx) invBudget() int { return 6000 }

func (c *Ctx) askAll(st *State, t *Term, ms int) bool {
	as := st.asm.list()
	r, _ := ask2(as, t, c.allAxioms, script(as, t, c.allAxioms, false), ms)
	return r == Unsat
}

func (c *Ctx) filterInit(p *Path, cands []*cand) []*cand {
	bad := map[*cand]bool{}
	c.checkCands(p, cands, bad)
	var out []*cand
	for _, cd := range cands {
		if !bad[cd] {
			out = append(out, cd)
		} else if cd.user {
			debugf("not established: %s", cd.name)
		}
	}
	return out
}

// userInvs instantiates the contracts' invariant templates.
func (c *Ctx) userInvs(f *Frame, p, hp *Path, vars []*loopVar, phis []*ssa.Phi, S int, where string) []*cand {
	type src struct {
		con  *Contract
		vars map[string]tv
	}
	var srcs []src
	if f.con != nil && f.con != c.con {
		m := map[string]tv{}
		for i, pr := range f.fn.Params {
			if i < len(f.con.Params) {
				m[f.con.Params[i]] = tv{p.regs[pr], pr.Type()}
			}
		}
		for i, fv := range f.fn.FreeVars {
			_ = i
			m[fv.Name()] = tv{p.regs[fv], fv.Type()}
		}
		srcs = append(srcs, src{f.con, m})
	}
	if c.con != nil {
		srcs = append(srcs, src{c.con, c.topVars})
	}
	// what a hole may stand for
	type hole struct {
		name string
		get  func(q *Path) tv
		lv   bool
		phi  bool
	}
	var ints, slices, others, iters, lens []hole
	seenT := map[*Term]bool{}
	steps := loopSteps(phis)
	for _, v := range vars {
		v := v
		// The counter of a range loop stands for the number of elements seen.
		h := hole{v.name, func(q *Path) tv {
			if v.rng {
				return tv{addK(v.get(q), 1), tInt}
			}
			return tv{v.get(q), tInt}
		}, true, v.phi}
		switch v.kind {
		case "int":
			if !strings.Contains(v.name, "#") {
				ints = append(ints, h)
				seenT[v.init] = true
				if step := steps[v.phiOf]; step != 0 {
					iters = append(iters, hole{v.name, func(q *Path) tv {
						if step > 0 {
							return tv{sub(v.get(q), v.init), tInt}
						}
						return tv{sub(v.init, v.get(q)), tInt}
					}, true, v.phi})
				}
			} else if strings.HasSuffix(v.name, "#len") {
				lens = append(lens, hole{v.name, func(q *Path) tv { return tv{sub(v.get(q), v.init), tInt} }, true, v.phi},
					hole{v.name, func(q *Path) tv { return tv{sub(v.init, v.get(q)), tInt} }, true, v.phi})
			}
		}
	}
	if len(iters) == 0 {
		iters = lens
	}
	for _, ph := range phis {
		ph := ph
		h := hole{phiName(ph), func(q *Path) tv { return tv{q.regs[ph], ph.Type()} }, true, true}
		switch p.regs[ph].(type) {
		case SliceV:
			slices = append(slices, h)
		case PtrV:
			others = append(others, h)
		case *Term:
			if !isIntType(ph.Type()) {
				others = append(others, h)
			}
		}
	}
	// values computed before the loop
	h0 := phisBlock(phis)
	if h0 == nil {
		h0 = f.rpo[0]
	}
	var regs []ssa.Value
	vals := maps.Clone(p.regs)
	collect := func(m map[ssa.Value]Val) {
		n := len(regs)
		for v, val := range m {
			if _, ok := vals[v]; ok && n > 0 {
				continue
			}
			regs = append(regs, v)
			vals[v] = val
		}
		l := regs[n:]
		sort.Slice(l, func(i, j int) bool {
			if l[i].Pos() != l[j].Pos() {
				return l[i].Pos() < l[j].Pos()
			}
			return l[i].Name() < l[j].Name()
		})
	}
	collect(p.regs)
	own := len(regs)
	for i := len(c.frames) - 1; i >= 0; i-- {
		collect(c.frames[i])
	}
	isPhi := map[ssa.Value]bool{}
	for _, ph := range phis {
		isPhi[ph] = true
	}
	dupHole := func(x Val) bool {
		for _, o := range others {
			if !o.lv && valEq(o.get(p).v, x) {
				return true
			}
		}
		return false
	}
	for i, v := range regs {
		if isPhi[v] || v.Type() == nil {
			continue
		}
		val := vals[v]
		if _, isT := val.(*Term); i >= own && isT && isIntType(v.Type()) {
			continue // of a caller
		}
		h := hole{v.Name(), func(q *Path) tv { return tv{val, v.Type()} }, false, false}
		switch x := val.(type) {
		case *Term:
			if isIntType(v.Type()) && !x.isConst() && !seenT[x] && len(ints) < 14 {
				seenT[x] = true
				ints = append(ints, h)
			}
			if !isIntType(v.Type()) && !x.bool_ && len(others) < 30 && !dupHole(x) {
				others = append(others, h)
			}
		case PtrV, *StructV:
			if len(others) < 30 && !dupHole(x) {
				others = append(others, h)
			}
		case SliceV:
			if len(slices) < 10 {
				dup := false
				for _, s := range slices {
					if !s.lv && valEq(s.get(p).v, val) {
						dup = true
					}
				}
				if !dup {
					slices = append(slices, h)
				}
			}
		}
	}
	var out []*cand
	for _, s := range srcs {
		s := s
		limit := map[string][]hole{}
		pool := func(name string) []hole {
			if l, ok := limit[name]; ok {
				return l
			}
			switch strings.TrimPrefix(name, "HOLE_")[0] {
			case 's':
				return slices
			case 'p':
				if len(others) > 10 {
					return others[:10]
				}
				return others
			case 'i': // the number of iterations done
				return iters
			case 'v': // only loop variables
				var l, phi []hole
				for _, h := range ints {
					if h.lv {
						l = append(l, h)
						if h.phi {
							phi = append(phi, h)
						}
					}
				}
				if len(phi) > 0 && len(l) > 4 {
					return phi
				}
				return l
			}
			return ints
		}
		mk := func(cl Clause, hs []string, sel map[string]hole) *cand {
			hsel := maps.Clone(sel)
			at := func(q *Path) *Term {
				vs := maps.Clone(s.vars)
				ev := maps.Clone(s.vars)
				if vs == nil {
					vs, ev = map[string]tv{}, map[string]tv{}
				}
				for n, h := range hsel {
					vs[n] = h.get(q)
					ev[n] = h.get(p)
				}
				e := &env{c: c, cur: q.st, old: c.entry, entry: p.st, entryV: ev, vars: vs, con: s.con}
				return e.boolean(cl.Expr)
			}
			ok := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, isE := r.(engineError); isE || len(hs) > 0 {
							debugf("template %s: %v", cl.Label, r)
							ok = false
							return
						}
						panic(r)
					}
				}()
				at(p)
				at(hp) // nothing is short-circuited there
				return true
			}()
			if !ok {
				return nil
			}
			nm := cl.Label
			for _, n := range hs {
				nm += fmt.Sprintf(" [%s=%s]", n, sel[n].name)
			}
			return &cand{name: nm, user: true, at: at, key: fmt.Sprint(where, nm)}
		}
		for _, cl := range s.con.Holes {
			hs := holesOf(cl.Expr)
			if len(hs) != 1 {
				panic(engErr("hole %s needs exactly one hole", cl.Label))
			}
			all := pool(hs[0])
			if hs[0][5] == 'p' && limit[hs[0]] == nil {
				all = others
			}
			var cs []*cand
			of := map[*cand]hole{}
			for _, h := range all {
				if cd := mk(cl, hs, map[string]hole{hs[0]: h}); cd != nil {
					cs = append(cs, cd)
					of[cd] = h
				}
			}
			bad := map[*cand]bool{}
			c.holes++
			c.checkCands(p, cs, bad)
			c.holes--
			l := []hole{}
			for _, cd := range cs {
				if !bad[cd] {
					l = append(l, of[cd])
				}
			}
			limit[hs[0]] = l
		}
		for _, cl := range s.con.Invs {
			if cl.Depth > 0 && cl.Depth != c.loopDepth+1 {
				continue
			}
			hs := holesOf(cl.Expr)
			var rec func(i int, sel map[string]hole)
			rec = func(i int, sel map[string]hole) {
				if i == len(hs) {
					if cd := mk(cl, hs, sel); cd != nil {
						out = append(out, cd)
					}
					return
				}
				for _, h := range pool(hs[i]) {
					sel[hs[i]] = h
					rec(i+1, sel)
				}
				delete(sel, hs[i])
			}
			rec(0, map[string]hole{})
		}
	}
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

// loopSteps finds the variables that change by exactly one in every iteration.
func loopSteps(phis []*ssa.Phi) map[*ssa.Phi]int {
	r := map[*ssa.Phi]int{}
	for _, ph := range phis {
		step, seen := 0, false
		for i, e := range ph.Edges {
			if !ph.Block().Dominates(ph.Block().Preds[i]) {
				continue
			}
			s := 0
			if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(ph) {
				if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && isIntType(k.Type()) && k.Int64() == 1 {
					switch b.Op {
					case token.ADD:
						s = 1
					case token.SUB:
						s = -1
					}
				}
			}
			if seen && s != step {
				s = 0
			}
			step, seen = s, true
			if s == 0 {
				break
			}
		}
		r[ph] = step
	}
	return r
}

func phisBlock(phis []*ssa.Phi) *ssa.BasicBlock {
	if len(phis) > 0 {
		return phis[0].Block()
	}
	return nil
}

func holesOf(e ast.Expr) []string {
	m := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "HOLE_") {
			m[id.Name] = true
		}
		return true
	})
	return sortedKeys(m)
}

func (c *Ctx) wantVariant() bool { return c.con != nil && c.con.Terminates && c.quiet == 0 }

// variant proves that a loop ends: some expression over its variables is bounded below
// and decreases with every iteration.
func (c *Ctx) variant(f *Frame, p, hp *Path, back []*Path, conds map[*Term]bool, vars []*loopVar, where string) {
	type vr struct {
		name string
		at   func(q *Path) *Term
	}
	var vs []vr
	for _, v := range vars {
		if v.kind == "int" {
			v := v
			vs = append(vs, vr{v.name, v.get}, vr{"-" + v.name, func(q *Path) *Term { return neg(v.get(q)) }})
		}
	}
	var cs []*Term
	for t := range conds {
		cs = append(cs, t)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, t := range cs {
		t := t
		if t.op == ONot {
			t = t.args[0]
		}
		if t.op != OGe0 && t.op != OEq0 {
			continue
		}
		for _, s := range []*Term{t.args[0], neg(t.args[0])} {
			s := s
			vs = append(vs, vr{s.String(), func(q *Path) *Term {
				m := map[*Term]*Term{}
				for _, v := range vars {
					m[v.head] = v.get(q)
				}
				return subst(s, m)
			}})
		}
	}
	if c.con != nil {
		for _, cl := range c.con.Variants {
			cl := cl
			e0 := func(q *Path) *Term {
				e := &env{c: c, cur: q.st, old: c.entry, entry: p.st, vars: c.topVars, con: c.con}
				return e.integer(cl.Expr)
			}
			vs = append([]vr{{cl.Label, e0}}, vs...)
		}
	}
	// iterators over maps end by themselves
	for _, ins := range phisOrAll(f, where, hp) {
		_ = ins
	}
	for _, v := range vs {
		ok := true
		h := v.at(hp)
		for _, b := range back {
			n := v.at(b)
			// the value at the start of an iteration that continues is bounded below
			g := and(lt(n, h), ge(h, num(-1<<40)))
			if !c.qfEntails(b.st, g, 600) && !((c.hasQuant(b.st) || c.axiomatic(g)) && c.entails(b.st, g, 1500)) {
				ok = false
				break
			}
		}
		if ok {
			c.obls = append(c.obls, &Obligation{Kind: "termination", Label: "the loop ends: " + v.name + " decreases", Pos: where, Goal: tTrue, Result: Unsat, By: "z3 5.3.2 (inference)"})
			return
		}
	}
	c.obls = append(c.obls, &Obligation{Kind: "termination", Label: "the loop ends", Pos: where, Goal: tFalse, Asm: hp.st.asm.list(), Result: Unknown, By: "no variant found"})
}

func phisOrAll(f *Frame, where string, hp *Path) []ssa.Instruction { return nil }

func ite_(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
