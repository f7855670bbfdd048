package main

import (
	"fmt"
	"go/types"
	"maps"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// An Asm is a persistent list of assumptions.
type Asm struct {
	t      *Term
	parent *Asm
	n      int
}

func (a *Asm) depth() int {
	if a == nil {
		return 0
	}
	return a.n
}

func (a *Asm) list() []*Term {
	out := make([]*Term, a.depth())
	for i := len(out) - 1; a != nil; a, i = a.parent, i-1 {
		out[i] = a.t
	}
	return out
}

// since lists the assumptions added after base.
func (a *Asm) since(base *Asm) []*Term {
	var out []*Term
	for a != base && a != nil {
		out = append(out, a.t)
		a = a.parent
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func commonAsm(a, b *Asm) *Asm {
	for a.depth() > b.depth() {
		a = a.parent
	}
	for b.depth() > a.depth() {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

type bnd struct{ lo, hi *big.Int }

type State struct {
	asm   *Asm
	bnds  map[*Term]bnd
	facts map[*Term]bool
	own   bool // bnds and facts aren't shared
	heap  map[string]*Node
	dead  bool
	trace []string
	sink  *State // assumptions go here as well
}

// shadow is the heap of o with the assumptions of cur.
func shadow(o, cur *State) *State {
	return &State{heap: o.heap, asm: cur.asm, facts: cur.facts, bnds: cur.bnds, sink: cur}
}

func (s *State) clone() *State {
	n := *s
	s.own = false
	n.own = false
	n.heap = maps.Clone(s.heap)
	return &n
}

type FuncKey = string

// A Ctx is the verification of one function.
type Ctx struct {
	prog      *Program
	prop      string
	fn        *ssa.Function
	con       *Contract
	entry     *State // state at the function's entry
	alloc     int    // objects allocated so far
	boxes     map[*Term]box
	funcs     map[*Term]FuncV
	wraps     map[*Term][]*Term
	interior  map[*Term]PtrV
	distinct  map[[2]*Term]bool
	discover  int // > 0: looking for what loops write
	retry     bool
	strs      map[strKey]*Term
	holes     int // > 0: selecting what holes may stand for
	invFailed map[string]bool
	quiet     int // > 0: obligations are assumed, not recorded
	obls      []*Obligation
	depth     int
	modified  []*modTarget
	notes     map[string]bool // assumptions relied upon
	inlined   map[string]bool
	called    map[string]bool // contracts relied upon
	stack     []*ssa.Function
	steps     int
	maxStep   int
	nofeas    bool
	axioms    []*Axiom
	allAxioms []*Axiom
	useBits   bool
	loopDepth int
	frames    []map[ssa.Value]Val // of the callers
	condSinks []map[*Term]bool
	topVars   map[string]tv
	loops     map[string]*LoopInfo
}

type box struct {
	typ types.Type
	val Val
}

type Obligation struct {
	Name   string
	Kind   string
	Pos    string
	Label  string
	Tags   []string
	Asm    []*Term
	Goal   *Term
	Result Result
	By     string
	Ms     int64
	Trace  []string
}

func (c *Ctx) note(f string, a ...any) {
	if c.notes == nil {
		c.notes = map[string]bool{}
	}
	c.notes[fmt.Sprintf(f, a...)] = true
}

// snapshot and restore make repeated execution of the same code deterministic.
type counters struct {
	sym, alloc int
	boxes      map[*Term]box
	funcs      map[*Term]FuncV
	wraps      map[*Term][]*Term
	interior   map[*Term]PtrV
}

func (c *Ctx) save() counters {
	return counters{symSeq, c.alloc, maps.Clone(c.boxes), maps.Clone(c.funcs), maps.Clone(c.wraps), maps.Clone(c.interior)}
}
func (c *Ctx) restore(k counters) {
	symSeq, c.alloc = k.sym, k.alloc
	c.boxes, c.funcs, c.wraps, c.interior = maps.Clone(k.boxes), maps.Clone(k.funcs), maps.Clone(k.wraps), maps.Clone(k.interior)
}

func (c *Ctx) newRef() *Term {
	c.alloc++
	return num(int64(-c.alloc))
}

func (c *Ctx) refRange() string { return fmt.Sprintf("r%d", c.alloc) }

func (c *Ctx) refEq(a, b *Term) *Term {
	e := eq(a, b)
	if e == tTrue || e == tFalse {
		return e
	}
	if c.distinct[[2]*Term{a, b}] || c.distinct[[2]*Term{b, a}] {
		return tFalse
	}
	return e
}

func (c *Ctx) rngName(l leaf) string {
	switch l.rng {
	case "ref":
		return ":" + c.refRange()
	case "", "str", "opq":
		return ""
	}
	return ":" + l.rng
}

// node returns the current heap map for a leaf key, creating the base if needed.
// All leaves with the same key have the same sort.
func (c *Ctx) node(st *State, key string, l leaf) *Node {
	if n, ok := st.heap[key]; ok {
		return n
	}
	// the base belongs to the entry state
	var n *Node
	if c.entry != nil {
		n = c.entry.heap[key]
	}
	if n == nil {
		r := l.rng
		if r == "ref" {
			r = "r0"
		}
		nm := "H:" + key
		if r != "" && r != "str" && r != "opq" {
			nm += ":" + r
		}
		n = &Node{kind: nBase, name: nm, isB: l.isB, two: isTwoLevel(key), l: l}
		if c.entry != nil {
			c.entry.heap[key] = n
		}
	}
	st.heap[key] = n
	return n
}

func (c *Ctx) rd(st *State, key string, l leaf, ref, idx *Term) *Term {
	n := c.node(st, key, l)
	if !n.root().two {
		idx = tZero
	}
	return n.read(c, ref, idx)
}

func (n *Node) root() *Node {
	for n.kind != nBase {
		n = n.prev
	}
	return n
}

func (c *Ctx) wr(st *State, key string, l leaf, ref, idx, v *Term) {
	n := c.node(st, key, l)
	if !n.root().two {
		idx = tZero
	}
	st.heap[key] = &Node{kind: nStore, prev: n, ref: ref, idx: idx, val: v, log: true}
	c.byteWrite(st, key, ref)
}

var bitsLeaf = leaf{"", true, ""}

// byteWrite keeps the bit view of byte slices consistent.
func (c *Ctx) byteWrite(st *State, key string, ref *Term) {
	if c.useBits && key == "elem:uint8" {
		c.havocObj(st, "bits:elem", bitsLeaf, ref)
	}
}

// havocObj forgets everything about one object.
func (c *Ctx) havocObj(st *State, key string, l leaf, ref *Term) {
	n := c.node(st, key, l)
	nm := freshName("H:" + key + c.rngName(l))
	two := n.root().two
	isB := l.isB
	st.heap[key] = &Node{kind: nObj, prev: n, ref: ref, log: true, fn: func(r, i *Term) *Term {
		if two {
			return app(nm, isB, i)
		}
		return app(nm, isB)
	}}
	c.byteWrite(st, key, ref)
}

// havocRange forgets the elements [lo, hi) of one object.
func (c *Ctx) havocRange(st *State, key string, l leaf, ref, lo, hi *Term) {
	nm := freshName("H:" + key + c.rngName(l))
	isB := l.isB
	c.setRange(st, key, l, ref, lo, hi, func(r, i *Term) *Term { return app(nm, isB, i) })
}

func (c *Ctx) setRange(st *State, key string, l leaf, ref, lo, hi *Term, fn func(ref, idx *Term) *Term) {
	n := c.node(st, key, l)
	st.heap[key] = &Node{kind: nRange, prev: n, ref: ref, lo: lo, hi: hi, log: true, fn: fn}
	c.byteWrite(st, key, ref)
}

func (c *Ctx) setObj(st *State, key string, l leaf, ref *Term, fn func(ref, idx *Term) *Term) {
	n := c.node(st, key, l)
	st.heap[key] = &Node{kind: nObj, prev: n, ref: ref, log: true, fn: fn}
	c.byteWrite(st, key, ref)
}

// havocFresh forgets all objects with references below hi.
func (c *Ctx) havocFresh(st *State, key string, l leaf, hi *Term) {
	n := c.node(st, key, l)
	nm := freshName("H:" + key + c.rngName(l))
	two := n.root().two
	isB := l.isB
	st.heap[key] = &Node{kind: nFresh, prev: n, hi: hi, log: true, fn: func(r, i *Term) *Term {
		if two {
			return app(nm, isB, r, i)
		}
		return app(nm, isB, r)
	}}
}

func (c *Ctx) havocAll(st *State, key string, l leaf) {
	n := c.node(st, key, l)
	st.heap[key] = &Node{kind: nBase, name: freshName("H:" + key + c.rngName(l)), isB: l.isB, two: n.root().two, l: l, log: true}
}

// ---------------------------------------------------------------- assumptions

func (c *Ctx) assume(st *State, ts ...*Term) {
	for _, t := range ts {
		if t.op == OAnd {
			c.assume(st, t.args...)
			continue
		}
		if t == tTrue || st.facts[t] || t.bound {
			continue
		}
		if st.sink != nil {
			c.assume(st.sink, t)
		}
		if t == tFalse || st.facts[not(t)] {
			st.dead = true
		}
		if !st.own {
			st.facts = maps.Clone(st.facts)
			st.bnds = maps.Clone(st.bnds)
			if st.facts == nil {
				st.facts = map[*Term]bool{}
				st.bnds = map[*Term]bnd{}
			}
			st.own = true
		}
		st.facts[t] = true
		st.asm = &Asm{t, st.asm, st.asm.depth() + 1}
		c.learn(st, t)
		// unit propagation into disjunctions is left to the solvers
	}
}

func (c *Ctx) learn(st *State, t *Term) {
	switch t.op {
	case OGe0:
		l := t.args[0]
		a, co, k := l, bigOne, new(big.Int)
		if l.op == OLin {
			if len(l.args) != 1 {
				// try to derive bounds of each atom from the others
				c.learnLin(st, l)
				p, k := linPart(l)
				b := st.bnds[p]
				if v := new_(k); b.lo == nil || v.Cmp(b.lo) > 0 {
					b.lo = v
					st.bnds[p] = b
				}
				p2, k2 := linPart(neg(l))
				b = st.bnds[p2]
				if v := new_(k2); b.hi == nil || v.Cmp(b.hi) < 0 {
					b.hi = v
					st.bnds[p2] = b
				}
				return
			}
			a, co, k = l.args[0], l.coef[0], l.val
		}
		b := st.bnds[a]
		if co.Sign() > 0 { // a >= ceil(-k/co)
			v := ceilDiv(new_(k), co)
			if b.lo == nil || v.Cmp(b.lo) > 0 {
				b.lo = v
			}
		} else {
			v, _ := floorDiv(k, new_(co))
			if b.hi == nil || v.Cmp(b.hi) < 0 {
				b.hi = v
			}
		}
		st.bnds[a] = b
	case OEq0:
		l := t.args[0]
		if l.op == OLin && len(l.args) == 1 {
			if new(big.Int).Mod(l.val, new(big.Int).Abs(l.coef[0])).Sign() == 0 {
				v := new(big.Int).Quo(new_(l.val), l.coef[0])
				st.bnds[l.args[0]] = bnd{v, v}
			}
		} else if l.op != OLin {
			st.bnds[l] = bnd{new(big.Int), new(big.Int)}
		} else {
			c.learnLin(st, l)
			c.learnLin(st, neg(l))
		}
	}
}

func ceilDiv(a, b *big.Int) *big.Int {
	q, _ := floorDiv(new_(a), b)
	return q.Neg(q)
}

// learnLin derives bounds of the atoms in l >= 0.
func (c *Ctx) learnLin(st *State, l *Term) {
	if len(l.args) > 4 {
		return
	}
	for i, a := range l.args {
		// coef*a >= -(rest); need upper bound of rest
		hi := new(big.Int).Set(l.val)
		ok := true
		for j, o := range l.args {
			if j == i {
				continue
			}
			lo2, hi2 := st.bounds(o)
			x := hi2
			if l.coef[j].Sign() < 0 {
				x = lo2
			}
			if x == nil {
				ok = false
				break
			}
			hi.Add(hi, new(big.Int).Mul(x, l.coef[j]))
		}
		if !ok {
			continue
		}
		b := st.bnds[a]
		if l.coef[i].Sign() > 0 {
			v := ceilDiv(new_(hi), l.coef[i])
			if b.lo == nil || v.Cmp(b.lo) > 0 {
				b.lo = v
				st.bnds[a] = b
			}
		} else {
			v, _ := floorDiv(hi, new_(l.coef[i]))
			if b.hi == nil || v.Cmp(b.hi) < 0 {
				b.hi = v
				st.bnds[a] = b
			}
		}
	}
}

// linPart splits a linear term into its non-constant part and the constant.
func linPart(l *Term) (*Term, *big.Int) {
	if l.op != OLin || l.val.Sign() == 0 {
		return l, new(big.Int)
	}
	return mk(OLin, false, "", new(big.Int), l.coef, l.args), l.val
}

func (st *State) bounds(t *Term) (lo, hi *big.Int) {
	if t.op == OLin && len(t.args) > 1 {
		p, k := linPart(t)
		lo, hi = st.bounds1(t)
		b := st.bnds[p]
		if b.lo != nil {
			if v := new(big.Int).Add(b.lo, k); lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if b.hi != nil {
			if v := new(big.Int).Add(b.hi, k); hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
		return
	}
	return st.bounds1(t)
}

func (st *State) bounds1(t *Term) (lo, hi *big.Int) {
	return boundsWith(t, func(a *Term) (*big.Int, *big.Int) {
		b := st.bnds[a]
		return b.lo, b.hi
	})
}

// decide tries to decide a condition cheaply.
func (c *Ctx) decide(st *State, t *Term) (val, known bool) {
	if t == tTrue || st.facts[t] {
		return true, true
	}
	if t == tFalse || st.facts[not(t)] {
		return false, true
	}
	switch t.op {
	case OGe0:
		lo, hi := st.bounds(t.args[0])
		if lo != nil && lo.Sign() >= 0 {
			return true, true
		}
		if hi != nil && hi.Sign() < 0 {
			return false, true
		}
	case OEq0:
		lo, hi := st.bounds(t.args[0])
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return false, true
		}
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return true, true
		}
	case ONot:
		v, k := c.decide(st, t.args[0])
		return !v, k
	case OAnd:
		all := true
		for _, a := range t.args {
			v, k := c.decide(st, a)
			if k && !v {
				return false, true
			}
			all = all && k
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, k := c.decide(st, a)
			if k && v {
				return true, true
			}
			all = all && k
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func quantFree(t *Term, memo map[*Term]int8) bool {
	qfMu.Lock()
	defer qfMu.Unlock()
	return quantFree1(t, memo)
}

var qfMu sync.Mutex

func quantFree1(t *Term, memo map[*Term]int8) bool {
	if v, ok := memo[t]; ok {
		return v == 1
	}
	r := t.op != OForall && t.op != OExists
	if r {
		for _, a := range t.args {
			if !quantFree1(a, memo) {
				r = false
				break
			}
		}
	}
	if r {
		memo[t] = 1
	} else {
		memo[t] = -1
	}
	return r
}

var qfMemo = map[*Term]int8{}

// qfEntails checks with a solver whether the quantifier-free assumptions imply t.
func (c *Ctx) qfEntails(st *State, t *Term, ms int) bool {
	if v, k := c.decide(st, t); k {
		return v
	}
	if st.dead {
		return true
	}
	return c.qfAsk(st.asm.list(), t, ms)
}

func (c *Ctx) qfAsk(all []*Term, t *Term, ms int) bool {
	var as []*Term
	for _, a := range all {
		if quantFree(a, qfMemo) {
			as = append(as, a)
		}
	}
	scr := script(as, t, nil, false)
	memoMu.Lock()
	e, ok := memo[scr]
	memoMu.Unlock()
	if ok {
		return e.r == Unsat
	}
	r, _ := ask2(as, t, nil, scr, ms)
	memoMu.Lock()
	memo[scr] = proofCacheEntry{r, "z3"}
	memoMu.Unlock()
	return r == Unsat
}

// entails uses all assumptions and the portfolio.
func (c *Ctx) entails(st *State, t *Term, ms int) bool {
	if v, k := c.decide(st, t); k && v {
		return true
	}
	if st.dead {
		return true
	}
	r, _ := prove(st.asm.list(), t, c.allAxioms, ms)
	return r == Unsat
}

func (c *Ctx) feasible(st *State) bool {
	if st.dead {
		return false
	}
	if c.nofeas {
		return true
	}
	return !c.qfEntails(st, tFalse, 400)
}

// oblige records that goal must hold in st, and assumes it from now on.
func (c *Ctx) oblige(st *State, kind, label, pos string, tags []string, goal *Term) {
	if st.dead {
		return
	}
	if v, k := c.decide(st, goal); k && v {
		if c.quiet == 0 {
			c.obls = append(c.obls, &Obligation{Kind: kind, Label: label, Pos: pos, Tags: tags, Goal: tTrue, Result: Unsat, By: "simplifier"})
		}
		return
	}
	if c.quiet == 0 {
		parts := []*Term{goal}
		if goal.op == OAnd {
			parts = goal.args
		}
		for _, g := range parts {
			c.obls = append(c.obls, &Obligation{Kind: kind, Label: label, Pos: pos, Tags: tags, Asm: st.asm.list(), Goal: g, Trace: st.trace})
		}
	}
	c.assume(st, goal)
}

func tagsMatch(tags []string, p string) bool {
	if p == "" || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

var _ = strings.Join
