package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed first-order terms over two sorts, Int (mathematical
// integers) and Bool. Memory is eliminated when terms are built (see heap.go), so
// the solvers only ever see uninterpreted functions and linear arithmetic.

type Op uint8

const (
	OConst Op = iota // integer constant
	OVar             // free symbol
	OBound           // bound variable
	OApp             // uninterpreted function
	OLin             // linear combination of atoms + constant
	OMul             // product of two or more atoms
	ODiv             // floor division by a positive constant
	OMod             // modulo a positive constant
	OIte
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq0 // linear term = 0
	OGe0 // linear term >= 0
	OIff
	OForall
	OExists
)

type Term struct {
	op    Op
	bool_ bool // sort is Bool
	args  []*Term
	name  string
	val   *big.Int   // OConst; OLin constant; ODiv/OMod divisor
	coef  []*big.Int // OLin
	id    int
	bound bool // contains bound variables that aren't quantified inside
	born  int  // largest creation number of any free symbol inside
	size  int
	rlo   *big.Int // range of a symbol or application
	rhi   *big.Int
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
	symSeq  int
)

func (t *Term) isInt() bool { return !t.bool_ }

func mk(op Op, isBool bool, name string, val *big.Int, coef []*big.Int, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('a' + op))
	if isBool {
		sb.WriteByte('!')
	}
	sb.WriteString(name)
	if val != nil {
		sb.WriteByte('#')
		sb.WriteString(val.String())
	}
	for i, a := range args {
		sb.WriteByte(',')
		if coef != nil {
			sb.WriteString(coef[i].String())
			sb.WriteByte('*')
		}
		fmt.Fprintf(&sb, "%d", a.id)
	}
	key := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{op: op, bool_: isBool, args: args, name: name, val: val, coef: coef}
	termSeq++
	t.id = termSeq
	t.size = 1
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.born > t.born {
			t.born = a.born
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if op == OBound {
		t.bound = true
	}
	if op == OForall || op == OExists {
		t.bound = hasFreeBound(t)
	}
	if op == OVar || op == OApp || op == OBound {
		if n := nameBorn(name); n > t.born {
			t.born = n
		}
		if !isBool {
			t.rlo, t.rhi = nameRange(name)
		}
	}
	termTab[key] = t
	return t
}

func hasFreeBound(t *Term) bool {
	n := len(t.args) - 1
	names := map[*Term]bool{}
	for _, v := range t.args[:n] {
		names[v] = true
	}
	fb := map[*Term]bool{}
	freeBounds(t.args[n], fb, map[*Term]bool{})
	for v := range fb {
		if !names[v] {
			return true
		}
	}
	return false
}

func freeBounds(t *Term, out, seen map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OBound {
		out[t] = true
		return
	}
	if t.op == OForall || t.op == OExists {
		n := len(t.args) - 1
		in := map[*Term]bool{}
		freeBounds(t.args[n], in, map[*Term]bool{})
		for v := range in {
			q := false
			for _, b := range t.args[:n] {
				if b == v {
					q = true
				}
			}
			if !q {
				out[v] = true
			}
		}
		return
	}
	for _, a := range t.args {
		freeBounds(a, out, seen)
	}
}

// nameBorn decodes the creation number that's part of a symbol's name.
func nameBorn(name string) int {
	i := strings.LastIndexByte(name, '!')
	if i < 0 {
		return 0
	}
	n, _ := strconv.Atoi(name[i+1:])
	return n
}

// Every symbol created during the verification of a function is numbered. The
// counter is reset when part of a function is executed again.
func freshName(prefix string) string {
	symSeq++
	return fmt.Sprintf("%s!%d", prefix, symSeq)
}

func freshInt(prefix string) *Term  { return mk(OVar, false, freshName(prefix), nil, nil, nil) }
func freshBool(prefix string) *Term { return mk(OVar, true, freshName(prefix), nil, nil, nil) }
func symInt(name string) *Term      { return mk(OVar, false, name, nil, nil, nil) }
func symBool(name string) *Term     { return mk(OVar, true, name, nil, nil, nil) }

func freshBound(prefix string) *Term {
	return mk(OBound, false, freshName("?"+prefix), nil, nil, nil)
}

var (
	tTrue  = mk(OTrue, true, "", nil, nil, nil)
	tFalse = mk(OFalse, true, "", nil, nil, nil)
	tZero  = num(0)
	tOne   = num(1)
)

func numB(v *big.Int) *Term { return mk(OConst, false, "", v, nil, nil) }
func num(v int64) *Term     { return numB(big.NewInt(v)) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

// app applies an uninterpreted function.
func app(name string, isBool bool, args ...*Term) *Term {
	return mk(OApp, isBool, name, nil, nil, args)
}

// ---------------------------------------------------------------- linear terms

type lin struct {
	c map[*Term]*big.Int
	k *big.Int
}

func newLin() *lin { return &lin{map[*Term]*big.Int{}, new(big.Int)} }

func (l *lin) addTerm(t *Term, f *big.Int) {
	switch t.op {
	case OConst:
		l.k.Add(l.k, new(big.Int).Mul(t.val, f))
	case OLin:
		l.k.Add(l.k, new(big.Int).Mul(t.val, f))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], f))
		}
	default:
		l.addAtom(t, f)
	}
}

func (l *lin) addAtom(a *Term, f *big.Int) {
	if o, ok := l.c[a]; ok {
		s := new(big.Int).Add(o, f)
		if s.Sign() == 0 {
			delete(l.c, a)
		} else {
			l.c[a] = s
		}
	} else if f.Sign() != 0 {
		l.c[a] = f
	}
}

func (l *lin) term() *Term {
	if len(l.c) == 0 {
		return numB(l.k)
	}
	atoms := make([]*Term, 0, len(l.c))
	for a := range l.c {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.k.Sign() == 0 && l.c[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	co := make([]*big.Int, len(atoms))
	for i, a := range atoms {
		co[i] = l.c[a]
	}
	return mk(OLin, false, "", l.k, co, atoms)
}

var bigOne = big.NewInt(1)
var bigMinus = big.NewInt(-1)

func add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.addTerm(t, bigOne)
	}
	return l.term()
}
func sub(a, b *Term) *Term {
	l := newLin()
	l.addTerm(a, bigOne)
	l.addTerm(b, bigMinus)
	return l.term()
}
func neg(a *Term) *Term { return sub(tZero, a) }
func scale(a *Term, f *big.Int) *Term {
	l := newLin()
	l.addTerm(a, f)
	return l.term()
}
func addK(a *Term, k int64) *Term { return add(a, num(k)) }

func mul(a, b *Term) *Term {
	if a.op == OConst {
		return scale(b, a.val)
	}
	if b.op == OConst {
		return scale(a, b.val)
	}
	l := newLin()
	one := func(t *Term) ([]*Term, []*big.Int, *big.Int) {
		if t.op == OLin {
			return t.args, t.coef, t.val
		}
		return []*Term{t}, []*big.Int{bigOne}, new(big.Int)
	}
	aa, ac, ak := one(a)
	ba, bc, bk := one(b)
	for i, x := range aa {
		for j, y := range ba {
			l.addAtom(mono(x, y), new(big.Int).Mul(ac[i], bc[j]))
		}
		l.addAtom(x, new(big.Int).Mul(ac[i], bk))
	}
	for j, y := range ba {
		l.addAtom(y, new(big.Int).Mul(ak, bc[j]))
	}
	l.k.Add(l.k, new(big.Int).Mul(ak, bk))
	for a, c := range l.c {
		if c.Sign() == 0 {
			delete(l.c, a)
		}
	}
	return l.term()
}

func mono(x, y *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{x, y} {
		if t.op == OMul {
			fs = append(fs, t.args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mk(OMul, false, "", nil, nil, fs)
}

// divmodC splits a floor division by the constant c > 0.
func divC(a *Term, c *big.Int) *Term {
	if c.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OConst {
		q, _ := floorDiv(a.val, c)
		return numB(q)
	}
	q, r := splitLin(a, c)
	if r.op == OConst {
		k, _ := floorDiv(r.val, c)
		return add(q, numB(k))
	}
	lo, hi := staticBounds(r)
	if lo != nil && hi != nil {
		a, _ := floorDiv(lo, c)
		b, _ := floorDiv(hi, c)
		if a.Cmp(b) == 0 {
			return add(q, numB(a))
		}
	}
	// (x div a) div b = x div (a*b)
	if r.op == ODiv {
		return add(q, divC(r.args[0], new(big.Int).Mul(r.val, c)))
	}
	return add(q, mk(ODiv, false, "", c, nil, []*Term{r}))
}

func modC(a *Term, c *big.Int) *Term {
	if c.Cmp(bigOne) == 0 {
		return tZero
	}
	_, r := splitLin(unmod(a, c), c)
	if r.op == OConst {
		_, m := floorDiv(r.val, c)
		return numB(m)
	}
	lo, hi := staticBounds(r)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(c) < 0 {
		return r
	}
	// (x mod a) mod b = x mod b if b divides a
	if r.op == OMod && new(big.Int).Mod(r.val, c).Sign() == 0 {
		return modC(r.args[0], c)
	}
	return mk(OMod, false, "", c, nil, []*Term{r})
}

// unmod replaces factors x mod (k*c) of the summands of a by x, where a matters modulo c
// only. Products that were reduced in another order become equal terms.
func unmod(a *Term, c *big.Int) *Term {
	dropped := func(t *Term) *Term {
		if t.op == OMod && new(big.Int).Mod(t.val, c).Sign() == 0 {
			return t.args[0]
		}
		return t
	}
	one := func(t *Term) *Term {
		if t.op != OMul {
			return t
		}
		r, ch := tOne, false
		for _, x := range t.args {
			y := dropped(x)
			ch = ch || y != x
			r = mul(r, y)
		}
		if !ch {
			return t
		}
		return r
	}
	if a.op == OMul {
		return one(a)
	}
	if a.op != OLin {
		return a
	}
	r, ch := numB(a.val), false
	for i, x := range a.args {
		y := one(x)
		ch = ch || y != x
		r = add(r, scale(y, a.coef[i]))
	}
	if !ch {
		return a
	}
	return r
}

func floorDiv(a, b *big.Int) (*big.Int, *big.Int) {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean; b>0 => floor
	return q, m
}

// splitLin writes a = c*q + r.
func splitLin(a *Term, c *big.Int) (q, r *Term) {
	if a.op == OConst {
		x, y := floorDiv(a.val, c)
		return numB(x), numB(y)
	}
	if a.op != OLin {
		return tZero, a
	}
	ql, rl := newLin(), newLin()
	for i, t := range a.args {
		x, y := floorDiv(a.coef[i], c)
		if y.Sign() == 0 {
			ql.addAtom(t, x)
		} else {
			rl.addAtom(t, a.coef[i])
		}
	}
	x, y := floorDiv(a.val, c)
	ql.k, rl.k = x, y
	return ql.term(), rl.term()
}

// staticBounds gives bounds that follow from the shape of the term alone.
func staticBounds(t *Term) (lo, hi *big.Int) { return boundsWith(t, nil) }

type boundFn func(*Term) (lo, hi *big.Int)

func boundsWith(t *Term, f boundFn) (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.val, t.val
	case OVar, OApp, OBound:
		lo, hi = t.rlo, t.rhi
	case OMod:
		lo, hi = new(big.Int), new(big.Int).Sub(t.val, bigOne)
		l2, h2 := boundsWith(t.args[0], f)
		if l2 != nil && l2.Sign() >= 0 && h2 != nil && h2.Cmp(hi) < 0 {
			hi = h2
		}
		return
	case ODiv:
		l, h := boundsWith(t.args[0], f)
		if l != nil {
			lo, _ = floorDiv(l, t.val)
		}
		if h != nil {
			hi, _ = floorDiv(h, t.val)
		}
	case OIte:
		if t.bool_ {
			return nil, nil
		}
		l1, h1 := boundsWith(t.args[1], f)
		l2, h2 := boundsWith(t.args[2], f)
		if l1 != nil && l2 != nil {
			lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxB(h1, h2)
		}
	case OLin:
		lo, hi = new(big.Int).Set(t.val), new(big.Int).Set(t.val)
		for i, a := range t.args {
			l, h := boundsWith(a, f)
			c := t.coef[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, new(big.Int).Mul(l, c))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, new(big.Int).Mul(h, c))
				}
			}
		}
	case OMul:
		lo, hi = big.NewInt(1), big.NewInt(1)
		for _, a := range t.args {
			l, h := boundsWith(a, f)
			if l == nil || l.Sign() < 0 {
				lo, hi = nil, nil
				break
			}
			lo = new(big.Int).Mul(lo, l)
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Mul(hi, h)
				}
			}
		}
	}
	if f != nil && !t.bool_ {
		l, h := f(t)
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	return
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ---------------------------------------------------------------- booleans

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OGe0:
		return ge0(addK(neg(a.args[0]), -1))
	}
	return mk(ONot, true, "", nil, nil, []*Term{a})
}

func and(ts ...*Term) *Term { return nary(OAnd, ts) }
func or(ts ...*Term) *Term  { return nary(OOr, ts) }

func nary(op Op, ts []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OOr {
		unit, zero = tFalse, tTrue
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(ts []*Term) bool
	walk = func(ts []*Term) bool {
		for _, t := range ts {
			if t == unit || seen[t] {
				continue
			}
			if t == zero || seen[not(t)] {
				return false
			}
			if t.op == op {
				if !walk(t.args) {
					return false
				}
				continue
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !walk(ts) {
		return zero
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mk(op, true, "", nil, nil, out)
}

func implies(a, b *Term) *Term { return or(not(a), b) }

func iff(a, b *Term) *Term {
	switch {
	case a == b:
		return tTrue
	case a == tTrue:
		return b
	case b == tTrue:
		return a
	case a == tFalse:
		return not(b)
	case b == tFalse:
		return not(a)
	case a == not(b):
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OIff, true, "", nil, nil, []*Term{a, b})
}

func ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.bool_ {
		return or(and(c, a), and(not(c), b))
	}
	if c.op == ONot {
		return ite(c.args[0], b, a)
	}
	// ite(c, ite(c, x, y), z)
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, false, "", nil, nil, []*Term{c, a, b})
}

func gcdOf(t *Term) *big.Int {
	g := new(big.Int)
	for _, c := range t.coef {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

func ge0(l *Term) *Term {
	lo, hi := staticBounds(l)
	if lo != nil && lo.Sign() >= 0 {
		return tTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	if l.op == OLin {
		g := gcdOf(l)
		if g.Cmp(bigOne) > 0 {
			n := newLin()
			for i, a := range l.args {
				n.addAtom(a, new(big.Int).Div(l.coef[i], g))
			}
			n.k, _ = floorDiv(l.val, g)
			l = n.term()
		}
	}
	return mk(OGe0, true, "", nil, nil, []*Term{l})
}

func le(a, b *Term) *Term { return ge0(sub(b, a)) }
func lt(a, b *Term) *Term { return ge0(addK(sub(b, a), -1)) }
func ge(a, b *Term) *Term { return le(b, a) }
func gt(a, b *Term) *Term { return lt(b, a) }

func eq(a, b *Term) *Term {
	if a.bool_ || b.bool_ {
		if a.bool_ != b.bool_ {
			panic(engErr("sort mismatch in equality: %s = %s", a, b))
		}
		return iff(a, b)
	}
	if a == b {
		return tTrue
	}
	d := sub(a, b)
	if d.op == OConst {
		return boolT(d.val.Sign() == 0)
	}
	lo, hi := staticBounds(d)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return tFalse
	}
	if d.op == OLin {
		g := gcdOf(d)
		if new(big.Int).Mod(d.val, g).Sign() != 0 {
			return tFalse
		}
		s := new(big.Int).Set(g)
		if d.coef[0].Sign() < 0 {
			s.Neg(s)
		}
		n := newLin()
		for i, a := range d.args {
			n.addAtom(a, new(big.Int).Quo(d.coef[i], s))
		}
		n.k = new(big.Int).Quo(d.val, s)
		d = n.term()
	}
	return mk(OEq0, true, "", nil, nil, []*Term{d})
}

func ne(a, b *Term) *Term { return not(eq(a, b)) }

func inRange(t *Term, lo, hi *Term) *Term { return and(le(lo, t), lt(t, hi)) }

// ---------------------------------------------------------------- substitution

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = substM(a, m, memo)
		ch = ch || na[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return app(t.name, t.bool_, a...)
	case OLin:
		l := newLin()
		l.k.Set(t.val)
		for i, x := range a {
			l.addTerm(x, t.coef[i])
		}
		return l.term()
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = mul(r, x)
		}
		return r
	case ODiv:
		return divC(a[0], t.val)
	case OMod:
		return modC(a[0], t.val)
	case OIte:
		return ite(a[0], a[1], a[2])
	case ONot:
		return not(a[0])
	case OAnd:
		return and(a...)
	case OOr:
		return or(a...)
	case OEq0:
		return eq(a[0], tZero)
	case OGe0:
		return ge0(a[0])
	case OIff:
		return iff(a[0], a[1])
	case OForall, OExists:
		n := len(a) - 1
		return quant(t.op, a[:n], a[n])
	}
	panic("rebuild")
}

// quant builds a quantifier over the bound variables vs.
func quant(op Op, vs []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if op == OForall && body.op == OAnd {
		var parts []*Term
		for _, p := range body.args {
			parts = append(parts, quant(op, vs, p))
		}
		return and(parts...)
	}
	fb := map[*Term]bool{}
	freeBounds(body, fb, map[*Term]bool{})
	var used []*Term
	for _, v := range vs {
		if fb[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return mk(op, true, "", nil, nil, append(append([]*Term{}, used...), body))
}

func forall(vs []*Term, body *Term) *Term { return quant(OForall, vs, body) }
func exists(vs []*Term, body *Term) *Term { return quant(OExists, vs, body) }

func (t *Term) String() string {
	var sb strings.Builder
	pr := &printer{sb: &sb, plain: true}
	pr.print(t)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}
