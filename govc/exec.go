package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"math/big"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

func leaves(t types.Type) []leaf {
	if l, ok := scalarLeaf(t); ok {
		return []leaf{l}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return []leaf{{"#obj", false, "ref"}, {"#off", false, "len"}, {"#len", false, "len"}, {"#cap", false, "len"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.suf = "." + u.Field(i).Name() + l.suf
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		e, _ := arrayCount(t)
		var out []leaf
		for _, l := range leaves(e) {
			l.suf = "[]" + l.suf
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		return nil
	}
	panic(engErr("unsupported type %s", t))
}

func (c *Ctx) freshVal(st *State, t types.Type, prefix string) Val {
	if l, ok := scalarLeaf(t); ok {
		if l.isB {
			return freshBool(prefix)
		}
		return c.fromLeaf(t, freshInt(prefix+c.rngName(l)))
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s := SliceV{obj: freshInt(prefix + "#obj:" + c.refRange()), off: freshInt(prefix + "#off:len"), len: freshInt(prefix + "#len:len"), cap: freshInt(prefix + "#cap:len"), key: elemKey(u.Elem()), elem: u.Elem()}
		c.wfSlice(st, s)
		return s
	case *types.Struct:
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, c.freshVal(st, u.Field(i).Type(), prefix+"."+u.Field(i).Name()))
		}
		return sv
	case *types.Array:
		e, n := arrayCount(t)
		var nm []string
		ls := leaves(e)
		for _, l := range ls {
			nm = append(nm, freshName(prefix+"[]"+l.suf+c.rngName(l)))
		}
		return ArrV{elem: e, n: n, at: func(i *Term) Val {
			var ts []*Term
			for k, l := range ls {
				ts = append(ts, app(nm[k], l.isB, i))
			}
			return c.unflatten(e, &ts)
		}}
	}
	panic(engErr("no symbolic value of type %s", t))
}

func (c *Ctx) wfSlice(st *State, s SliceV) {
	if s.obj.isConst() && s.len.isConst() && s.cap.isConst() {
		return
	}
	c.assume(st, le(s.len, s.cap), implies(eq(s.obj, tZero), eq(s.cap, tZero)))
}

func (c *Ctx) fromLeaf(t types.Type, v *Term) Val {
	if p, ok := under(t).(*types.Pointer); ok {
		if ip, ok := c.interior[v]; ok {
			return ip
		}
		return PtrV{ref: v, idx: tZero, key: rootKey(p.Elem()), elem: p.Elem()}
	}
	return v
}

func (c *Ctx) toLeaf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case PtrV:
		if x.idx == tZero && x.key == rootKey(x.elem) || x.ref == tZero {
			return x.ref
		}
		// interior pointer
		for r, p := range c.interior {
			if p == x {
				return r
			}
		}
		r := c.newRef()
		c.interior[r] = x
		return r
	case FuncV:
		return x.id
	}
	panic(engErr("not a scalar: %T", v))
}

func (c *Ctx) unflatten(t types.Type, ts *[]*Term) Val {
	take := func() *Term { x := (*ts)[0]; *ts = (*ts)[1:]; return x }
	if _, ok := scalarLeaf(t); ok {
		return c.fromLeaf(t, take())
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{obj: take(), off: take(), len: take(), cap: take(), key: elemKey(u.Elem()), elem: u.Elem()}
	case *types.Struct:
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, c.unflatten(u.Field(i).Type(), ts))
		}
		return sv
	}
	panic(engErr("cannot unflatten %s", t))
}

func (c *Ctx) flatten(v Val, t types.Type) []*Term {
	if _, ok := scalarLeaf(t); ok {
		return []*Term{c.toLeaf(v)}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s := v.(SliceV)
		if s.key != elemKey(u.Elem()) && s.obj != tZero {
			panic(engErr("slice of an embedded array stored in memory"))
		}
		return []*Term{s.obj, s.off, s.len, s.cap}
	case *types.Struct:
		var out []*Term
		sv := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, c.flatten(sv.f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Tuple:
		var out []*Term
		for i, x := range v.(TupleV) {
			out = append(out, c.flatten(x, u.At(i).Type())...)
		}
		return out
	}
	panic(engErr("cannot flatten %s", t))
}

func (c *Ctx) zeroVal(t types.Type) Val {
	if l, ok := scalarLeaf(t); ok {
		if l.isB {
			return tFalse
		}
		if l.rng == "str" {
			return strConst("")
		}
		return c.fromLeaf(t, tZero)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{tZero, tZero, tZero, tZero, elemKey(u.Elem()), u.Elem()}
	case *types.Struct:
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, c.zeroVal(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		e, n := arrayCount(t)
		z := c.zeroVal(e)
		return ArrV{elem: e, n: n, at: func(*Term) Val { return z }}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, c.zeroVal(u.At(i).Type()))
		}
		return tv
	}
	panic(engErr("no zero value of type %s", t))
}

// arrLoc gives the location of an array's first element.
func arrLoc(p PtrV) (key string, base *Term) {
	e, n := arrayCount(p.elem)
	if p.key == elemKey(e) || strings.HasSuffix(p.key, "[]") {
		return p.key, p.idx
	}
	return p.key + "[]", scale(p.idx, big.NewInt(n))
}

func (c *Ctx) loadVal(st *State, p PtrV) Val {
	t := p.elem
	if l, ok := scalarLeaf(t); ok {
		return c.fromLeaf(t, c.rd(st, p.key, l, p.ref, p.idx))
	}
	switch u := under(t).(type) {
	case *types.Slice:
		var ts []*Term
		for _, l := range leaves(t) {
			ts = append(ts, c.rd(st, p.key+l.suf, l, p.ref, p.idx))
		}
		s := c.unflatten(t, &ts).(SliceV)
		c.wfSlice(st, s)
		return s
	case *types.Struct:
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, c.loadVal(st, PtrV{p.ref, p.idx, p.key + "." + u.Field(i).Name(), u.Field(i).Type()}))
		}
		return sv
	case *types.Array:
		e, n := arrayCount(t)
		key, base := arrLoc(p)
		ls := leaves(e)
		var nodes []*Node
		for _, l := range ls {
			nodes = append(nodes, c.node(st, key+l.suf, l))
		}
		return ArrV{elem: e, n: n, at: func(i *Term) Val {
			var ts []*Term
			for k := range ls {
				ts = append(ts, nodes[k].read(c, p.ref, add(base, i)))
			}
			return c.unflatten(e, &ts)
		}}
	}
	panic(engErr("cannot load %s", t))
}

func (c *Ctx) storeVal(st *State, p PtrV, v Val) {
	t := p.elem
	if l, ok := scalarLeaf(t); ok {
		c.wr(st, p.key, l, p.ref, p.idx, c.toLeaf(v))
		return
	}
	switch u := under(t).(type) {
	case *types.Slice:
		ts := c.flatten(v, t)
		for i, l := range leaves(t) {
			c.wr(st, p.key+l.suf, l, p.ref, p.idx, ts[i])
		}
	case *types.Struct:
		sv := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			c.storeVal(st, PtrV{p.ref, p.idx, p.key + "." + u.Field(i).Name(), u.Field(i).Type()}, sv.f[i])
		}
	case *types.Array:
		a := v.(ArrV)
		e, n := arrayCount(t)
		key, base := arrLoc(p)
		for k, l := range leaves(e) {
			k := k
			fn := func(_, i *Term) *Term { return c.flatten(a.at(sub(i, base)), e)[k] }
			c.setRange(st, key+l.suf, l, p.ref, base, addK(base, n), fn)
		}
	default:
		panic(engErr("cannot store %s", t))
	}
}

// initObj zeroes a new object of type t.
func (c *Ctx) initObj(st *State, ref *Term, t types.Type) PtrV {
	p := PtrV{ref, tZero, rootKey(t), t}
	if _, ok := under(t).(*types.Array); ok {
		e, _ := arrayCount(t)
		c.zeroElems(st, ref, e)
		return p
	}
	c.storeVal(st, p, c.zeroVal(t))
	return p
}

func (c *Ctx) zeroElems(st *State, ref *Term, e types.Type) {
	e, _ = arrayCount(e)
	key := elemKey(e)
	if !hasArray(e) {
		z := c.flatten(c.zeroVal(e), e)
		for i, l := range leaves(e) {
			i := i
			c.setObj(st, key+l.suf, l, ref, func(_, _ *Term) *Term { return z[i] })
		}
		if c.useBits && key == "elem:uint8" {
			c.setObj(st, "bits:elem", bitsLeaf, ref, func(_, _ *Term) *Term { return tFalse })
		}
		return
	}
	// structures that contain arrays
	for _, l := range leaves(e) {
		z := tZero
		if l.isB {
			z = tFalse
		} else if l.rng == "str" {
			z = strConst("")
		}
		c.setObj(st, key+l.suf, l, ref, func(_, _ *Term) *Term { return z })
	}
}

func hasArray(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Array:
		return true
	case *types.Struct:
		if isOpaqueStruct(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasArray(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- strings

var strTab = map[string]int64{"": 0}
var strRev = map[int64]string{0: ""}

func strConst(s string) *Term {
	n, ok := strTab[s]
	if !ok {
		n = int64(len(strTab))
		strTab[s] = n
		strRev[n] = s
	}
	return num(n)
}

func constStr(t *Term) (string, bool) {
	if v, ok := t.constInt(); ok {
		s, ok := strRev[v]
		return s, ok
	}
	return "", false
}

func slen(t *Term) *Term {
	if s, ok := constStr(t); ok {
		return num(int64(len(s)))
	}
	if t.op == OIte {
		return ite(t.args[0], slen(t.args[1]), slen(t.args[2]))
	}
	return app("slen:len", false, t)
}

func sat(t, i *Term) *Term {
	if s, ok := constStr(t); ok {
		if k, ok := i.constInt(); ok && k >= 0 && k < int64(len(s)) {
			return num(int64(s[k]))
		}
	}
	if t.op == OIte {
		return ite(t.args[0], sat(t.args[1], i), sat(t.args[2], i))
	}
	return app("sat:u8", false, t, i)
}

// strFacts tells the solver about a constant string that's used in a term.
func (c *Ctx) strFacts(st *State, t *Term) {
	s, ok := constStr(t)
	if !ok || len(s) > 64 {
		return
	}
	for i := 0; i < len(s); i++ {
		c.assume(st, eq(app("sat:u8", false, t, num(int64(i))), num(int64(s[i]))))
	}
}

// ---------------------------------------------------------------- integers

func typeRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	r, ok := rangeTab[basicRange(b)]
	return r[0], r[1], ok
}

func (c *Ctx) wrap(st *State, v *Term, t types.Type) *Term {
	lo, hi, ok := typeRange(t)
	if !ok {
		return v
	}
	l, h := st.bounds(v)
	loOK := l != nil && l.Cmp(lo) >= 0
	hiOK := h != nil && h.Cmp(hi) <= 0
	if loOK && hiOK {
		return v
	}
	if v.op == OConst {
		return wrapConst(v.val, lo, hi)
	}
	ok = true
	if !loOK && !c.qfEntails(st, le(numB(lo), v), 300) {
		ok = false
	}
	if ok && !hiOK && !c.qfEntails(st, le(v, numB(hi)), 300) {
		ok = false
	}
	if !ok && c.hasQuant(st) {
		ok = c.entails(st, and(le(numB(lo), v), le(v, numB(hi))), 600)
	}
	if ok {
		c.assume(st, le(numB(lo), v), le(v, numB(hi)))
		return v
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	return add(modC(sub(v, numB(lo)), size), numB(lo))
}

// axiomatic tells whether t mentions anything axioms are about.
func (c *Ctx) axiomatic(t *Term) bool {
	used := map[string]bool{}
	collectSyms(t, used, map[*Term]bool{})
	for _, a := range c.allAxioms {
		for _, s := range a.Trig {
			if used[s] {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) hasQuant(st *State) bool {
	for a := st.asm; a != nil; a = a.parent {
		if !quantFree(a.t, qfMemo) {
			return true
		}
	}
	return false
}

func wrapConst(v, lo, hi *big.Int) *Term {
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	m := new(big.Int).Mod(new(big.Int).Sub(v, lo), size)
	return numB(m.Add(m, lo))
}

func nonNeg(st *State, t *Term) bool {
	l, _ := st.bounds(t)
	return l != nil && l.Sign() >= 0
}

// quo and rem are Go's truncated division.
func (c *Ctx) quo(st *State, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val.Sign() != 0 {
		return numB(new(big.Int).Quo(a.val, b.val))
	}
	if b.isConst() && b.val.Sign() > 0 {
		if nonNeg(st, a) || c.qfEntails(st, ge0(a), 200) {
			return divC(a, b.val)
		}
		return ite(ge0(a), divC(a, b.val), neg(divC(neg(a), b.val)))
	}
	if b.isConst() && b.val.Sign() < 0 {
		return neg(c.quo(st, a, neg(b)))
	}
	if !c.qfEntails(st, le(tOne, b), 300) {
		panic(engErr("division by a value that may be negative"))
	}
	if !nonNeg(st, a) && !c.qfEntails(st, ge0(a), 300) {
		return ite(ge0(a), c.bdiv(st, a, b), neg(c.bdiv(st, neg(a), b)))
	}
	return c.bdiv(st, a, b)
}

// bdiv is floor division of a non-negative number by a positive symbolic one.
func (c *Ctx) bdiv(st *State, a, b *Term) *Term {
	q := bdivT(a, b)
	if q.op == OApp && st != nil {
		c.assume(st, implies(ge0(a), and(ge0(q), le(q, a), le(mul(q, b), a), lt(a, add(mul(q, b), b)))))
	}
	return q
}

func bdivT(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		return divC(a, b.val)
	}
	if a == tZero {
		return tZero
	}
	// exact multiples: (k*b + r) with r = 0
	l := newLin()
	l.addTerm(a, bigOne)
	qt := newLin()
	for t, f := range l.c {
		if t == b {
			qt.addAtom(tOne, f)
			continue
		}
		if t.op == OMul {
			for i, x := range t.args {
				if x == b {
					rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
					r := rest[0]
					for _, y := range rest[1:] {
						r = mul(r, y)
					}
					qt.addTerm(r, f)
					break
				}
			}
		}
	}
	qq := newLin()
	qq.addTerm(qt.term(), bigOne)
	for t, f := range qt.c {
		if t == tOne {
			delete(qq.c, tOne)
			qq.k.Add(qq.k, f)
		}
	}
	qterm := qq.term()
	if qterm != tZero && sub(a, mul(qterm, b)) == tZero {
		return qterm
	}
	return app("$bdiv", false, a, b)
}

func bitAndConst(x *Term, m *big.Int) *Term {
	if m.Sign() == 0 {
		return tZero
	}
	if m.Sign() < 0 {
		return sub(x, bitAndConst(x, new(big.Int).Not(m)))
	}
	r := tZero
	n := uint(m.BitLen())
	for i := uint(0); i < n; {
		if m.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(int(j)) == 1 {
			j++
		}
		p := modC(divC(x, pow2(i)), pow2(j-i))
		r = add(r, scale(p, pow2(i)))
		i = j
	}
	return r
}

func trailingZeros(t *Term) uint {
	switch t.op {
	case OConst:
		if t.val.Sign() == 0 {
			return 64
		}
		return t.val.TrailingZeroBits()
	case OLin:
		n := uint(64)
		if t.val.Sign() != 0 {
			n = t.val.TrailingZeroBits()
		}
		for i, a := range t.args {
			k := new(big.Int).Abs(t.coef[i]).TrailingZeroBits() + trailingZeros(a)
			n = min(n, k)
		}
		return n
	case OIte:
		return min(trailingZeros(t.args[1]), trailingZeros(t.args[2]))
	}
	return 0
}

func (c *Ctx) binInt(st *State, op token.Token, a, b *Term, t types.Type, pos string) *Term {
	switch op {
	case token.ADD:
		return c.wrap(st, add(a, b), t)
	case token.SUB:
		return c.wrap(st, sub(a, b), t)
	case token.MUL:
		return c.wrap(st, mul(a, b), t)
	case token.QUO:
		c.oblige(st, "safety", "division by zero", pos, nil, ne(b, tZero))
		return c.wrap(st, c.quo(st, a, b), t)
	case token.REM:
		c.oblige(st, "safety", "division by zero", pos, nil, ne(b, tZero))
		if b.isConst() && b.val.Sign() > 0 && (nonNeg(st, a) || c.qfEntails(st, ge0(a), 200)) {
			return modC(a, b.val)
		}
		return sub(a, mul(c.quo(st, a, b), b))
	case token.AND:
		return c.bitAnd(st, a, b)
	case token.OR:
		return c.bitOr(st, a, b)
	case token.XOR:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			return c.wrap(st, sub(add(a, b), scale(bitAndConst(a, b.val), big.NewInt(2))), t)
		}
		return sub(add(a, b), scale(c.bitAnd(st, a, b), big.NewInt(2)))
	case token.AND_NOT:
		return sub(a, c.bitAnd(st, a, b))
	case token.SHL:
		if k, ok := b.constInt(); ok && k >= 0 && k < 128 {
			return c.wrap(st, scale(a, pow2(uint(k))), t)
		}
		r := app("$shl", false, a, b)
		lo, hi, _ := typeRange(t)
		c.assume(st, le(numB(lo), r), le(r, numB(hi)))
		return r
	case token.SHR:
		if k, ok := b.constInt(); ok && k >= 0 && k < 128 {
			return divC(a, pow2(uint(k)))
		}
		r := app("$shr", false, a, b)
		lo, hi, _ := typeRange(t)
		c.assume(st, le(numB(lo), r), le(r, numB(hi)))
		return r
	}
	panic(engErr("unsupported operator %s", op))
}

func (c *Ctx) bitAnd(st *State, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return numB(new(big.Int).And(a.val, b.val))
		}
		// distribute over choices between constants
		return bitAndConst(a, b.val)
	}
	if b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return ite(b.args[0], c.bitAnd(st, a, b.args[1]), c.bitAnd(st, a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := app("$and", false, a, b)
	bits := func(t *Term) int {
		lo, hi := st.bounds(t)
		if lo == nil || lo.Sign() < 0 || hi == nil {
			return 1 << 20
		}
		return hi.BitLen()
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		// x & (x-1) is zero for zero and the powers of two
		x := p[0]
		d := sub(x, p[1])
		if p[1].op == OMod {
			d = sub(x, p[1].args[0])
		}
		if d == tOne && bits(x) <= 64 {
			zs := []*Term{eq(x, tZero)}
			for i := 0; i < bits(x); i++ {
				zs = append(zs, eq(x, numB(pow2(uint(i)))))
			}
			c.assume(st, iff(eq(r, tZero), or(zs...)))
			break
		}
	}
	if n := min(bits(a), bits(b)); n <= 8 {
		s := tZero
		for i := uint(0); i < uint(n); i++ {
			bit := func(t *Term) *Term { return ne(modC(divC(t, pow2(i)), big.NewInt(2)), tZero) }
			s = add(s, scale(ite(and(bit(a), bit(b)), tOne, tZero), pow2(i)))
		}
		c.assume(st, eq(r, s))
	}
	if nonNeg(st, a) {
		c.assume(st, ge0(r), le(r, a))
	}
	if nonNeg(st, b) {
		c.assume(st, ge0(r), le(r, b))
	}
	return r
}

func (c *Ctx) bitOr(st *State, a, b *Term) *Term {
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		tz := trailingZeros(x)
		lo, hi := st.bounds(y)
		if tz > 0 && lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(pow2(tz)) < 0 {
			return add(x, y)
		}
	}
	return sub(add(a, b), c.bitAnd(st, a, b))
}

// ---------------------------------------------------------------- frames

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type Path struct {
	st     *State
	regs   map[ssa.Value]Val
	defers []deferred
	pred   *ssa.BasicBlock
}

func (p *Path) clone() *Path {
	return &Path{p.st.clone(), maps.Clone(p.regs), append([]deferred{}, p.defers...), p.pred}
}

type Frame struct {
	fn   *ssa.Function
	rets []Outcome
	rpo  []*ssa.BasicBlock
	num  map[*ssa.BasicBlock]int
	loop map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live map[*ssa.BasicBlock]map[ssa.Value]bool
	con  *Contract // for loop invariants
	top  bool
}

type Outcome struct {
	st   *State
	vals []Val
}

func newFrame(fn *ssa.Function) *Frame {
	f := &Frame{fn: fn, num: map[*ssa.BasicBlock]int{}, loop: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.num[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.num[s] <= f.num[b] {
				if !s.Dominates(b) {
					panic(engErr("irreducible control flow in %s", fn))
				}
				body := f.loop[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					f.loop[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						if _, ok := f.num[p]; ok {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	f.liveness()
	return f
}

func (f *Frame) liveness() {
	f.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.rpo {
		f.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.rpo) - 1; i >= 0; i-- {
			b := f.rpo[i]
			in := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range f.live[s] {
					in[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, ins := range s.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						in[ph.Edges[pi]] = true
						delete(in, ph)
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if ph, ok := ins.(*ssa.Phi); ok {
					in[ph] = true // values of phis are set on entry
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o != nil {
						in[*o] = true
					}
				}
			}
			if len(in) != len(f.live[b]) {
				f.live[b] = in
				ch = true
			}
		}
	}
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func valEq(a, b Val) bool {
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !valEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case ArrV:
		return false
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.id == y.id
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len && x.cap == y.cap && x.key == y.key
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.ref == y.ref && x.idx == y.idx && x.key == y.key
	case *Term:
		return a == b
	case *mapIter:
		return a == b
	}
	return false
}

func (c *Ctx) mergePaths(f *Frame, b *ssa.BasicBlock, ps []*Path) []*Path {
	if len(ps) < 2 {
		return ps
	}
	var out []*Path
next:
	for _, p := range ps {
		for _, o := range out {
			if c.tryMerge(f, b, o, p) {
				continue next
			}
		}
		out = append(out, p)
	}
	return out
}

func sameHeap(a, b *State) bool {
	for k, n := range a.heap {
		if m, ok := b.heap[k]; ok && m != n {
			return false
		}
	}
	return true
}

func (c *Ctx) tryMerge(f *Frame, b *ssa.BasicBlock, o, p *Path) bool {
	if !sameHeap(o.st, p.st) || len(o.defers) != len(p.defers) {
		return false
	}
	for i := range o.defers {
		if o.defers[i].call != p.defers[i].call {
			return false
		}
	}
	type diff struct {
		v    ssa.Value
		x, y *Term
	}
	var ds []diff
	for v := range f.live[b] {
		x, ok1 := o.regs[v]
		y, ok2 := p.regs[v]
		if ok1 != ok2 {
			continue
		}
		if ok1 && !valEq(x, y) {
			xt, okx := x.(*Term)
			yt, oky := y.(*Term)
			if okx && oky && (isIntType(v.Type()) || isBoolType(v.Type())) {
				ds = append(ds, diff{v, xt, yt})
				continue
			}
			return false
		}
	}
	common := commonAsm(o.st.asm, p.st.asm)
	a1, a2 := o.st.asm.since(common), p.st.asm.since(common)
	// facts known on both sides stay outside of the disjunction
	inBoth := map[*Term]bool{}
	for _, t := range a1 {
		if p.st.facts[t] {
			inBoth[t] = true
		}
	}
	var both, r1, r2 []*Term
	for _, t := range a1 {
		if inBoth[t] {
			both = append(both, t)
		} else {
			r1 = append(r1, t)
		}
	}
	for _, t := range a2 {
		if !inBoth[t] {
			r2 = append(r2, t)
		}
	}
	cond := and(r1...)
	if len(ds) > 0 {
		if !quantFree(cond, qfMemo) || cond.size > 400 {
			return false
		}
		if len(r1) > 0 && len(r2) > 0 && r1[0] == not(r2[0]) {
			cond = r1[0]
		} else if and(cond, and(r2...)) != tFalse {
			// the two paths might overlap only if they agree; use a fresh selector
			cond = freshBool("path")
		}
	}
	n := *o.st
	n.asm = common
	n.facts, n.bnds = map[*Term]bool{}, map[*Term]bnd{}
	n.own = true
	for a := common; a != nil; a = a.parent {
		n.facts[a.t] = true
	}
	for t, b1 := range o.st.bnds {
		if b2, ok := p.st.bnds[t]; ok {
			var nb bnd
			if b1.lo != nil && b2.lo != nil {
				nb.lo = minB(b1.lo, b2.lo)
			}
			if b1.hi != nil && b2.hi != nil {
				nb.hi = maxB(b1.hi, b2.hi)
			}
			n.bnds[t] = nb
		}
	}
	c.assume(&n, both...)
	if len(ds) > 0 {
		c.assume(&n, implies(cond, and(r1...)), implies(not(cond), and(r2...)))
	} else {
		c.assume(&n, or(and(r1...), and(r2...)))
	}
	hp := maps.Clone(o.st.heap)
	for k, v := range p.st.heap {
		if _, ok := hp[k]; !ok {
			hp[k] = v
		}
	}
	n.heap = hp
	o.st = &n
	for _, d := range ds {
		if d.x.bool_ {
			o.regs[d.v] = and(implies(cond, d.x), implies(not(cond), d.y))
		} else {
			v := ite(cond, d.x, d.y)
			o.regs[d.v] = v
			l1, h1 := o.st.bounds(d.x)
			_ = l1
			_ = h1
		}
	}
	return true
}

// region executes the blocks of a loop body (or of the whole function).
func (c *Ctx) region(f *Frame, entry *ssa.BasicBlock, in []*Path, blocks map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (back []*Path, exits map[*ssa.BasicBlock][]*Path) {
	pending := map[*ssa.BasicBlock][]*Path{entry: in}
	exits = map[*ssa.BasicBlock][]*Path{}
	emit := func(from, to *ssa.BasicBlock, p *Path) {
		p.pred = from
		c.enterBlock(f, to, p)
		if to == header {
			back = append(back, p)
		} else if blocks != nil && !blocks[to] {
			exits[to] = append(exits[to], p)
		} else {
			pending[to] = append(pending[to], p)
		}
	}
	for _, b := range f.rpo {
		ps := pending[b]
		if len(ps) == 0 {
			continue
		}
		delete(pending, b)
		ps = c.mergePaths(f, b, ps)
		if body := f.loop[b]; body != nil && b != header {
			for _, p := range ps {
				for to, xs := range c.execLoop(f, b, body, p) {
					for _, x := range xs {
						if to == header {
							back = append(back, x)
						} else if blocks != nil && !blocks[to] {
							exits[to] = append(exits[to], x)
						} else {
							pending[to] = append(pending[to], x)
						}
					}
				}
			}
			continue
		}
		for _, p := range ps {
			c.execBlock(f, b, p, 0, emit)
		}
	}
	return
}

// enterBlock evaluates the phis of block b.
func (c *Ctx) enterBlock(f *Frame, b *ssa.BasicBlock, p *Path) {
	pi := -1
	for k, x := range b.Preds {
		if x == p.pred {
			pi = k
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, c.val(f, p, ph.Edges[pi]))
	}
	for i, ph := range phis {
		p.regs[ph] = vals[i]
	}
}

func (c *Ctx) val(f *Frame, p *Path, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return c.constVal(x)
	case *ssa.Function:
		return c.funcTerm(x)
	case *ssa.Global:
		return PtrV{ref: tZero, idx: tZero, key: "glob:" + x.String(), elem: x.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return FuncV{fn: x}
	}
	if r, ok := p.regs[v]; ok {
		return r
	}
	panic(engErr("value %s (%s) is not available in %s", v.Name(), v, f.fn))
}

func (c *Ctx) funcTerm(x *ssa.Function) *Term {
	id := strConst("func " + x.String())
	id = addK(id, 1<<40)
	if _, ok := c.funcs[id]; !ok {
		c.funcs[id] = FuncV{fn: x, id: id}
	}
	return id
}

func (c *Ctx) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return c.zeroVal(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(x.Value))
	case constant.String:
		return strConst(constant.StringVal(x.Value))
	case constant.Int:
		if isIntType(t) {
			v, _ := new(big.Int).SetString(x.Value.ExactString(), 10)
			return numB(v)
		}
	}
	return app("const "+x.Value.ExactString(), false)
}

// execBlock runs b's instructions from index i on.
func (c *Ctx) execBlock(f *Frame, b *ssa.BasicBlock, p *Path, i int, emit func(from, to *ssa.BasicBlock, p *Path)) {
	for ; i < len(b.Instrs); i++ {
		if p.st.dead {
			return
		}
		c.steps++
		if c.maxStep > 0 && c.steps > c.maxStep {
			panic(engErr("too many execution steps"))
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			emit(b, b.Succs[0], p)
			return
		case *ssa.If:
			cond := c.val(f, p, x.Cond).(*Term)
			for _, m := range c.condSinks {
				m[cond] = true
			}
			if v, k := c.decide(p.st, cond); k {
				if v {
					emit(b, b.Succs[0], p)
				} else {
					emit(b, b.Succs[1], p)
				}
				return
			}
			q := p.clone()
			c.assume(p.st, cond)
			c.assume(q.st, not(cond))
			if c.feasible(p.st) {
				emit(b, b.Succs[0], p)
			}
			if c.feasible(q.st) {
				emit(b, b.Succs[1], q)
			}
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, c.val(f, p, r))
			}
			f.rets = append(f.rets, Outcome{p.st, vals})
			return
		case *ssa.Panic:
			c.oblige(p.st, "safety", "explicit panic is unreachable", c.pos(x.Pos()), nil, tFalse)
			return
		case *ssa.Call:
			outs := func() []Outcome {
				n := len(c.frames)
				c.frames = append(c.frames, p.regs)
				defer func() { c.frames = c.frames[:n] }()
				return c.call(f, p, &x.Call, x.Pos())
			}()
			for k, o := range outs {
				q := p
				if k < len(outs)-1 {
					q = p.clone()
				}
				q = &Path{o.st, q.regs, q.defers, q.pred}
				q.regs[x] = packResults(o.vals, x.Type())
				if k < len(outs)-1 {
					c.execBlock(f, b, q, i+1, emit)
				} else {
					p = q
				}
			}
			if len(outs) == 0 {
				return
			}
		case *ssa.Defer:
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, c.val(f, p, a))
			}
			p.defers = append(p.defers, deferred{&x.Call, c.val(f, p, x.Call.Value), args, x.Pos()})
		case *ssa.RunDefers:
			ps := []*Path{p}
			ds := p.defers
			p.defers = nil
			for k := len(ds) - 1; k >= 0; k-- {
				var nx []*Path
				for _, q := range ps {
					outs := c.callVals(f, q, ds[k].call, ds[k].fn, ds[k].args, ds[k].pos)
					for _, o := range outs {
						n := q.clone()
						n.st = o.st
						nx = append(nx, n)
					}
				}
				ps = nx
			}
			for _, q := range ps {
				c.execBlock(f, b, q, i+1, emit)
			}
			return
		case *ssa.Store:
			ptr := c.val(f, p, x.Addr).(PtrV)
			c.nilCheck(p.st, ptr, x.Pos())
			if strings.HasPrefix(ptr.key, "glob:") {
				c.note("stores to global %s", ptr.key)
			}
			c.storeVal(p.st, ptr, c.val(f, p, x.Val))
		case *ssa.MapUpdate:
			c.mapUpdate(p.st, x.Map.Type(), c.val(f, p, x.Map).(*Term), c.val(f, p, x.Key), c.val(f, p, x.Value), c.pos(x.Pos()))
		case *ssa.Go, *ssa.Send, *ssa.Select:
			panic(engErr("unsupported instruction %s in %s", x, f.fn))
		default:
			v, ok := x.(ssa.Value)
			if !ok {
				panic(engErr("unsupported instruction %T", x))
			}
			r := c.eval(f, p, v)
			if p.st.dead {
				return
			}
			p.regs[v] = r
		}
	}
}

func packResults(vals []Val, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return TupleV{}
		}
		return TupleV(vals)
	}
	if len(vals) == 0 {
		return TupleV{}
	}
	return vals[0]
}

func (c *Ctx) nilCheck(st *State, p PtrV, pos token.Pos) {
	if strings.HasPrefix(p.key, "glob:") {
		return
	}
	c.oblige(st, "safety", "nil pointer dereference", c.pos(pos), nil, ne(p.ref, tZero))
}

func (c *Ctx) eval(f *Frame, p *Path, v ssa.Value) Val {
	st := p.st
	switch x := v.(type) {
	case *ssa.Alloc:
		r := c.newRef()
		if typeStr(x.Type()) == "*bytes.Buffer" {
			if g := c.prog.spec.ghosts["blen"]; g != nil { // an empty buffer
				c.wr(st, "ghost:blen", g.L, r, tZero, tZero)
			}
		}
		return c.initObj(st, r, x.Type().(*types.Pointer).Elem())
	case *ssa.UnOp:
		a := c.val(f, p, x.X)
		switch x.Op {
		case token.MUL:
			ptr := a.(PtrV)
			if strings.HasPrefix(ptr.key, "glob:") {
				return c.loadGlobal(st, ptr)
			}
			c.nilCheck(st, ptr, x.Pos())
			return c.loadVal(st, ptr)
		case token.NOT:
			return not(a.(*Term))
		case token.SUB:
			return c.wrap(st, neg(a.(*Term)), x.Type())
		case token.XOR:
			return c.wrap(st, addK(neg(a.(*Term)), -1), x.Type())
		}
	case *ssa.BinOp:
		if ph, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD && ph.Comment == "rangeindex" && ph.Block().Comment == "rangeindex.loop" {
			// The compiler's own counter of a range loop is below the length, at most.
			if k, ok := x.Y.(*ssa.Const); ok && k.Int64() == 1 {
				return addK(c.val(f, p, ph).(*Term), 1)
			}
		}
		return c.binOp(st, x.Op, c.val(f, p, x.X), c.val(f, p, x.Y), x.X.Type(), x.Type(), c.pos(x.Pos()))
	case *ssa.FieldAddr:
		ptr := c.val(f, p, x.X).(PtrV)
		c.nilCheck(st, ptr, x.Pos())
		s := under(ptr.elem).(*types.Struct)
		fl := s.Field(x.Field)
		return PtrV{ptr.ref, ptr.idx, ptr.key + "." + fl.Name(), fl.Type()}
	case *ssa.Field:
		return c.val(f, p, x.X).(*StructV).f[x.Field]
	case *ssa.IndexAddr:
		i := c.val(f, p, x.Index).(*Term)
		switch s := c.val(f, p, x.X).(type) {
		case SliceV:
			c.oblige(st, "safety", "index out of range", c.pos(x.Pos()), nil, inRange(i, tZero, s.len))
			return c.elemPtr(s, i)
		case PtrV:
			c.nilCheck(st, s, x.Pos())
			a := under(s.elem).(*types.Array)
			c.oblige(st, "safety", "index out of range", c.pos(x.Pos()), nil, inRange(i, tZero, num(a.Len())))
			key, base := arrLoc(s)
			_, n := arrayCount(a.Elem())
			return PtrV{s.ref, add(base, scale(i, big.NewInt(n))), key, a.Elem()}
		}
	case *ssa.Index:
		i := c.val(f, p, x.Index).(*Term)
		switch s := c.val(f, p, x.X).(type) {
		case ArrV:
			c.oblige(st, "safety", "index out of range", c.pos(x.Pos()), nil, inRange(i, tZero, num(s.n)))
			return s.at(i)
		case *Term:
			c.oblige(st, "safety", "index out of range", c.pos(x.Pos()), nil, inRange(i, tZero, slen(s)))
			return sat(s, i)
		}
	case *ssa.Lookup:
		if isStringType(x.X.Type()) {
			s, i := c.val(f, p, x.X).(*Term), c.val(f, p, x.Index).(*Term)
			c.oblige(st, "safety", "index out of range", c.pos(x.Pos()), nil, inRange(i, tZero, slen(s)))
			return sat(s, i)
		}
		return c.mapLookup(st, x.X.Type(), c.val(f, p, x.X).(*Term), c.val(f, p, x.Index), x.CommaOk)
	case *ssa.Slice:
		return c.slice(f, p, x)
	case *ssa.MakeSlice:
		n, k := c.val(f, p, x.Len).(*Term), c.val(f, p, x.Cap).(*Term)
		c.oblige(st, "safety", "make: length out of range", c.pos(x.Pos()), nil, and(ge0(n), le(n, k), le(k, numB(pow2(maxLenBits)))))
		return c.makeSlice(st, x.Type(), n, k)
	case *ssa.MakeMap:
		r := c.newRef()
		mk := "map:" + typeStr(x.Type())
		c.setObj(st, mk+"#has", bitsLeaf, r, func(_, _ *Term) *Term { return tFalse })
		return r
	case *ssa.MakeClosure:
		id := c.newRef()
		fv := FuncV{fn: x.Fn, id: id}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, c.val(f, p, b))
		}
		c.funcs[id] = fv
		return id
	case *ssa.MakeInterface:
		return c.makeIface(st, x.X.Type(), c.val(f, p, x.X))
	case *ssa.ChangeInterface:
		return c.val(f, p, x.X)
	case *ssa.ChangeType:
		a := c.val(f, p, x.X)
		switch y := a.(type) {
		case *StructV:
			return &StructV{x.Type(), y.f}
		case PtrV:
			pt := under(x.Type()).(*types.Pointer).Elem()
			if rootKey(pt) != rootKey(y.elem) && y.key == rootKey(y.elem) {
				panic(engErr("pointer conversion between %s and %s", y.elem, pt))
			}
			y.elem = pt
			return y
		case SliceV:
			y.elem = under(x.Type()).(*types.Slice).Elem()
			return y
		}
		return a
	case *ssa.Convert:
		return c.convert(st, c.val(f, p, x.X), x.X.Type(), x.Type(), c.pos(x.Pos()))
	case *ssa.TypeAssert:
		return c.typeAssert(st, c.val(f, p, x.X).(*Term), x.AssertedType, x.CommaOk, c.pos(x.Pos()))
	case *ssa.Extract:
		return c.val(f, p, x.Tuple).(TupleV)[x.Index]
	case *ssa.Range:
		if m, ok := under(x.X.Type()).(*types.Map); ok {
			return &mapIter{ref: c.val(f, p, x.X).(*Term), t: x.X.Type(), m: m}
		}
		return &mapIter{ref: c.val(f, p, x.X).(*Term), str: true}
	case *ssa.Next:
		it := c.val(f, p, x.Iter).(*mapIter)
		ok := freshBool("next")
		if it.str {
			i := freshInt("ri:len")
			r := freshInt("rune:i32")
			c.assume(st, implies(ok, lt(i, slen(it.ref))), ge0(r), le(r, num(0x10ffff)))
			return TupleV{ok, i, r}
		}
		k := c.freshVal(st, it.m.Key(), "mapkey")
		has := c.rd(st, "map:"+typeStr(it.t)+"#has", bitsLeaf, it.ref, c.mapKey(it.m.Key(), k))
		c.assume(st, implies(ok, has))
		val := c.mapLookup(st, it.t, it.ref, k, false)
		return TupleV{ok, k, val}
	}
	panic(engErr("unsupported instruction %s (%T) in %s", v, v, f.fn))
}

type mapIter struct {
	ref *Term
	t   types.Type
	m   *types.Map
	str bool
}

func (c *Ctx) elemPtr(s SliceV, i *Term) PtrV {
	_, n := arrayCount(s.elem)
	return PtrV{s.obj, scale(add(s.off, i), big.NewInt(n)), s.key, s.elem}
}

func (c *Ctx) makeSlice(st *State, t types.Type, n, k *Term) SliceV {
	e := under(t).(*types.Slice).Elem()
	r := c.newRef()
	c.zeroElems(st, r, e)
	return SliceV{r, tZero, n, k, elemKey(e), e}
}

func (c *Ctx) mapKey(kt types.Type, k Val) *Term {
	ts := c.flatten(k, kt)
	if len(ts) == 1 {
		return ts[0]
	}
	return app(fmt.Sprintf("$tuple%d", len(ts)), false, ts...)
}

func (c *Ctx) mapLookup(st *State, t types.Type, m *Term, k Val, commaOk bool) Val {
	mt := under(t).(*types.Map)
	key := c.mapKey(mt.Key(), k)
	mk := "map:" + typeStr(t)
	has := and(ne(m, tZero), c.rd(st, mk+"#has", bitsLeaf, m, key))
	var ts []*Term
	zero := c.flatten(c.zeroVal(mt.Elem()), mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		x := c.rd(st, mk+"#val"+l.suf, l, m, key)
		if l.isB {
			ts = append(ts, or(and(has, x), and(not(has), zero[i])))
		} else {
			ts = append(ts, ite(has, x, zero[i]))
		}
	}
	v := c.unflatten(mt.Elem(), &ts)
	if commaOk {
		return TupleV{v, has}
	}
	return v
}

func (c *Ctx) mapUpdate(st *State, t types.Type, m *Term, k, v Val, pos string) {
	mt := under(t).(*types.Map)
	c.oblige(st, "safety", "assignment to nil map", pos, nil, ne(m, tZero))
	key := c.mapKey(mt.Key(), k)
	mk := "map:" + typeStr(t)
	c.wr(st, mk+"#has", bitsLeaf, m, key, tTrue)
	ts := c.flatten(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		c.wr(st, mk+"#val"+l.suf, l, m, key, ts[i])
	}
}

func (c *Ctx) slice(f *Frame, p *Path, x *ssa.Slice) Val {
	st := p.st
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return c.val(f, p, v).(*Term)
	}
	switch s := c.val(f, p, x.X).(type) {
	case *Term: // string
		lo, hi := get(x.Low, tZero), get(x.High, slen(s))
		c.oblige(st, "safety", "slice bounds out of range", c.pos(x.Pos()), nil, and(ge0(lo), le(lo, hi), le(hi, slen(s))))
		return c.substr(st, s, lo, hi)
	case SliceV:
		lo, hi := get(x.Low, tZero), get(x.High, s.len)
		mx := get(x.Max, s.cap)
		c.oblige(st, "safety", "slice bounds out of range", c.pos(x.Pos()), nil, and(ge0(lo), le(lo, hi), le(hi, mx), le(mx, s.cap)))
		return SliceV{s.obj, add(s.off, lo), sub(hi, lo), sub(mx, lo), s.key, s.elem}
	case PtrV:
		c.nilCheck(st, s, x.Pos())
		a := under(s.elem).(*types.Array)
		lo, hi := get(x.Low, tZero), get(x.High, num(a.Len()))
		mx := get(x.Max, num(a.Len()))
		c.oblige(st, "safety", "slice bounds out of range", c.pos(x.Pos()), nil, and(ge0(lo), le(lo, hi), le(hi, mx), le(mx, num(a.Len()))))
		key, base := arrLoc(s)
		if _, n := arrayCount(a.Elem()); n != 1 {
			panic(engErr("slicing an array of arrays"))
		}
		return SliceV{s.ref, add(base, lo), sub(hi, lo), sub(mx, lo), key, a.Elem()}
	}
	panic(engErr("unsupported slice expression"))
}

func (c *Ctx) substr(st *State, s, lo, hi *Term) *Term {
	if k, ok := constStr(s); ok {
		a, ok1 := lo.constInt()
		b, ok2 := hi.constInt()
		if ok1 && ok2 {
			return strConst(k[a:b])
		}
	}
	if lo == tZero && hi == slen(s) {
		return s
	}
	r := app("$substr", false, s, lo, hi)
	i := freshBound("i")
	c.assume(st, eq(slen(r), sub(hi, lo)), forall([]*Term{i}, implies(inRange(i, tZero, sub(hi, lo)), eq(sat(r, i), sat(s, add(lo, i))))))
	return r
}

func (c *Ctx) makeIface(st *State, t types.Type, v Val) *Term {
	switch x := v.(type) {
	case PtrV:
		id := c.toLeaf(x)
		if id.isConst() && id.val.Sign() == 0 {
			id = addK(strConst("typed nil "+typeStr(t)), 1<<41)
		} else if vv, k := c.decide(st, ne(id, tZero)); !(k && vv) {
			if !c.qfEntails(st, ne(id, tZero), 200) {
				nilID := addK(strConst("typed nil "+typeStr(t)), 1<<41)
				c.boxes[nilID] = box{t, PtrV{tZero, tZero, x.key, x.elem}}
				id = ite(eq(id, tZero), nilID, id)
			}
		}
		if typeStr(t) == "*multierror.Error" && id.isConst() {
			// errors.Is looks at all of the errors it holds
			s, _ := under(x.elem).(*types.Struct)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if fl := s.Field(i); fl.Name() == "Errors" {
					if vs, ok := c.variadic(st, c.loadVal(st, PtrV{x.ref, x.idx, x.key + "." + fl.Name(), fl.Type()})); ok {
						var ws []*Term
						for _, w := range vs {
							ws = append(ws, w.(*Term))
						}
						if have := c.wraps[id]; have != nil && !slices.Equal(have, ws) {
							panic(engErr("the content of a multierror.Error depends on the path"))
						}
						c.wraps[id] = ws
					}
				}
			}
		}
		if b, dup := c.boxes[id]; (!dup || types.Identical(b.typ, t)) && id.op != OIte && x.key == rootKey(x.elem) {
			c.assume(st, eq(app("$typeof", false, id), typeNum(t)))
		}
		c.boxes[id] = box{t, v}
		return id
	case *Term:
		if _, isI := under(t).(*types.Interface); isI {
			return x
		}
		if isErrorType(t) {
			break
		}
		// constants get one identity per value
		if x.isConst() && x.val.IsInt64() {
			id := addK(strConst(fmt.Sprintf("box %s %s", typeStr(t), x.val)), 1<<41)
			c.boxes[id] = box{t, v}
			return id
		}
	}
	if isErrorType(t) && !hasArray(t) {
		// equal values are equal errors
		id := app("$box "+typeStr(t), false, c.flatten(v, t)...)
		if st != nil {
			c.assume(st, ne(id, tZero), eq(app("$typeof", false, id), typeNum(t)))
		}
		c.boxes[id] = box{t, v}
		return id
	}
	id := c.newRef()
	c.boxes[id] = box{t, v}
	if _, isS := under(t).(*types.Struct); isS && st != nil && !hasArray(t) {
		// for when the interface is read back from memory
		c.assume(st, eq(app("$typeof", false, id), typeNum(t)))
		vs := c.flatten(v, t)
		for i, l := range leaves(t) {
			if l.rng != "ref" {
				c.assume(st, eq(app("$unbox "+typeStr(t)+l.suf+c.rngName(l), l.isB, id), vs[i]))
			}
		}
	}
	return id
}

// isErrorType says whether t, which is no pointer, has a method Error.
func isErrorType(t types.Type) bool {
	switch under(t).(type) {
	case *types.Interface, *types.Pointer:
		return false
	}
	return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}

var typeNums = map[string]int64{}

func typeNum(t types.Type) *Term {
	s := types.TypeString(t, nil)
	n, ok := typeNums[s]
	if !ok {
		n = int64(len(typeNums)) + 1
		typeNums[s] = n
	}
	return num(n)
}

func (c *Ctx) typeAssert(st *State, id *Term, t types.Type, commaOk bool, pos string) Val {
	if id.op == OIte {
		// distribute over the possible values
		if !commaOk {
			if _, isI := under(t).(*types.Interface); !isI {
				panic(engErr("type assertion on a conditional value"))
			}
		}
	}
	var ok *Term
	var v Val
	it, isI := under(t).(*types.Interface)
	if b, have := c.boxes[id]; have {
		if isI {
			ok = boolT(types.Implements(b.typ, it))
			v = id
		} else {
			ok = boolT(types.Identical(b.typ, t))
			if ok == tTrue {
				v = b.val
			}
		}
	} else if isI {
		v = id
		ok = and(ne(id, tZero), app("$impl "+typeStr(t), true, id))
	} else {
		ok = and(ne(id, tZero), eq(app("$typeof", false, id), typeNum(t)))
		if p, isP := under(t).(*types.Pointer); isP {
			v = PtrV{id, tZero, rootKey(p.Elem()), p.Elem()}
		} else if !hasArray(t) {
			var ts []*Term
			for _, l := range leaves(t) {
				nm := "$unbox " + typeStr(t) + l.suf + c.rngName(l)
				ts = append(ts, app(nm, l.isB, id))
			}
			v = c.unflatten(t, &ts)
		}
	}
	if v == nil {
		v = c.zeroVal(t)
	}
	if !commaOk {
		c.oblige(st, "safety", "type assertion", pos, nil, ok)
		return v
	}
	if isI {
		v = ite(ok, v.(*Term), tZero)
	} else if ok != tTrue {
		if pv, isP := v.(PtrV); isP && ok != tFalse {
			pv.ref = ite(ok, pv.ref, tZero)
			v = pv
		} else if ok == tFalse {
			v = c.zeroVal(t)
		}
	}
	return TupleV{v, ok}
}

func (c *Ctx) convert(st *State, v Val, from, to types.Type, pos string) Val {
	switch {
	case isIntType(from) && isIntType(to):
		return c.wrap(st, v.(*Term), to)
	case isStringType(to) && isStringType(from):
		return v
	case isStringType(to):
		if s, ok := v.(SliceV); ok {
			return c.stringOf(st, s)
		}
		if isIntType(from) {
			return app("$runestr", false, v.(*Term))
		}
	case isStringType(from):
		if sl, ok := under(to).(*types.Slice); ok {
			if b, ok := under(sl.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				s := v.(*Term)
				n := slen(s)
				r := c.newRef()
				l, _ := scalarLeaf(sl.Elem())
				c.setObj(st, "elem:uint8", l, r, func(_, i *Term) *Term { return sat(s, i) })
				return SliceV{r, tZero, n, n, "elem:uint8", sl.Elem()}
			}
		}
	}
	if p, ok := v.(PtrV); ok {
		return p
	}
	if t, ok := v.(*Term); ok {
		if isIntType(to) {
			r := app("$toint "+typeStr(from), false, t)
			lo, hi, _ := typeRange(to)
			c.assume(st, le(numB(lo), r), le(r, numB(hi)))
			return r
		}
		return app("$conv "+typeStr(from)+" "+typeStr(to), false, t)
	}
	panic(engErr("unsupported conversion from %s to %s", from, to))
}

type strKey struct {
	n             *Node
	obj, off, len *Term
}

// stringOf is the string with a byte slice's current content.
func (c *Ctx) stringOf(st *State, s SliceV) *Term {
	n := c.node(st, s.key, leaf{"", false, "u8"})
	if k, ok := s.len.constInt(); ok && k == 0 {
		return strConst("")
	}
	// The same bytes are the same string.
	k := strKey{n, s.obj, s.off, s.len}
	r := c.strs[k]
	if r == nil {
		r = freshInt("str")
		c.strs[k] = r
	}
	i := freshBound("i")
	c.assume(st, eq(slen(r), s.len), forall([]*Term{i}, implies(inRange(i, tZero, s.len), eq(sat(r, i), n.read(c, s.obj, add(s.off, i))))))
	return r
}

func (c *Ctx) binOp(st *State, op token.Token, a, b Val, opT, resT types.Type, pos string) Val {
	if op == token.EQL || op == token.NEQ {
		e := c.equal(st, a, b, opT)
		if op == token.NEQ {
			return not(e)
		}
		return e
	}
	x, y := a.(*Term), b.(*Term)
	if isStringType(opT) {
		switch op {
		case token.ADD:
			return c.concat(st, x, y)
		case token.LSS:
			return app("$strlt", true, x, y)
		case token.GTR:
			return app("$strlt", true, y, x)
		case token.LEQ:
			return not(app("$strlt", true, y, x))
		case token.GEQ:
			return not(app("$strlt", true, x, y))
		}
	}
	if isBoolType(opT) {
		switch op {
		case token.AND, token.LAND:
			return and(x, y)
		case token.OR, token.LOR:
			return or(x, y)
		}
	}
	if !isIntType(opT) {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return app("$cmp"+op.String(), true, x, y)
		}
		return app("$op"+op.String(), false, x, y)
	}
	switch op {
	case token.LSS:
		return lt(x, y)
	case token.LEQ:
		return le(x, y)
	case token.GTR:
		return gt(x, y)
	case token.GEQ:
		return ge(x, y)
	}
	return c.binInt(st, op, x, y, resT, pos)
}

func (c *Ctx) concat(st *State, a, b *Term) *Term {
	if b.op == OApp && b.name == "$concat" {
		return c.concat(st, c.concat(st, a, b.args[0]), b.args[1])
	}
	if _, ok := constStr(b); ok && a.op == OApp && a.name == "$concat" {
		if _, ok := constStr(a.args[1]); ok {
			return c.concat(st, a.args[0], c.concat(st, a.args[1], b))
		}
	}
	if a == strConst("") {
		return b
	}
	if b == strConst("") {
		return a
	}
	x, ok1 := constStr(a)
	y, ok2 := constStr(b)
	if ok1 && ok2 {
		return strConst(x + y)
	}
	r := app("$concat", false, a, b)
	i := freshBound("i")
	c.assume(st, eq(slen(r), add(slen(a), slen(b))),
		forall([]*Term{i}, implies(inRange(i, tZero, slen(a)), eq(sat(r, i), sat(a, i)))),
		forall([]*Term{i}, implies(inRange(i, tZero, slen(b)), eq(sat(r, add(slen(a), i)), sat(b, i)))))
	c.strFacts(st, a)
	c.strFacts(st, b)
	return r
}

func (c *Ctx) equal(st *State, a, b Val, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		y := c.toLeaf(b)
		if isStringType(t) {
			// strings of different lengths differ
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				if s, ok := constStr(p[0]); ok && !p[1].isConst() && st != nil {
					c.strFacts(st, p[0])
					e := eq(x, y)
					if s == "" {
						c.assume(st, iff(e, eq(slen(p[1]), tZero)))
					} else {
						c.assume(st, implies(e, eq(slen(p[1]), num(int64(len(s))))))
					}
				}
			}
		}
		return eq(x, y)
	case PtrV:
		y := b.(PtrV)
		if x.ref == tZero || y.ref == tZero {
			return eq(x.ref, y.ref)
		}
		if x.key != y.key {
			return tFalse
		}
		return and(c.refEq(x.ref, y.ref), eq(x.idx, y.idx))
	case SliceV:
		return eq(x.obj, b.(SliceV).obj)
	case *StructV:
		y := b.(*StructV)
		s := under(x.typ).(*types.Struct)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, c.equal(st, x.f[i], y.f[i], s.Field(i).Type()))
		}
		return and(cs...)
	case ArrV:
		y := b.(ArrV)
		if x.n <= 64 {
			var cs []*Term
			for i := int64(0); i < x.n; i++ {
				cs = append(cs, c.equal(st, x.at(num(i)), y.at(num(i)), x.elem))
			}
			return and(cs...)
		}
		i := freshBound("i")
		return forall([]*Term{i}, implies(inRange(i, tZero, num(x.n)), c.equal(nil, x.at(i), y.at(i), x.elem)))
	}
	panic(engErr("unsupported comparison of %T", a))
}

// loadGlobal reads a package-level variable.
func (c *Ctx) loadGlobal(st *State, p PtrV) Val {
	name := strings.TrimPrefix(p.key, "glob:")
	// fields of a global are read through its root
	root := name
	if i := strings.IndexByte(name, '.'); i >= 0 {
		// name is "path/pkg.Var" possibly followed by ".field"
		slash := strings.LastIndexByte(name, '/') + 1
		d := strings.IndexByte(name[slash:], '.')
		rest := name[slash+d+1:]
		if j := strings.IndexAny(rest, ".["); j >= 0 {
			root = name[:slash+d+1+j]
		}
	}
	if !c.prog.mutableGlobals[root] {
		switch under(p.elem).(type) {
		case *types.Interface, *types.Signature:
			id := addK(strConst("global "+name), 1<<42)
			noteGlobal(id)
			if it, ok := under(p.elem).(*types.Interface); ok && it.NumMethods() > 0 && !types.Identical(p.elem, types.Universe.Lookup("error").Type()) && !st.dead {
				// what's in it implements its type
				c.assume(st, or(eq(id, tZero), app("$impl "+typeStr(p.elem), true, id)))
			}
			return id
		}
		if v, ok := c.prog.globalInit[name]; ok {
			if cv, ok := v.(*ssa.Const); ok {
				return c.constVal(cv)
			}
		}
		if v, ok := c.constGlobal(name, p.elem); ok {
			return v
		}
	} else {
		c.note("global %s is modified outside of initialisers", root)
	}
	return c.loadVal(st, p)
}

func (c *Ctx) constGlobal(name string, t types.Type) (Val, bool) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		if v, ok := c.prog.globalInit[name]; ok {
			if cv, ok := v.(*ssa.Const); ok {
				return c.constVal(cv), true
			}
		} else if c.prog.zeroGlobals[name] {
			return c.zeroVal(t), true
		}
		return nil, false
	}
	sv := &StructV{typ: t}
	for i := 0; i < s.NumFields(); i++ {
		v, ok := c.constGlobal(name+"."+s.Field(i).Name(), s.Field(i).Type())
		if !ok {
			return nil, false
		}
		sv.f = append(sv.f, v)
	}
	return sv, true
}

var _ = sort.Strings
