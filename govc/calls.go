package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) call(f *Frame, p *Path, call *ssa.CallCommon, pos token.Pos) []Outcome {
	var args []Val
	for _, a := range call.Args {
		args = append(args, c.val(f, p, a))
	}
	return c.callVals(f, p, call, c.val(f, p, call.Value), args, pos)
}

func (c *Ctx) callVals(f *Frame, p *Path, call *ssa.CallCommon, fn Val, args []Val, pos token.Pos) []Outcome {
	st := p.st
	ps := c.pos(pos)
	if call.IsInvoke() {
		return c.invoke(st, fn.(*Term), call.Value.Type(), call.Method, args, pos)
	}
	if fv, ok := fn.(FuncV); ok {
		if b, ok := fv.fn.(*ssa.Builtin); ok {
			return c.builtin(st, b, call, args, ps)
		}
	}
	if sf := call.StaticCallee(); sf != nil {
		if id, ok := fn.(*Term); ok {
			if fv, ok := c.funcs[id]; ok && len(fv.bind) > 0 {
				return c.callFunc(st, fv, args, pos)
			}
		}
		return c.callStatic(st, sf, args, nil, pos)
	}
	id := fn.(*Term)
	return c.callID(st, id, call, args, pos)
}

func (c *Ctx) callID(st *State, id *Term, call *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	if fv, ok := c.funcs[id]; ok {
		return c.callFunc(st, fv, args, pos)
	}
	c.oblige(st, "safety", "call of nil function", c.pos(pos), nil, ne(id, tZero))
	if id.op == OIte {
		var outs []Outcome
		a, b := st, st.clone()
		c.assume(a, id.args[0])
		c.assume(b, not(id.args[0]))
		if c.feasible(a) {
			outs = append(outs, c.callID(a, id.args[1], call, args, pos)...)
		}
		if c.feasible(b) {
			outs = append(outs, c.callID(b, id.args[2], call, args, pos)...)
		}
		return outs
	}
	// a function stored in a field of an object that existed before the call
	if id.op == OApp && strings.HasPrefix(id.name, "H:") {
		key := strings.TrimPrefix(id.name, "H:")
		if i := strings.LastIndexByte(key, ':'); i > 0 {
			key = key[:i]
		}
		if con := c.prog.contracts["callback "+key]; con != nil {
			i := strings.LastIndexByte(key, '.')
			self := PtrV{ref: id.args[0], idx: tZero, key: key[:i], elem: c.prog.typeByName(key[:i])}
			return c.applyContract(st, con, append([]Val{self}, args...), call.Signature().Results(), pos)
		}
	}
	if con := c.prog.contracts["callback param "+c.paramName(id)]; con != nil {
		return c.applyContract(st, con, args, call.Signature().Results(), pos)
	}
	panic(engErr("call of unknown function value %s", id))
}

func (c *Ctx) paramName(id *Term) string {
	n := id.name
	if i := strings.IndexAny(n, ":!"); i >= 0 {
		n = n[:i]
	}
	return c.fn.Name() + "." + n
}

func (c *Ctx) callFunc(st *State, fv FuncV, args []Val, pos token.Pos) []Outcome {
	sf, ok := fv.fn.(*ssa.Function)
	if !ok {
		panic(engErr("call of %v", fv.fn))
	}
	return c.callStatic(st, sf, args, fv.bind, pos)
}

func (c *Ctx) callStatic(st *State, sf *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	key := fnKey(sf)
	if con := c.prog.contracts[key]; con != nil && !con.Inline && !c.prog.inlineOnly[key] {
		return c.applyContract(st, con, args, sf.Signature.Results(), pos)
	}
	if m := models[key]; m != nil {
		c.called["model "+key] = true
		return m(c, st, sf.Signature, args, pos)
	}
	// synthetic wrappers and functions without a contract are executed in place
	if sf.Blocks == nil {
		if strings.HasPrefix(sf.Synthetic, "") && sf.Pkg == nil && sf.Object() != nil {
			c.prog.buildWrapper(sf)
		}
	}
	if sf.Blocks == nil || !c.prog.inlinable(sf) {
		panic(engErr("no contract for external function %s", key))
	}
	return c.inline(st, sf, args, bind, pos)
}

func (c *Ctx) inline(st *State, sf *ssa.Function, args, bind []Val, pos token.Pos) []Outcome {
	for _, s := range c.stack {
		if s == sf {
			panic(engErr("recursive function %s needs a contract", sf))
		}
	}
	if len(c.stack) > 12 {
		panic(engErr("calls are nested too deeply at %s", sf))
	}
	c.inlined[fnKey(sf)] = true
	c.stack = append(c.stack, sf)
	defer func() { c.stack = c.stack[:len(c.stack)-1] }()
	f := newFrame(sf)
	f.con = c.prog.contracts[fnKey(sf)]
	regs := map[ssa.Value]Val{}
	for i, pr := range sf.Params {
		regs[pr] = args[i]
	}
	for i, fv := range sf.FreeVars {
		regs[fv] = bind[i]
	}
	c.region(f, f.rpo[0], []*Path{{st: st, regs: regs}}, nil, nil)
	return c.mergeOutcomes(f, f.rets)
}

// mergeOutcomes joins results that are the same in every respect but the assumptions.
// Integers and booleans may differ.
func (c *Ctx) mergeOutcomes(f *Frame, os []Outcome) []Outcome {
	res := f.fn.Signature.Results()
	var out []Outcome
next:
	for _, o := range os {
		for i := range out {
			if !sameHeap(out[i].st, o.st) {
				continue
			}
			lv := map[ssa.Value]bool{}
			r1, r2 := map[ssa.Value]Val{}, map[ssa.Value]Val{}
			var keys []ssa.Value
			for k := range o.vals {
				cst := ssa.NewConst(nil, res.At(k).Type())
				keys = append(keys, cst)
				lv[cst] = true
				r1[cst], r2[cst] = out[i].vals[k], o.vals[k]
			}
			b := &ssa.BasicBlock{}
			fake := &Frame{live: map[*ssa.BasicBlock]map[ssa.Value]bool{b: lv}}
			p1 := &Path{st: out[i].st, regs: r1}
			p2 := &Path{st: o.st, regs: r2}
			if c.tryMerge(fake, b, p1, p2) {
				nv := make([]Val, len(keys))
				for k, cst := range keys {
					nv[k] = p1.regs[cst]
				}
				out[i] = Outcome{p1.st, nv}
				continue next
			}
		}
		out = append(out, o)
	}
	return out
}

func one(st *State, vals ...Val) []Outcome { return []Outcome{{st, vals}} }

// ---------------------------------------------------------------- interfaces

func (c *Ctx) invoke(st *State, id *Term, it types.Type, m *types.Func, args []Val, pos token.Pos) []Outcome {
	if b, ok := c.boxes[id]; ok {
		sf := c.prog.prog.LookupMethod(b.typ, m.Pkg(), m.Name())
		if sf == nil {
			panic(engErr("no method %s on %s", m.Name(), b.typ))
		}
		return c.callStatic(st, sf, append([]Val{b.val}, args...), nil, pos)
	}
	if id.op == OIte {
		var outs []Outcome
		a, b := st, st.clone()
		c.assume(a, id.args[0])
		c.assume(b, not(id.args[0]))
		if c.feasible(a) {
			outs = append(outs, c.invoke(a, id.args[1], it, m, args, pos)...)
		}
		if c.feasible(b) {
			outs = append(outs, c.invoke(b, id.args[2], it, m, args, pos)...)
		}
		return outs
	}
	c.oblige(st, "safety", "method call on nil interface", c.pos(pos), nil, ne(id, tZero))
	if st.dead {
		return nil
	}
	if dyn := c.prog.soleType(it); dyn != nil {
		if p, ok := under(dyn).(*types.Pointer); ok {
			sf := c.prog.prog.LookupMethod(dyn, m.Pkg(), m.Name())
			if sf == nil {
				panic(engErr("no method %s on %s", m.Name(), dyn))
			}
			c.assume(st, eq(app("$typeof", false, id), typeNum(dyn)))
			return c.callStatic(st, sf, append([]Val{PtrV{id, tZero, rootKey(p.Elem()), p.Elem()}}, args...), nil, pos)
		}
	}
	key := ifaceKey(m)
	if con := c.prog.contracts[key]; con != nil {
		return c.applyContract(st, con, append([]Val{id}, args...), m.Type().(*types.Signature).Results(), pos)
	}
	if mod := models[key]; mod != nil {
		c.called["model "+key] = true
		return mod(c, st, m.Type().(*types.Signature), append([]Val{id}, args...), pos)
	}
	// methods of embedded interfaces are found under the embedded interface's name
	panic(engErr("no contract for interface method %s", key))
}

// soleType is the only type of values in an interface that can't be implemented elsewhere.
func (p *Program) soleType(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	hidden := false
	for i := 0; i < it.NumMethods(); i++ {
		hidden = hidden || !it.Method(i).Exported()
	}
	if !hidden || n.Obj().Exported() || n.Obj().Pkg() == nil {
		return nil
	}
	p.soleMu.Lock()
	defer p.soleMu.Unlock()
	if d, ok := p.sole[n]; ok {
		return d
	}
	pkg := p.prog.Package(n.Obj().Pkg())
	var found types.Type
	many := false
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && types.Implements(mi.X.Type(), it) {
					if found == nil {
						found = mi.X.Type()
					} else if !types.Identical(found, mi.X.Type()) {
						many = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	if pkg != nil {
		for _, m := range pkg.Members {
			switch x := m.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				for _, mt := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(mt)
					for i := 0; i < ms.Len(); i++ {
						visit(p.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	if many {
		found = nil
	}
	if p.sole == nil {
		p.sole = map[*types.Named]types.Type{}
	}
	p.sole[n] = found
	return found
}

func ifaceKey(m *types.Func) string {
	return "iface " + m.FullName()
}

// ---------------------------------------------------------------- builtins

func (c *Ctx) builtin(st *State, b *ssa.Builtin, call *ssa.CallCommon, args []Val, pos string) []Outcome {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, x.len)
		case *Term:
			if isStringType(call.Args[0].Type()) {
				return one(st, slen(x))
			}
			return one(st, freshInt("maplen:len"))
		case ArrV:
			return one(st, num(x.n))
		case PtrV:
			_, n := arrayCount(x.elem)
			return one(st, num(n))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return one(st, x.cap)
		}
	case "copy":
		d := args[0].(SliceV)
		switch s := args[1].(type) {
		case SliceV:
			n := c.minT(st, d.len, s.len)
			c.copyElems(st, d, s, n)
			return one(st, n)
		case *Term:
			n := c.minT(st, d.len, slen(s))
			l, _ := scalarLeaf(d.elem)
			c.setRange(st, d.key, l, d.obj, d.off, add(d.off, n), func(_, i *Term) *Term { return sat(s, sub(i, d.off)) })
			return one(st, n)
		}
	case "append":
		return c.appendTo(st, call, args, pos)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			x := a.(*Term)
			if b.Name() == "min" {
				r = c.minT(st, r, x)
			} else {
				r = neg(c.minT(st, neg(r), neg(x)))
			}
		}
		return one(st, r)
	case "clear":
		if s, ok := args[0].(SliceV); ok {
			z := c.flatten(c.zeroVal(s.elem), s.elem)
			for i, l := range leaves(s.elem) {
				i := i
				c.setRange(st, s.key+l.suf, l, s.obj, s.off, add(s.off, s.len), func(_, _ *Term) *Term { return z[i] })
			}
			return one(st)
		}
		m := args[0].(*Term)
		mk := "map:" + typeStr(call.Args[0].Type())
		c.setObj(st, mk+"#has", bitsLeaf, m, func(_, _ *Term) *Term { return tFalse })
		return one(st)
	case "delete":
		t := call.Args[0].Type()
		key := c.mapKey(under(t).(*types.Map).Key(), args[1])
		c.wr(st, "map:"+typeStr(t)+"#has", bitsLeaf, args[0].(*Term), key, tFalse)
		return one(st)
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		c.oblige(st, "safety", "nil receiver", pos, nil, ne(p.ref, tZero))
		return one(st, p)
	case "print", "println":
		return one(st)
	}
	panic(engErr("unsupported builtin %s", b.Name()))
}

func (c *Ctx) minT(st *State, a, b *Term) *Term {
	if v, k := c.decide(st, le(a, b)); k {
		if v {
			return a
		}
		return b
	}
	if c.qfEntails(st, le(a, b), 200) {
		return a
	}
	if c.qfEntails(st, le(b, a), 200) {
		return b
	}
	return ite(le(a, b), a, b)
}

// copyElems copies n elements.
func (c *Ctx) copyElems(st *State, d, s SliceV, n *Term) {
	e, k := arrayCount(d.elem)
	kk := big.NewInt(k)
	dlo := scale(d.off, kk)
	slo := scale(s.off, kk)
	ls := leaves(e)
	var src []*Node
	for _, l := range ls {
		src = append(src, c.node(st, s.key+l.suf, l))
	}
	var bits *Node
	bitsCopy := c.useBits && d.key == "elem:uint8" && s.key == "elem:uint8"
	if bitsCopy {
		bits = c.node(st, "bits:elem", bitsLeaf)
	}
	delta := sub(slo, dlo)
	for i, l := range ls {
		nd := src[i]
		c.setRange(st, d.key+l.suf, l, d.obj, dlo, add(dlo, scale(n, kk)), func(_, ix *Term) *Term {
			return nd.read(c, s.obj, add(ix, delta))
		})
	}
	if bitsCopy {
		eight := big.NewInt(8)
		st.heap["bits:elem"] = bits
		lo := scale(d.off, eight)
		st.heap["bits:elem"] = &Node{kind: nRange, prev: bits, ref: d.obj, lo: lo, hi: add(lo, scale(n, eight)), log: true, fn: func(_, ix *Term) *Term {
			return bits.read(c, s.obj, add(ix, scale(delta, eight)))
		}}
	}
}

func (c *Ctx) appendTo(st *State, call *ssa.CallCommon, args []Val, pos string) []Outcome {
	s := args[0].(SliceV)
	var n *Term
	var srcLen *Term
	var read func(st *State) func(k int) func(ix *Term) *Term
	ls := leaves(s.elem)
	switch x := args[1].(type) {
	case SliceV:
		srcLen = x.len
		read = func(st *State) func(k int) func(ix *Term) *Term {
			var nodes []*Node
			for _, l := range ls {
				nodes = append(nodes, c.node(st, x.key+l.suf, l))
			}
			return func(k int) func(ix *Term) *Term {
				return func(ix *Term) *Term { return nodes[k].read(c, x.obj, add(x.off, ix)) }
			}
		}
	case *Term:
		srcLen = slen(x)
		read = func(st *State) func(k int) func(ix *Term) *Term {
			return func(k int) func(ix *Term) *Term { return func(ix *Term) *Term { return sat(x, ix) } }
		}
	}
	if srcLen == tZero {
		return one(st, s)
	}
	if s.elem != nil && hasArray(s.elem) {
		panic(engErr("append of structures with arrays"))
	}
	n = add(s.len, srcLen)
	c.note("slices never exceed 2^%d elements", maxLenBits)
	c.assume(st, le(n, numB(pow2(maxLenBits))))
	var outs []Outcome
	// in place
	a := st.clone()
	c.assume(a, le(n, s.cap))
	if c.feasible(a) {
		rd := read(a)
		lo := add(s.off, s.len)
		for k, l := range ls {
			fn := rd(k)
			c.setRange(a, s.key+l.suf, l, s.obj, lo, add(lo, srcLen), func(_, ix *Term) *Term { return fn(sub(ix, lo)) })
		}
		outs = append(outs, Outcome{a, []Val{SliceV{s.obj, s.off, n, s.cap, s.key, s.elem}}})
	}
	// reallocation
	b := st.clone()
	c.assume(b, lt(s.cap, n))
	if c.feasible(b) {
		rd := read(b)
		r := c.newRef()
		cp := freshInt("cap:len")
		c.assume(b, le(n, cp))
		for k, l := range ls {
			fn := rd(k)
			old := c.node(b, s.key+l.suf, l)
			z := c.flatten(c.zeroVal(s.elem), s.elem)[k]
			c.setObj(b, elemKey(s.elem)+l.suf, l, r, func(_, ix *Term) *Term {
				return iteAny(lt(ix, s.len), old.read(c, s.obj, add(s.off, ix)), iteAny(lt(ix, n), fn(sub(ix, s.len)), z))
			})
		}
		outs = append(outs, Outcome{b, []Val{SliceV{r, tZero, n, cp, elemKey(s.elem), s.elem}}})
	}
	return outs
}

func iteAny(c, a, b *Term) *Term { return ite(c, a, b) }

// ---------------------------------------------------------------- errors

// isErr is errors.Is(e, t).
func (c *Ctx) isErr(e, t *Term) *Term {
	if e == t {
		return ne(e, tZero)
	}
	if e == tZero || t == tZero {
		return and(eq(e, tZero), eq(t, tZero))
	}
	if e.op == OIte {
		return or(and(e.args[0], c.isErr(e.args[1], t)), and(not(e.args[0]), c.isErr(e.args[2], t)))
	}
	if b, ok := c.boxes[e]; ok && isErrorType(b.typ) {
		if !hasUnwrap(c, b.typ) {
			return eq(e, t)
		}
		if types.NewMethodSet(b.typ).Lookup(nil, "Is") == nil {
			if w, ok := c.methodValue(b, "Unwrap"); ok {
				return or(eq(e, t), and(ne(w, tZero), c.isErr(w, t)))
			}
		}
	}
	if ws, ok := c.wraps[e]; ok {
		var cs []*Term
		for _, w := range ws {
			cs = append(cs, c.isErr(w, t))
		}
		return or(append(cs, eq(e, t))...)
	}
	if e.isConst() {
		if isGlobalID(e) {
			// two different global error variables are unrelated
			if t.isConst() {
				return tFalse
			}
			return eq(e, t)
		}
		if t.isConst() {
			if b, ok := c.boxes[e]; !ok || !hasUnwrap(c, b.typ) {
				return tFalse
			}
		}
	}
	return or(eq(e, t), and(ne(e, tZero), app("$isErr", true, e, t)))
}

// methodValue is what a method without arguments returns, if its contract says
// so with a postcondition r == e.
func (c *Ctx) methodValue(b box, name string) (*Term, bool) {
	n, ok := b.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	con := c.prog.contracts["("+n.Obj().Pkg().Path()+"."+n.Obj().Name()+")."+name]
	if con == nil || con.Err != nil || len(con.Params) != 1 || len(con.Results) != 1 || len(con.Requires) > 0 {
		return nil, false
	}
	for _, e := range con.Ensures {
		x, ok := e.Expr.(*ast.BinaryExpr)
		if !ok || x.Op != token.EQL {
			continue
		}
		if r, ok := x.X.(*ast.Ident); ok && r.Name == con.Results[0] {
			v := &env{c: c, con: con, vars: c.bindContract(con, []Val{b.val}, nil, con.ParamTypes, nil)}
			c.called[con.Key] = true
			return v.id(x.Y), true
		}
	}
	return nil, false
}

// errText is e.Error().
func (c *Ctx) errText(e *Term) *Term {
	if b, ok := c.boxes[e]; ok && isErrorType(b.typ) {
		if t, ok := c.methodValue(b, "Error"); ok {
			return t
		}
	}
	return app("$Error", false, e)
}

func hasUnwrap(c *Ctx, t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Unwrap") != nil || ms.Lookup(nil, "Is") != nil
}

var (
	globalsMu sync.Mutex
	globals   = map[*Term]bool{}
)

// noteGlobal records the value of a global variable that is never assigned to.
func noteGlobal(t *Term) {
	globalsMu.Lock()
	globals[t] = true
	globalsMu.Unlock()
}

// globalList lists them in a fixed order.
func globalList() []*Term {
	globalsMu.Lock()
	defer globalsMu.Unlock()
	var l []*Term
	for t := range globals {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].val.Cmp(l[j].val) < 0 })
	return l
}

func isGlobalID(t *Term) bool {
	return t.isConst() && t.val.Cmp(pow2(42)) >= 0
}

type model func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome

// variadic lists the elements of a variadic argument if their number is known.
func (c *Ctx) variadic(st *State, v Val) ([]Val, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	n, ok := s.len.constInt()
	if !ok || n > 32 {
		return nil, false
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, c.loadVal(st, c.elemPtr(s, num(i))))
	}
	return out, true
}

func verbs(format string) []byte {
	var out []byte
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i < len(format) && format[i] != '%' {
			out = append(out, format[i])
		}
	}
	return out
}

func newError(c *Ctx, wraps ...*Term) *Term {
	id := c.newRef()
	c.wraps[id] = append([]*Term{}, wraps...)
	return id
}

var models map[string]model

func init() {
	freshErr := func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
		return one(st, newError(c))
	}
	models = map[string]model{
		"errors.New": freshErr,
		"errors.Is": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			return one(st, c.isErr(args[0].(*Term), args[1].(*Term)))
		},
		"fmt.Errorf": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			format, ok := constStr(args[0].(*Term))
			vs, ok2 := c.variadic(st, args[1])
			if !ok || !ok2 {
				panic(engErr("fmt.Errorf with an unknown format"))
			}
			var ws []*Term
			for i, v := range verbs(format) {
				if v == 'w' && i < len(vs) {
					ws = append(ws, vs[i].(*Term))
				}
			}
			return one(st, newError(c, ws...))
		},
		"fmt.Sprintf": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			format, ok := constStr(args[0].(*Term))
			vs, ok2 := c.variadic(st, args[1])
			if ok && ok2 {
				if r := c.sprintf(st, format, vs); r != nil {
					return one(st, r)
				}
			}
			return one(st, freshInt("sprintf"))
		},
		"iface (github.com/dargueta/disko.DriverError).WithMessage": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			return one(st, newError(c, args[0].(*Term)))
		},
		"iface (github.com/dargueta/disko.DriverError).Wrap": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			c.oblige(st, "safety", "wrapped error is not nil", c.pos(pos), nil, ne(args[1].(*Term), tZero))
			return one(st, newError(c, args[0].(*Term), args[1].(*Term)))
		},
		"iface (error).Error": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			return one(st, c.errText(args[0].(*Term)))
		},
		"encoding/binary.Read": binaryRead,
		"github.com/hashicorp/go-multierror.Append": func(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
			vs, ok := c.variadic(st, args[1])
			if !ok {
				panic(engErr("multierror.Append with unknown arguments"))
			}
			ws := []*Term{args[0].(*Term)}
			for _, v := range vs {
				ws = append(ws, v.(*Term))
			}
			id := newError(c, ws...)
			t := sig.Results().At(0).Type().(*types.Pointer)
			return one(st, PtrV{id, tZero, rootKey(t.Elem()), t.Elem()})
		},
	}
}

// sprintf handles formats that only consist of text and %s of strings.
func (c *Ctx) sprintf(st *State, format string, vs []Val) *Term {
	r := strConst("")
	k := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			return c.concat(st, r, strConst(format[i:]))
		}
		r = c.concat(st, r, strConst(format[i:i+j]))
		i += j
		if i+1 >= len(format) || format[i+1] != 's' || k >= len(vs) {
			return nil
		}
		b, ok := c.boxes[vs[k].(*Term)]
		if !ok || !isStringType(b.typ) {
			return nil
		}
		r = c.concat(st, r, b.val.(*Term))
		k++
		i += 2
	}
	return r
}

// ---------------------------------------------------------------- contracts

func fnKey(f *ssa.Function) string {
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			ptr = "*"
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return "(" + ptr + n.Obj().Pkg().Path() + "." + n.Obj().Name() + ")." + f.Name()
		}
	}
	if f.Parent() != nil || f.Pkg == nil {
		return f.String()
	}
	return f.Pkg.Pkg.Path() + "." + f.Name()
}

func (c *Ctx) bindContract(con *Contract, args, results []Val, argT, resT []types.Type) map[string]tv {
	vars := map[string]tv{}
	for i, n := range con.Params {
		if n != "_" && i < len(args) {
			vars[n] = tv{args[i], argT[i]}
		}
	}
	for i, n := range con.Results {
		if n != "_" && i < len(results) {
			vars[n] = tv{results[i], resT[i]}
		}
	}
	return vars
}

func (c *Ctx) valType(v Val) types.Type { return nil }

func (c *Ctx) applyContract(st *State, con *Contract, args []Val, results *types.Tuple, pos token.Pos) []Outcome {
	c.called[con.Key] = true
	if con.Err != nil {
		panic(engErr("contract %s: %v", con.Key, con.Err))
	}
	argT := con.ParamTypes
	if len(argT) != len(args) || len(con.Params) != len(args) {
		panic(engErr("contract %s has %d parameters, the function has %d", con.Key, len(con.Params), len(args)))
	}
	vars := c.bindContract(con, args, nil, argT, nil)
	pre := &env{c: c, cur: st, old: st, vars: vars, con: con}
	for _, r := range con.Requires {
		if len(r.Tags) > 0 && !tagsMatch(r.Tags, c.prop) && tagged(r.Tags, c.con.Props) {
			continue // an obligation of the function's verification for the other property
		}
		c.oblige(st, "precondition", con.Short+": "+r.Label, c.pos(pos), nil, pre.boolean(r.Expr))
	}
	if st.dead {
		return nil
	}
	// the callee's view of the heap before the call
	old := st.clone()
	var targets []modTarget
	for _, m := range con.Modifies {
		targets = append(targets, pre.targets(m)...)
	}
	preAlloc := c.alloc
	if !con.Pure {
		c.alloc += 1000
	}
	for _, t := range targets {
		c.havocTarget(st, t)
	}
	var resT []types.Type
	var res []Val
	for i := 0; i < results.Len(); i++ {
		t := results.At(i).Type()
		resT = append(resT, t)
		if con.Pure {
			res = append(res, c.pureResult(st, con, args, argT, t, i))
		} else {
			nm := fmt.Sprintf("r%d", i)
			if i < len(con.Results) {
				nm = con.Results[i]
			}
			res = append(res, c.freshVal(st, t, nm))
		}
	}
	vars = c.bindContract(con, args, res, argT, resT)
	post := &env{c: c, cur: st, old: old, vars: vars, con: con, freshLo: -int64(c.alloc), freshHi: -int64(preAlloc) - 1, caller: true}
	c.freshFields(st, con, post)
	for _, e := range con.Ensures {
		if e.Assumed {
			c.note("assumed without proof: %s of %s", e.Label, con.Short)
		}
		c.assume(st, post.boolean(e.Expr))
	}
	for _, w := range con.Wraps {
		id := post.vars[w[0]].v.(*Term)
		c.wraps[id] = []*Term{post.vars[w[1]].v.(*Term)}
	}
	if !c.feasible(st) {
		if c.quiet == 0 {
			c.note("the postcondition of %s contradicts the assumptions at %s (path infeasible)", con.Short, c.pos(pos))
		}
		return nil
	}
	return one(st, res...)
}

// freshFields forgets the contents of new objects. What memory contains otherwise existed
// when the function was entered, so it could not refer to anything new.
func (c *Ctx) freshFields(st *State, con *Contract, post *env) {
	seen := map[string]bool{}
	for _, cl := range con.Ensures {
		ast.Inspect(cl.Expr, func(n ast.Node) bool {
			call, ok := n.(*ast.CallExpr)
			if !ok || exprStr(call.Fun) != "fresh" || len(call.Args) != 1 || seen[exprStr(call.Args[0])] {
				return true
			}
			x := call.Args[0]
			seen[exprStr(x)] = true
			if !c.newObject(x, con, post, seen) {
				return true
			}
			if v, ok := post.eval(x).v.(PtrV); ok {
				for _, t := range post.locTargets(v) {
					c.havocNew(st, t)
				}
			}
			return true
		})
	}
}

// newObject tells whether x is a result or a field of an object already known to be new.
func (c *Ctx) newObject(x ast.Expr, con *Contract, post *env, seen map[string]bool) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return slices.Contains(con.Results, x.Name)
	case *ast.SelectorExpr:
		if !c.newObject(x.X, con, post, seen) {
			return false
		}
		_, isValue := post.eval(x.X).v.(*StructV)
		return isValue || seen[exprStr(x.X)]
	}
	return false
}

func (c *Ctx) havocNew(st *State, t modTarget) {
	if t.lo != nil || t.all || isTwoLevel(t.key) {
		return // arrays hold no references
	}
	v := freshInt("f:" + t.key + c.rngName(t.l))
	if t.l.isB {
		v = freshBool("f:" + t.key)
	}
	st.heap[t.key] = &Node{kind: nStore, prev: c.node(st, t.key, t.l), ref: t.ref, idx: tZero, val: v}
}

func tagged(tags, props []string) bool {
	for _, t := range tags {
		if slices.Contains(props, t) {
			return true
		}
	}
	return false
}

func (c *Ctx) pureResult(st *State, con *Contract, args []Val, argT []types.Type, t types.Type, i int) Val {
	var flat []*Term
	for k, a := range args {
		if s, ok := a.(SliceV); ok {
			vs, known := c.variadic(st, s)
			if !known {
				panic(engErr("pure function %s called with a slice of unknown length", con.Key))
			}
			for _, v := range vs {
				flat = append(flat, c.flatten(v, s.elem)...)
			}
			continue
		}
		flat = append(flat, c.flatten(a, argT[k])...)
	}
	var ts []*Term
	for _, l := range leaves(t) {
		rng := c.rngName(l)
		if l.rng == "ref" {
			rng = ""
		}
		ts = append(ts, app(fmt.Sprintf("P:%s#%d%s/%d%s", con.Key, i, l.suf, len(flat), rng), l.isB, flat...))
	}
	return c.unflatten(t, &ts)
}

type modTarget struct {
	key    string
	l      leaf
	ref    *Term
	lo, hi *Term // nil: whole object
	all    bool  // every object
}

func (c *Ctx) havocTarget(st *State, t modTarget) {
	switch {
	case t.all:
		c.havocAll(st, t.key, t.l)
	case t.lo != nil:
		c.havocRange(st, t.key, t.l, t.ref, t.lo, t.hi)
	case isTwoLevel(t.key):
		c.havocObj(st, t.key, t.l, t.ref)
	default:
		if t.l.isB {
			c.wr(st, t.key, t.l, t.ref, tZero, freshBool("h:"+t.key))
		} else {
			c.wr(st, t.key, t.l, t.ref, tZero, freshInt("h:"+t.key+c.rngName(t.l)))
		}
	}
}

// binaryRead is encoding/binary.Read into a pointer to a value of fixed size: it takes
// exactly that many bytes from the reader's tape, or fails and leaves the value alone.
func binaryRead(c *Ctx, st *State, sig *types.Signature, args []Val, pos token.Pos) []Outcome {
	r := args[0].(*Term)
	order, ok1 := c.boxes[args[1].(*Term)]
	dst, ok2 := c.boxes[args[2].(*Term)]
	if !ok1 || !ok2 {
		panic(engErr("binary.Read with unknown arguments"))
	}
	little := strings.HasSuffix(typeStr(order.typ), "littleEndian")
	if !little && !strings.HasSuffix(typeStr(order.typ), "bigEndian") {
		panic(engErr("binary.Read with byte order %s", order.typ))
	}
	p, ok := dst.val.(PtrV)
	if !ok {
		panic(engErr("binary.Read into %s", dst.typ))
	}
	c.oblige(st, "safety", "nil pointer", c.pos(pos), nil, and(ne(p.ref, tZero), ne(r, tZero)))
	if st.dead {
		return nil
	}
	size := binarySize(p.elem)
	old := st.clone()
	ev := func(s *State, e string, vars map[string]tv) *Term {
		x, err := parseExpr(e)
		if err != nil {
			panic(err)
		}
		return (&env{c: c, cur: s, old: old, vars: vars, pkgPath: "io"}).id(x)
	}
	vars := map[string]tv{"r": {r, tInt}, "size": {num(size), tInt}}
	pre := &env{c: c, cur: st, old: st, vars: vars, pkgPath: "io"}
	for _, g := range []string{"rlog", "spos", "iocalls", "seof", "sfailed"} {
		x, _ := parseExpr(g + "(r)")
		for _, t := range pre.targets(x) {
			c.havocTarget(st, t)
		}
	}
	bad := st.clone()
	// enough input
	start := ev(old, "rlog(r)", vars)
	key := ev(old, "tkey(r)", vars)
	c.assume(st, eq(ev(st, "rlog(r)", vars), add(start, num(size))), le(add(start, num(size)), ev(st, "inend(tkey(r))", vars)))
	off := int64(0)
	var fill func(q PtrV)
	fill = func(q PtrV) {
		switch u := under(q.elem).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fl := u.Field(i)
				fill(PtrV{q.ref, q.idx, q.key + "." + fl.Name(), fl.Type()})
			}
		case *types.Array:
			e, n := arrayCount(q.elem)
			k, base := arrLoc(q)
			for i := int64(0); i < n; i++ {
				fill(PtrV{q.ref, add(base, num(i)), k, e})
			}
		default:
			n := binarySize(q.elem)
			v := tZero
			for i := int64(0); i < n; i++ {
				sh := uint(i)
				if !little {
					sh = uint(n - 1 - i)
				}
				b := ev(st, "tb(k, i)", map[string]tv{"k": {key, tInt}, "i": {add(start, num(off+i)), tInt}})
				v = add(v, scale(b, pow2(8*sh)))
			}
			off += n
			c.storeVal(st, q, c.wrap(st, v, q.elem))
		}
	}
	fill(p)
	e := freshInt("err")
	c.assume(bad, ne(e, tZero), lt(ev(bad, "inend(tkey(r))", vars), add(start, num(size))),
		le(start, ev(bad, "rlog(r)", vars)))
	var outs []Outcome
	if c.feasible(st) {
		outs = append(outs, Outcome{st, []Val{tZero}})
	}
	if c.feasible(bad) {
		outs = append(outs, Outcome{bad, []Val{e}})
	}
	return outs
}

func binarySize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n += binarySize(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return u.Len() * binarySize(u.Elem())
	case *types.Basic:
		switch basicRange(u) {
		case "u8", "i8":
			return 1
		case "u16", "i16":
			return 2
		case "u32", "i32":
			return 4
		case "u64", "i64":
			if k := u.Kind(); k == types.Uint64 || k == types.Int64 {
				return 8
			}
		}
	}
	panic(engErr("binary.Read into %s", t))
}
