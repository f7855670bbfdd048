package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- printing

type printer struct {
	sb    *strings.Builder
	plain bool           // for humans
	def   map[*Term]bool // already defined as $id
	apps  map[string]int // function symbol -> arity
	isB   map[string]bool
	vars  map[string]bool // constant symbol -> isBool
	mul   bool
	bdiv  bool
}

func q(name string) string { return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(name) + "|" }

func (p *printer) print(t *Term) { p.pol(t, 0) }

// pol prints t; pol is +1 if t is asserted, -1 if its negation is, 0 if unknown.
func (p *printer) pol(t *Term, pol int) {
	sb := p.sb
	if p.def != nil && p.def[t] {
		fmt.Fprintf(sb, "$%d", t.id)
		return
	}
	p.body(t, pol)
}

func (p *printer) list(op string, ts []*Term, pol int) {
	p.sb.WriteString("(" + op)
	for _, a := range ts {
		p.sb.WriteByte(' ')
		p.pol(a, pol)
	}
	p.sb.WriteByte(')')
}

func (p *printer) name(n string) string {
	if p.plain {
		return n
	}
	return q(n)
}

func smtNum(s string) string {
	if s[0] == '-' {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (p *printer) body(t *Term, pol int) {
	sb := p.sb
	switch t.op {
	case OConst:
		sb.WriteString(smtNum(t.val.String()))
	case OVar:
		sb.WriteString(p.name(t.name))
	case OBound:
		sb.WriteString(p.name(t.name))
	case OApp:
		p.list(p.name(t.name), t.args, 0)
	case OLin:
		sb.WriteString("(+")
		for i, a := range t.args {
			sb.WriteByte(' ')
			if t.coef[i].Cmp(bigOne) == 0 {
				p.pol(a, 0)
			} else {
				sb.WriteString("(* " + smtNum(t.coef[i].String()) + " ")
				p.pol(a, 0)
				sb.WriteString(")")
			}
		}
		if t.val.Sign() != 0 || len(t.args) == 1 {
			sb.WriteString(" " + smtNum(t.val.String()))
		}
		sb.WriteString(")")
	case OMul:
		for range t.args[1:] {
			sb.WriteString("($mul ")
		}
		p.pol(t.args[0], 0)
		for _, a := range t.args[1:] {
			sb.WriteByte(' ')
			p.pol(a, 0)
			sb.WriteByte(')')
		}
	case ODiv:
		sb.WriteString("(div ")
		p.pol(t.args[0], 0)
		sb.WriteString(" " + t.val.String() + ")")
	case OMod:
		sb.WriteString("(mod ")
		p.pol(t.args[0], 0)
		sb.WriteString(" " + t.val.String() + ")")
	case OIte:
		p.list("ite", t.args, 0)
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case ONot:
		sb.WriteString("(not ")
		p.pol(t.args[0], -pol)
		sb.WriteString(")")
	case OAnd:
		p.list("and", t.args, pol)
	case OOr:
		p.list("or", t.args, pol)
	case OEq0, OGe0:
		// print positive and negative parts on different sides
		l := t.args[0]
		op := "="
		if t.op == OGe0 {
			op = ">="
		}
		if l.op == OLin {
			a, b := newLin(), newLin()
			for i, x := range l.args {
				if l.coef[i].Sign() > 0 {
					a.addAtom(x, l.coef[i])
				} else {
					b.addTerm(x, new_(l.coef[i]))
				}
			}
			if l.val.Sign() > 0 {
				a.k.Set(l.val)
			} else {
				b.k.Neg(l.val)
			}
			sb.WriteString("(" + op + " ")
			p.linOut(a)
			sb.WriteString(" ")
			p.linOut(b)
			sb.WriteString(")")
		} else {
			sb.WriteString("(" + op + " ")
			p.pol(l, 0)
			sb.WriteString(" 0)")
		}
	case OIff:
		p.list("=", t.args, 0)
	case OForall, OExists:
		n := len(t.args) - 1
		if t.op == OForall && pol >= 0 && !p.plain {
			p.forall(t.args[:n], t.args[n])
			return
		}
		if t.op == OExists && pol < 0 && !p.plain {
			sb.WriteString("(not ")
			p.forall(t.args[:n], not(t.args[n]))
			sb.WriteString(")")
			return
		}
		kw := "forall"
		if t.op == OExists {
			kw = "exists"
		}
		sb.WriteString("(" + kw + " (")
		for _, v := range t.args[:n] {
			sb.WriteString("(" + p.name(v.name) + " Int)")
		}
		sb.WriteString(") ")
		p.pol(t.args[n], pol)
		sb.WriteString(")")
	default:
		panic("print")
	}
}

func (p *printer) linOut(l *lin) {
	if len(l.c) == 0 {
		p.sb.WriteString(smtNum(l.k.String()))
		return
	}
	var atoms []*Term
	for a := range l.c {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	many := len(atoms) > 1 || l.k.Sign() != 0
	if many {
		p.sb.WriteString("(+")
	}
	for _, a := range atoms {
		if many {
			p.sb.WriteByte(' ')
		}
		c := l.c[a]
		if c.Cmp(bigOne) == 0 {
			p.pol(a, 0)
		} else {
			p.sb.WriteString("(* " + smtNum(c.String()) + " ")
			p.pol(a, 0)
			p.sb.WriteString(")")
		}
	}
	if many {
		if l.k.Sign() != 0 {
			p.sb.WriteString(" " + smtNum(l.k.String()))
		}
		p.sb.WriteString(")")
	}
}

// forall prints a universally quantified fact once per way of triggering it. The
// index of some function application is made equal to the bound variable so that
// the solver can match it against any term.
func (p *printer) forall(vs []*Term, body *Term) {
	sb := p.sb
	type variant struct {
		body *Term
		pats []*Term
	}
	var variants []variant
	if len(vs) == 1 {
		v := vs[0]
		offs := map[*Term][]*Term{}
		var order []*Term
		var walk func(t *Term)
		seen := map[*Term]bool{}
		walk = func(t *Term) {
			if seen[t] || !t.bound {
				return
			}
			seen[t] = true
			if t.op == OForall || t.op == OExists {
				return
			}
			if t.op == OApp || t.op == OMul {
				var off *Term
				ok := true
				n := 0
				for _, a := range t.args {
					if !a.bound {
						continue
					}
					o := shiftOf(a, v)
					if o == nil || (off != nil && off != o) {
						ok = false
						break
					}
					off = o
					n++
				}
				if ok && off != nil {
					if _, have := offs[off]; !have {
						order = append(order, off)
					}
					offs[off] = append(offs[off], t)
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(body)
		for _, o := range order {
			m := map[*Term]*Term{v: sub(v, o)}
			var ps []*Term
			for _, t := range offs[o] {
				pt := subst(t, m)
				if pt.op == OApp || pt.op == OMul {
					ps = append(ps, pt)
				}
			}
			if len(ps) > 0 {
				variants = append(variants, variant{subst(body, m), ps})
			}
			if len(variants) >= 6 {
				break
			}
		}
	}
	if len(variants) == 0 {
		sb.WriteString("(forall (")
		for _, v := range vs {
			sb.WriteString("(" + p.name(v.name) + " Int)")
		}
		sb.WriteString(") ")
		pats := multiPattern(vs, body)
		if pats != nil {
			sb.WriteString("(! ")
		}
		p.pol(body, 1)
		if pats != nil {
			sb.WriteString(" :pattern (")
			for i, t := range pats {
				if i > 0 {
					sb.WriteByte(' ')
				}
				p.pol(t, 0)
			}
			sb.WriteString("))")
		}
		sb.WriteString(")")
		return
	}
	if len(variants) > 1 {
		sb.WriteString("(and")
	}
	for _, va := range variants {
		sb.WriteString(" (forall ((" + p.name(vs[0].name) + " Int)) (! ")
		p.pol(va.body, 1)
		for _, t := range va.pats {
			sb.WriteString(" :pattern (")
			p.pol(t, 0)
			sb.WriteString(")")
		}
		sb.WriteString("))")
	}
	if len(variants) > 1 {
		sb.WriteString(")")
	}
}

// shiftOf returns o such that a = v + o with o free of bound variables.
func shiftOf(a, v *Term) *Term {
	if a == v {
		return tZero
	}
	if a.op != OLin {
		return nil
	}
	has := false
	for i, x := range a.args {
		if x == v {
			if a.coef[i].Cmp(bigOne) != 0 {
				return nil
			}
			has = true
		} else if x.bound {
			return nil
		}
	}
	if !has {
		return nil
	}
	return sub(a, v)
}

// multiPattern picks applications that together mention all variables.
func multiPattern(vs []*Term, body *Term) []*Term {
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == OForall || t.op == OExists {
			return
		}
		if t.op == OApp {
			pure := true
			for _, a := range t.args {
				if a.bound && a.op != OBound && a.op != OApp {
					pure = false
				}
			}
			if pure {
				cands = append(cands, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	need := map[*Term]bool{}
	for _, v := range vs {
		need[v] = true
	}
	var out []*Term
	// a single one that covers everything is best
	for _, c := range cands {
		fb := map[*Term]bool{}
		freeBounds(c, fb, map[*Term]bool{})
		all := true
		for v := range need {
			all = all && fb[v]
		}
		for v := range fb {
			if !need[v] {
				all = false
			}
		}
		if all {
			return []*Term{c}
		}
	}
	for _, c := range cands {
		fb := map[*Term]bool{}
		freeBounds(c, fb, map[*Term]bool{})
		useful, foreign := false, false
		for v := range fb {
			if need[v] {
				useful = true
			}
			f := true
			for _, w := range vs {
				if w == v {
					f = false
				}
			}
			foreign = foreign || f
		}
		if useful && !foreign {
			out = append(out, c)
			for v := range fb {
				delete(need, v)
			}
		}
		if len(need) == 0 {
			return out
		}
	}
	return nil
}

// script renders a query: are the assumptions and the negated goal satisfiable?
func script(assume []*Term, goal *Term, ax []*Axiom, nia bool) string {
	var sb strings.Builder
	p := &printer{sb: &sb, def: map[*Term]bool{}, apps: map[string]int{}, isB: map[string]bool{}, vars: map[string]bool{}}
	all := append([]*Term{}, assume...)
	ng := not(goal)
	all = append(all, ng)
	// axioms about the symbols in use, transitively
	used := map[string]bool{}
	syms := map[*Term]bool{}
	for _, t := range all {
		collectSyms(t, used, syms)
	}
	inc := map[*Axiom]bool{}
	var raw []*Axiom
	for ch := true; ch; {
		ch = false
		for _, a := range ax {
			if !inc[a] && a.relevant(used) {
				inc[a] = true
				ch = true
				if len(a.Vars) > 0 {
					raw = append(raw, a)
				} else {
					all = append([]*Term{a.Body}, all...)
				}
				collectSyms(a.Body, used, syms)
			}
		}
	}
	// reference counts
	refs := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		p.note(t)
		for _, a := range t.args {
			count(a)
		}
	}
	for _, t := range all {
		count(t)
	}
	for _, a := range raw {
		count(a.Body)
		for _, t := range a.Pats {
			count(t)
		}
	}
	for _, n := range sortedKeys(p.vars) {
		b := p.vars[n]
		s := "Int"
		if b {
			s = "Bool"
		}
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", q(n), s)
	}
	for _, n := range sortedKeys(p.apps) {
		ar := p.apps[n]
		s := "Int"
		if p.isB[n] {
			s = "Bool"
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", q(n), strings.TrimSpace(strings.Repeat("Int ", ar)), s)
	}
	// the ranges of symbols and applications
	var rangeTerms []*Term
	boundApps := map[string]*Term{}
	for t := range refs {
		if (t.op == OVar || t.op == OApp) && (t.rlo != nil || t.rhi != nil) {
			if t.bound {
				boundApps[t.name] = t
			} else {
				rangeTerms = append(rangeTerms, t)
			}
		}
	}
	sort.Slice(rangeTerms, func(i, j int) bool { return rangeTerms[i].id < rangeTerms[j].id })
	if used["$bdiv"] {
		p.mul = true
	}
	if p.mul {
		if nia {
			sb.WriteString("(define-fun $mul ((a Int) (b Int)) Int (* a b))\n")
		} else {
			sb.WriteString(mulAxioms)
		}
	}
	if used["$bdiv"] {
		sb.WriteString(bdivAxioms)
	}
	if used["$isErr"] {
		// different global errors are unrelated, also as the values of variables
		gs := globalList()
		var ts []*Term
		for t := range refs {
			if t.op == OApp && t.name == "$isErr" && isGlobalID(t.args[1]) && !slices.Contains(ts, t.args[1]) {
				ts = append(ts, t.args[1])
			}
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].val.Cmp(ts[j].val) < 0 })
		for _, t := range ts {
			for _, g := range gs {
				if g != t {
					fmt.Fprintf(&sb, "(assert (not (%s %s %s)))\n", q("$isErr"), g.val.String(), t.val.String())
				}
			}
		}
	}
	// shared definitions
	done := map[*Term]bool{}
	var define func(t *Term)
	hasQ := map[*Term]bool{}
	var qq func(t *Term) bool
	qseen := map[*Term]bool{}
	qq = func(t *Term) bool {
		if qseen[t] {
			return hasQ[t]
		}
		qseen[t] = true
		r := t.op == OForall || t.op == OExists
		for _, a := range t.args {
			if qq(a) {
				r = true
			}
		}
		hasQ[t] = r
		return r
	}
	define = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, a := range t.args {
			define(a)
		}
		if refs[t] > 1 && !t.bound && t.size > 3 && t.op != OConst && t.op != OVar && !qq(t) {
			s := "Int"
			if t.bool_ {
				s = "Bool"
			}
			fmt.Fprintf(&sb, "(define-fun $%d () %s ", t.id, s)
			p.body(t, 0)
			sb.WriteString(")\n")
			p.def[t] = true
		}
	}
	for _, t := range all {
		define(t)
	}
	for _, a := range raw {
		define(a.Body)
	}
	rng := func(x string, lo, hi *big.Int) string {
		var c []string
		if lo != nil {
			c = append(c, "(>= "+x+" "+smtNum(lo.String())+")")
		}
		if hi != nil {
			c = append(c, "(<= "+x+" "+smtNum(hi.String())+")")
		}
		if len(c) == 1 {
			return c[0]
		}
		return "(and " + strings.Join(c, " ") + ")"
	}
	for _, t := range rangeTerms {
		var b strings.Builder
		pp := *p
		pp.sb = &b
		pp.pol(t, 0)
		sb.WriteString("(assert " + rng(b.String(), t.rlo, t.rhi) + ")\n")
	}
	var bnames []string
	for n := range boundApps {
		bnames = append(bnames, n)
	}
	sort.Strings(bnames)
	for _, n := range bnames {
		t := boundApps[n]
		var vs, as string
		for i := range t.args {
			vs += fmt.Sprintf("(?%d Int)", i)
			as += fmt.Sprintf(" ?%d", i)
		}
		a := "(" + q(n) + as + ")"
		sb.WriteString("(assert (forall (" + vs + ") (! " + rng(a, t.rlo, t.rhi) + " :pattern (" + a + "))))\n")
	}
	for _, a := range raw {
		sb.WriteString("(assert (forall (")
		for _, v := range a.Vars {
			sb.WriteString("(" + p.name(v.name) + " Int)")
		}
		sb.WriteString(") (! ")
		p.pol(a.Body, 1)
		sb.WriteString(" :pattern (")
		for i, t := range a.Pats {
			if i > 0 {
				sb.WriteByte(' ')
			}
			p.pol(t, 0)
		}
		sb.WriteString("))))\n")
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		p.pol(t, 1)
		sb.WriteString(")\n")
	}
	return sb.String()
}

func (p *printer) note(t *Term) {
	switch t.op {
	case OVar:
		p.vars[t.name] = t.bool_
	case OApp:
		p.apps[t.name] = len(t.args)
		p.isB[t.name] = t.bool_
		if t.name == "$bdiv" {
			delete(p.apps, t.name)
		}
	case OMul:
		p.mul = true
	}
}

func collectSyms(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar || t.op == OApp {
		out[t.name] = true
	}
	if t.op == OMul {
		out["$mul"] = true
	}
	for _, a := range t.args {
		collectSyms(a, out, seen)
	}
}

const mulAxioms = `(declare-fun $mul (Int Int) Int)
(assert (forall ((a Int) (b Int)) (! (= ($mul a b) ($mul b a)) :pattern (($mul a b)))))
(assert (forall ((a Int) (p Int)) (! (and (=> (and (>= a 0) (>= p 0)) (>= ($mul a p) 0)) (=> (and (>= a 1) (>= p 1)) (and (>= ($mul a p) a) (>= ($mul a p) p))) (=> (= a 0) (= ($mul a p) 0)) (=> (= a 1) (= ($mul a p) p))) :pattern (($mul a p)))))
(assert (forall ((a Int) (b Int) (p Int)) (! (=> (>= p 0) (and (=> (<= a b) (<= ($mul a p) ($mul b p))) (=> (< a b) (<= (+ ($mul a p) p) ($mul b p))) (=> (= b (+ a 1)) (= ($mul b p) (+ ($mul a p) p))))) :pattern (($mul a p) ($mul b p)))))
`
const bdivAxioms = `(declare-fun |$bdiv| (Int Int) Int)
(assert (forall ((m Int) (p Int)) (! (=> (and (>= m 0) (>= p 1)) (and (>= (|$bdiv| m p) 0) (<= (|$bdiv| m p) m) (<= ($mul (|$bdiv| m p) p) m) (< m (+ ($mul (|$bdiv| m p) p) p)))) :pattern ((|$bdiv| m p)))))
`

// An Axiom is a global fact that's only sent to the solver if it's relevant.
type Axiom struct {
	Name string
	Trig []string // relevant if all of these symbols are in use
	Body *Term
	Vars []*Term // explicitly quantified
	Pats []*Term // one multi-pattern
}

func (a *Axiom) relevant(used map[string]bool) bool {
	for _, s := range a.Trig {
		if !used[s] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- processes

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

// scale_ multiplies every time limit.
var scale_ = 1

var (
	procPool   = make(chan *z3proc, 64)
	queryCount int64
	solverNs   int64
	semaphore  = make(chan struct{}, 10)
)

func newZ3() *z3proc {
	cmd := exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3-new:", err)
		os.Exit(2)
	}
	return &z3proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}
}

func getProc() *z3proc {
	select {
	case p := <-procPool:
		return p
	default:
		return newZ3()
	}
}

func (p *z3proc) kill() { p.in.Close(); p.cmd.Process.Kill(); go p.cmd.Wait() }

func putProc(p *z3proc) {
	p.n++
	if p.n > 400 {
		p.kill()
		return
	}
	select {
	case procPool <- p:
	default:
		p.kill()
	}
}

// ask runs one query on a pooled z3 with a timeout in milliseconds.
func ask(scr string, ms int, getVals string) (Result, string) {
	ms *= scale_
	semaphore <- struct{}{}
	defer func() { <-semaphore }()
	atomic.AddInt64(&queryCount, 1)
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&solverNs, int64(d))
		if debugOn && d > 150*time.Millisecond {
			debugf("slow query %v (limit %d)", d, ms)
		}
	}()
	p := getProc()
	type ans struct {
		s   string
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(push)\n(set-option :timeout %d)\n", ms)
		sb.WriteString(scr)
		sb.WriteString("(check-sat)\n")
		if getVals != "" {
			sb.WriteString(getVals)
		}
		sb.WriteString("(pop)\n(echo \"$done\")\n")
		if _, err := io.WriteString(p.in, sb.String()); err != nil {
			ch <- ans{"", err}
			return
		}
		var out strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if strings.HasPrefix(l, "$done") || strings.HasPrefix(l, "\"$done") {
				ch <- ans{out.String(), nil}
				return
			}
			out.WriteString(l)
			if err != nil {
				ch <- ans{out.String(), err}
				return
			}
		}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			p.kill()
			return Unknown, a.s
		}
		putProc(p)
		for _, l := range strings.Split(a.s, "\n") {
			switch strings.TrimSpace(l) {
			case "unsat":
				return Unsat, a.s
			case "sat":
				return Sat, a.s
			case "unknown", "timeout":
				return Unknown, a.s
			}
			if strings.HasPrefix(l, "(error") && !strings.Contains(l, "model is not available") {
				if os.Getenv("GOVC_DEBUG") != "" {
					os.WriteFile("/tmp/govc_err.smt2", []byte(scr), 0o644)
				}
				fmt.Fprintln(os.Stderr, "z3 error:", l)
				return Unknown, a.s
			}
		}
		return Unknown, a.s
	case <-time.After(time.Duration(ms)*time.Millisecond*2 + 3*time.Second):
		p.kill()
		return Unknown, "killed"
	}
}

// ask2 asks with both treatments of multiplication at once.
func ask2(assume []*Term, goal *Term, ax []*Axiom, scr string, ms int) (Result, string) {
	if !strings.Contains(scr, "$mul") {
		r, _ := ask(scr, ms, "")
		return r, "z3 5.3.2"
	}
	type res struct {
		r  Result
		by string
	}
	ch := make(chan res, 2)
	nl := script(assume, goal, ax, true)
	go func() { r, _ := ask(nl, ms, ""); ch <- res{r, "z3 5.3.2 nonlinear"} }()
	go func() { r, _ := ask(scr, ms, ""); ch <- res{r, "z3 5.3.2"} }()
	a := <-ch
	if a.r != Unknown {
		return a.r, a.by
	}
	a = <-ch
	return a.r, a.by
}

// runExternal runs a solver in a new process.
func runExternal(ctx context.Context, name string, args []string, scr string) (Result, string) {
	atomic.AddInt64(&queryCount, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverNs, int64(time.Since(t0))) }()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(scr)
	b, _ := cmd.Output()
	s := string(b)
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat, s
		case "sat":
			return Sat, s
		}
	}
	return Unknown, s
}

type proofCacheEntry struct {
	r  Result
	by string
}

var (
	memoMu sync.Mutex
	memo   = map[string]proofCacheEntry{}
)

// prove decides assumptions => goal using a portfolio of solvers.
func prove(assume []*Term, goal *Term, ax []*Axiom, budget int) (Result, string) {
	if goal == tTrue {
		return Unsat, "simplifier"
	}
	scr := script(assume, goal, ax, false)
	memoMu.Lock()
	if e, ok := memo[scr]; ok {
		memoMu.Unlock()
		return e.r, e.by
	}
	memoMu.Unlock()
	first := budget / 4
	if first < 1500 {
		first = min(1500, budget)
	}
	r, by := ask2(assume, goal, ax, scr, first)
	if r == Unknown && budget > first {
		semaphore <- struct{}{}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget*scale_)*time.Millisecond)
		type res struct {
			r  Result
			by string
		}
		ch := make(chan res, 5)
		full := "(set-logic ALL)\n" + scr + "(check-sat)\n"
		run := func(by string, s string, name string, args ...string) {
			r, _ := runExternal(ctx, name, args, s)
			ch <- res{r, by}
		}
		n := 4
		go run("z3 5.3.2", scr+"(check-sat)\n", "z3-new", "-in", "-smt2", "-memory:3000")
		go run("z3 5.3.2 seed 7", scr+"(check-sat)\n", "z3-new", "-in", "-smt2", "-memory:3000", "smt.random_seed=7", "smt.arith.solver=2")
		go run("cvc5 1.1.2", full, "cvc5", "--lang=smt2", "-q")
		go run("z3 4.8.12", scr+"(check-sat)\n", "z3", "-in", "-smt2", "-memory:3000")
		if strings.Contains(scr, "$mul") {
			n++
			go run("z3 5.3.2 nonlinear", script(assume, goal, ax, true)+"(check-sat)\n", "z3-new", "-in", "-smt2", "-memory:3000")
		}
		for i := 0; i < n; i++ {
			x := <-ch
			if x.r != Unknown {
				r, by = x.r, x.by
				break
			}
		}
		cancel()
		<-semaphore
	}
	if r != Unknown || budget >= 5000 {
		memoMu.Lock()
		memo[scr] = proofCacheEntry{r, by}
		memoMu.Unlock()
	}
	return r, by
}
