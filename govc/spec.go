package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Clause is one formula of a contract.
type Clause struct {
	Label string
	Tags  []string
	Expr  ast.Expr
	Src   string
	File  string
	Line  int
	Depth int // only for loops at this depth, if not 0
	// Assumed postconditions are not proved.
	Assumed bool
}

type Contract struct {
	Key        string
	Short      string
	Pkg        *types.Package
	PkgPath    string
	Params     []string
	Results    []string
	ParamTypes []types.Type
	Props      []string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []ast.Expr
	Invs       []Clause
	Holes      []Clause // restrict what holes of invariants may stand for
	Variants   []Clause
	Wraps      [][2]string
	Pure       bool
	Trusted    bool // assumed, never verified
	Inline     bool // verified, but executed in place at calls
	Lemma      bool // verification-only client code
	Iface      bool
	Callback   bool
	Fn         *ssa.Function
	Err        error
	File       string
	Line       int
	Split      []Clause
	Terminates bool
	Gone       bool // the function no longer exists
}

type Def struct {
	Name   string
	Params []string
	Body   ast.Expr
	Pkg    string
}

type GhostDecl struct {
	Name string
	L    leaf
	N    int // number of index arguments (1 or 2)
}

type FnDecl struct {
	Name string
	Rng  string
	IsB  bool
	Ret  string
}

type Spec struct {
	contracts map[string]*Contract
	order     []*Contract
	defs      map[string]*Def
	ghosts    map[string]*GhostDecl
	fns       map[string]*FnDecl
	axioms    []axiomSrc
}

type axiomSrc struct {
	name string
	trig []string
	vars []string   // explicitly quantified
	pats []ast.Expr // when to instantiate
	by   string     // the lemma that proves it
	expr ast.Expr
	pkg  string
}

var reLabel = regexp.MustCompile(`^([A-Za-z_][\w.-]*):\s`)
var reTags = regexp.MustCompile(`^\[([\w, ]+)\]\s*`)

func parseSpecFile(path string, sp *Spec) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	lines := strings.Split(string(b), "\n")
	pkg := ""
	var cur *Contract
	kw := map[string]bool{"package": true, "func": true, "iface": true, "callback": true, "def": true, "ghost": true, "fn": true, "axiom": true, "props": true, "requires": true, "ensures": true, "assumes": true, "modifies": true, "inv": true, "hole": true, "variant": true, "wraps": true, "pure": true, "trusted": true, "inline": true, "lemma": true, "extern": true, "terminates": true}
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for n, l := range lines {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		if kw[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected text", path, n+1)
		}
	}
	for _, it := range items {
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s:%d: %s", filepath.Base(path), it.line, fmt.Sprintf(f, a...))
		}
		clause := func() (Clause, error) {
			s := it.text
			cl := Clause{Src: s, File: filepath.Base(path), Line: it.line}
			if m := reTags.FindStringSubmatch(s); m != nil {
				cl.Tags = strings.FieldsFunc(m[1], func(r rune) bool { return r == ',' || r == ' ' })
				s = s[len(m[0]):]
			}
			if m := reLabel.FindStringSubmatch(s); m != nil {
				cl.Label = m[1]
				s = s[len(m[0]):]
			}
			e, err := parseExpr(s)
			if err != nil {
				return cl, fail("%v in %q", err, s)
			}
			cl.Expr = e
			if cl.Label == "" {
				cl.Label = strings.Join(strings.Fields(s), " ")
				if len(cl.Label) > 90 {
					cl.Label = cl.Label[:90] + "..."
				}
			}
			return cl, nil
		}
		if cur == nil && strings.Contains(" props requires ensures modifies inv variant wraps pure trusted inline lemma terminates ", " "+it.kw+" ") {
			return fail("%s outside of a contract", it.kw)
		}
		switch it.kw {
		case "package":
			pkg = it.text
			cur = nil
		case "func", "iface", "callback", "extern":
			c, err := parseHeader(it.kw, it.text, pkg)
			if err != nil {
				return fail("%v", err)
			}
			c.File, c.Line = filepath.Base(path), it.line
			if sp.contracts[c.Key] != nil {
				return fail("duplicate contract for %s", c.Key)
			}
			sp.contracts[c.Key] = c
			sp.order = append(sp.order, c)
			cur = c
		case "def":
			i := strings.Index(it.text, "=")
			h := strings.TrimSpace(it.text[:i])
			for strings.HasPrefix(it.text[i:], "==") {
				return fail("bad definition")
			}
			p := strings.Index(h, "(")
			e, err := parseExpr(it.text[i+1:])
			if err != nil {
				return fail("%v", err)
			}
			if sp.defs[h[:p]] != nil {
				return fail("%s is already defined", h[:p])
			}
			sp.defs[h[:p]] = &Def{h[:p], names(h[p+1 : len(h)-1]), e, pkg}
			cur = nil
		case "ghost":
			p := strings.Index(it.text, "(")
			q := strings.Index(it.text, ")")
			g := &GhostDecl{Name: it.text[:p], N: len(names(it.text[p+1 : q]))}
			switch r := strings.TrimSpace(it.text[q+1:]); r {
			case "bool":
				g.L = leaf{"", true, ""}
			case "int":
				g.L = leaf{"", false, ""}
			default:
				g.L = leaf{"", false, r}
			}
			sp.ghosts[g.Name] = g
			cur = nil
		case "fn":
			p := strings.Index(it.text, "(")
			q := strings.Index(it.text, ")")
			r := strings.TrimSpace(it.text[q+1:])
			d := &FnDecl{Name: it.text[:p], Ret: r}
			switch r {
			case "bool":
				d.IsB = true
			case "int":
			default:
				d.Rng = ":" + r
			}
			sp.fns[d.Name] = d
			cur = nil
		case "axiom":
			// axiom name [trigger symbols] {variables; patterns} by lemma: expr
			m := regexp.MustCompile(`^([\w.-]+)\s*(?:\[([^\]]*)\])?\s*(?:\{([^;}]*);([^}]*)\})?\s*(?:by (\w+))?:\s`).FindStringSubmatch(it.text)
			if m == nil {
				return fail("bad axiom")
			}
			var pats []ast.Expr
			if m[4] != "" {
				e, err := parseExpr("f(" + m[4] + ")")
				if err != nil {
					return fail("%v", err)
				}
				pats = e.(*ast.CallExpr).Args
			}
			e, err := parseExpr(it.text[len(m[0]):])
			if err != nil {
				return fail("%v", err)
			}
			sp.axioms = append(sp.axioms, axiomSrc{m[1], strings.Fields(strings.ReplaceAll(m[2], ",", " ")), names(m[3]), pats, m[5], e, pkg})
			cur = nil
		case "props":
			cur.Props = append(cur.Props, strings.Fields(it.text)...)
		case "requires":
			cl, err := clause()
			if err != nil {
				return err
			}
			cur.Requires = append(cur.Requires, cl)
		case "ensures", "assumes":
			cl, err := clause()
			if err != nil {
				return err
			}
			cl.Assumed = it.kw == "assumes"
			cur.Ensures = append(cur.Ensures, cl)
		case "inv", "hole":
			depth := 0
			if strings.HasPrefix(it.text, "@") {
				depth = int(it.text[1] - '0')
				it.text = strings.TrimSpace(it.text[2:])
			}
			cl, err := clause()
			if err != nil {
				return err
			}
			if it.kw == "hole" {
				cur.Holes = append(cur.Holes, cl)
				break
			}
			cl.Depth = depth
			cur.Invs = append(cur.Invs, cl)
		case "variant":
			cl, err := clause()
			if err != nil {
				return err
			}
			cur.Variants = append(cur.Variants, cl)
		case "modifies":
			e, err := parseExpr("f(" + it.text + ")")
			if err != nil {
				return fail("%v", err)
			}
			cur.Modifies = append(cur.Modifies, e.(*ast.CallExpr).Args...)
		case "wraps":
			f := strings.Fields(it.text)
			cur.Wraps = append(cur.Wraps, [2]string{f[0], f[1]})
		case "pure":
			cur.Pure = true
		case "trusted":
			cur.Trusted = true
		case "inline":
			cur.Inline = true
		case "lemma":
			cur.Lemma = true
		case "terminates":
			cur.Terminates = true
		}
	}
	return nil
}

func parseExpr(s string) (ast.Expr, error) {
	// $x are holes for loop variables
	s = strings.ReplaceAll(s, "$", "HOLE_")
	return parser.ParseExpr(s)
}

func names(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// parseHeader parses "(r *T) Name(a, b) (x, y)", "Name(a)", "(io.Seeker).Seek(s, a) (n)" and
// "T.field(self, a) (x)".
func parseHeader(kw, s, pkg string) (*Contract, error) {
	c := &Contract{PkgPath: pkg}
	rest := s
	switch kw {
	case "iface", "extern":
		// full name up to the last "(" group of parameters
		m := regexp.MustCompile(`^(.*?[\w\]$])\(([\w, ]*)\)\s*(?:\(([\w, ]*)\))?$`).FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("bad header %q", s)
		}
		c.Key = m[1]
		if kw == "iface" {
			c.Key = "iface " + m[1]
			c.Iface = true
		}
		c.Trusted = true
		c.Short = m[1]
		c.Params, c.Results = names(m[2]), names(m[3])
		return c, nil
	case "callback":
		m := regexp.MustCompile(`^([\w.]+|param [\w.]+)\(([\w, ]*)\)\s*(?:\(([\w, ]*)\))?$`).FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("bad header %q", s)
		}
		c.Key = "callback " + m[1]
		c.Callback = true
		c.Trusted = true
		c.Short = m[1]
		c.Params, c.Results = names(m[2]), names(m[3])
		return c, nil
	}
	recv := ""
	if strings.HasPrefix(rest, "(") {
		i := strings.Index(rest, ")")
		f := strings.Fields(rest[1:i])
		if len(f) != 2 {
			return nil, fmt.Errorf("bad receiver in %q", s)
		}
		c.Params = append(c.Params, f[0])
		recv = f[1]
		rest = strings.TrimSpace(rest[i+1:])
	}
	m := regexp.MustCompile(`^([\w$]+)\(([\w, ]*)\)\s*(?:\(([\w, ]*)\))?$`).FindStringSubmatch(rest)
	if m == nil {
		return nil, fmt.Errorf("bad header %q", s)
	}
	c.Params = append(c.Params, names(m[2])...)
	c.Results = names(m[3])
	if recv != "" {
		ptr := ""
		if recv[0] == '*' {
			ptr, recv = "*", recv[1:]
		}
		c.Key = "(" + ptr + pkg + "." + recv + ")." + m[1]
		c.Short = recv + "." + m[1]
	} else {
		c.Key = pkg + "." + m[1]
		c.Short = pkg[strings.LastIndexByte(pkg, '/')+1:] + "." + m[1]
	}
	return c, nil
}

// ---------------------------------------------------------------- evaluation

type tv struct {
	v Val
	t types.Type
}

type env struct {
	c       *Ctx
	cur     *State
	old     *State
	entry   *State // loop entry
	entryV  map[string]tv
	vars    map[string]tv
	con     *Contract
	pkgPath string
	freshLo int64
	freshHi int64
	caller  bool
	depth   int
}

var tInt types.Type = types.Typ[types.UntypedInt]
var tBool types.Type = types.Typ[types.UntypedBool]

func (e *env) with(vars map[string]tv) *env {
	n := *e
	n.vars = vars
	return &n
}

func (e *env) bind(name string, v tv) *env {
	m := make(map[string]tv, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[name] = v
	return e.with(m)
}

func (e *env) boolean(x ast.Expr) *Term {
	r := e.eval(x)
	t, ok := r.v.(*Term)
	if !ok || !t.bool_ {
		panic(engErr("not a boolean: %s", exprStr(x)))
	}
	return t
}

func (e *env) integer(x ast.Expr) *Term {
	r := e.eval(x)
	t, ok := r.v.(*Term)
	if !ok || t.bool_ {
		panic(engErr("not an integer: %s", exprStr(x)))
	}
	return t
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (e *env) pkg() *types.Package {
	p := e.pkgPath
	if p == "" && e.con != nil {
		p = e.con.PkgPath
	}
	return e.c.prog.typePkg(p)
}

func (e *env) object(pkg *types.Package, name string) (tv, bool) {
	if pkg == nil {
		return tv{}, false
	}
	o := pkg.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return e.constTV(o.Val(), o.Type()), true
	case *types.Var:
		p := PtrV{tZero, tZero, "glob:" + pkg.Path() + "." + name, o.Type()}
		return tv{e.c.loadGlobal(e.cur, p), o.Type()}, true
	case *types.TypeName:
		return tv{o, o.Type()}, true
	}
	return tv{}, false
}

func (e *env) constTV(v constant.Value, t types.Type) tv {
	switch v.Kind() {
	case constant.Bool:
		return tv{boolT(constant.BoolVal(v)), t}
	case constant.String:
		return tv{strConst(constant.StringVal(v)), t}
	default:
		n, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			panic(engErr("constant %s", v))
		}
		return tv{numB(n), t}
	}
}

func (e *env) eval(x ast.Expr) tv {
	e.depth++
	if e.depth > 2000 {
		panic(engErr("specification recursion too deep"))
	}
	defer func() { e.depth-- }()
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			if !ok {
				panic(engErr("bad number %s", x.Value))
			}
			return tv{numB(v), tInt}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return tv{strConst(s), types.Typ[types.String]}
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return tv{num(int64(s)), tInt}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return tv{tTrue, tBool}
		case "false":
			return tv{tFalse, tBool}
		case "nil":
			return tv{tZero, types.Typ[types.UntypedNil]}
		}
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		if v, ok := e.object(e.pkg(), x.Name); ok {
			return v
		}
		if t := types.Universe.Lookup(x.Name); t != nil {
			if tn, ok := t.(*types.TypeName); ok {
				return tv{tn, tn.Type()}
			}
		}
		panic(engErr("unknown name %s", x.Name))
	case *ast.StarExpr:
		p := e.eval(x.X)
		pp := p.v.(PtrV)
		return tv{e.c.loadVal(e.cur, pp), pp.elem}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, bound := e.vars[id.Name]; !bound {
				if p := e.c.prog.pkgByName(e.pkg(), id.Name); p != nil {
					if v, ok := e.object(p, x.Sel.Name); ok {
						return v
					}
					panic(engErr("no %s in package %s", x.Sel.Name, id.Name))
				}
			}
		}
		if p, ok := e.loc(x); ok {
			if strings.HasPrefix(p.key, "glob:") {
				return tv{e.c.loadGlobal(e.cur, p), p.elem}
			}
			return tv{e.c.loadVal(e.cur, p), p.elem}
		}
		b := e.eval(x.X)
		if sv, ok := b.v.(*StructV); ok {
			return e.fieldOf(sv, x.Sel.Name)
		}
		panic(engErr("cannot select %s", exprStr(x)))
	case *ast.IndexExpr:
		b := e.eval(x.X)
		if m, ok := under(typeOr(b.t)).(*types.Map); ok {
			k := e.eval(x.Index)
			return tv{e.c.mapLookup(e.cur, b.t, b.v.(*Term), k.v, false), m.Elem()}
		}
		i := e.integer(x.Index)
		switch s := b.v.(type) {
		case SliceV:
			return tv{e.c.loadVal(e.cur, e.c.elemPtr(s, i)), s.elem}
		case ArrV:
			return tv{s.at(i), s.elem}
		case *Term:
			return tv{sat(s, i), types.Typ[types.Uint8]}
		}
		panic(engErr("cannot index %s", exprStr(x)))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return tv{not(e.boolean(x.X)), tBool}
		case token.SUB:
			return tv{neg(e.integer(x.X)), tInt}
		}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.CallExpr:
		return e.callExpr(x)
	}
	panic(engErr("unsupported specification expression %s", exprStr(x)))
}

func typeOr(t types.Type) types.Type {
	if t == nil {
		return tInt
	}
	return t
}

// loc evaluates an addressable expression to its location.
func (e *env) loc(x ast.Expr) (PtrV, bool) {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.loc(x.X)
	case *ast.StarExpr:
		p, ok := e.eval(x.X).v.(PtrV)
		return p, ok
	case *ast.SelectorExpr:
		var base PtrV
		if id, ok := x.X.(*ast.Ident); ok {
			if _, bound := e.vars[id.Name]; !bound {
				if e.c.prog.pkgByName(e.pkg(), id.Name) != nil {
					return base, false
				}
			}
		}
		if p, ok := e.loc(x.X); ok {
			if _, isP := under(p.elem).(*types.Pointer); isP {
				base = e.c.loadVal(e.cur, p).(PtrV)
			} else {
				base = p
			}
		} else if p, ok := e.eval(x.X).v.(PtrV); ok {
			base = p
		} else {
			return base, false
		}
		return e.fieldLoc(base, x.Sel.Name)
	case *ast.IndexExpr:
		if p, ok := e.loc(x.X); ok {
			if a, isA := under(p.elem).(*types.Array); isA {
				key, b := arrLoc(p)
				_, n := arrayCount(a.Elem())
				return PtrV{p.ref, add(b, scale(e.integer(x.Index), big.NewInt(n))), key, a.Elem()}, true
			}
		}
		b := e.eval(x.X)
		if s, ok := b.v.(SliceV); ok {
			return e.c.elemPtr(s, e.integer(x.Index)), true
		}
	case *ast.Ident:
		if v, ok := e.vars[x.Name]; ok {
			if l, ok := v.v.(locV); ok {
				return l.p, true
			}
		}
	}
	return PtrV{}, false
}

type locV struct{ p PtrV }

func (e *env) fieldLoc(p PtrV, name string) (PtrV, bool) {
	s, ok := under(p.elem).(*types.Struct)
	if !ok {
		return p, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return PtrV{p.ref, p.idx, p.key + "." + name, s.Field(i).Type()}, true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Embedded() {
			continue
		}
		q := PtrV{p.ref, p.idx, p.key + "." + s.Field(i).Name(), s.Field(i).Type()}
		if _, isP := under(q.elem).(*types.Pointer); isP {
			q = e.c.loadVal(e.cur, q).(PtrV)
		}
		if r, ok := e.fieldLoc(q, name); ok {
			return r, true
		}
	}
	return p, false
}

func (e *env) fieldOf(sv *StructV, name string) tv {
	s := under(sv.typ).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return tv{sv.f[i], s.Field(i).Type()}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			switch in := sv.f[i].(type) {
			case *StructV:
				if hasField(in.typ, name) {
					return e.fieldOf(in, name)
				}
			case PtrV:
				if l, ok := e.fieldLoc(in, name); ok {
					return tv{e.c.loadVal(e.cur, l), l.elem}
				}
			}
		}
	}
	panic(engErr("no field %s", name))
}

func hasField(t types.Type, name string) bool {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name || s.Field(i).Embedded() && hasField(s.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *env) binary(x *ast.BinaryExpr) tv {
	switch x.Op {
	case token.LAND:
		a := e.boolean(x.X)
		if a == tFalse {
			return tv{tFalse, tBool}
		}
		return tv{and(a, e.boolean(x.Y)), tBool}
	case token.LOR:
		a := e.boolean(x.X)
		if a == tTrue {
			return tv{tTrue, tBool}
		}
		return tv{or(a, e.boolean(x.Y)), tBool}
	}
	a, b := e.eval(x.X), e.eval(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		if a.t != nil && b.t != nil && isStringType(a.t) != isStringType(b.t) && (typed(a.t) && typed(b.t)) {
			panic(engErr("a string is compared with something else in %s", exprStr(x)))
		}
		r := e.equalTV(a, b)
		if x.Op == token.NEQ {
			r = not(r)
		}
		return tv{r, tBool}
	}
	p, ok1 := a.v.(*Term)
	q, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		panic(engErr("bad operands in %s", exprStr(x)))
	}
	if a.t != nil && isStringType(a.t) && x.Op == token.ADD {
		return tv{e.c.concat(e.cur, p, q), a.t}
	}
	switch x.Op {
	case token.LSS:
		return tv{lt(p, q), tBool}
	case token.LEQ:
		return tv{le(p, q), tBool}
	case token.GTR:
		return tv{gt(p, q), tBool}
	case token.GEQ:
		return tv{ge(p, q), tBool}
	case token.ADD:
		return tv{add(p, q), tInt}
	case token.SUB:
		return tv{sub(p, q), tInt}
	case token.MUL:
		return tv{mul(p, q), tInt}
	case token.QUO:
		return tv{bdivT(p, q), tInt}
	case token.REM:
		if q.isConst() && q.val.Sign() > 0 {
			return tv{modC(p, q.val), tInt}
		}
		return tv{sub(p, mul(bdivT(p, q), q)), tInt}
	case token.AND:
		if q.isConst() {
			return tv{bitAndConst(p, q.val), tInt}
		}
		return tv{e.c.bitAnd(e.cur, p, q), tInt}
	case token.OR:
		if q.isConst() {
			return tv{sub(add(p, q), bitAndConst(p, q.val)), tInt}
		}
		return tv{e.c.bitOr(e.cur, p, q), tInt}
	case token.SHL:
		if k, ok := q.constInt(); ok {
			return tv{scale(p, pow2(uint(k))), tInt}
		}
	case token.SHR:
		if k, ok := q.constInt(); ok {
			return tv{divC(p, pow2(uint(k))), tInt}
		}
	}
	panic(engErr("unsupported operator in %s", exprStr(x)))
}

func typed(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return !ok || b.Info()&(types.IsUntyped|types.IsString) == types.IsString || b.Info()&types.IsUntyped == 0
}

func (e *env) equalTV(a, b tv) *Term {
	if bt, ok := b.v.(*Term); ok && bt == tZero {
		switch x := a.v.(type) {
		case SliceV:
			return eq(x.obj, tZero)
		case PtrV:
			return eq(x.ref, tZero)
		}
	}
	t := a.t
	if t == nil {
		t = tInt
	}
	if x, ok := a.v.(*Term); ok {
		if y, ok := b.v.(*Term); ok {
			if x.bool_ != y.bool_ {
				panic(engErr("comparison of a boolean with a number"))
			}
			if isStringType(t) && !x.bound && !y.bound {
				return e.c.equal(e.cur, x, y, t)
			}
			return eq(x, y)
		}
	}
	if _, ok := a.v.(SliceV); ok {
		x, y := a.v.(SliceV), b.v.(SliceV)
		return and(eq(x.obj, y.obj), eq(x.off, y.off), eq(x.len, y.len))
	}
	if x, ok := a.v.(*Term); ok {
		return eq(x, e.c.toLeaf(b.v))
	}
	if y, ok := b.v.(*Term); ok {
		return eq(e.c.toLeaf(a.v), y)
	}
	return e.c.equal(e.cur, a.v, b.v, t)
}

func (e *env) id(x ast.Expr) *Term {
	v := e.eval(x).v
	switch y := v.(type) {
	case SliceV:
		return y.obj
	case *Term:
		return y
	case PtrV:
		return y.ref
	}
	return e.c.toLeaf(v)
}

func (e *env) callExpr(x *ast.CallExpr) tv {
	name := ""
	if id, ok := x.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	n := func(k int) {
		if len(x.Args) != k {
			panic(engErr("%s needs %d arguments", name, k))
		}
	}
	switch name {
	case "imp":
		n(2)
		a := e.boolean(x.Args[0])
		if a == tFalse {
			return tv{tTrue, tBool}
		}
		return tv{implies(a, e.boolean(x.Args[1])), tBool}
	case "iff":
		n(2)
		return tv{iff(e.boolean(x.Args[0]), e.boolean(x.Args[1])), tBool}
	case "ite":
		n(3)
		c := e.boolean(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		return tv{ite(c, e.c.toLeaf(a.v), e.c.toLeaf(b.v)), a.t}
	case "forall", "exists":
		v := x.Args[0].(*ast.Ident).Name
		bv := freshBound(v)
		var rng *Term = tTrue
		body := x.Args[len(x.Args)-1]
		if len(x.Args) == 4 {
			lo, hi := e.integer(x.Args[1]), e.integer(x.Args[2])
			if d := sub(hi, lo); d.isConst() && d.val.Cmp(big.NewInt(4)) <= 0 {
				// a handful of cases
				var cs []*Term
				for i := int64(0); i < d.val.Int64(); i++ {
					cs = append(cs, e.bind(v, tv{addK(lo, i), tInt}).boolean(body))
				}
				if name == "forall" {
					return tv{and(cs...), tBool}
				}
				return tv{or(cs...), tBool}
			}
			rng = inRange(bv, lo, hi)
		} else {
			n(2)
		}
		b := e.bind(v, tv{bv, tInt}).boolean(body)
		if name == "forall" {
			return tv{forall([]*Term{bv}, implies(rng, b)), tBool}
		}
		return tv{exists([]*Term{bv}, and(rng, b)), tBool}
	case "let":
		n(3)
		return e.bind(x.Args[0].(*ast.Ident).Name, e.eval(x.Args[1])).eval(x.Args[2])
	case "old":
		n(1)
		o := *e
		o.cur = shadow(e.old, e.cur)
		return o.eval(x.Args[0])
	case "entry":
		n(1)
		if e.entry == nil {
			panic(engErr("entry() outside of a loop"))
		}
		o := *e
		o.cur = shadow(e.entry, e.cur)
		if e.entryV != nil {
			o.vars = map[string]tv{}
			for k, v := range e.vars {
				o.vars[k] = v
			}
			for k, v := range e.entryV {
				if t, ok := o.vars[k].v.(*Term); !ok || !t.bound {
					o.vars[k] = v
				}
			}
		}
		return o.eval(x.Args[0])
	case "is":
		n(2)
		return tv{e.c.isErr(e.id(x.Args[0]), e.id(x.Args[1])), tBool}
	case "box": // the value as an interface
		n(1)
		v := e.eval(x.Args[0])
		return tv{e.c.makeIface(nil, v.t, v.v), types.Universe.Lookup("error").Type()}
	case "errtext":
		n(1)
		return tv{e.c.errText(e.id(x.Args[0])), types.Typ[types.String]}
	case "concat":
		r := e.id(x.Args[0])
		for _, a := range x.Args[1:] {
			r = e.c.concat(e.cur, r, e.id(a))
		}
		return tv{r, types.Typ[types.String]}
	case "substr":
		n(3)
		return tv{e.c.substr(e.cur, e.id(x.Args[0]), e.integer(x.Args[1]), e.integer(x.Args[2])), types.Typ[types.String]}
	case "fresh":
		n(1)
		r := e.id(x.Args[0])
		if e.caller {
			return tv{and(le(num(e.freshLo), r), le(r, num(e.freshHi))), tBool}
		}
		return tv{lt(r, tZero), tBool}
	case "isnew": // allocated since the function's entry, wherever that is
		n(1)
		return tv{lt(e.id(x.Args[0]), tZero), tBool}
	case "len":
		n(1)
		switch s := e.eval(x.Args[0]).v.(type) {
		case SliceV:
			return tv{s.len, tInt}
		case ArrV:
			return tv{num(s.n), tInt}
		case *Term:
			return tv{slen(s), tInt}
		}
	case "cap":
		return tv{e.eval(x.Args[0]).v.(SliceV).cap, tInt}
	case "off":
		return tv{e.eval(x.Args[0]).v.(SliceV).off, tInt}
	case "obj":
		return tv{e.id(x.Args[0]), tInt}
	case "bit":
		n(2)
		s := e.eval(x.Args[0]).v.(SliceV)
		i := e.integer(x.Args[1])
		return tv{e.c.rd(e.cur, "bits:elem", bitsLeaf, s.obj, add(scale(s.off, big.NewInt(8)), i)), tBool}
	case "bdiv":
		n(2)
		a, b := e.integer(x.Args[0]), e.integer(x.Args[1])
		r := bdivT(a, b)
		return tv{r, tInt}
	case "sub": // sub(s, lo, hi) is s[lo:hi]
		s := e.eval(x.Args[0])
		sl := s.v.(SliceV)
		lo, hi := e.integer(x.Args[1]), e.integer(x.Args[2])
		return tv{SliceV{sl.obj, add(sl.off, lo), sub(hi, lo), sub(sl.cap, lo), sl.key, sl.elem}, s.t}
	case "typeis":
		n(2)
		id := e.id(x.Args[0])
		t := e.typeArg(x.Args[1])
		r := e.c.typeAssert(e.cur, id, t, true, "").(TupleV)
		return tv{r[1], tBool}
	case "as": // as(x, T): the value of type T inside an interface
		n(2)
		id := e.id(x.Args[0])
		t := e.typeArg(x.Args[1])
		r := e.c.typeAssert(e.cur, id, t, true, "").(TupleV)
		return tv{r[0], t}
	case "has":
		n(2)
		m := e.eval(x.Args[0])
		k := e.eval(x.Args[1])
		r := e.c.mapLookup(e.cur, m.t, m.v.(*Term), k.v, true).(TupleV)
		return tv{r[1], tBool}
	case "min":
		n(2)
		a, b := e.integer(x.Args[0]), e.integer(x.Args[1])
		return tv{ite(le(a, b), a, b), tInt}
	case "max":
		n(2)
		a, b := e.integer(x.Args[0]), e.integer(x.Args[1])
		return tv{ite(le(a, b), b, a), tInt}
	case "distinct":
		var ids []*Term
		for _, a := range x.Args {
			ids = append(ids, e.id(a))
		}
		r := tTrue
		for i := range ids {
			for j := i + 1; j < len(ids); j++ {
				r = and(r, ne(ids[i], ids[j]))
			}
		}
		return tv{r, tBool}
	case "unchanged": // unchanged(x...): same value in the old and the current state
		r := tTrue
		for _, a := range x.Args {
			o := *e
			o.cur = shadow(e.old, e.cur)
			r = and(r, e.equalTV(e.eval(a), o.eval(a)))
		}
		return tv{r, tBool}
	case "string":
		v := e.eval(x.Args[0])
		if s, ok := v.v.(SliceV); ok {
			return tv{e.c.stringOf(e.cur, s), types.Typ[types.String]}
		}
		return tv{v.v, types.Typ[types.String]}
	}
	if g := e.c.prog.spec.ghosts[name]; g != nil {
		n(g.N)
		ref := e.id(x.Args[0])
		idx := tZero
		if g.N == 2 {
			idx = e.id(x.Args[1])
		}
		return tv{e.c.rd(e.cur, "ghost:"+name, g.L, ref, idx), ghostType(g.L)}
	}
	if d := e.c.prog.spec.defs[name]; d != nil {
		n(len(d.Params))
		vars := map[string]tv{}
		for i, p := range d.Params {
			vars[p] = e.eval(x.Args[i])
		}
		o := *e
		o.vars = vars
		o.pkgPath = d.Pkg
		return o.eval(d.Body)
	}
	if f := e.c.prog.spec.fns[name]; f != nil {
		var as []*Term
		for _, a := range x.Args {
			as = append(as, e.id(a))
		}
		t := tInt
		if f.IsB {
			t = tBool
		}
		if f.Ret == "str" {
			t = types.Typ[types.String]
		}
		rng := f.Rng
		if f.Ret == "str" {
			rng = ""
		}
		return tv{app("F:"+name+rng, f.IsB, as...), t}
	}
	// pure functions of the program, or conversions
	fun := e.tryName(x.Fun)
	if tn, ok := fun.v.(*types.TypeName); ok {
		v := e.eval(x.Args[0])
		return tv{v.v, tn.Type()}
	}
	if key, sig := e.c.prog.funcByExpr(e.pkg(), x.Fun); key != "" {
		con := e.c.prog.contracts[key]
		if con == nil || !con.Pure {
			panic(engErr("%s is not a pure function", exprStr(x.Fun)))
		}
		var as []Val
		var ts []types.Type
		var flatArgs []*Term
		for i, a := range x.Args {
			v := e.eval(a)
			as = append(as, v.v)
			t := v.t
			if i < sig.Params().Len() {
				t = sig.Params().At(i).Type()
			}
			if sig.Variadic() && i >= sig.Params().Len()-1 {
				t = sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
			}
			ts = append(ts, t)
			flatArgs = append(flatArgs, e.c.flatten(v.v, t)...)
		}
		rt := sig.Results().At(0).Type()
		return tv{e.c.pureResult(e.cur, con, as, ts, rt, 0), rt}
	}
	// pure methods
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		b := e.eval(sel.X)
		if b.t != nil {
			o, _, _ := types.LookupFieldOrMethod(b.t, true, e.pkg(), sel.Sel.Name)
			if f, ok := o.(*types.Func); ok {
				key := f.FullName()
				if types.IsInterface(b.t) {
					key = "iface " + key
				}
				sig := f.Type().(*types.Signature)
				if con := e.c.prog.contracts[key]; con != nil && con.Pure && sig.Results().Len() > 0 {
					as, ts := []Val{b.v}, []types.Type{b.t}
					for i, a := range x.Args {
						as = append(as, e.eval(a).v)
						ts = append(ts, sig.Params().At(i).Type())
					}
					rt := sig.Results().At(0).Type()
					return tv{e.c.pureResult(e.cur, con, as, ts, rt, 0), rt}
				}
			}
		}
	}
	panic(engErr("unknown function %s", exprStr(x.Fun)))
}

func ghostType(l leaf) types.Type {
	if l.isB {
		return tBool
	}
	if l.rng == "str" {
		return types.Typ[types.String]
	}
	return tInt
}

func (e *env) tryName(x ast.Expr) (r tv) {
	defer func() {
		if recover() != nil {
			r = tv{}
		}
	}()
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr:
		return e.eval(x)
	}
	return tv{}
}

func (e *env) typeArg(x ast.Expr) types.Type {
	s := exprStr(x)
	if l, ok := x.(*ast.BasicLit); ok {
		s, _ = strconv.Unquote(l.Value)
	}
	t := e.c.prog.typeByString(e.pkg(), s)
	if t == nil {
		panic(engErr("unknown type %s", s))
	}
	return t
}

// targets evaluates a modifies item.
func (e *env) targets(x ast.Expr) []modTarget {
	if call, ok := x.(*ast.CallExpr); ok {
		name := exprStr(call.Fun)
		switch name {
		case "elems", "object":
			s := e.eval(call.Args[0]).v.(SliceV)
			et, k := arrayCount(s.elem)
			kk := big.NewInt(k)
			var out []modTarget
			for _, l := range leaves(et) {
				t := modTarget{key: s.key + l.suf, l: l, ref: s.obj}
				if name == "elems" {
					t.lo, t.hi = scale(s.off, kk), scale(add(s.off, s.len), kk)
				}
				out = append(out, t)
			}
			return out
		case "spare": // the whole capacity after the slice's length
			s := e.eval(call.Args[0]).v.(SliceV)
			var out []modTarget
			for _, l := range leaves(s.elem) {
				out = append(out, modTarget{key: s.key + l.suf, l: l, ref: s.obj, lo: add(s.off, s.len), hi: add(s.off, s.cap)})
			}
			return out
		case "all": // all fields of the object a pointer refers to
			p := e.eval(call.Args[0]).v.(PtrV)
			return e.locTargets(p)
		case "bits":
			s := e.eval(call.Args[0]).v.(SliceV)
			return []modTarget{{key: "elem:uint8", l: leaf{"", false, "u8"}, ref: s.obj}}
		case "mapof":
			m := e.eval(call.Args[0])
			mk := "map:" + typeStr(m.t)
			out := []modTarget{{key: mk + "#has", l: bitsLeaf, ref: m.v.(*Term)}}
			for _, l := range leaves(under(m.t).(*types.Map).Elem()) {
				out = append(out, modTarget{key: mk + "#val" + l.suf, l: l, ref: m.v.(*Term)})
			}
			return out
		case "unboxed": // the object inside an interface, elements of any type T
			t := e.typeArg(call.Args[1])
			id := e.id(call.Args[0])
			r := e.c.typeAssert(e.cur, id, t, true, "").(TupleV)
			return e.locTargets(r[0].(PtrV))
		}
		if g := e.c.prog.spec.ghosts[name]; g != nil {
			key := "ghost:" + name
			e.c.node(e.cur, key, g.L)
			if id, ok := call.Args[0].(*ast.Ident); ok && id.Name == "_" {
				return []modTarget{{key: key, l: g.L, all: true}}
			}
			return []modTarget{{key: key, l: g.L, ref: e.id(call.Args[0])}}
		}
		panic(engErr("unknown modifies item %s", exprStr(x)))
	}
	p, ok := e.loc(x)
	if !ok {
		panic(engErr("cannot modify %s", exprStr(x)))
	}
	return e.locTargets(p)
}

func (e *env) locTargets(p PtrV) []modTarget {
	t := p.elem
	var out []modTarget
	switch u := under(t).(type) {
	case *types.Struct:
		if !isOpaqueStruct(t) {
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, e.locTargets(PtrV{p.ref, p.idx, p.key + "." + u.Field(i).Name(), u.Field(i).Type()})...)
			}
			return out
		}
	case *types.Array:
		et, n := arrayCount(t)
		key, base := arrLoc(p)
		for _, l := range leaves(et) {
			out = append(out, modTarget{key: key + l.suf, l: l, ref: p.ref, lo: base, hi: addK(base, n)})
		}
		return out
	}
	for _, l := range leaves(t) {
		mt := modTarget{key: p.key + l.suf, l: l, ref: p.ref}
		if isTwoLevel(mt.key) {
			mt.lo, mt.hi = p.idx, addK(p.idx, 1)
		}
		out = append(out, mt)
	}
	return out
}

func sortedContracts(sp *Spec) []*Contract {
	out := append([]*Contract{}, sp.order...)
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}
