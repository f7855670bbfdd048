package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dargueta/disko"

type Program struct {
	fset           *token.FileSet
	prog           *ssa.Program
	pkgs           []*packages.Package
	byPath         map[string]*packages.Package
	spec           *Spec
	contracts      map[string]*Contract
	inlineOnly     map[string]bool
	mutableGlobals map[string]bool
	globalInit     map[string]ssa.Value
	zeroGlobals    map[string]bool
	built          map[*ssa.Package]bool
	funcs          map[string]*ssa.Function
	verifDir       string
	dropped        []string
	repo           string
	sole           map[*types.Named]types.Type
	soleMu         sync.Mutex
}

// Packages whose code is executed in place (at the contract level nothing is assumed
// about them).
var inlinePkgs = map[string]bool{
	"github.com/xaionaro-go/bytesextra": true,
	"github.com/boljen/go-bitmap":       true,
	"github.com/noxer/bytewriter":       true,
	"errors":                            true,
	"io":                                true,
	"io/fs":                             true,
	"bytes":                             true,
	"encoding/binary":                   true,
	"strings":                           true,
	"path":                              true,
	"slices":                            true,
	"cmp":                               true,
	"internal/stringslite":              true,
}

func overlayFiles(dir, repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	root := filepath.Join(dir, "spec", "overlay")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		out[filepath.Join(repo, rel)] = b
		return nil
	})
	return out, err
}

func readSpecs(dir string) (*Spec, error) {
	sp := &Spec{contracts: map[string]*Contract{}, defs: map[string]*Def{}, ghosts: map[string]*GhostDecl{}, fns: map[string]*FnDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "spec", "*.vspec"))
	sort.Strings(files)
	for _, f := range files {
		if err := parseSpecFile(f, sp); err != nil {
			return nil, err
		}
	}
	for _, c := range sp.order {
		if c.Trusted {
			continue
		}
		if len(c.Props) == 0 {
			return nil, fmt.Errorf("%s: no property is served by the contract", c.Key)
		}
		for _, e := range append(append([]Clause{}, c.Ensures...), c.Requires...) {
			for _, t := range e.Tags {
				if !strings.Contains(" "+strings.Join(c.Props, " ")+" ", " "+t+" ") {
					return nil, fmt.Errorf("%s: postcondition %s is for %s, which doesn't verify the function", c.Key, e.Label, t)
				}
			}
		}
	}
	return sp, nil
}

func load(dir, repo string, patterns []string) (*Program, error) {
	sp, err := readSpecs(dir)
	if err != nil {
		return nil, err
	}
	ov, err := overlayFiles(dir, repo)
	if err != nil {
		return nil, err
	}
	var dropped []string
again:
	pr := &Program{dropped: dropped, fset: token.NewFileSet(), spec: sp, contracts: sp.contracts, inlineOnly: map[string]bool{}, byPath: map[string]*packages.Package{}, mutableGlobals: map[string]bool{}, globalInit: map[string]ssa.Value{}, zeroGlobals: map[string]bool{}, built: map[*ssa.Package]bool{}, funcs: map[string]*ssa.Function{}, verifDir: dir, repo: repo}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Fset:    pr.fset,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		pr.byPath[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		// client code of a lemma that no longer fits the code
		for _, f := range sortedKeys(ov) {
			for _, e := range errs {
				if strings.Contains(e, f) && ov[f] != nil {
					dropped = append(dropped, e)
					delete(ov, f)
				}
			}
		}
		if len(dropped) > len(pr.dropped) {
			goto again
		}
		return nil, fmt.Errorf("cannot type-check: %s", strings.Join(errs, "; "))
	}
	pr.pkgs = pkgs
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr.prog = prog
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) || inlinePkgs[p.Pkg.Path()] {
			p.Build()
			pr.built[p] = true
		}
	}
	fns := ssautil.AllFunctions(prog)
	for f := range fns {
		if f.Pkg != nil && pr.built[f.Pkg] && f.Synthetic == "" {
			pr.funcs[fnKey(f)] = f
		}
	}
	pr.globals(fns)
	for _, c := range sp.order {
		pr.resolve(c)
	}
	return pr, nil
}

func (pr *Program) inlinable(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil {
		if f.Parent() != nil {
			return pr.inlinable(f.Parent())
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath) || inlinePkgs[o.Pkg().Path()]
		}
		return f.Blocks != nil
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath) || inlinePkgs[p.Pkg.Path()]
}

func (pr *Program) buildWrapper(f *ssa.Function) {}

// globals finds the package-level variables that keep their initial values.
func (pr *Program) globals(fns map[*ssa.Function]bool) {
	name := func(v ssa.Value) (string, *ssa.Global) {
		suf := ""
		for {
			switch x := v.(type) {
			case *ssa.Global:
				return x.String() + suf, x
			case *ssa.FieldAddr:
				s := under(x.X.Type().(*types.Pointer).Elem()).(*types.Struct)
				suf = "." + s.Field(x.Field).Name() + suf
				v = x.X
			default:
				return "", nil
			}
		}
	}
	stored := map[string]bool{}
	for f := range fns {
		if f.Pkg == nil || !pr.built[f.Pkg] {
			continue
		}
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if n, g := name(s.Addr); g != nil {
						stored[n] = true
						if !isInit {
							pr.mutableGlobals[g.String()] = true
						} else if _, dup := pr.globalInit[n]; dup {
							delete(pr.globalInit, n)
							pr.mutableGlobals[g.String()] = true
						} else {
							pr.globalInit[n] = s.Val
							pr.literal(n, s.Val)
						}
						if g2, ok := s.Val.(*ssa.Global); ok {
							pr.mutableGlobals[g2.String()] = true
						}
						continue
					}
				}
				for _, o := range ins.Operands(nil) {
					if *o == nil {
						continue
					}
					n, g := name(*o)
					if g == nil {
						continue
					}
					_ = n
					switch x := ins.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
					case *ssa.IndexAddr:
						for _, r := range *x.Referrers() {
							if _, ok := r.(*ssa.UnOp); !ok {
								if st, ok := r.(*ssa.Store); !ok || !isInit || st.Addr != x {
									pr.mutableGlobals[g.String()] = true
								}
							}
						}
					default:
						pr.mutableGlobals[g.String()] = true
					}
				}
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					if _, g := name(fa); g != nil {
						for _, r := range *fa.Referrers() {
							switch y := r.(type) {
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.IndexAddr:
							case *ssa.Store:
								if y.Val == fa {
									pr.mutableGlobals[g.String()] = true
								}
							default:
								pr.mutableGlobals[g.String()] = true
							}
						}
					}
				}
			}
		}
	}
	for _, p := range pr.prog.AllPackages() {
		if !pr.built[p] {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				pr.zeroFields(g.String(), g.Type().(*types.Pointer).Elem(), stored)
			}
		}
	}
}

// literal records the fields of a composite literal made of constants.
func (pr *Program) literal(n string, v ssa.Value) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return
	}
	st, ok := under(al.Type().(*types.Pointer).Elem()).(*types.Struct)
	if !ok {
		return
	}
	vals := map[int]ssa.Value{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x != ld {
				return
			}
		case *ssa.FieldAddr:
			for _, r := range *x.Referrers() {
				s, ok := r.(*ssa.Store)
				if !ok || s.Addr != x || vals[x.Field] != nil || s.Block() != ld.Block() {
					return
				}
				if _, ok := s.Val.(*ssa.Const); !ok {
					return
				}
				vals[x.Field] = s.Val
			}
		default:
			return
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := n + "." + st.Field(i).Name()
		if vals[i] != nil {
			pr.globalInit[f] = vals[i]
		} else {
			pr.zeroFields(f, st.Field(i).Type(), map[string]bool{})
		}
	}
}

func (pr *Program) zeroFields(n string, t types.Type, stored map[string]bool) {
	if stored[n] {
		return
	}
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			pr.zeroFields(n+"."+s.Field(i).Name(), s.Field(i).Type(), stored)
		}
		return
	}
	pr.zeroGlobals[n] = true
}

func (pr *Program) typePkg(path string) *types.Package {
	if p := pr.byPath[path]; p != nil {
		return p.Types
	}
	return nil
}

func (pr *Program) pkgByName(from *types.Package, name string) *types.Package {
	if from != nil {
		for _, i := range from.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	var best *types.Package
	for _, path := range sortedKeys(pr.byPath) {
		p := pr.byPath[path]
		if p.Types == nil || p.Types.Name() != name {
			continue
		}
		if best == nil || strings.HasPrefix(path, modPath) || len(path) < len(best.Path()) && !strings.HasPrefix(best.Path(), modPath) {
			best = p.Types
		}
	}
	return best
}

// typeByName resolves "pkg.Type".
func (pr *Program) typeByName(s string) types.Type {
	return pr.typeByString(nil, s)
}

func (pr *Program) typeByString(from *types.Package, s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		if t := pr.typeByString(from, s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := pr.typeByString(from, s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		p := pr.typePkg(s[:i])
		if p == nil {
			p = pr.pkgByName(from, s[:i])
		}
		if p == nil {
			return nil
		}
		if o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	if from != nil {
		if o, ok := from.Scope().Lookup(s).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (pr *Program) funcByExpr(from *types.Package, x ast.Expr) (string, *types.Signature) {
	switch x := x.(type) {
	case *ast.Ident:
		if from != nil {
			if f, ok := from.Scope().Lookup(x.Name).(*types.Func); ok {
				return from.Path() + "." + x.Name, f.Type().(*types.Signature)
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := pr.pkgByName(from, id.Name); p != nil {
				if f, ok := p.Scope().Lookup(x.Sel.Name).(*types.Func); ok {
					return p.Path() + "." + x.Sel.Name, f.Type().(*types.Signature)
				}
			}
		}
	}
	return "", nil
}

func sigTypes(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Type())
	}
	return out
}

// resolve finds the function a contract is about.
func (pr *Program) resolve(c *Contract) {
	c.Err = nil
	bad := func(f string, a ...any) { c.Err = fmt.Errorf(f, a...) }
	switch {
	case c.Iface, c.Key[0] == '(' && c.Trusted, c.Trusted && !c.Callback:
		k := strings.TrimPrefix(c.Key, "iface ")
		if strings.HasPrefix(k, "(") {
			i := strings.LastIndex(k, ").")
			tn, m := k[1:i], k[i+2:]
			ptr := strings.HasPrefix(tn, "*")
			t := pr.typeByString(nil, strings.TrimPrefix(tn, "*"))
			if t == nil {
				bad("unknown type %s", tn)
				return
			}
			if ptr {
				t = types.NewPointer(t)
			}
			var pk *types.Package
			if n, ok := deref(t).(*types.Named); ok {
				pk = n.Obj().Pkg()
			}
			o, _, _ := types.LookupFieldOrMethod(t, true, pk, m)
			f, ok := o.(*types.Func)
			if !ok {
				bad("no method %s", k)
				return
			}
			c.ParamTypes = append([]types.Type{t}, sigTypes(f.Type().(*types.Signature))...)
			return
		}
		i := strings.LastIndexByte(k, '.')
		p := pr.typePkg(k[:i])
		if p == nil {
			bad("package %s isn't loaded", k[:i])
			return
		}
		f, ok := p.Scope().Lookup(k[i+1:]).(*types.Func)
		if !ok {
			bad("no function %s", k)
			return
		}
		c.ParamTypes = sigTypes(f.Type().(*types.Signature))
		c.Pkg = p
	case c.Callback:
		k := strings.TrimPrefix(c.Key, "callback ")
		if strings.HasPrefix(k, "param ") {
			k = strings.TrimPrefix(k, "param ")
			i := strings.LastIndexByte(k, '.')
			for _, f := range pr.funcs {
				if f.Name() != k[:i] {
					continue
				}
				for _, p := range f.Params {
					if s, ok := under(p.Type()).(*types.Signature); ok && p.Name() == k[i+1:] {
						c.ParamTypes = sigTypes(s)
						return
					}
				}
			}
			bad("no parameter %s", k)
			return
		}
		i := strings.LastIndexByte(k, '.')
		t := pr.typeByString(nil, k[:i])
		if t == nil {
			bad("unknown type %s", k[:i])
			return
		}
		s, ok := under(t).(*types.Struct)
		if !ok {
			bad("%s isn't a structure", k[:i])
			return
		}
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == k[i+1:] {
				sg, ok := under(s.Field(j).Type()).(*types.Signature)
				if ok {
					c.ParamTypes = append([]types.Type{types.NewPointer(t)}, sigTypes(sg)...)
					return
				}
			}
		}
		bad("no function field %s", k)
	default:
		f := pr.funcs[c.Key]
		if f == nil {
			if n := c.Key[strings.LastIndexByte(c.Key, '.')+1:]; !c.Lemma && n[0] >= 'a' && n[0] <= 'z' {
				// An internal function that no longer exists: whatever replaced it is
				// executed in place where it's called.
				c.Gone = true
				delete(pr.contracts, c.Key)
			}
			bad("function %s does not exist", c.Key)
			return
		}
		c.Fn = f
		if c.Trusted {
			c.Fn = f
		}
		for _, p := range f.Params {
			c.ParamTypes = append(c.ParamTypes, p.Type())
		}
		if len(c.Params) != len(c.ParamTypes) {
			if n := f.Name(); !c.Lemma && n[0] >= 'a' && n[0] <= 'z' {
				c.Gone = true
				delete(pr.contracts, c.Key)
			}
			bad("%s has %d parameters, its contract %d", c.Key, len(c.ParamTypes), len(c.Params))
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

var _ = constant.Bool
