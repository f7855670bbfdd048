package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Symbolic values. Integers, booleans, strings (as opaque identities), maps and
// function values are plain terms.

type Val any

// A PtrV is a pointer to the location (ref, idx) of the heap maps that start with key.
type PtrV struct {
	ref, idx *Term
	key      string
	elem     types.Type
}

type SliceV struct {
	obj, off, len, cap *Term
	key                string
	elem               types.Type
}

type StructV struct {
	typ types.Type
	f   []Val
}

// An ArrV is an immutable snapshot of array elements.
type ArrV struct {
	at   func(idx *Term) Val
	elem types.Type
	n    int64
}

type FuncV struct {
	fn   any // *ssa.Function or *ssa.Builtin
	bind []Val
	id   *Term
}

type IfaceV struct{ id *Term }

type TupleV []Val

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == nil {
			return ""
		}
		return p.Name()
	})
}

func under(t types.Type) types.Type { return t.Underlying() }

func basicRange(b *types.Basic) string {
	switch b.Kind() {
	case types.Uint8:
		return "u8"
	case types.Uint16:
		return "u16"
	case types.Uint32:
		return "u32"
	case types.Uint64, types.Uint, types.Uintptr:
		return "u64"
	case types.Int8:
		return "i8"
	case types.Int16:
		return "i16"
	case types.Int32, types.UntypedRune:
		return "i32"
	case types.Int64, types.Int, types.UntypedInt:
		return "i64"
	}
	return ""
}

var rangeTab = map[string][2]*big.Int{}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

const maxLenBits = 48

func init() {
	for _, n := range []uint{8, 16, 32, 64} {
		rangeTab[fmt.Sprintf("u%d", n)] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(pow2(n), bigOne)}
		rangeTab[fmt.Sprintf("i%d", n)] = [2]*big.Int{new_(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), bigOne)}
	}
	rangeTab["len"] = [2]*big.Int{big.NewInt(0), pow2(maxLenBits)}
	rangeTab["nat"] = [2]*big.Int{big.NewInt(0), nil}
}

// nameRange decodes the range that's part of a symbol's name: "name:rng" or
// "name:rng!n". "r123" means a reference >= -123.
func nameRange(name string) (lo, hi *big.Int) {
	if i := strings.LastIndexByte(name, '!'); i >= 0 {
		name = name[:i]
	}
	i := strings.LastIndexByte(name, ':')
	if i < 0 {
		return nil, nil
	}
	r := name[i+1:]
	if x, ok := rangeTab[r]; ok {
		return x[0], x[1]
	}
	if len(r) > 1 && r[0] == 'r' {
		n, ok := new(big.Int).SetString(r[1:], 10)
		if ok {
			return n.Neg(n), nil
		}
	}
	return nil, nil
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isOpaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "time.Time":
				return true
			}
		}
	}
	return false
}

// rootKey is the heap key of a whole object of type t.
func rootKey(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Struct:
		if isOpaqueStruct(t) {
			return "cell:" + typeStr(t)
		}
		return typeStr(t)
	case *types.Array:
		return elemKey(u.Elem())
	}
	return "cell:" + typeStr(t)
}

func elemKey(t types.Type) string { return "elem:" + elemTypeStr(t) }

func elemTypeStr(t types.Type) string {
	// named byte types share storage with their underlying type through
	// conversions of slices
	if b, ok := under(t).(*types.Basic); ok {
		return strings.Replace(b.Name(), "byte", "uint8", 1)
	}
	if a, ok := under(t).(*types.Array); ok {
		return elemTypeStr(a.Elem()) // flattened
	}
	return typeStr(t)
}

type leaf struct {
	suf string
	isB bool
	rng string
}

// leavesOf lists the leaf cells of a value of type t, not descending into arrays.
func scalarLeaf(t types.Type) (leaf, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return leaf{"", true, ""}, true
		}
		if u.Info()&types.IsString != 0 {
			return leaf{"", false, "str"}, true
		}
		return leaf{"", false, basicRange(u)}, true
	case *types.Pointer:
		return leaf{"", false, "ref"}, true
	case *types.Interface, *types.Signature:
		return leaf{"", false, "ref"}, true
	case *types.Map, *types.Chan:
		return leaf{"", false, "ref"}, true
	case *types.Struct:
		if isOpaqueStruct(t) {
			return leaf{"", false, "opq"}, true
		}
	}
	return leaf{}, false
}

func arrayCount(t types.Type) (types.Type, int64) {
	n := int64(1)
	for {
		a, ok := under(t).(*types.Array)
		if !ok {
			return t, n
		}
		n *= a.Len()
		t = a.Elem()
	}
}

// ---------------------------------------------------------------- heap

type nodeKind uint8

const (
	nBase nodeKind = iota
	nStore
	nObj   // replace a whole object
	nRange // replace the elements [lo, hi) of an object
	nFresh // replace all objects allocated since the function's entry
	nMerge
)

type Node struct {
	kind nodeKind
	prev *Node
	ref  *Term
	idx  *Term
	lo   *Term
	hi   *Term
	val  *Term
	fn   func(ref, idx *Term) *Term
	cond *Term
	alt  *Node
	name string
	isB  bool
	two  bool
	memo map[[2]*Term]*Term
	log  bool // counts as a write (for frames)
	l    leaf // nBase
}

func isTwoLevel(key string) bool {
	return strings.HasPrefix(key, "elem:") || strings.Contains(key, "[]") || strings.HasPrefix(key, "ghost:") || strings.HasPrefix(key, "map:") || strings.HasPrefix(key, "bits:")
}

func (n *Node) read(c *Ctx, ref, idx *Term) *Term {
	k := [2]*Term{ref, idx}
	if n.memo != nil {
		if t, ok := n.memo[k]; ok {
			return t
		}
	}
	var r *Term
	switch n.kind {
	case nBase:
		if n.two {
			r = app(n.name, n.isB, ref, idx)
		} else {
			r = app(n.name, n.isB, ref)
		}
	case nStore:
		h := and(c.refEq(n.ref, ref), eq(n.idx, idx))
		if h == tFalse {
			r = n.prev.read(c, ref, idx)
		} else if h == tTrue {
			r = n.val
		} else {
			r = ite(h, n.val, n.prev.read(c, ref, idx))
		}
	case nObj:
		h := c.refEq(n.ref, ref)
		if h == tFalse {
			r = n.prev.read(c, ref, idx)
		} else if h == tTrue {
			r = n.fn(ref, idx)
		} else {
			r = ite(h, n.fn(ref, idx), n.prev.read(c, ref, idx))
		}
	case nRange:
		h := and(c.refEq(n.ref, ref), le(n.lo, idx), lt(idx, n.hi))
		if h == tFalse {
			r = n.prev.read(c, ref, idx)
		} else if h == tTrue {
			r = n.fn(ref, idx)
		} else {
			r = ite(h, n.fn(ref, idx), n.prev.read(c, ref, idx))
		}
	case nFresh:
		h := lt(ref, n.hi)
		if h == tFalse {
			r = n.prev.read(c, ref, idx)
		} else if h == tTrue {
			r = n.fn(ref, idx)
		} else {
			r = ite(h, n.fn(ref, idx), n.prev.read(c, ref, idx))
		}
	case nMerge:
		r = ite(n.cond, n.prev.read(c, ref, idx), n.alt.read(c, ref, idx))
	}
	if n.memo == nil {
		n.memo = map[[2]*Term]*Term{}
	}
	n.memo[k] = r
	return r
}
