package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Leaf is one SMT-level component of a Go value.
type Leaf struct {
	path string // suffix of the heap key
	sort string // Int, Real, Bool
	typ  types.Type
	kind string // "", "ref", "len", "cap", "off", "tag", "pay"
}

var opaqueNames = map[string]bool{
	"time.Time": true, "sync.Map": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true, "sync.Pool": true,
	"google.golang.org/protobuf/internal/impl.MessageState": true,
	"reflect.SliceHeader": false, "strings.Builder": true, "sync.Once": true,
}

func named(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

func isOpaque(t types.Type) bool {
	n := named(t)
	if n == "" {
		return false
	}
	if v, ok := opaqueNames[n]; ok {
		return v
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		if strings.HasPrefix(n, "google.golang.org/") || strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "bufio.") {
			return true
		}
	}
	return false
}

func shortType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		return p.Path()
	})
}

var leafCache = map[string][]Leaf{}

func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	k := shortType(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type) []Leaf {
	if isOpaque(t) {
		return []Leaf{{"", "Int", t, "opaque"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", "Bool", t, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", "Real", t, ""}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", "Int", t, "opaque"}}
		default:
			return []Leaf{{"", "Int", t, ""}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", "Int", t, "ref"}}
	case *types.Slice:
		return []Leaf{{"#r", "Int", t, "ref"}, {"#o", "Int", t, "off"}, {"#l", "Int", t, "len"}, {"#c", "Int", t, "cap"}}
	case *types.Interface:
		return []Leaf{{"#t", "Int", t, "tag"}, {"#v", "Int", t, "pay"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.path, l.sort, l.typ, l.kind})
			}
		}
		return out
	case *types.Array:
		return []Leaf{{"", "Int", t, "opaque"}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort, l.typ, l.kind})
			}
		}
		return out
	}
	return []Leaf{{"", "Int", t, "opaque"}}
}

// Values
type Val interface{}

type SliceV struct {
	ref, off, ln, cp *T
	elem             types.Type
}
type IfaceV struct{ tag, pay *T }
type StructV struct {
	typ types.Type
	f   []Val
}
type TupleV struct{ f []Val }

// PtrV is a pointer: ref is the object, key the heap key prefix of the pointee,
// idx is set for elements of a backing array.
type PtrV struct {
	ref *T
	key string
	idx *T
	typ types.Type // pointee type
}

// UnsafeV is an unsafe.Pointer that remembers its origin.
type UnsafeV struct{ p *PtrV }

// Closure is a function value with known code.
type IterV struct {
	visKey string // ghost visited heap key
	m      *T
	typ    *types.Map
	isStr  bool
}

func (p *PtrV) plain() bool { return p.idx == nil && p.key == rootKey(p.typ) }

func rootKey(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Struct); ok && !isOpaque(t) {
		return "S:" + shortType(t)
	}
	if isOpaque(t) {
		return "O:" + shortType(t)
	}
	return "C:" + shortType(t)
}

func elemKey(t types.Type) string { return "E:" + shortType(t) }

var two = big.NewInt(2)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// intRange returns the range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, uns := intBits(b)
	if uns {
		return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1)), true
	}
	return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1)), true
}

func intBits(b *types.Basic) (uint, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// type tags for interfaces
var tagTab = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *T {
	k := shortType(t)
	id, ok := tagTab[k]
	if !ok {
		id = int64(len(tagTab) + 1)
		tagTab[k] = id
		tagTypes[id] = t
	}
	return IntL(id)
}

// flatten turns a value into leaf terms, build does the reverse.
func flatten(v Val, t types.Type) []*T {
	switch x := v.(type) {
	case *T:
		return []*T{x}
	case *SliceV:
		return []*T{x.ref, x.off, x.ln, x.cp}
	case *IfaceV:
		return []*T{x.tag, x.pay}
	case *PtrV:
		if !x.plain() {
			// an interior pointer is stored as an opaque non nil reference
			return []*T{interiorRef(x)}
		}
		return []*T{x.ref}
	case *StructV:
		var out []*T
		if isOpaque(x.typ) {
			return []*T{IntL(0)}
		}
		st := x.typ.Underlying().(*types.Struct)
		for i := range x.f {
			out = append(out, flatten(x.f[i], st.Field(i).Type())...)
		}
		return out
	case *TupleV:
		var out []*T
		tt := t.(*types.Tuple)
		for i := range x.f {
			out = append(out, flatten(x.f[i], tt.At(i).Type())...)
		}
		return out
	case *UnsafeV:
		return []*T{Fresh("unsafe", "Int")}
	case *IterV:
		return nil
	case nil:
		return nil
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func build(ts []*T, t types.Type) Val {
	v, rest := build0(ts, t)
	if len(rest) != 0 {
		panic("build: leftover for " + shortType(t))
	}
	return v
}

func build0(ts []*T, t types.Type) (Val, []*T) {
	t = types.Unalias(t)
	if isOpaque(t) {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Interface:
		return &IfaceV{ts[0], ts[1]}, ts[2:]
	case *types.Pointer:
		if p, ok := interiorTab[ts[0].id]; ok {
			return p, ts[1:]
		}
		return mkPtr(ts[0], u.Elem()), ts[1:]
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = build0(ts, u.Field(i).Type())
			s.f = append(s.f, f)
		}
		return s, ts
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = build0(ts, u.At(i).Type())
			s.f = append(s.f, f)
		}
		return s, ts
	}
	return ts[0], ts[1:]
}

// arrays allocated with new([N]T) live in element memory
func mkPtr(ref *T, elem types.Type) *PtrV {
	return &PtrV{ref: ref, key: rootKey(elem), typ: elem}
}

var interiorTab = map[int]*PtrV{}

func interiorRef(p *PtrV) *T {
	args := []*T{p.ref}
	if p.idx != nil {
		args = append(args, p.idx)
	}
	t := App("interior_"+sanitize(p.key), "Int", args...)
	interiorTab[t.id] = p
	return t
}

func zeroLeaf(l Leaf) *T {
	switch l.sort {
	case "Bool":
		return False
	case "Real":
		return RealL("0")
	}
	return IntL(0)
}

func zeroVal(t types.Type) Val {
	var ts []*T
	for _, l := range leaves(t) {
		ts = append(ts, zeroLeaf(l))
	}
	return build(ts, t)
}
