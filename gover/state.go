package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const stride = int64(1) << 40
const maxLen = int64(1) << 48

type Heap struct {
	m     map[string]*T
	epoch string
	bound int64 // allocation bound of base variables created in this epoch
}

func (h *Heap) clone() *Heap {
	n := &Heap{m: make(map[string]*T, len(h.m)), epoch: h.epoch, bound: h.bound}
	for k, v := range h.m {
		n.m[k] = v
	}
	return n
}

// baseInfo describes base heap variables for the background axioms.
type baseInfo struct {
	row    bool
	kind   string // ref, int, ""
	bound  int64
	lo, hi *big.Int
	levels int
}

var baseInfos = map[string]*baseInfo{}
var refBound = map[int]int64{}

// termRange registers known integer ranges of terms.
var termRange = map[int][2]*big.Int{}

func setRange(t *T, lo, hi *big.Int) {
	if t.big == nil {
		termRange[t.id] = [2]*big.Int{lo, hi}
	}
}

func levelsOf(srt string) int {
	n := 0
	for strings.HasPrefix(srt, "(Array ") {
		n++
		srt = arrayElem(srt)
	}
	return n
}

// registerRow registers the row of one object: the index is a key, not an object.
func registerRow(name, srt string, kind string, typ types.Type, bound int64) {
	registerBase(name, srt, kind, typ, bound)
	baseInfos[name].row = true
}

func registerBase(name, srt string, kind string, typ types.Type, bound int64) {
	if _, ok := baseInfos[name]; ok {
		return
	}
	bi := &baseInfo{kind: kind, bound: bound, levels: levelsOf(srt)}
	switch kind {
	case "len", "off", "cap":
		bi.lo, bi.hi = new(big.Int), big.NewInt(maxLen)
		bi.kind = "int"
	case "":
		bi.kind = ""
		if typ != nil && isIntType(typ) {
			bi.lo, bi.hi, _ = intRange(typ)
			bi.kind = "int"
		}
	}
	baseInfos[name] = bi
}

// getHeap returns the array of a key, creating the base variable when needed.
func (h *Heap) get(key, srt, kind string, typ types.Type) *T {
	if t, ok := h.m[key]; ok {
		return t
	}
	name := "H" + h.epoch + ":" + key
	t := Var(name, srt)
	registerBase(name, srt, kind, typ, h.bound)
	h.m[key] = t
	keySort[key] = keyMeta{srt, kind, typ}
	return t
}

// at returns the array of a key that has been seen before.
func (h *Heap) at(key string) *T {
	if t, ok := h.m[key]; ok {
		return t
	}
	m := keySort[key]
	return h.get(key, m.srt, m.kind, m.typ)
}

type keyMeta struct {
	srt, kind string
	typ       types.Type
}

var keySort = map[string]keyMeta{}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []*deferred
	loops  map[*ssa.BasicBlock]*LoopCtx
	ret    func(st *State, rs []Val) // continuation
	site   string
	stop   *stopAt
	cur    ssa.Instruction // the instruction being executed
}

type deferred struct {
	call *ssa.CallCommon
	fnv  Val
	args []Val
	pos  string
}

type State struct {
	h          *Heap
	old        *Heap // heap at entry of the verified function
	oldCtr     int64
	pc         []*T
	ctr        int64
	clock      *T
	frames     []*Frame
	dry        int  // >0: no obligations
	expl       bool // exploration for write sets: mathematical arithmetic, no solver
	writes     *writeSet
	depth      int
	goro       int // >0 inside a goroutine body
	depthLimit int
	doneWGs    []*T
	bvpc       []*T // branch conditions with bound variables (pure evaluation)
	capture    bool
}

// assumeB adds a branch condition.
func (st *State) assumeB(c *T) {
	if st.capture && c.hasBV {
		st.bvpc = append(st.bvpc[:len(st.bvpc):len(st.bvpc)], c)
	}
	st.assume(c)
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := *st
	n.h = st.h.clone()
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		nf := *f
		nf.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]*deferred(nil), f.defers...)
		nf.loops = make(map[*ssa.BasicBlock]*LoopCtx, len(f.loops))
		for k, v := range f.loops {
			nf.loops[k] = v
		}
		n.frames[i] = &nf
	}
	return &n
}

func (st *State) assume(ts ...*T) {
	for _, t := range ts {
		if t == True || t.hasBV {
			continue
		}
		if t.op == "and" {
			st.assume(t.args...)
			continue
		}
		st.pc = append(st.pc, t)
	}
}

func (st *State) alloc() *T {
	r := IntL(st.ctr)
	st.ctr++
	return r
}

func (st *State) bumpAlloc() int64 {
	o := st.ctr
	st.ctr += stride
	return o
}

// ---- bounds of references ----
func (st *State) boundOf(t *T) int64 {
	if t.big != nil {
		if t.big.IsInt64() {
			return t.big.Int64() + 1
		}
		return st.ctr
	}
	if b, ok := refBound[t.id]; ok {
		return b
	}
	switch t.op {
	case "select":
		a := t.args[0]
		b := st.boundOfArr(a)
		ib := int64(0)
		if a.op == "select" { // element memory: the index that matters is the object
			ib = st.boundOf(a.args[1])
		} else {
			ib = st.boundOf(t.args[1])
		}
		if eb := st.epochBound(a); ib > eb {
			return st.ctr
		}
		return b
	case "ite":
		x, y := st.boundOf(t.args[1]), st.boundOf(t.args[2])
		if x > y {
			return x
		}
		return y
	}
	return st.ctr
}

func (st *State) epochBound(a *T) int64 {
	for {
		switch a.op {
		case "var":
			if bi, ok := baseInfos[a.name]; ok {
				return bi.bound
			}
			return st.ctr
		case "store", "select":
			a = a.args[0]
		default:
			return st.ctr
		}
	}
}

func (st *State) boundOfArr(a *T) int64 {
	switch a.op {
	case "var":
		if bi, ok := baseInfos[a.name]; ok {
			return bi.bound
		}
		return st.ctr
	case "store":
		x := st.boundOfArr(a.args[0])
		var y int64
		if strings.HasPrefix(a.args[2].sort, "(Array") {
			y = st.boundOfArr(a.args[2])
		} else {
			y = st.boundOf(a.args[2])
		}
		if y > x {
			return y
		}
		return x
	case "select":
		return st.boundOfArr(a.args[0])
	case "constarr":
		return 1
	case "ite":
		x, y := st.boundOfArr(a.args[1]), st.boundOfArr(a.args[2])
		if x > y {
			return x
		}
		return y
	}
	return st.ctr
}

// ---- load/store ----

func keySortOf(key string, leafSort string, twoLevel bool) string {
	if twoLevel {
		return "(Array Int (Array Int " + leafSort + "))"
	}
	return "(Array Int " + leafSort + ")"
}

func (st *State) leafFacts(l Leaf, t *T) {
	if t.isLit() || t.hasBV {
		return
	}
	if st.seenFact(t) {
		return
	}
	switch l.kind {
	case "ref":
		b := st.boundOf(t)
		st.assume(Le(IntL(0), t), Lt(t, IntL(b)))
	case "len", "off", "cap":
		setRange(t, new(big.Int), big.NewInt(maxLen))
		st.assume(Le(IntL(0), t), Le(t, IntL(maxLen)))
	case "":
		if l.sort == "Int" && isIntType(l.typ) {
			lo, hi, _ := intRange(l.typ)
			setRange(t, lo, hi)
			st.assume(Le(IntB(lo), t), Le(t, IntB(hi)))
		}
	case "tag":
		st.assume(Le(IntL(0), t))
	}
}

func (st *State) seenFact(t *T) bool { return false }

func (st *State) valFacts(v Val, t types.Type) {
	ts := flatten(v, t)
	ls := leaves(t)
	for i, l := range ls {
		if i < len(ts) {
			st.leafFacts(l, ts[i])
		}
	}
	for i, l := range ls {
		if l.kind == "ref" && i+3 < len(ls)+0 && i+3 < len(ls) && ls[i+1].kind == "off" {
			st.sliceFacts(ts[i], ts[i+1], ts[i+2], ts[i+3])
		}
		if l.kind == "tag" {
			// nil interface has no payload
			st.assume(Imp(Eq(ts[i], IntL(0)), Eq(ts[i+1], IntL(0))))
		}
	}
}

func (st *State) sliceFacts(r, o, l, c *T) {
	st.assume(Le(l, c), Imp(Eq(r, IntL(0)), And(Eq(c, IntL(0)), Eq(l, IntL(0)))))
}

func loadFrom(h *Heap, p *PtrV) []*T {
	var ts []*T
	for _, l := range leaves(p.typ) {
		if p.idx != nil {
			a := h.get(p.key+l.path, keySortOf(p.key, l.sort, true), l.kind, l.typ)
			ts = append(ts, Select(Select(a, p.ref), p.idx))
		} else {
			a := h.get(p.key+l.path, keySortOf(p.key, l.sort, false), l.kind, l.typ)
			ts = append(ts, Select(a, p.ref))
		}
	}
	return ts
}

func (st *State) load(p *PtrV) Val {
	if at, ok := p.typ.Underlying().(*types.Array); ok {
		_ = at
		return Fresh("arr", "Int")
	}
	ts := loadFrom(st.h, p)
	v := build(ts, p.typ)
	st.valFacts(v, p.typ)
	return v
}

func (st *State) store(p *PtrV, v Val) {
	if _, ok := p.typ.Underlying().(*types.Array); ok {
		return
	}
	ts := flatten(v, p.typ)
	for i, l := range leaves(p.typ) {
		k := p.key + l.path
		if p.idx != nil {
			a := st.h.get(k, keySortOf(p.key, l.sort, true), l.kind, l.typ)
			st.setHeap(k, p.ref, p.idx, Store(a, p.ref, Store(Select(a, p.ref), p.idx, ts[i])))
		} else {
			a := st.h.get(k, keySortOf(p.key, l.sort, false), l.kind, l.typ)
			st.setHeap(k, p.ref, nil, Store(a, p.ref, ts[i]))
		}
	}
}

// setHeap records a write to object ref of key.
func (st *State) setHeap(key string, ref, idx *T, arr *T) {
	st.h.m[key] = arr
	if st.writes != nil {
		st.writes.add(key, ref)
	}
}

func (st *State) initZero(ref *T, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok && !isOpaque(t) {
		for _, l := range leaves(at.Elem()) {
			k := elemKey(at.Elem()) + l.path
			a := st.h.get(k, keySortOf(k, l.sort, true), l.kind, l.typ)
			st.h.m[k] = Store(a, ref, ConstArr("(Array Int "+l.sort+")", zeroLeaf(l)))
		}
		return
	}
	rk := rootKey(t)
	for _, l := range leaves(t) {
		k := rk + l.path
		a := st.h.get(k, keySortOf(k, l.sort, false), l.kind, l.typ)
		st.h.m[k] = Store(a, ref, zeroLeaf(l))
	}
	// containers inside the struct start empty
	if n := named(t); n == "sync.Map" {
		st.initSmap(rk, ref)
	} else if n == "sync.WaitGroup" {
		st.wgInit(ref)
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !isOpaque(t) {
		for i := 0; i < s.NumFields(); i++ {
			if named(s.Field(i).Type()) == "sync.Map" {
				st.initSmap(rk+"."+s.Field(i).Name(), ref)
			}
		}
	}
}

func (st *State) makeSliceMem(elem types.Type, n *T) *T {
	ref := st.alloc()
	for _, l := range leaves(elem) {
		k := elemKey(elem) + l.path
		a := st.h.get(k, keySortOf(k, l.sort, true), l.kind, l.typ)
		st.h.m[k] = Store(a, ref, ConstArr("(Array Int "+l.sort+")", zeroLeaf(l)))
	}
	return ref
}

// arr2 is a two level ghost/container array (object -> key -> value)
func (h *Heap) arr2(key, valSort, kind string) *T {
	return h.get(key, "(Array Int (Array Int "+valSort+"))", kind, nil)
}
func (h *Heap) arr1(key, valSort, kind string) *T {
	return h.get(key, "(Array Int "+valSort+")", kind, nil)
}

func (st *State) set2(key, valSort, kind string, obj, k, v *T) {
	a := st.h.arr2(key, valSort, kind)
	st.setHeap(key, obj, k, Store(a, obj, Store(Select(a, obj), k, v)))
}
func (st *State) set2row(key, valSort, kind string, obj, row *T) {
	a := st.h.arr2(key, valSort, kind)
	st.setHeap(key, obj, nil, Store(a, obj, row))
}
func (st *State) get2(key, valSort, kind string, obj, k *T) *T {
	return Select(Select(st.h.arr2(key, valSort, kind), obj), k)
}
func (st *State) set1(key, valSort, kind string, obj, v *T) {
	a := st.h.arr1(key, valSort, kind)
	st.setHeap(key, obj, nil, Store(a, obj, v))
}
func (st *State) get1(key, valSort, kind string, obj *T) *T {
	return Select(st.h.arr1(key, valSort, kind), obj)
}

func (st *State) initSmap(key string, ref *T) {
	a := st.h.arr2(key+"#has", "Bool", "")
	st.h.m[key+"#has"] = Store(a, ref, ConstArr("(Array Int Bool)", False))
}
func (st *State) wgInit(ref *T) {
	for _, g := range []string{"wg#add", "wg#done", "wg#spawn"} {
		a := st.h.arr1(g, "Int", "")
		st.h.m[g] = Store(a, ref, IntL(0))
	}
	a := st.h.arr1("wg#waited", "Bool", "")
	st.h.m["wg#waited"] = Store(a, ref, False)
}

// ghost scalars are kept at object 0 of a one level array
func (st *State) ghost(name, srt string) *T { return st.get1("G:"+name, srt, "", IntL(0)) }
func (st *State) setGhost(name string, v *T) {
	st.set1("G:"+name, v.sort, "", IntL(0), v)
}

// freshVal makes an arbitrary value of a type.
func (st *State) freshVal(pfx string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tp.Len(); i++ {
			tv.f = append(tv.f, st.freshVal(fmt.Sprintf("%s.%d", pfx, i), tp.At(i).Type()))
		}
		return tv
	}
	var ts []*T
	for _, l := range leaves(t) {
		v := Fresh(pfx+l.path, l.sort)
		if l.kind == "ref" {
			refBound[v.id] = st.ctr
		}
		ts = append(ts, v)
	}
	v := build(ts, t)
	st.valFacts(v, t)
	return v
}

// ---- write sets ----
type writeSet struct {
	mark    int // fresh index at loop entry
	ctr0    int64
	precise map[string]map[int]*T // key -> ref id -> ref
	unknown map[string]bool
	freshw  map[string]bool
	parent  *writeSet
}

func newWriteSet(mark int, ctr0 int64, parent *writeSet) *writeSet {
	return &writeSet{mark: mark, ctr0: ctr0, precise: map[string]map[int]*T{}, unknown: map[string]bool{}, freshw: map[string]bool{}, parent: parent}
}

func (w *writeSet) add(key string, ref *T) {
	if w.parent != nil {
		w.parent.add(key, ref)
	}
	if ref == nil {
		w.unknown[key] = true
		return
	}
	if ref.big != nil && ref.big.IsInt64() && ref.big.Int64() >= w.ctr0 {
		w.freshw[key] = true
		return
	}
	if ref.mf > w.mark || ref.hasBV {
		w.unknown[key] = true
		return
	}
	if w.precise[key] == nil {
		w.precise[key] = map[int]*T{}
	}
	w.precise[key][ref.id] = ref
}

func (w *writeSet) size() int {
	n := len(w.unknown) + len(w.freshw)
	for _, m := range w.precise {
		n += len(m)
	}
	return n
}

func (w *writeSet) merge(o *writeSet) {
	for k := range o.unknown {
		w.unknown[k] = true
	}
	for k := range o.freshw {
		w.freshw[k] = true
	}
	for k, m := range o.precise {
		for id, r := range m {
			if w.precise[k] == nil {
				w.precise[k] = map[int]*T{}
			}
			w.precise[k][id] = r
		}
	}
}

// touches: may the loop write the cell?
func (w *writeSet) touches(p *PtrV) bool {
	for _, l := range leaves(p.typ) {
		k := p.key + l.path
		if w.unknown[k] {
			return true
		}
		if m, ok := w.precise[k]; ok {
			if _, ok := m[p.ref.id]; ok {
				return true
			}
		}
	}
	return false
}
