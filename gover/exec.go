package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// Obligation is one proof obligation.
type Obligation struct {
	fn    string
	label string
	kind  string // safety, ensures, requires, frame, inv, chan, ...
	pos   string
	facts []*T
	goal  *T
	res   solveResult
	props []string
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
}

type Exec struct {
	prog     *Prog
	inc      *Inc
	obls     []*Obligation
	root     *ssa.Function
	rootC    *Contract
	steps    int
	paths    int
	maxSteps int
	closures map[int64]*Closure
	used     map[string]bool // contracts applied
	assumed  map[string]bool // assumed clauses applied
	inlined  map[string]bool
	ext      map[string]bool // external functions treated as arbitrary
	models   map[string]bool // library models used
	noContr  map[string]bool // contracts to ignore (inline instead)
	returns  int
	safety   bool
	invOK    int
	cmps     *[]cmpRec
	goRet    int
	pureMode bool
	curEval  int
	trace    bool
	emit     func(*Obligation)
	prop     string
	pureScores bool
	localChans map[int]bool
	spawned  map[string]bool
	rootVars map[string]SV
}

type cmpRec struct {
	op   token.Token
	x, y *T
}

func (ex *Exec) pos(p token.Pos) string {
	q := ex.prog.fset.Position(p)
	if !q.IsValid() {
		return ""
	}
	return strings.TrimPrefix(q.Filename, repoDir+"/") + fmt.Sprintf(":%d", q.Line)
}

func (ex *Exec) oblige(st *State, kind, label string, goal *T, pos string, props ...string) {
	if st.dry == 0 && !st.expl {
		if kind != "safety" || ex.safety {
			if !goal.hasBV {
				fn := ex.root.String()
				o := &Obligation{fn: fn, label: label, kind: kind, pos: pos, facts: st.pc[:len(st.pc):len(st.pc)], goal: goal, props: props}
				ex.obls = append(ex.obls, o)
				if ex.emit != nil {
					ex.emit(o)
				}
			}
		}
	}
	st.assume(goal)
}

func (ex *Exec) feasible(st *State, c *T) bool {
	if c == False {
		return false
	}
	if c == True {
		return true
	}
	if st.expl || c.hasBV {
		return true
	}
	return ex.inc.sat(st.pc, c)
}

// valid is a quick entailment test without quantified facts.
func (ex *Exec) entails(st *State, c *T) bool {
	if c == True {
		return true
	}
	if c.hasBV {
		return false
	}
	if c == False {
		return false
	}
	return !ex.inc.sat(st.pc, Not(c))
}

// ---- function execution ----

func (ex *Exec) callFunc(st *State, fn *ssa.Function, args []Val, bind []Val, site string, k func(st *State, rs []Val)) {
	if len(st.frames) > 0 && simpleFn(fn) == 2 && !st.capture && !ex.pureMode {
		ex.callMerged(st, fn, args, bind, site, k)
		return
	}
	ex.callFunc0(st, fn, args, bind, site, k)
}

func (ex *Exec) callFunc0(st *State, fn *ssa.Function, args []Val, bind []Val, site string, k func(st *State, rs []Val)) {
	if fn.Blocks == nil {
		unsup("no body: %s", fn)
	}
	if len(st.frames) > 24 {
		unsup("inline depth exceeded at %s", fn)
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 6 {
		unsup("recursion without contract: %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*LoopCtx{}, site: site}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	depth := len(st.frames)
	fr.ret = func(s *State, rs []Val) {
		s.frames = s.frames[:depth]
		k(s, rs)
	}
	st.frames = append(st.frames[:depth:depth], fr)
	ex.inlined[fn.String()] = true
	ex.execBlock(st, fn.Blocks[0], 0)
}

func (ex *Exec) jump(st *State, from, to *ssa.BasicBlock) {
	ex.jumpVals(st, to, ex.phiVals(st, from, to))
}

// jumpVals continues at a block, given the values of its phis.
func (ex *Exec) jumpVals(st *State, to *ssa.BasicBlock, vals []Val) {
	fr := st.top()
	if fr.stop != nil && fr.stop.exits[to] {
		fr.stop.kv(st, to, vals)
		return
	}
	for hdr, lc := range fr.loops {
		if !lc.blocks[to] {
			if lc.dry {
				return
			}
			delete(fr.loops, hdr)
		}
	}
	if lc := fr.loops[to]; lc != nil {
		lc.back(st, vals)
		return
	}
	if lp := ex.prog.loopAt(to); lp != nil {
		ex.enterLoop(st, vals, lp)
		return
	}
	for i, v := range vals {
		fr.env[to.Instrs[i].(*ssa.Phi)] = v
	}
	ex.execBlock(st, to, len(vals))
}

func (ex *Exec) phiVals(st *State, from, to *ssa.BasicBlock) []Val {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.val(st, p.Edges[idx]))
	}
	return vals
}

func (ex *Exec) execBlock(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps%256 == 0 && time.Now().After(deadline) {
			panic(unsupported{"the verification fits its time budget"})
		}
		if ex.steps > ex.maxSteps {
			unsup("step limit exceeded")
		}
		in := b.Instrs[i]
		fr := st.top()
		fr.cur = in
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := ex.val(st, x.Cond).(*T)
			tOK := ex.feasible(st, c)
			fOK := ex.feasible(st, Not(c))
			if tOK && fOK && ex.branchMerged(st, b, c) {
				return
			}
			if tOK && fOK {
				s2 := st.clone()
				s2.assumeB(c)
				ex.jump(s2, b, b.Succs[0])
				st.assumeB(Not(c))
				ex.jump(st, b, b.Succs[1])
			} else if tOK {
				st.assumeB(c)
				ex.jump(st, b, b.Succs[0])
			} else if fOK {
				st.assumeB(Not(c))
				ex.jump(st, b, b.Succs[1])
			}
			return
		case *ssa.Jump:
			ex.jump(st, b, b.Succs[0])
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, ex.val(st, r))
			}
			for _, lc := range fr.loops {
				if lc.dry {
					return
				}
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			if !st.expl && st.dry == 0 && ex.safety {
				msg := "panic"
				if mi, ok := x.X.(*ssa.MakeInterface); ok {
					if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil {
						msg = "panic " + c.Value.String()
					}
				}
				if !strings.Contains(msg, "blocking select matched no case") {
					ex.oblige(st, "safety", "no explicit panic", False, ex.pos(x.Pos()))
				}
			}
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			ex.runDefers(st, ds, func(s *State) { ex.execBlock(s, b, i+1) })
			return
		case *ssa.Defer:
			d := &deferred{call: &x.Call, pos: ex.pos(x.Pos())}
			if !x.Call.IsInvoke() {
				d.fnv = ex.calleeVal(st, x.Call.Value)
			} else {
				d.fnv = ex.val(st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, ex.val(st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			ii := i
			ex.spawn(st, x, func(s *State) { ex.execBlock(s, b, ii+1) })
			return
		case *ssa.Call:
			ii := i
			var fnv Val
			if x.Call.IsInvoke() {
				fnv = ex.val(st, x.Call.Value)
			} else {
				fnv = ex.calleeVal(st, x.Call.Value)
			}
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, ex.val(st, a))
			}
			called := false
			done := ex.call(st, &x.Call, fnv, args, ex.pos(x.Pos()), func(s *State, rs []Val) {
				called = true
				s.top().env[x] = tupleOf(rs, x.Type())
				ex.execBlock(s, b, ii+1)
			})
			_ = called
			if done {
				return
			}
			// the call was a simple one, its result is in lastRes
			fr.env[x] = tupleOf(ex.lastRes(), x.Type())
		case *ssa.Select:
			ii := i
			ex.execSelect(st, x, func(s *State, v Val) {
				s.top().env[x] = v
				ex.execBlock(s, b, ii+1)
			})
			return
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ii := i
				ex.recv(st, ex.val(st, x.X).(*T), x.X.Type().Underlying().(*types.Chan).Elem(), x.CommaOk, ex.pos(x.Pos()), func(s *State, v Val, ok *T) {
					if x.CommaOk {
						s.top().env[x] = &TupleV{[]Val{v, ok}}
					} else {
						s.top().env[x] = v
					}
					ex.execBlock(s, b, ii+1)
				})
				return
			}
			fr.env[x] = ex.unop(st, x)
		case *ssa.Send:
			ex.send(st, ex.val(st, x.Chan).(*T), ex.val(st, x.X), x.Chan.Type().Underlying().(*types.Chan).Elem(), ex.pos(x.Pos()))
		case *ssa.Store:
			p := ex.val(st, x.Addr)
			pv, ok := p.(*PtrV)
			if !ok {
				unsup("store through %T", p)
			}
			ex.nonNil(st, pv, x.Pos(), "store")
			st.store(pv, ex.val(st, x.Val))
		case *ssa.MapUpdate:
			ex.mapUpdate(st, x)
		case *ssa.Next:
			ii := i
			ex.mapNext(st, x, func(s *State, v Val) {
				s.top().env[x] = v
				ex.execBlock(s, b, ii+1)
			})
			return
		case ssa.Value:
			fr.env[x] = ex.eval(st, x)
		default:
			unsup("instruction %T", in)
		}
	}
}

func tupleOf(rs []Val, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return &TupleV{}
		}
		return &TupleV{rs}
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return &TupleV{rs}
}

func (ex *Exec) runDefers(st *State, ds []*deferred, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	if !ex.call(st, d.call, d.fnv, d.args, d.pos, func(s *State, rs []Val) { ex.runDefers(s, rest, k) }) {
		ex.runDefers(st, rest, k)
	}
}

// ---- values ----
var lastResult []Val

func (ex *Exec) lastRes() []Val { return lastResult }

var funcIDs = map[*ssa.Function]int64{}
var funcByID = map[int64]*ssa.Function{}

func funcRef(fn *ssa.Function) *T {
	id, ok := funcIDs[fn]
	if !ok {
		id = int64(len(funcIDs) + 10)
		funcIDs[fn] = id
		funcByID[id] = fn
	}
	return IntL(id)
}

func (ex *Exec) calleeVal(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Builtin:
		return nil
	case *ssa.Function:
		return funcRef(x)
	}
	return ex.val(st, v)
}

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return funcRef(x)
	case *ssa.Global:
		return ex.globalPtr(x)
	case *ssa.Builtin:
		return nil
	}
	for i := len(st.frames) - 1; i >= 0; i-- {
		if r, ok := st.frames[i].env[v]; ok {
			return r
		}
		break
	}
	unsup("value %s (%T) of %s not available", v.Name(), v, v.Parent())
	return nil
}

func (ex *Exec) globalPtr(g *ssa.Global) *PtrV {
	t := g.Type().(*types.Pointer).Elem()
	ref := globalRef(g.String())
	return &PtrV{ref: ref, key: rootKey(t), typ: t}
}

var globalIDs = map[string]int64{}

func globalRef(name string) *T {
	id, ok := globalIDs[name]
	if !ok {
		id = int64(len(globalIDs) + 2000)
		globalIDs[name] = id
	}
	return IntL(id)
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolL(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrL(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsup("const %s", v)
			}
			return IntB(b)
		case u.Info()&types.IsFloat != 0:
			return realConst(c.Value)
		}
	}
	unsup("const of type %s", t)
	return nil
}

func realConst(v constant.Value) *T {
	r := constant.ToFloat(v)
	if f, ok := constant.Float64Val(r); !ok || constant.Compare(constant.MakeFloat64(f), token.NEQ, r) {
		r = constant.MakeFloat64(f) // the value of a float64 constant
	}
	return RealL(r.ExactString())
}

func (ex *Exec) nonNil(st *State, p *PtrV, pos token.Pos, what string) {
	if p.ref.big != nil && p.ref.big.Sign() > 0 {
		return
	}
	ex.oblige(st, "safety", "no nil dereference ("+what+")", Not(Eq(p.ref, IntL(0))), ex.pos(pos))
}

func (ex *Exec) eval(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		ref := st.alloc()
		st.initZero(ref, t)
		if at, ok := t.Underlying().(*types.Array); ok && !isOpaque(t) {
			_ = at
			return &PtrV{ref: ref, key: elemKey(at.Elem()), typ: t}
		}
		return mkPtr(ref, t)
	case *ssa.BinOp:
		return ex.binop(st, x.Op, ex.val(st, x.X), ex.val(st, x.Y), x.X.Type(), x.Y.Type(), x.Pos())
	case *ssa.ChangeType:
		r := ex.val(st, x.X)
		if s, ok := r.(*StructV); ok {
			return &StructV{typ: x.Type(), f: s.f}
		}
		if p, ok := r.(*PtrV); ok && p.plain() {
			return mkPtr(p.ref, x.Type().Underlying().(*types.Pointer).Elem())
		}
		return r
	case *ssa.ChangeInterface:
		return ex.val(st, x.X)
	case *ssa.Convert:
		return ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type(), x.Pos())
	case *ssa.Extract:
		return ex.val(st, x.Tuple).(*TupleV).f[x.Index]
	case *ssa.Field:
		s := ex.val(st, x.X)
		if sv, ok := s.(*StructV); ok {
			return sv.f[x.Field]
		}
		return st.freshVal("field", x.Type())
	case *ssa.FieldAddr:
		pv, ok := ex.val(st, x.X).(*PtrV)
		if !ok {
			unsup("field of %T", ex.val(st, x.X))
		}
		ex.nonNil(st, pv, x.Pos(), "field "+fieldName(x))
		stt := pv.typ.Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		if named(pv.typ) == "github.com/bgokden/go-cache.Cache" && f.Name() == "cache" {
			return &PtrV{ref: pv.ref, key: "cacheself", typ: f.Type()}
		}
		np := &PtrV{ref: pv.ref, key: pv.key + "." + f.Name(), idx: pv.idx, typ: f.Type()}
		if o, ok := unsafeOrig[pv]; ok {
			unsafeOrig[np] = o
		}
		return np
	case *ssa.Index:
		if isStringType(x.X.Type()) {
			s := ex.val(st, x.X).(*T)
			i := ex.val(st, x.Index).(*T)
			ex.oblige(st, "safety", "string index in range", And(Le(IntL(0), i), Lt(i, strLen(st, s))), ex.pos(x.Pos()))
			return ex.typedFresh(st, UF("charat", "Int", s, i), x.Type())
		}
		return st.freshVal("index", x.Type())
	case *ssa.IndexAddr:
		return ex.indexAddr(st, x)
	case *ssa.Lookup:
		return ex.lookup(st, x)
	case *ssa.MakeChan:
		ref := st.alloc()
		ex.chanInit(st, ref)
		return ref
	case *ssa.MakeClosure:
		ref := st.alloc()
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, ex.val(st, b))
		}
		ex.closures[ref.big.Int64()] = c
		return ref
	case *ssa.MakeInterface:
		return ex.makeIface(st, ex.val(st, x.X), x.X.Type())
	case *ssa.MakeMap:
		ref := st.alloc()
		ex.mapInit(st, ref, x.Type().Underlying().(*types.Map))
		return ref
	case *ssa.MakeSlice:
		n := ex.val(st, x.Len).(*T)
		c := ex.val(st, x.Cap).(*T)
		ex.oblige(st, "safety", "make with a valid length", And(Le(IntL(0), n), Le(n, c)), ex.pos(x.Pos()))
		st.assume(Le(c, IntL(maxLen)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		ref := st.makeSliceMem(el, n)
		return &SliceV{ref, IntL(0), n, c, el}
	case *ssa.Range:
		m := ex.val(st, x.X)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			unsup("range over %s", x.X.Type())
		}
		obj := st.alloc()
		key := "vis:" + shortType(mt.Key())
		a := st.h.arr2(key, "Bool", "")
		st.setHeap(key, obj, nil, Store(a, obj, ConstArr("(Array Int Bool)", False)))
		st.set1("viscnt", "Int", "", obj, IntL(0))
		st.set1("vismap", "Int", "", obj, m.(*T))
		return &IterV{visKey: key, m: obj, typ: mt}
	case *ssa.Slice:
		return ex.slice(st, x)
	case *ssa.TypeAssert:
		return ex.typeAssert(st, x)
	}
	unsup("instruction %T", v)
	return nil
}

func fieldName(x *ssa.FieldAddr) string {
	return x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
}

// typedFresh attaches the type range facts to a term.
func (ex *Exec) typedFresh(st *State, t *T, typ types.Type) *T {
	st.leafFacts(leaves(typ)[0], t)
	return t
}

func (ex *Exec) makeIface(st *State, v Val, t types.Type) Val {
	tag := typeTag(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return &IfaceV{tag, flatten(v, t)[0]}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &IfaceV{tag, v.(*T)}
		case u.Info()&types.IsFloat != 0:
			return &IfaceV{tag, UF("f2i", "Int", v.(*T))}
		case u.Info()&types.IsBoolean != 0:
			return &IfaceV{tag, Ite(v.(*T), IntL(1), IntL(0))}
		case u.Info()&types.IsInteger != 0:
			return &IfaceV{tag, UF("n2i", "Int", v.(*T))}
		}
	}
	ref := st.alloc()
	p := &PtrV{ref: ref, key: "B:" + shortType(t), typ: t}
	// boxes are written once
	ts := flatten(v, t)
	for i, l := range leaves(t) {
		a := st.h.get(p.key+l.path, keySortOf(p.key, l.sort, false), l.kind, l.typ)
		st.h.m[p.key+l.path] = Store(a, ref, ts[i])
	}
	return &IfaceV{tag, ref}
}

func (ex *Exec) unbox(st *State, h *Heap, i *IfaceV, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if p, ok := interiorTab[i.pay.id]; ok {
			return p
		}
		r := mkPtr(i.pay, u.Elem())
		return r
	case *types.Map, *types.Chan, *types.Signature:
		return i.pay
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return i.pay
		case u.Info()&types.IsFloat != 0:
			if i.pay.op == "f2i" {
				return i.pay.args[0]
			}
			return UF("i2f", "Real", i.pay)
		case u.Info()&types.IsBoolean != 0:
			return Eq(i.pay, IntL(1))
		case u.Info()&types.IsInteger != 0:
			if i.pay.op == "n2i" {
				return i.pay.args[0]
			}
			return UF("i2n", "Int", i.pay)
		}
	}
	var ts []*T
	for _, l := range leaves(t) {
		a := h.get("B:"+shortType(t)+l.path, keySortOf("", l.sort, false), l.kind, l.typ)
		ts = append(ts, Select(a, i.pay))
	}
	return build(ts, t)
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) Val {
	i := ex.val(st, x.X).(*IfaceV)
	t := x.AssertedType
	if it, ok := t.Underlying().(*types.Interface); ok {
		okT := ex.implementsTerm(i.tag, it, t)
		if x.CommaOk {
			return &TupleV{[]Val{&IfaceV{Ite(okT, i.tag, IntL(0)), Ite(okT, i.pay, IntL(0))}, okT}}
		}
		ex.oblige(st, "safety", "type assertion to "+types.TypeString(t, qual), okT, ex.pos(x.Pos()))
		return i
	}
	okT := Eq(i.tag, typeTag(t))
	if x.CommaOk {
		v := ex.unbox(st, st.h, i, t)
		z := zeroVal(t)
		if okT == True {
			st.valFacts(v, t)
			return &TupleV{[]Val{v, True}}
		}
		// value is zero when the assertion fails
		vt, zt := flatten(v, t), flatten(z, t)
		var rs []*T
		for j := range vt {
			rs = append(rs, Ite(okT, vt[j], zt[j]))
		}
		if okT != False && !okT.hasBV {
			if _, isP := t.Underlying().(*types.Pointer); isP {
				st.assume(Imp(okT, And(Le(IntL(0), vt[0]), Lt(vt[0], IntL(st.boundOf(vt[0]))))))
				refBound[rs[0].id] = st.boundOf(vt[0])
			}
		}
		return &TupleV{[]Val{build(rs, t), okT}}
	}
	ex.oblige(st, "safety", "type assertion to "+types.TypeString(t, qual), okT, ex.pos(x.Pos()))
	v := ex.unbox(st, st.h, i, t)
	st.valFacts(v, t)
	return v
}

func qual(p *types.Package) string { return p.Name() }

// implementsTerm: the dynamic type with this tag implements it.
func (ex *Exec) implementsTerm(tag *T, it *types.Interface, t types.Type) *T {
	if tag.big != nil {
		if tag.big.Sign() == 0 {
			return False
		}
		dt := tagTypes[tag.big.Int64()]
		return BoolL(types.Implements(dt, it))
	}
	if it.NumMethods() == 0 {
		return Not(Eq(tag, IntL(0)))
	}
	f := UF("impl_"+sanitize(shortType(t)), "Bool", tag)
	return f
}

func (ex *Exec) indexAddr(st *State, x *ssa.IndexAddr) Val {
	b := ex.val(st, x.X)
	i := ex.val(st, x.Index).(*T)
	switch s := b.(type) {
	case *SliceV:
		ex.oblige(st, "safety", "index in range", And(Le(IntL(0), i), Lt(i, s.ln)), ex.pos(x.Pos()))
		return &PtrV{ref: s.ref, key: elemKey(s.elem), idx: Add(s.off, i), typ: s.elem}
	case *PtrV:
		at, ok := s.typ.Underlying().(*types.Array)
		if !ok {
			unsup("index of pointer to %s", s.typ)
		}
		ex.oblige(st, "safety", "index in range", And(Le(IntL(0), i), Lt(i, IntL(at.Len()))), ex.pos(x.Pos()))
		return &PtrV{ref: s.ref, key: elemKey(at.Elem()), idx: i, typ: at.Elem()}
	}
	unsup("index of %T", b)
	return nil
}

func (ex *Exec) slice(st *State, x *ssa.Slice) Val {
	b := ex.val(st, x.X)
	var lo, hi, mx *T
	if x.Low != nil {
		lo = ex.val(st, x.Low).(*T)
	} else {
		lo = IntL(0)
	}
	if x.High != nil {
		hi = ex.val(st, x.High).(*T)
	}
	if x.Max != nil {
		mx = ex.val(st, x.Max).(*T)
	}
	switch s := b.(type) {
	case *SliceV:
		if hi == nil {
			hi = s.ln
		}
		c := s.cp
		if mx != nil {
			c = mx
			ex.oblige(st, "safety", "slice max in range", And(Le(hi, mx), Le(mx, s.cp)), ex.pos(x.Pos()))
		}
		ex.oblige(st, "safety", "slice bounds in range", And(Le(IntL(0), lo), Le(lo, hi), Le(hi, s.cp)), ex.pos(x.Pos()))
		n := &SliceV{s.ref, Add(s.off, lo), Sub(hi, lo), Sub(c, lo), s.elem}
		return n
	case *PtrV:
		at := s.typ.Underlying().(*types.Array)
		if hi == nil {
			hi = IntL(at.Len())
		}
		ex.oblige(st, "safety", "slice bounds in range", And(Le(IntL(0), lo), Le(lo, hi), Le(hi, IntL(at.Len()))), ex.pos(x.Pos()))
		return &SliceV{s.ref, lo, Sub(hi, lo), Sub(IntL(at.Len()), lo), at.Elem()}
	case *T: // string
		n := strLen(st, s)
		if hi == nil {
			hi = n
		}
		ex.oblige(st, "safety", "string slice bounds in range", And(Le(IntL(0), lo), Le(lo, hi), Le(hi, n)), ex.pos(x.Pos()))
		if lo.big != nil && lo.big.Sign() == 0 && hi == n {
			return s
		}
		r := UF("substr", "Int", s, lo, hi)
		st.assume(Eq(UF("strlen", "Int", r), Sub(hi, lo)))
		return r
	}
	unsup("slice of %T", b)
	return nil
}

// ---- arithmetic ----

func (ex *Exec) wrap(st *State, t *T, typ types.Type) *T {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	l, h := rng(t)
	if l != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if st.expl || t.hasBV {
		return t
	}
	in := And(Le(IntB(lo), t), Le(t, IntB(hi)))
	if ex.entails(st, in) {
		setRange(t, lo, hi)
		return t
	}
	b := typ.Underlying().(*types.Basic)
	bits, uns := intBits(b)
	m := IntB(pow2(bits))
	// one wrap suffices for sums and differences
	if l != nil && l.Cmp(new(big.Int).Sub(lo, pow2(bits))) >= 0 && h.Cmp(new(big.Int).Add(hi, pow2(bits))) <= 0 {
		if l.Cmp(lo) >= 0 {
			return Ite(Le(t, IntB(hi)), t, Sub(t, m))
		}
		if h.Cmp(hi) <= 0 {
			return Ite(Le(IntB(lo), t), t, Add(t, m))
		}
		return Ite(Gt(t, IntB(hi)), Sub(t, m), Ite(Lt(t, IntB(lo)), Add(t, m), t))
	}
	if uns {
		return Mod(t, m)
	}
	half := IntB(pow2(bits - 1))
	return Sub(Mod(Add(t, half), m), half)
}

// realArith treats floating point operations as those of real numbers (C13).
var realArith bool

func fop(op string, bits int, a, b *T) *T {
	if realArith {
		switch op {
		case "fadd":
			return Add(a, b)
		case "fsub":
			return Sub(a, b)
		case "fmul":
			return Mul(a, b)
		case "fdiv":
			return UF("rdiv", "Real", a, b)
		}
	}
	return UF(fmt.Sprintf("%s%d", op, bits), "Real", a, b)
}

func floatBits(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

func fadd(bits int, a, b *T) *T {
	return fop("fadd", bits, a, b)
}

func fmul(bits int, a, b *T) *T { return fop("fmul", bits, a, b) }

func (ex *Exec) binop(st *State, op token.Token, xv, yv Val, xt, yt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := ex.equal(st, xv, yv, xt, yt)
		if ex.cmps != nil && st.expl {
			if a, ok := xv.(*T); ok && a.sort == "Int" {
				if b, ok := yv.(*T); ok {
					*ex.cmps = append(*ex.cmps, cmpRec{op, a, b})
				}
			}
		}
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	x, ok1 := xv.(*T)
	y, ok2 := yv.(*T)
	if !ok1 || !ok2 {
		unsup("binop %s on %T,%T", op, xv, yv)
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStringType(xt) {
			lt := UF("strless", "Bool", x, y)
			gt := UF("strless", "Bool", y, x)
			switch op {
			case token.LSS:
				return lt
			case token.GTR:
				return gt
			case token.LEQ:
				return Not(gt)
			default:
				return Not(lt)
			}
		}
		if ex.cmps != nil && st.expl && x.sort == "Int" {
			*ex.cmps = append(*ex.cmps, cmpRec{op, x, y})
		}
		switch op {
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Gt(x, y)
		default:
			return Ge(x, y)
		}
	}
	if isBoolType(xt) {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	if isFloatType(xt) {
		b := floatBits(xt)
		switch op {
		case token.ADD:
			return fadd(b, x, y)
		case token.SUB:
			return fop("fsub", b, x, y)
		case token.MUL:
			return fmul(b, x, y)
		case token.QUO:
			return fop("fdiv", b, x, y)
		}
	}
	if isStringType(xt) && op == token.ADD {
		return strConcat(st, x, y)
	}
	if isIntType(xt) {
		switch op {
		case token.ADD:
			return ex.wrap(st, Add(x, y), xt)
		case token.SUB:
			return ex.wrap(st, Sub(x, y), xt)
		case token.MUL:
			return ex.wrap(st, Mul(x, y), xt)
		case token.QUO, token.REM:
			ex.oblige(st, "safety", "no division by zero", Not(Eq(y, IntL(0))), ex.pos(pos))
			_, uns := intBits(xt.Underlying().(*types.Basic))
			lx, _ := rng(x)
			nonneg := uns || lx != nil && lx.Sign() >= 0
			if nonneg {
				if op == token.QUO {
					return Div(x, y)
				}
				return Mod(x, y)
			}
			// truncated division
			q := Ite(Ge(x, IntL(0)), Div(x, y), Sub(IntL(0), Div(Sub(IntL(0), x), y)))
			if op == token.QUO {
				return q
			}
			return Sub(x, Mul(q, y))
		case token.SHL:
			if y.big != nil {
				return ex.wrap(st, Mul(x, IntB(pow2(uint(y.big.Uint64())))), xt)
			}
		case token.SHR:
			if y.big != nil {
				n := uint(y.big.Uint64())
				if n >= 64 {
					return IntL(0)
				}
				return Div(x, IntB(pow2(n)))
			}
		case token.AND:
			if x.big != nil {
				x, y = y, x
			}
			if y.big != nil {
				return andConst(x, y.big, xt)
			}
		case token.OR:
			return orTerm(x, y)
		case token.AND_NOT:
			if y.big != nil {
				return Sub(x, andConst(x, y.big, xt))
			}
		}
		return ex.typedFresh(st, UF("bitop_"+opName(op), "Int", x, y), xt)
	}
	unsup("binop %s on %s", op, xt)
	return nil
}

func opName(op token.Token) string {
	switch op {
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.AND_NOT:
		return "andnot"
	}
	return "op"
}

// andConst: x & c for contiguous masks.
func andConst(x *T, c *big.Int, t types.Type) *T {
	if x.big != nil {
		return IntB(new(big.Int).And(x.big, c))
	}
	if c.Sign() == 0 {
		return IntL(0)
	}
	tz := uint(c.TrailingZeroBits())
	sh := new(big.Int).Rsh(c, tz)
	w := uint(sh.BitLen())
	if new(big.Int).Add(sh, big.NewInt(1)).Cmp(pow2(w)) != 0 {
		return UF("bitop_and", "Int", x, IntB(c))
	}
	y := x
	if tz > 0 {
		y = Div(y, IntB(pow2(tz)))
	}
	lo, hi := rng(y)
	if !(lo != nil && lo.Sign() >= 0 && hi.Cmp(pow2(w)) < 0) {
		y = Mod(y, IntB(pow2(w)))
	}
	return Mul(IntB(pow2(tz)), y)
}

// bits: possible set bits [lo,hi) of a non negative term
func bitsOf(t *T) (uint, uint, bool) {
	if t.big != nil {
		if t.big.Sign() == 0 {
			return 0, 0, true
		}
		if t.big.Sign() < 0 {
			return 0, 0, false
		}
		return uint(t.big.TrailingZeroBits()), uint(t.big.BitLen()), true
	}
	if t.op == "*" && t.args[0].big != nil && t.args[0].big.Sign() > 0 {
		tz := t.args[0].big.TrailingZeroBits()
		if pow2(uint(tz)).Cmp(t.args[0].big) == 0 {
			l, h, ok := bitsOf(t.args[1])
			return l + uint(tz), h + uint(tz), ok
		}
	}
	if t.op == "+" {
		lo, hi := uint(1000), uint(0)
		for _, a := range t.args {
			l, h, ok := bitsOf(a)
			if !ok {
				return 0, 0, false
			}
			if h > l {
				if l < lo {
					lo = l
				}
				if h > hi {
					hi = h
				}
			}
		}
		// valid only if the parts are disjoint, orTerm builds such sums
		if disjointSums[t.id] {
			return lo, hi, true
		}
	}
	l, h := rng(t)
	if l != nil && l.Sign() >= 0 {
		return 0, uint(h.BitLen()), true
	}
	return 0, 0, false
}

var disjointSums = map[int]bool{}

func orTerm(x, y *T) *T {
	if x.big != nil && x.big.Sign() == 0 {
		return y
	}
	if y.big != nil && y.big.Sign() == 0 {
		return x
	}
	if x.big != nil && y.big != nil {
		return IntB(new(big.Int).Or(x.big, y.big))
	}
	xl, xh, ok1 := bitsOf(x)
	yl, yh, ok2 := bitsOf(y)
	if ok1 && ok2 && (xh <= yl || yh <= xl) {
		s := Add(x, y)
		disjointSums[s.id] = true
		return s
	}
	// x | 2^k : sets one bit
	if x.big != nil {
		x, y = y, x
	}
	if y.big != nil && y.big.Sign() > 0 {
		k := uint(y.big.TrailingZeroBits())
		if pow2(k).Cmp(y.big) == 0 {
			// if the bit is already set keep x else add
			bit := Mod(Div(x, IntB(y.big)), IntL(2))
			r := Ite(Eq(bit, IntL(1)), x, Add(x, y))
			return r
		}
	}
	return UF("bitop_or", "Int", x, y)
}

func (ex *Exec) equal(st *State, xv, yv Val, xt, yt types.Type) *T {
	switch x := xv.(type) {
	case *T:
		switch y := yv.(type) {
		case *T:
			return Eq(x, y)
		case *IfaceV:
			i := ex.makeIface(st, x, xt).(*IfaceV)
			return And(Eq(i.tag, y.tag), Eq(i.pay, y.pay))
		}
	case *PtrV:
		switch y := yv.(type) {
		case *PtrV:
			if x.plain() && y.plain() {
				return Eq(x.ref, y.ref)
			}
			if y.plain() && y.ref.big != nil && y.ref.big.Sign() == 0 || x.plain() && x.ref.big != nil && x.ref.big.Sign() == 0 {
				return False
			}
			return Eq(flatten(x, xt)[0], flatten(y, yt)[0])
		case *IfaceV:
			return And(Eq(typeTag(xt), y.tag), Eq(flatten(x, xt)[0], y.pay))
		}
	case *IfaceV:
		switch y := yv.(type) {
		case *IfaceV:
			if y.tag.big != nil && y.tag.big.Sign() == 0 {
				return Eq(x.tag, y.tag)
			}
			if x.tag.big != nil && x.tag.big.Sign() == 0 {
				return Eq(x.tag, y.tag)
			}
			return And(Eq(x.tag, y.tag), Eq(x.pay, y.pay))
		default:
			return ex.equal(st, yv, xv, yt, xt)
		}
	case *SliceV:
		// comparison with nil
		y := yv.(*SliceV)
		if y.ref.big != nil && y.ref.big.Sign() == 0 {
			return Eq(x.ref, IntL(0))
		}
		return Eq(y.ref, IntL(0))
	case *StructV:
		y := yv.(*StructV)
		var cs []*T
		u := x.typ.Underlying().(*types.Struct)
		for i := range x.f {
			cs = append(cs, ex.equal(st, x.f[i], y.f[i], u.Field(i).Type(), u.Field(i).Type()))
		}
		return And(cs...)
	}
	unsup("comparison of %T and %T", xv, yv)
	return nil
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) Val {
	v := ex.val(st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			unsup("load through %T", v)
		}
		if p.key == "cacheself" {
			return mkPtr(p.ref, x.Type().Underlying().(*types.Pointer).Elem())
		}
		if p.key == "bits" || p.key == "floatbits" {
			return ex.loadUnsafe(st, p)
		}
		if strings.HasPrefix(p.key, "sh:") {
			return ex.loadHeader(st, p)
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if v := ex.prog.globalConst(ex, st, g); v != nil {
				return v
			}
		}
		ex.nonNil(st, p, x.Pos(), "load")
		return st.load(p)
	case token.SUB:
		t := v.(*T)
		if t.sort == "Real" {
			if realArith {
				return Sub(RealL("0"), t)
			}
			return UF("fneg", "Real", t)
		}
		return ex.wrap(st, Sub(IntL(0), t), x.Type())
	case token.NOT:
		return Not(v.(*T))
	case token.XOR:
		t := v.(*T)
		_, hi, _ := intRange(x.Type())
		if _, uns := intBits(x.Type().Underlying().(*types.Basic)); uns {
			return Sub(IntB(hi), t)
		}
		return Sub(IntL(-1), t)
	}
	unsup("unop %s", x.Op)
	return nil
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		uv, ok := v.(*UnsafeV)
		if !ok {
			unsup("unsafe pointer of unknown origin")
		}
		el := tu.(*types.Pointer).Elem()
		return ex.unsafeTo(st, uv, el)
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if p, ok := v.(*PtrV); ok {
			return &UnsafeV{p}
		}
		unsup("conversion to unsafe.Pointer")
	}
	switch {
	case isIntType(from) && isIntType(to):
		return ex.wrap(st, v.(*T), to)
	case isIntType(from) && isFloatType(to):
		b := floatBits(to)
		x := v.(*T)
		if x.big != nil {
			return RealL(x.big.String())
		}
		return UF(fmt.Sprintf("i2fl%d", b), "Real", x)
	case isFloatType(from) && isIntType(to):
		r := UF("fl2"+sanitize(to.Underlying().String()), "Int", v.(*T))
		return ex.typedFresh(st, r, to)
	case isFloatType(from) && isFloatType(to):
		fbits, tbits := floatBits(from), floatBits(to)
		if fbits <= tbits {
			return v // float32 values are exactly representable
		}
		x := v.(*T)
		if realArith {
			return x
		}
		return UF("round32", "Real", x)
	case isStringType(to):
		if s, ok := v.(*SliceV); ok { // []byte -> string
			return ex.bytesToStr(st, s)
		}
		if isStringType(from) {
			return v
		}
		if isIntType(from) {
			return UF("runestr", "Int", v.(*T))
		}
	case isStringType(from):
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(*T)
			ref := st.makeSliceMem(sl.Elem(), IntL(0))
			n := strLen(st, s)
			k := elemKey(sl.Elem())
			a := st.h.get(k, keySortOf(k, "Int", true), "", sl.Elem())
			row := UF("strbytes", "(Array Int Int)", s)
			st.h.m[k] = Store(a, ref, row)
			r := &SliceV{ref, IntL(0), n, n, sl.Elem()}
			st.assume(Eq(bstrTerm(row, IntL(0), n), s))
			return r
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return mkPtr(v.(*PtrV).ref, tu.(*types.Pointer).Elem())
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func bstrTerm(arr, off, n *T) *T { return UF("bstr", "Int", arr, off, n) }

func (ex *Exec) sliceRow(h *Heap, s *SliceV) *T {
	ls := leaves(s.elem)
	k := elemKey(s.elem) + ls[0].path
	return Select(h.get(k, keySortOf(k, ls[0].sort, true), ls[0].kind, ls[0].typ), s.ref)
}

func (ex *Exec) bytesToStr(st *State, s *SliceV) *T {
	r := bstrTerm(ex.sliceRow(st.h, s), s.off, s.ln)
	st.assume(Eq(UF("strlen", "Int", r), s.ln), Imp(Eq(s.ln, IntL(0)), Eq(r, IntL(0))))
	return r
}

// ---- unsafe idioms ----
func (ex *Exec) unsafeTo(st *State, u *UnsafeV, el types.Type) Val {
	p := u.p
	ft := p.typ
	switch {
	case isFloatType(ft) && isIntType(el), isIntType(ft) && isFloatType(el):
		key := "bits"
		return PtrV{ref: p.ref, key: key, idx: p.idx, typ: el}.withOrig(p)
	case named(el) == "reflect.SliceHeader":
		return PtrV{ref: p.ref, key: "sh:slice", typ: el}.withOrig(p)
	case isStringType(el) && (named(ft) == "reflect.StringHeader"):
		return PtrV{ref: p.ref, key: "sh:string", typ: el}.withOrig(p)
	case isStringType(el):
		if _, ok := ft.Underlying().(*types.Slice); ok {
			return PtrV{ref: p.ref, key: "sh:bytesstr", typ: el}.withOrig(p)
		}
	}
	unsup("unsafe conversion from *%s to *%s", ft, el)
	return nil
}

var unsafeOrig = map[*PtrV]*PtrV{}

func (p PtrV) withOrig(o *PtrV) *PtrV {
	n := &PtrV{ref: p.ref, key: p.key, idx: p.idx, typ: p.typ}
	unsafeOrig[n] = o
	return n
}

func f32bits(v *T) *T { return UF("f32bits", "Int", v) }

func (ex *Exec) loadUnsafe(st *State, p *PtrV) Val {
	o := unsafeOrig[p]
	v := st.load(o).(*T)
	if isFloatType(o.typ) {
		nm := fmt.Sprintf("f%dbits", floatBits(o.typ))
		if v.op == nm+"inv" {
			return v.args[0]
		}
		r := UF(nm, "Int", v)
		return ex.typedFresh(st, r, p.typ)
	}
	nm := fmt.Sprintf("f%dbitsinv", floatBits(p.typ))
	return UF(nm, "Real", v)
}

func (ex *Exec) loadHeader(st *State, p *PtrV) Val {
	o := unsafeOrig[p]
	switch p.key {
	case "sh:string":
		// reflect.StringHeader{Data, Len}: Data holds the backing pointer marker
		h := st.load(o).(*StructV)
		d := h.f[0].(*T)
		n := h.f[1].(*T)
		if s, ok := dataPtrs[d.id]; ok {
			ex.oblige(st, "safety", "string header length within the slice", And(Le(IntL(0), n), Le(n, s.cp)), "")
			return ex.bytesToStr(st, &SliceV{s.ref, s.off, n, s.cp, s.elem})
		}
		return UF("hdrstr", "Int", d, n)
	case "sh:slice.Data":
		s := st.load(o).(*SliceV)
		d := UF("dataptr", "Int", s.ref, s.off)
		dataPtrs[d.id] = s
		return ex.typedFresh(st, d, p.typ)
	case "sh:slice.Len":
		return st.load(o).(*SliceV).ln
	case "sh:slice.Cap":
		return st.load(o).(*SliceV).cp
	case "sh:bytesstr":
		s := st.load(o).(*SliceV)
		return ex.bytesToStr(st, s)
	}
	unsup("header load %s", p.key)
	return nil
}

var dataPtrs = map[int]*SliceV{}

func strLen(st *State, s *T) *T {
	if l, ok := litStr(s); ok {
		return IntL(int64(len(l)))
	}
	n := UF("strlen", "Int", s)
	setRange(n, new(big.Int), big.NewInt(maxLen))
	st.assume(Le(IntL(0), n), Le(n, IntL(maxLen)), Eq(Eq(n, IntL(0)), Eq(s, IntL(0))))
	return n
}

func strConcat(st *State, a, b *T) *T {
	la, oka := litStr(a)
	lb, okb := litStr(b)
	if oka && okb {
		return StrL(la + lb)
	}
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	r := UF("concat", "Int", a, b)
	st.assume(Eq(UF("strlen", "Int", r), Add(strLen(st, a), strLen(st, b))))
	return r
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
