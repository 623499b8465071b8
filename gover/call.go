package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	name string
	args []Val
	typs []types.Type
	sig  *types.Signature
	pos  string
}

func (c *callCtx) res(i int) types.Type { return c.sig.Results().At(i).Type() }

// model is a library model. It returns its results, or takes over with k.
type model func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) (rs []Val, took bool)

func simple(f func(ex *Exec, st *State, c *callCtx) []Val) model {
	return func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		return f(ex, st, c), false
	}
}

var libModels = map[string]model{}

// call executes a call. It returns true when it took over the continuation;
// otherwise the results are in lastResult.
func (ex *Exec) call(st *State, cc *ssa.CallCommon, fnv Val, args []Val, pos string, k func(*State, []Val)) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return ex.builtin(st, b.Name(), cc, args, pos, k)
	}
	var typs []types.Type
	for _, a := range cc.Args {
		typs = append(typs, a.Type())
	}
	if cc.IsInvoke() {
		return ex.invoke(st, cc, fnv.(*IfaceV), args, typs, pos, k)
	}
	if fn := cc.StaticCallee(); fn != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			return ex.callStatic(st, fn, args, typs, nil, pos, k)
		}
	}
	return ex.callValue(st, fnv.(*T), cc.Signature(), args, typs, pos, k)
}

// callValue calls a function value.
func (ex *Exec) callValue(st *State, fv *T, sig *types.Signature, args []Val, typs []types.Type, pos string, k func(*State, []Val)) bool {
	if fv.big != nil && fv.big.IsInt64() {
		id := fv.big.Int64()
		if c, ok := ex.closures[id]; ok {
			return ex.callStatic(st, c.fn, args, typs, c.bind, pos, k)
		}
		if fn, ok := funcByID[id]; ok {
			return ex.callStatic(st, fn, args, typs, nil, pos, k)
		}
	}
	ex.oblige(st, "safety", "called function value is not nil", Not(Eq(fv, IntL(0))), pos)
	if isScoreSig(sig) {
		lastResult = []Val{ex.scoreTerm(st, fv, args[0].(*SliceV), args[1].(*SliceV))}
		return false
	}
	lastResult = ex.arbitrary(st, sig, "call")
	return false
}

func isScoreSig(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return false
	}
	for i := 0; i < 2; i++ {
		s, ok := sig.Params().At(i).Type().Underlying().(*types.Slice)
		if !ok || floatBits(s.Elem()) != 32 || !isFloatType(s.Elem()) {
			return false
		}
	}
	return isFloatType(sig.Results().At(0).Type()) && floatBits(sig.Results().At(0).Type()) == 64
}

func (ex *Exec) vecTerm(h *Heap, s *SliceV) *T {
	return UF("vec", "Int", ex.sliceRow(h, s), s.off, s.ln)
}

func (ex *Exec) scoreTerm(st *State, f *T, a, b *SliceV) *T {
	return applyScore(f, ex.vecTerm(st.h, a), ex.vecTerm(st.h, b))
}

// applyScore: the built-in score functions are symmetric (property C13), so the
// arguments are put in a canonical order.
func applyScore(f, a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return UF("applyscore", "Real", f, a, b)
}

func (ex *Exec) arbitrary(st *State, sig *types.Signature, pfx string) []Val {
	st.bumpAlloc()
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, st.freshVal(pfx, sig.Results().At(i).Type()))
	}
	return rs
}

func (ex *Exec) callStatic(st *State, fn *ssa.Function, args []Val, typs []types.Type, bind []Val, pos string, k func(*State, []Val)) bool {
	name := short(fn.String())
	// receivers of methods are checked by their bodies or models
	if c := ex.contractFor(name); c != nil && fn != ex.root {
		return ex.applyContract(st, c, args, fn.Signature, pos, k)
	} else if c != nil && fn == ex.root && len(st.frames) > 0 {
		return ex.applyContract(st, c, args, fn.Signature, pos, k) // recursion
	}
	if ex.pureScores && fn.Pkg != nil && isScoreSig(fn.Signature) && inRepo(fn) && fn.Parent() == nil {
		lastResult = []Val{ex.scoreTerm(st, funcRef(fn), args[0].(*SliceV), args[1].(*SliceV))}
		ex.used["score functions (uninterpreted, symmetric: C13)"] = true
		return false
	}
	if m, ok := libModels[fn.String()]; ok {
		ex.models[fn.String()] = true
		c := &callCtx{name: fn.String(), args: args, typs: typs, sig: fn.Signature, pos: pos}
		rs, took := m(ex, st, c, k)
		if took {
			return true
		}
		lastResult = rs
		return false
	}
	if inRepo(fn) && !strings.HasSuffix(fn.Name(), ".init") {
		ex.callFunc(st, fn, args, bind, pos, k)
		return true
	}
	ex.ext[fn.String()] = true
	lastResult = ex.arbitrary(st, fn.Signature, fn.Name())
	return false
}

func ifaceName(t types.Type) string {
	n := named(t)
	if n == "" {
		return "interface"
	}
	return n
}

func (ex *Exec) invoke(st *State, cc *ssa.CallCommon, recv *IfaceV, args []Val, typs []types.Type, pos string, k func(*State, []Val)) bool {
	ex.oblige(st, "safety", "no method call on a nil interface ("+cc.Method.Name()+")", Not(Eq(recv.tag, IntL(0))), pos)
	return ex.invokeM(st, cc.Value.Type(), cc.Method, recv, args, typs, pos, k)
}

func (ex *Exec) invokeM(st *State, it types.Type, meth *types.Func, recv *IfaceV, args []Val, typs []types.Type, pos string, k func(*State, []Val)) bool {
	sig := meth.Type().(*types.Signature)
	if recv.tag.big != nil {
		if dt, ok := tagTypes[recv.tag.big.Int64()]; ok {
			sel := ex.prog.ssa.MethodSets.MethodSet(dt).Lookup(meth.Pkg(), meth.Name())
			if sel != nil {
				if fn := ex.prog.ssa.MethodValue(sel); fn != nil {
					r := ex.unbox(st, st.h, recv, dt)
					return ex.callStatic(st, fn, append([]Val{r}, args...), append([]types.Type{dt}, typs...), nil, pos, k)
				}
			}
		}
	}
	key := short(ifaceName(it)) + "." + meth.Name()
	if c := ex.contractFor(key); c != nil {
		return ex.applyContract(st, c, append([]Val{recv}, args...), sig, pos, k)
	}
	full := "iface:" + ifaceName(it) + "." + meth.Name()
	if m, ok := libModels[full]; ok {
		ex.models[full] = true
		c := &callCtx{name: full, args: append([]Val{recv}, args...), typs: append([]types.Type{it}, typs...), sig: sig, pos: pos}
		rs, took := m(ex, st, c, k)
		if took {
			return true
		}
		lastResult = rs
		return false
	}
	if recv.tag.big == nil {
		// the dynamic type may follow from what is known here
		if u, ok := it.Underlying().(*types.Interface); ok {
			for _, dt := range ex.prog.implementers(u) {
				g := Eq(recv.tag, typeTag(dt))
				if ex.entails(st, g) || !g.hasBV && solveQuick(st.pc, g) == "unsat" {
					st.valFacts(ex.unbox(st, st.h, recv, dt), dt)
					return ex.invokeM(st, it, meth, &IfaceV{typeTag(dt), recv.pay}, args, typs, pos, k)
				}
			}
		}
	}
	ex.ext[full] = true
	lastResult = ex.arbitrary(st, sig, meth.Name())
	return false
}

func (ex *Exec) contractFor(name string) *Contract {
	if ex.noContr[name] {
		return nil
	}
	c := ex.prog.specs.contracts[name]
	if c == nil || c.noapply {
		return nil
	}
	if c.applyFor != nil && !c.applyFor[ex.prop] {
		return nil
	}
	return c
}

// ---- goroutines ----

func bodyReceives(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return true
				}
			case *ssa.Select:
				return true
			case ssa.CallInstruction:
				if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil && f.Pkg == fn.Pkg {
					if bodyReceives(f, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func bodySignals(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return true
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
					return true
				}
				if f := x.Common().StaticCallee(); f != nil {
					if f.String() == "(*sync.WaitGroup).Done" {
						return true
					}
					if f.Blocks != nil && bodySignals(f, seen) {
						return true
					}
				}
				for _, a := range x.Common().Args {
					switch u := a.Type().Underlying().(type) {
					case *types.Chan:
						return true
					case *types.Pointer:
						if named(u.Elem()) == "sync.WaitGroup" {
							return true
						}
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if bodySignals(a, seen) {
			return true
		}
	}
	return false
}

// takesSync: the function is given a channel or a wait group.
func takesSync(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Chan:
			return true
		case *types.Pointer:
			if named(u.Elem()) == "sync.WaitGroup" {
				return true
			}
		}
	}
	return false
}

func (ex *Exec) spawn(st *State, g *ssa.Go, k func(*State)) {
	cc := &g.Call
	pos := ex.pos(g.Pos())
	var args []Val
	var typs []types.Type
	for _, a := range cc.Args {
		args = append(args, ex.val(st, a))
		typs = append(typs, a.Type())
	}
	if cc.IsInvoke() {
		recv := ex.val(st, cc.Value).(*IfaceV)
		if !ex.invoke(st, cc, recv, args, typs, pos, func(s *State, rs []Val) { k(s) }) {
			k(st)
		}
		return
	}
	fnv := ex.calleeVal(st, cc.Value)
	var fn *ssa.Function
	var bind []Val
	if f := cc.StaticCallee(); f != nil {
		fn = f
	}
	if t, ok := fnv.(*T); ok && t.big != nil && t.big.IsInt64() {
		if c, ok := ex.closures[t.big.Int64()]; ok {
			fn, bind = c.fn, c.bind
		} else if f, ok := funcByID[t.big.Int64()]; ok {
			fn = f
		}
	}
	if fn == nil {
		k(st)
		return
	}
	name := short(fn.String())
	if inRepo(fn) && fn.Parent() == nil && !takesSync(fn) {
		// a background task of its own: nothing waits for it here
		ex.spawned[name] = true
		k(st)
		return
	}
	if c := ex.contractFor(name); c != nil {
		if !ex.applyContract(st, c, args, fn.Signature, pos, func(s *State, rs []Val) { k(s) }) {
			k(st)
		}
		return
	}
	if !inRepo(fn) {
		if _, ok := libModels[fn.String()]; ok {
			if !ex.callStatic(st, fn, args, typs, bind, pos, func(s *State, rs []Val) { k(s) }) {
				k(st)
			}
			return
		}
		ex.ext["go "+fn.String()] = true
		k(st)
		return
	}
	recvs := bodyReceives(fn, map[*ssa.Function]bool{})
	signals := bodySignals(fn, map[*ssa.Function]bool{})
	if fn.Parent() == nil && !recvs && !signals {
		ex.spawned[name] = true
		k(st)
		return
	}
	if !recvs && signals {
		ex.callFunc(st, fn, args, bind, pos, func(s *State, rs []Val) { k(s) })
		return
	}
	// isolated: its obligations are checked, its effects are not seen by the spawner
	if ex.rootC != nil && ex.rootC.only == "body" {
		k(st)
		return
	}
	s2 := st.clone()
	s2.goro++
	for _, f := range s2.frames {
		for _, lc := range f.loops {
			_ = lc
		}
	}
	ex.callFunc(s2, fn, args, bind, pos, func(s *State, rs []Val) {
		if ex.rootC == nil || s.dry > 0 {
			return
		}
		for _, e := range ex.rootC.tasks {
			if e.forProp(ex.prop) {
				pc := s.pc
				ex.oblige(s, "task", e.label, ex.specCtx(s, ex.rootVars).boolExpr(e), e.where)
				s.pc = pc
			}
		}
	})
	if ex.rootC != nil && ex.rootC.only == "tasks" {
		return
	}
	k(st)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, name string, cc *ssa.CallCommon, args []Val, pos string, k func(*State, []Val)) bool {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "len" {
				lastResult = []Val{x.ln}
			} else {
				lastResult = []Val{x.cp}
			}
		case *T:
			t := cc.Args[0].Type()
			if isStringType(t) {
				lastResult = []Val{strLen(st, x)}
			} else if mt, ok := t.Underlying().(*types.Map); ok {
				lastResult = []Val{ex.mapLen(st, x, mt)}
			} else {
				lastResult = []Val{st.freshVal("chanlen", types.Typ[types.Int])}
				st.assume(Ge(lastResult[0].(*T), IntL(0)))
			}
		default:
			unsup("len of %T", args[0])
		}
		return false
	case "append":
		return ex.append(st, args, cc, pos, k)
	case "copy":
		d := args[0].(*SliceV)
		var srow, soff, sln *T
		var rows []*T
		switch s := args[1].(type) {
		case *SliceV:
			soff, sln = s.off, s.ln
			for _, l := range leaves(s.elem) {
				key := elemKey(s.elem) + l.path
				rows = append(rows, Select(st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ), s.ref))
			}
		case *T:
			soff, sln = IntL(0), strLen(st, s)
			rows = []*T{UF("strbytes", "(Array Int Int)", s)}
		}
		_ = srow
		n := Ite(Le(d.ln, sln), d.ln, sln)
		if ex.entails(st, Eq(d.ln, sln)) {
			n = d.ln
		} else if ex.entails(st, Le(sln, d.ln)) {
			n = sln
		}
		ex.splice(st, d.ref, d.elem, d.off, rows, soff, n, d.ref)
		lastResult = []Val{n}
		return false
	case "delete":
		ex.mapDelete(st, args[0].(*T), args[1].(*T), cc.Args[0].Type().Underlying().(*types.Map))
		lastResult = nil
		return false
	case "close":
		ch := args[0].(*T)
		ex.oblige(st, "safety", "no close of a nil or closed channel", And(Not(Eq(ch, IntL(0))), Not(st.get1("chan#closed", "Bool", "", ch))), pos)
		st.set1("chan#closed", "Bool", "", ch, True)
		lastResult = nil
		return false
	case "ssa:wrapnilchk":
		lastResult = []Val{args[0]}
		return false
	case "print", "println":
		lastResult = nil
		return false
	case "min", "max":
		a, b := args[0].(*T), args[1].(*T)
		if name == "min" {
			lastResult = []Val{Ite(Le(a, b), a, b)}
		} else {
			lastResult = []Val{Ite(Ge(a, b), a, b)}
		}
		return false
	case "recover":
		lastResult = []Val{&IfaceV{IntL(0), IntL(0)}}
		return false
	}
	unsup("builtin %s", name)
	return false
}

// splice writes n elements (rows at soff) into row of object src at position at and stores the result as row of object dst.
func (ex *Exec) splice(st *State, src *T, elem types.Type, at *T, rows []*T, soff, n *T, dst *T) {
	for i, l := range leaves(elem) {
		key := elemKey(elem) + l.path
		a := st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ)
		old := Select(a, src)
		nv := Fresh("row", "(Array Int "+l.sort+")")
		registerBase(nv.name, nv.sort, l.kind, l.typ, st.ctr)
		b := BVar("i", "Int")
		x := App("select", l.sort, nv, b)
		st.assume(Forall([]*T{b}, Eq(x, Ite(And(Le(at, b), Lt(b, Add(at, n))), Select(rows[i], Add(b, Sub(soff, at))), Select(old, b))), []*T{x}))
		if !isByte(elem) {
			// the same facts, found from the source
			if old.op != "constarr" {
				ob := App("select", l.sort, old, b)
				st.assume(Forall([]*T{b}, Imp(Not(And(Le(at, b), Lt(b, Add(at, n)))), Eq(ob, Select(nv, b))), []*T{ob}))
			}
			c := BVar("j", "Int")
			sj := App("select", l.sort, rows[i], c)
			st.assume(Forall([]*T{c}, Imp(And(Le(soff, c), Lt(c, Add(soff, n))), Eq(sj, Select(nv, Add(c, Sub(at, soff))))), []*T{sj}))
		}
		if isByte(elem) {
			ex.byteFacts(st, nv, old, at, rows[i], soff, n)
		} else if l.path == "" && l.sort == "Int" && len(leaves(elem)) == 1 {
			// equal contents: the same sequence and multiset
			st.assume(Eq(UF("seqid", "Int", nv, at, n), UF("seqid", "Int", rows[i], soff, n)), Eq(UF("msid", "Int", nv, at, n), UF("msid", "Int", rows[i], soff, n)))
		}
		st.setHeap(key, dst, nil, Store(a, dst, nv))
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ex *Exec) byteFacts(st *State, nv, old, at, row, soff, n *T) {
	st.assume(Eq(bstrTerm(nv, at, n), bstrTerm(row, soff, n)))
}

func (ex *Exec) append(st *State, args []Val, cc *ssa.CallCommon, pos string, k func(*State, []Val)) bool {
	s := args[0].(*SliceV)
	elem := s.elem
	var rows []*T
	var toff, tln *T
	switch t := args[1].(type) {
	case *SliceV:
		toff, tln = t.off, t.ln
		for _, l := range leaves(elem) {
			key := elemKey(elem) + l.path
			rows = append(rows, Select(st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ), t.ref))
		}
	case *T:
		toff, tln = IntL(0), strLen(st, t)
		rows = []*T{UF("strbytes", "(Array Int Int)", t)}
	default:
		unsup("append of %T", args[1])
	}
	total := Add(s.ln, tln)
	st.assume(Le(total, IntL(maxLen)))
	setRange(total, new(big.Int), big.NewInt(maxLen))
	write := func(st *State, dst *T) {
		if tln.big != nil && tln.big.Int64() <= 4 {
			n := tln.big.Int64()
			for i, l := range leaves(elem) {
				key := elemKey(elem) + l.path
				a := st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ)
				row := Select(a, s.ref)
				for j := int64(0); j < n; j++ {
					row = Store(row, Add(Add(s.off, s.ln), IntL(j)), Select(rows[i], Add(toff, IntL(j))))
				}
				st.setHeap(key, dst, nil, Store(a, dst, row))
			}
			return
		}
		for i := range rows {
			if isByte(elem) {
				st.assume(Eq(UF("strlen", "Int", bstrTerm(rows[i], toff, tln)), tln))
			}
		}
		var oldRows []*T
		for _, l := range leaves(elem) {
			key := elemKey(elem) + l.path
			oldRows = append(oldRows, Select(st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ), s.ref))
		}
		ex.splice(st, s.ref, elem, Add(s.off, s.ln), rows, toff, tln, dst)
		if isByte(elem) {
			key := elemKey(elem)
			nv := Select(st.h.m[key], dst)
			a, b := bstrTerm(oldRows[0], s.off, s.ln), bstrTerm(rows[0], toff, tln)
			st.assume(Eq(bstrTerm(nv, s.off, s.ln), a), Eq(bstrTerm(nv, s.off, total), UF("concat", "Int", a, b)))
		}
	}
	fits := Le(total, s.cp)
	inPlace := func(st *State) {
		write(st, s.ref)
		k(st, []Val{&SliceV{s.ref, s.off, total, s.cp, elem}})
	}
	grow := func(st *State) {
		ref := st.alloc()
		nc := Fresh("cap", "Int")
		setRange(nc, new(big.Int), big.NewInt(maxLen))
		st.assume(Le(total, nc), Le(nc, IntL(maxLen)))
		write(st, ref)
		k(st, []Val{&SliceV{ref, s.off, total, nc, elem}})
	}
	if tln.big != nil && tln.big.Sign() == 0 {
		lastResult = []Val{s}
		return false
	}
	if st.expl {
		// exploration: both effects
		s2 := st.clone()
		inPlace(s2)
		grow(st)
		return true
	}
	// growing a nil slice
	can := ex.feasible(st, And(fits, Or(Gt(tln, IntL(0)), Not(Eq(s.ref, IntL(0))))))
	must := !ex.feasible(st, Not(fits))
	empty := s.ln.big != nil && s.ln.big.Sign() == 0 && s.cp.big != nil && s.cp.big.Sign() == 0 && s.ref.big != nil && s.ref.big.Sign() > 0
	if tln.big == nil && !must && !empty && ex.feasible(st, Eq(tln, IntL(0))) {
		// nothing to append: the slice itself
		s2 := st.clone()
		s2.assume(Eq(tln, IntL(0)))
		k(s2, []Val{s})
		st.assume(Gt(tln, IntL(0)))
	}
	if can && !must {
		s2 := st.clone()
		s2.assume(fits)
		inPlace(s2)
		st.assume(Not(fits))
		grow(st)
	} else if must {
		inPlace(st)
	} else {
		st.assume(Not(fits))
		grow(st)
	}
	return true
}

// ---- maps ----

func mapKey(mt *types.Map) string { return "M:" + shortType(mt) }

func (ex *Exec) mapInit(st *State, ref *T, mt *types.Map) {
	k := mapKey(mt)
	a := st.h.arr2(k+"#has", "Bool", "")
	st.h.m[k+"#has"] = Store(a, ref, ConstArr("(Array Int Bool)", False))
	n := st.h.arr1(k+"#n", "Int", "")
	st.h.m[k+"#n"] = Store(n, ref, IntL(0))
}

func mapHasRow(h *Heap, mt *types.Map, m *T) *T {
	return Select(h.arr2(mapKey(mt)+"#has", "Bool", ""), m)
}

func mapVal(h *Heap, mt *types.Map, m, key *T) []*T {
	var ts []*T
	for _, l := range leaves(mt.Elem()) {
		k := mapKey(mt) + "#val" + l.path
		a := h.get(k, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
		ts = append(ts, Select(Select(a, m), key))
	}
	return ts
}

func (ex *Exec) mapKeyTerm(v Val) *T {
	t, ok := v.(*T)
	if !ok || t.sort != "Int" {
		unsup("map key %T", v)
	}
	return t
}

func (ex *Exec) mapUpdate(st *State, x *ssa.MapUpdate) {
	m := ex.val(st, x.Map).(*T)
	mt := x.Map.Type().Underlying().(*types.Map)
	ex.oblige(st, "safety", "no write to a nil map", Not(Eq(m, IntL(0))), ex.pos(x.Pos()))
	ex.mapSet(st, m, ex.mapKeyTerm(ex.val(st, x.Key)), ex.val(st, x.Value), mt)
}

func (ex *Exec) mapSet(st *State, m, key *T, v Val, mt *types.Map) {
	k := mapKey(mt)
	has := Select(mapHasRow(st.h, mt, m), key)
	n := st.get1(k+"#n", "Int", "", m)
	st.assume(Ge(n, IntL(0)), Le(n, IntL(maxLen)))
	setRange(n, new(big.Int), big.NewInt(maxLen))
	st.set1(k+"#n", "Int", "", m, Ite(has, n, Add(n, IntL(1))))
	st.set2(k+"#has", "Bool", "", m, key, True)
	ts := flatten(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		kk := k + "#val" + l.path
		a := st.h.get(kk, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
		st.setHeap(kk, m, key, Store(a, m, Store(Select(a, m), key, ts[i])))
	}
}

func (ex *Exec) mapDelete(st *State, m, key *T, mt *types.Map) {
	k := mapKey(mt)
	has := Select(mapHasRow(st.h, mt, m), key)
	n := st.get1(k+"#n", "Int", "", m)
	st.set1(k+"#n", "Int", "", m, Ite(has, Sub(n, IntL(1)), n))
	st.set2(k+"#has", "Bool", "", m, key, False)
}

func (ex *Exec) mapLen(st *State, m *T, mt *types.Map) *T {
	n := st.get1(mapKey(mt)+"#n", "Int", "", m)
	n = Ite(Eq(m, IntL(0)), IntL(0), n)
	ex.countFacts(st, mapHasRow(st.h, mt, m), n)
	return n
}

// countFacts relates the number of elements with the membership row.
func (ex *Exec) countFacts(st *State, row, n *T) {
	st.assume(Ge(n, IntL(0)), Le(n, IntL(maxLen)))
	setRange(n, new(big.Int), big.NewInt(maxLen))
	b := BVar("k", "Int")
	w := UF("someof", "Int", row)
	st.assume(Imp(Eq(n, IntL(0)), Forall([]*T{b}, Not(Select(row, b)))))
	st.assume(Imp(Gt(n, IntL(0)), Select(row, w)))
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup) Val {
	if isStringType(x.X.Type()) {
		s := ex.val(st, x.X).(*T)
		i := ex.val(st, x.Index).(*T)
		ex.oblige(st, "safety", "string index in range", And(Le(IntL(0), i), Lt(i, strLen(st, s))), ex.pos(x.Pos()))
		return ex.typedFresh(st, UF("charat", "Int", s, i), x.Type())
	}
	m := ex.val(st, x.X).(*T)
	mt := x.X.Type().Underlying().(*types.Map)
	key := ex.mapKeyTerm(ex.val(st, x.Index))
	if gm := ex.prog.gmapByRef(m); gm != nil {
		zero := flatten(zeroVal(mt.Elem()), mt.Elem())
		has := False
		cur := zero
		for i := len(gm.keys) - 1; i >= 0; i-- {
			e := Eq(key, gm.keys[i])
			vs := flatten(gm.vals[i], mt.Elem())
			nc := make([]*T, len(cur))
			for j := range cur {
				nc[j] = Ite(e, vs[j], cur[j])
			}
			cur = nc
			has = Or(e, has)
		}
		v := build(cur, mt.Elem())
		if x.CommaOk {
			return &TupleV{[]Val{v, has}}
		}
		return v
	}
	has := And(Not(Eq(m, IntL(0))), Select(mapHasRow(st.h, mt, m), key))
	vals := mapVal(st.h, mt, m, key)
	zero := flatten(zeroVal(mt.Elem()), mt.Elem())
	var rs []*T
	for i := range vals {
		rs = append(rs, Ite(has, vals[i], zero[i]))
	}
	v := build(rs, mt.Elem())
	st.valFacts(v, mt.Elem())
	if x.CommaOk {
		return &TupleV{[]Val{v, has}}
	}
	return v
}

func (ex *Exec) mapNext(st *State, x *ssa.Next, k func(*State, Val)) {
	it, ok := ex.val(st, x.Iter).(*IterV)
	if !ok {
		unsup("next on %T", ex.val(st, x.Iter))
	}
	mt := it.typ
	m := st.get1("vismap", "Int", "", it.m)
	row := mapHasRow(st.h, mt, m)
	vis := Select(st.h.arr2(it.visKey, "Bool", ""), it.m)
	cnt := st.get1("viscnt", "Int", "", it.m)
	tt := x.Type().(*types.Tuple)
	zero := func(i int) Val {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return IntL(0)
		}
		return zeroVal(t)
	}
	// exit
	s2 := st.clone()
	b := BVar("k", "Int")
	s2.assume(Or(Eq(m, IntL(0)), Forall([]*T{b}, Imp(Select(row, b), Select(vis, b)))))
	s2.assume(Imp(Not(Eq(m, IntL(0))), Eq(cnt, s2.get1(mapKey(mt)+"#n", "Int", "", m))))
	k(s2, &TupleV{[]Val{False, zero(1), zero(2)}})
	// one more element
	key := Fresh("key", "Int")
	st.assume(Not(Eq(m, IntL(0))), Select(row, key), Not(Select(vis, key)))
	st.assume(Ge(cnt, IntL(0)), Lt(cnt, st.get1(mapKey(mt)+"#n", "Int", "", m)))
	if isIntType(mt.Key()) {
		st.leafFacts(leaves(mt.Key())[0], key)
	}
	st.set2(it.visKey, "Bool", "", it.m, key, True)
	st.set1("viscnt", "Int", "", it.m, Add(cnt, IntL(1)))
	st.set1("viscur", "Int", "", it.m, key)
	var v Val = IntL(0)
	vt := tt.At(2).Type()
	if b, ok := vt.(*types.Basic); !ok || b.Kind() != types.Invalid {
		v = build(mapVal(st.h, mt, m, key), mt.Elem())
		st.valFacts(v, mt.Elem())
	}
	k(st, &TupleV{[]Val{True, key, v}})
}

// ---- channels ----

func (ex *Exec) chanInit(st *State, ref *T) {
	for _, g := range []string{"chan#n", "chan#rn"} {
		a := st.h.arr1(g, "Int", "")
		st.h.m[g] = Store(a, ref, IntL(0))
	}
	a := st.h.arr1("chan#closed", "Bool", "")
	st.h.m["chan#closed"] = Store(a, ref, False)
	a = st.h.arr1("chan#timer", "Bool", "")
	st.h.m["chan#timer"] = Store(a, ref, False)
	ex.localChans[ref.id] = true
}

func chanKey(el types.Type) string { return "chan:" + shortType(el) }

func chanElem(h *Heap, el types.Type, ch, i *T) []*T {
	var ts []*T
	for _, l := range leaves(el) {
		k := chanKey(el) + l.path
		a := h.get(k, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
		ts = append(ts, Select(Select(a, ch), i))
	}
	return ts
}

func (ex *Exec) send(st *State, ch *T, v Val, el types.Type, pos string) {
	ex.oblige(st, "safety", "no send on a closed channel", Not(st.get1("chan#closed", "Bool", "", ch)), pos)
	ex.chanLog(st, ch, v, el, pos)
}

func (ex *Exec) chanLog(st *State, ch *T, v Val, el types.Type, pos string) {
	if inv := ex.prog.specs.chanInv(ex, el); inv != nil {
		for _, c := range inv.clauses {
			if c.forProp(ex.prop) {
				ctx := ex.specCtx(st, nil)
				ctx.vars[inv.v] = SV{v, el}
				ex.oblige(st, "chaninv", c.label, ctx.boolExpr(c), pos)
			}
		}
	}
	n := st.get1("chan#n", "Int", "", ch)
	setRange(n, new(big.Int), big.NewInt(maxLen))
	st.assume(Ge(n, IntL(0)), Lt(n, IntL(maxLen)))
	ts := flatten(v, el)
	for i, l := range leaves(el) {
		k := chanKey(el) + l.path
		a := st.h.get(k, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
		st.setHeap(k, ch, n, Store(a, ch, Store(Select(a, ch), n, ts[i])))
	}
	st.set1("chan#n", "Int", "", ch, Add(n, IntL(1)))
	for _, w := range st.doneWGs {
		st.set1("wg#late", "Bool", "", w, True)
	}
}

// recv receives one element; the continuation is called for every possible outcome.
func (ex *Exec) recv(st *State, ch *T, el types.Type, commaOk bool, pos string, k func(*State, Val, *T)) {
	n := st.get1("chan#n", "Int", "", ch)
	rn := st.get1("chan#rn", "Int", "", ch)
	closed := st.get1("chan#closed", "Bool", "", ch)
	if st.goro > 0 || !(ch.big != nil && ex.localChans[ch.id]) {
		// open world: other goroutines may send and close
		s2 := st.clone()
		v := s2.freshVal("recv", el)
		ex.assumeChanInv(s2, v, el)
		s2.set1("chan#rn", "Int", "", ch, Add(rn, IntL(1)))
		k(s2, v, True)
		if commaOk || true {
			st.assume(Eq(IntL(0), IntL(0)))
			if st.get1("chan#timer", "Bool", "", ch) == True {
				return
			}
			k(st, zeroVal(el), False)
		}
		return
	}
	setRange(rn, new(big.Int), big.NewInt(maxLen))
	more := Lt(rn, n)
	if ex.feasible(st, more) {
		s2 := st.clone()
		s2.assume(more, Ge(rn, IntL(0)))
		v := build(chanElem(s2.h, el, ch, rn), el)
		s2.valFacts(v, el)
		ex.assumeChanInv(s2, v, el)
		s2.set1("chan#rn", "Int", "", ch, Add(rn, IntL(1)))
		k(s2, v, True)
	}
	end := And(closed, Eq(rn, n))
	if ex.feasible(st, end) {
		st.assume(end)
		k(st, zeroVal(el), False)
	}
}

func (ex *Exec) assumeChanInv(st *State, v Val, el types.Type) {
	if inv := ex.prog.specs.chanInv(ex, el); inv != nil {
		for _, c := range inv.clauses {
			if c.forProp(ex.prop) {
				ctx := ex.specCtx(st, nil)
				ctx.vars[inv.v] = SV{v, el}
				st.assume(ctx.boolExpr(c))
			}
		}
	}
}

func (ex *Exec) execSelect(st *State, x *ssa.Select, k func(*State, Val)) {
	// result: (index, recvOk, recv0, recv1, ...)
	nrecv := 0
	idxOf := make([]int, len(x.States))
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			idxOf[i] = nrecv
			nrecv++
		}
	}
	mkRes := func(st *State, i int, ok *T, v Val) Val {
		tt := x.Type().(*types.Tuple)
		tv := &TupleV{[]Val{IntL(int64(i)), ok}}
		for j := 2; j < tt.Len(); j++ {
			if i >= 0 && x.States[i].Dir == types.RecvOnly && j-2 == idxOf[i] {
				tv.f = append(tv.f, v)
			} else {
				tv.f = append(tv.f, zeroVal(tt.At(j).Type()))
			}
		}
		return tv
	}
	for i, s := range x.States {
		i, s := i, s
		s2 := st.clone()
		ch := ex.val(s2, s.Chan).(*T)
		el := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if s.Dir == types.SendOnly {
			ex.send(s2, ch, ex.val(s2, s.Send), el, ex.pos(s.Pos))
			k(s2, mkRes(s2, i, False, nil))
			continue
		}
		ex.recv(s2, ch, el, true, ex.pos(s.Pos), func(s3 *State, v Val, ok *T) {
			tm := s3.get1("chan#timer", "Bool", "", ch)
			if tm != False {
				td := s3.ghost("timedout", "Bool")
				s3.setGhost("timedout", Or(td, tm))
			}
			k(s3, mkRes(s3, i, ok, v))
		})
	}
	if !x.Blocking {
		k(st.clone(), mkRes(st, -1, False, nil))
	}
}

var _ = fmt.Sprint

// implementers lists the pointer types of the repository that implement an interface
// declared in it.
func (p *Prog) implementers(it *types.Interface) []types.Type {
	if r, ok := p.impls[it]; ok {
		return r
	}
	var out []types.Type
	var names []string
	for n := range p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sc := p.pkgs[n].Pkg.Scope()
		for _, on := range sc.Names() {
			tn, ok := sc.Lookup(on).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) || it.NumMethods() == 0 {
				continue
			}
			if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	if p.impls == nil {
		p.impls = map[*types.Interface][]types.Type{}
	}
	p.impls[it] = out
	return out
}
