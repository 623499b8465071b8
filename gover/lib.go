package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Models of library functions. Every model used in a run is listed in the evidence
// as an assumed contract on a dependency.

const gocache = "(*github.com/bgokden/go-cache.cache)."

var strType = types.Typ[types.String]

var pseudoErrT = types.NewNamed(types.NewTypeName(0, nil, "gover.errorValue", nil), types.Typ[types.Int], nil)

func mkError(msg *T) *IfaceV { return &IfaceV{typeTag(pseudoErrT), UF("errval", "Int", msg)} }

var nilIface = &IfaceV{IntL(0), IntL(0)}

func errMsg(e *IfaceV) *T {
	if e.pay.op == "errval" {
		return e.pay.args[0]
	}
	return UF("errmsg", "Int", e.tag, e.pay)
}

func reg(name string, f func(ex *Exec, st *State, c *callCtx) []Val) { libModels[name] = simple(f) }
func regk(name string, f model)                                    { libModels[name] = f }

// keyTerm: key of a container indexed by interfaces
func ifaceKey(i *IfaceV) *T {
	if i.tag == typeTag(strType) {
		return i.pay
	}
	return UF("ikey", "Int", i.tag, i.pay)
}

func ptrArg(v Val) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		unsup("pointer argument is %T", v)
	}
	return p
}

// go-cache
func gcHasRow(h *Heap, c *T) *T { return Select(h.arr2("GC#has", "Bool", ""), c) }
func gcVal(h *Heap, c, k *T) *IfaceV {
	return &IfaceV{Select(Select(h.arr2("GC#t", "Int", "tag"), c), k), Select(Select(h.arr2("GC#v", "Int", "pay"), c), k)}
}
func gcSet(st *State, c, k *T, v *IfaceV, d *T) {
	st.set2("GC#has", "Bool", "", c, k, True)
	st.set2("GC#t", "Int", "tag", c, k, v.tag)
	st.set2("GC#v", "Int", "pay", c, k, v.pay)
	st.set2("GC#exp", "Int", "", c, k, d)
}

func branch(ex *Exec, st *State, c *T, a, b func(*State)) {
	tOK, fOK := ex.feasible(st, c), ex.feasible(st, Not(c))
	if tOK && fOK {
		s2 := st.clone()
		s2.assumeB(c)
		a(s2)
		st.assumeB(Not(c))
		b(st)
	} else if tOK {
		st.assumeB(c)
		a(st)
	} else if fOK {
		st.assumeB(Not(c))
		b(st)
	}
}

// loadArgs reads the elements of a variadic slice of literal length.
func (ex *Exec) variadic(st *State, v Val) []Val {
	s, ok := v.(*SliceV)
	if !ok || s.ln.big == nil {
		return nil
	}
	var out []Val
	for i := int64(0); i < s.ln.big.Int64(); i++ {
		p := &PtrV{ref: s.ref, key: elemKey(s.elem), idx: Add(s.off, IntL(i)), typ: s.elem}
		out = append(out, build(loadFrom(st.h, p), s.elem))
	}
	return out
}

func (ex *Exec) sprintf(st *State, f *T, args []Val) *T {
	lit, ok := litStr(f)
	if ok {
		// only %s/%v verbs on strings and integers: a concatenation
		var parts []*T
		rest := lit
		i := 0
		good := true
		for good {
			p := strings.IndexByte(rest, '%')
			if p < 0 {
				parts = append(parts, StrL(rest))
				break
			}
			parts = append(parts, StrL(rest[:p]))
			if p+1 >= len(rest) || i >= len(args) {
				good = false
				break
			}
			verb := rest[p+1]
			rest = rest[p+2:]
			iv, isI := args[i].(*IfaceV)
			i++
			if !isI {
				good = false
				break
			}
			switch {
			case (verb == 's' || verb == 'v') && iv.tag == typeTag(strType):
				parts = append(parts, iv.pay)
			case verb == 's' || verb == 'v' || verb == 'd':
				parts = append(parts, UF("fmtv", "Int", iv.tag, iv.pay))
			default:
				good = false
			}
		}
		if good && i == len(args) {
			r := StrL("")
			for _, p := range parts {
				r = strConcat(st, r, p)
			}
			return r
		}
	}
	ts := []*T{f}
	for _, a := range args {
		if iv, ok := a.(*IfaceV); ok {
			ts = append(ts, iv.tag, iv.pay)
		}
	}
	r := UF(fmt.Sprintf("sprintf%d", len(ts)), "Int", ts...)
	strLen(st, r)
	return r
}

// pieces of a concatenation
func pieces(t *T) []*T {
	if t.op == "concat" {
		return append(pieces(t.args[0]), pieces(t.args[1])...)
	}
	return []*T{t}
}

func strContains(s, sub *T) *T {
	ls, ok1 := litStr(s)
	lb, ok2 := litStr(sub)
	if ok1 && ok2 {
		return BoolL(strings.Contains(ls, lb))
	}
	if ok2 {
		if lb == "" {
			return True
		}
		for _, p := range pieces(s) {
			if l, ok := litStr(p); ok && strings.Contains(l, lb) {
				return True
			}
		}
	}
	return UF("strcontains", "Bool", s, sub)
}

func hasPrefix(s, p *T) *T {
	lp, ok := litStr(p)
	if ok {
		if lp == "" {
			return True
		}
		ps := pieces(s)
		if l, ok := litStr(ps[0]); ok && (len(l) >= len(lp) || len(ps) == 1) {
			return BoolL(strings.HasPrefix(l, lp))
		}
	}
	return UF("hasprefix", "Bool", s, p)
}

func seqTerm(ex *Exec, h *Heap, s *SliceV) *T {
	return UF("seqid", "Int", ex.sliceRow(h, s), s.off, s.ln)
}
func msTerm(ex *Exec, h *Heap, s *SliceV) *T {
	return UF("msid", "Int", ex.sliceRow(h, s), s.off, s.ln)
}

// newTime: the clock never goes back
func (ex *Exec) now(st *State) *T {
	t := Fresh("now", "Int")
	setRange(t, big.NewInt(1000000000), new(big.Int).Sub(pow2(40), big.NewInt(1)))
	st.assume(Le(IntL(1000000000), t), Lt(t, IntB(pow2(40))))
	prev := st.ghost("clock", "Int")
	st.assume(Le(prev, t))
	st.setGhost("clock", t)
	return t
}

func (ex *Exec) newObj(st *State, t types.Type) *PtrV {
	ref := st.alloc()
	return mkPtr(ref, t)
}

// freshBytes makes a new byte slice with the given content identity.
func (ex *Exec) freshBytes(st *State, content *T) *SliceV {
	elem := types.Typ[types.Uint8]
	ref := st.alloc()
	k := elemKey(elem)
	a := st.h.get(k, keySortOf(k, "Int", true), "", elem)
	row := UF("strbytes", "(Array Int Int)", content)
	st.h.m[k] = Store(a, ref, row)
	n := strLen(st, content)
	st.assume(Eq(bstrTerm(row, IntL(0), n), content))
	return &SliceV{ref, IntL(0), n, n, elem}
}

func exported(path string) bool {
	// ".Name..." of a leaf
	p := strings.TrimPrefix(path, ".")
	return p != "" && p[0] >= 'A' && p[0] <= 'Z'
}

// contentTerms describes a struct by the values json or copier see.
func (ex *Exec) contentTerms(h *Heap, p *PtrV) []*T {
	ls := leaves(p.typ)
	ts := loadFrom(h, p)
	var out []*T
	for i := 0; i < len(ls); i++ {
		if !exported(ls[i].path) {
			continue
		}
		if ls[i].kind == "ref" && i+3 < len(ls) && ls[i+1].kind == "off" {
			sl := &SliceV{ts[i], ts[i+1], ts[i+2], ts[i+3], ls[i].typ.Underlying().(*types.Slice).Elem()}
			out = append(out, seqTerm(ex, h, sl))
			i += 3
			continue
		}
		if ls[i].sort == "Bool" {
			out = append(out, Ite(ts[i], IntL(1), IntL(0)))
			continue
		}
		if ls[i].sort == "Real" {
			out = append(out, UF("f2i", "Int", ts[i]))
			continue
		}
		out = append(out, ts[i])
	}
	return out
}

// jsonTerm: the JSON text of a struct is a function of its exported content.
func (ex *Exec) jsonTerm(h *Heap, p *PtrV) *T {
	return Ite(Eq(p.ref, IntL(0)), StrL("null"), UF("jsonenc_"+sanitize(short(shortType(p.typ))), "Int", ex.contentTerms(h, p)...))
}

func (ex *Exec) sortPerm(st *State, s *SliceV) (post func(*State)) {
	n, off := s.ln, s.off
	ls := leaves(s.elem)
	if len(ls) == 1 && ls[0].path == "" && ls[0].sort == "Int" {
		// the same elements, each as often as before (distinct ones stay distinct), and
		// nothing outside of the slice changes
		l := ls[0]
		key := elemKey(s.elem)
		a := st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ)
		old := Select(a, s.ref)
		nv := Fresh("sorted", "(Array Int Int)")
		registerBase(nv.name, nv.sort, l.kind, l.typ, st.ctr)
		b := BVar("i", "Int")
		x := App("select", "Int", nv, b)
		st.assume(Forall([]*T{b}, Imp(Or(Lt(b, off), Le(Add(off, n), b)), Eq(x, Select(old, b))), []*T{x}))
		so, sn := UF("setof", "(Array Int Bool)", old, off, n), UF("setof", "(Array Int Bool)", nv, off, n)
		st.assume(Eq(sn, so))
		distinct := func(r *T) *T {
			i, j := BVar("i", "Int"), BVar("j", "Int")
			ri, rj := App("select", "Int", r, i), App("select", "Int", r, j)
			return Forall([]*T{i, j}, Imp(And(Le(off, i), Lt(i, j), Lt(j, Add(off, n))), Not(Eq(ri, rj))), []*T{ri, rj})
		}
		st.assume(Imp(distinct(old), distinct(nv)))
		st.setHeap(key, s.ref, nil, Store(a, s.ref, nv))
		return nil
	}
	p, q := Fresh("perm", "(Array Int Int)"), Fresh("perminv", "(Array Int Int)")
	i := BVar("i", "Int")
	in := func(x *T) *T { return And(Le(IntL(0), x), Lt(x, n)) }
	pi, qi := App("select", "Int", p, i), App("select", "Int", q, i)
	st.assume(Forall([]*T{i}, Imp(in(i), And(in(pi), Eq(App("select", "Int", q, pi), i))), []*T{pi}))
	st.assume(Forall([]*T{i}, Imp(in(i), And(in(qi), Eq(App("select", "Int", p, qi), i))), []*T{qi}))
	for _, l := range ls {
		key := elemKey(s.elem) + l.path
		a := st.h.get(key, keySortOf(key, l.sort, true), l.kind, l.typ)
		old := Select(a, s.ref)
		nv := Fresh("sorted", "(Array Int "+l.sort+")")
		registerBase(nv.name, nv.sort, l.kind, l.typ, st.ctr)
		b := BVar("i", "Int")
		x := App("select", l.sort, nv, b)
		src := Add(off, App("select", "Int", p, Sub(b, off)))
		st.assume(Forall([]*T{b}, Eq(x, Ite(And(Le(off, b), Lt(b, Add(off, n))), Select(old, src), Select(old, b))), []*T{x}))
		c := BVar("j", "Int")
		oj := App("select", l.sort, old, c)
		dst := Add(off, App("select", "Int", q, Sub(c, off)))
		st.assume(Forall([]*T{c}, Imp(And(Le(off, c), Lt(c, Add(off, n))), Eq(oj, Select(nv, dst))), []*T{oj}))
		st.setHeap(key, s.ref, nil, Store(a, s.ref, nv))
	}
	return nil
}

// pureCall evaluates a function value on terms with bound variables and returns the boolean result.
func (ex *Exec) pureBool(st *State, f *T, args []Val) *T {
	s := st.clone()
	s.expl = true
	s.dry++
	s.writes = nil
	s.bvpc = nil
	s.capture = true
	base := len(s.pc)
	depth := len(s.frames)
	_ = depth
	var alts []*T
	done := func(s2 *State, rs []Val) {
		cond := append([]*T{}, s2.bvpc...)
		alts = append(alts, And(And(cond...), rs[0].(*T)))
		_ = base
	}
	sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	saved := lastResult
	if !ex.callValue(s, f, sig, args, nil, "", done) {
		done(s, lastResult)
	}
	lastResult = saved
	return Or(alts...)
}

var writeTo func(st *State, w *IfaceV, s *T) bool

func init() {
	// ---- go-cache ----
	reg("github.com/bgokden/go-cache.New", func(ex *Exec, st *State, c *callCtx) []Val {
		ref := st.alloc()
		a := st.h.arr2("GC#has", "Bool", "")
		st.h.m["GC#has"] = Store(a, ref, ConstArr("(Array Int Bool)", False))
		return []Val{mkPtr(ref, c.res(0).Underlying().(*types.Pointer).Elem())}
	})
	reg(gocache+"Get", func(ex *Exec, st *State, c *callCtx) []Val {
		r, k := ptrArg(c.args[0]).ref, c.args[1].(*T)
		has := Select(gcHasRow(st.h, r), k)
		v := gcVal(st.h, r, k)
		iv := &IfaceV{Ite(has, v.tag, IntL(0)), Ite(has, v.pay, IntL(0))}
		return []Val{iv, has}
	})
	reg(gocache+"Set", func(ex *Exec, st *State, c *callCtx) []Val {
		gcSet(st, ptrArg(c.args[0]).ref, c.args[1].(*T), c.args[2].(*IfaceV), c.args[3].(*T))
		return nil
	})
	reg(gocache+"SetDefault", func(ex *Exec, st *State, c *callCtx) []Val {
		gcSet(st, ptrArg(c.args[0]).ref, c.args[1].(*T), c.args[2].(*IfaceV), IntL(0))
		return nil
	})
	regk(gocache+"Add", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		r, key := ptrArg(c.args[0]).ref, c.args[1].(*T)
		has := Select(gcHasRow(st.h, r), key)
		branch(ex, st, has, func(s *State) {
			msg := ex.sprintf(s, StrL("Item %s already exists"), []Val{&IfaceV{typeTag(strType), key}})
			k(s, []Val{mkError(msg)})
		}, func(s *State) {
			gcSet(s, r, key, c.args[2].(*IfaceV), c.args[3].(*T))
			// ghost: the key was added by a single atomic operation that found it absent
			s.set2("GC#claim", "Bool", "", r, key, True)
			k(s, []Val{nilIface})
		})
		return nil, true
	})
	reg(gocache+"Delete", func(ex *Exec, st *State, c *callCtx) []Val {
		st.set2("GC#has", "Bool", "", ptrArg(c.args[0]).ref, c.args[1].(*T), False)
		return nil
	})
	reg(gocache+"Items", func(ex *Exec, st *State, c *callCtx) []Val {
		r := ptrArg(c.args[0]).ref
		mt := c.res(0).Underlying().(*types.Map)
		m := st.alloc()
		k := mapKey(mt)
		row := gcHasRow(st.h, r)
		a := st.h.arr2(k+"#has", "Bool", "")
		st.h.m[k+"#has"] = Store(a, m, row)
		n := Fresh("items", "Int")
		b := st.h.arr1(k+"#n", "Int", "")
		st.h.m[k+"#n"] = Store(b, m, n)
		ex.countFacts(st, row, n)
		for _, l := range leaves(mt.Elem()) {
			kk := k + "#val" + l.path
			arr := st.h.get(kk, "(Array Int (Array Int "+l.sort+"))", l.kind, l.typ)
			var v *T
			switch l.path {
			case ".Object#t":
				v = Select(st.h.arr2("GC#t", "Int", "tag"), r)
			case ".Object#v":
				v = Select(st.h.arr2("GC#v", "Int", "pay"), r)
			default:
				v = Fresh("exp", "(Array Int "+l.sort+")")
			}
			st.h.m[kk] = Store(arr, m, v)
		}
		return []Val{m}
	})
	reg(gocache+"ItemCount", func(ex *Exec, st *State, c *callCtx) []Val {
		n := Fresh("count", "Int")
		ex.countFacts(st, gcHasRow(st.h, ptrArg(c.args[0]).ref), n)
		return []Val{n}
	})
	reg(gocache+"IncrementExpiration", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{st.freshVal("err", c.res(0))}
	})
	reg(gocache+"OnEvicted", func(ex *Exec, st *State, c *callCtx) []Val {
		st.set1("GC#evict", "Int", "", ptrArg(c.args[0]).ref, c.args[1].(*T))
		return nil
	})
	reg(gocache+"Flush", func(ex *Exec, st *State, c *callCtx) []Val {
		st.set2row("GC#has", "Bool", "", ptrArg(c.args[0]).ref, ConstArr("(Array Int Bool)", False))
		return nil
	})

	// ---- sync.Map ----
	smHas := func(h *Heap, p *PtrV) *T { return Select(h.arr2(p.key+"#has", "Bool", ""), p.ref) }
	smVal := func(h *Heap, p *PtrV, k *T) *IfaceV {
		return &IfaceV{Select(Select(h.arr2(p.key+"#t", "Int", "tag"), p.ref), k), Select(Select(h.arr2(p.key+"#v", "Int", "pay"), p.ref), k)}
	}
	smStore := func(st *State, p *PtrV, k *T, v *IfaceV) {
		st.set2(p.key+"#has", "Bool", "", p.ref, k, True)
		st.set2(p.key+"#t", "Int", "tag", p.ref, k, v.tag)
		st.set2(p.key+"#v", "Int", "pay", p.ref, k, v.pay)
	}
	smLoad := func(st *State, p *PtrV, k *T) (*IfaceV, *T) {
		has := Select(smHas(st.h, p), k)
		v := smVal(st.h, p, k)
		return &IfaceV{Ite(has, v.tag, IntL(0)), Ite(has, v.pay, IntL(0))}, has
	}
	reg("(*sync.Map).Load", func(ex *Exec, st *State, c *callCtx) []Val {
		v, has := smLoad(st, ptrArg(c.args[0]), ifaceKey(c.args[1].(*IfaceV)))
		return []Val{v, has}
	})
	reg("(*sync.Map).Store", func(ex *Exec, st *State, c *callCtx) []Val {
		smStore(st, ptrArg(c.args[0]), ifaceKey(c.args[1].(*IfaceV)), c.args[2].(*IfaceV))
		return nil
	})
	reg("(*sync.Map).Swap", func(ex *Exec, st *State, c *callCtx) []Val {
		p, k := ptrArg(c.args[0]), ifaceKey(c.args[1].(*IfaceV))
		v, has := smLoad(st, p, k)
		smStore(st, p, k, c.args[2].(*IfaceV))
		return []Val{v, has}
	})
	regk("(*sync.Map).LoadOrStore", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		p, key := ptrArg(c.args[0]), ifaceKey(c.args[1].(*IfaceV))
		v, has := smLoad(st, p, key)
		branch(ex, st, has, func(s *State) { k(s, []Val{v, True}) }, func(s *State) {
			smStore(s, p, key, c.args[2].(*IfaceV))
			k(s, []Val{c.args[2], False})
		})
		return nil, true
	})
	reg("(*sync.Map).Delete", func(ex *Exec, st *State, c *callCtx) []Val {
		p := ptrArg(c.args[0])
		st.set2(p.key+"#has", "Bool", "", p.ref, ifaceKey(c.args[1].(*IfaceV)), False)
		if ex.prop == "C07" { // ghost: number of removals
			st.setGhost("dels", Add(st.ghost("dels", "Int"), IntL(1)))
		}
		return nil
	})
	reg("(*sync.Map).LoadAndDelete", func(ex *Exec, st *State, c *callCtx) []Val {
		p, k := ptrArg(c.args[0]), ifaceKey(c.args[1].(*IfaceV))
		v, has := smLoad(st, p, k)
		st.set2(p.key+"#has", "Bool", "", p.ref, k, False)
		return []Val{v, has}
	})
	regk("(*sync.Map).Range", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		p := ptrArg(c.args[0])
		f := c.args[1].(*T)
		obj := st.alloc()
		vk := "vis:string"
		a := st.h.arr2(vk, "Bool", "")
		st.setHeap(vk, obj, nil, Store(a, obj, ConstArr("(Array Int Bool)", False)))
		st.set1("viscnt", "Int", "", obj, IntL(0))
		row0 := smHas(st.h, p)
		depth := len(st.frames)
		d := &LoopDesc{pos: c.pos, visKey: vk, visObj: obj, name: "sync.Map.Range"}
		d.mapRow = func(h *Heap) *T { return smHas(h, p) }
		d.start = func(s *State, vals []Val, ctx *LoopCtx) {
			exit := func(s2 *State) {
				if ctx.dry {
					return
				}
				s2.frames = s2.frames[:depth]
				k(s2, nil)
			}
			vis := Select(s.h.arr2(vk, "Bool", ""), obj)
			row := smHas(s.h, p)
			if !ctx.dry {
				s2 := s.clone()
				b := BVar("k", "Int")
				x := App("select", "Bool", row, b)
				s2.assume(Forall([]*T{b}, Imp(And(Select(row0, b), x), Select(vis, b))))
				exit(s2)
			}
			key := Fresh("key", "Int")
			s.assume(Select(row, key), Not(Select(vis, key)))
			s.set2(vk, "Bool", "", obj, key, True)
			cnt := s.get1("viscnt", "Int", "", obj)
			setRange(cnt, new(big.Int), big.NewInt(maxLen))
			s.assume(Le(IntL(0), cnt), Lt(cnt, IntL(maxLen)))
			s.set1("viscnt", "Int", "", obj, Add(cnt, IntL(1)))
			s.set1("viscur", "Int", "", obj, key)
			v := smVal(s.h, p, key)
			kv := &IfaceV{typeTag(strType), key}
			after := func(s2 *State, rs []Val) {
				r := rs[0].(*T)
				branch(ex, s2, r, func(s3 *State) { ctx.back(s3, nil) }, exit)
			}
			sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
			if !ex.callValue(s, f, sig, []Val{kv, v}, nil, c.pos, after) {
				after(s, []Val{s.freshVal("cont", types.Typ[types.Bool])})
			}
		}
		ex.runLoop(st, d)
		return nil, true
	})

	// ---- sync ----
	for _, n := range []string{"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock"} {
		reg(n, func(ex *Exec, st *State, c *callCtx) []Val { return nil })
	}
	reg("(*sync.WaitGroup).Add", func(ex *Exec, st *State, c *callCtx) []Val {
		r := ptrArg(c.args[0]).ref
		st.set1("wg#add", "Int", "", r, Add(st.get1("wg#add", "Int", "", r), c.args[1].(*T)))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(ex *Exec, st *State, c *callCtx) []Val {
		p := ptrArg(c.args[0])
		ex.oblige(st, "safety", "no Done on a nil wait group", Not(Eq(p.ref, IntL(0))), c.pos)
		r := p.ref
		st.set1("wg#done", "Int", "", r, Add(st.get1("wg#done", "Int", "", r), IntL(1)))
		st.doneWGs = append(st.doneWGs[:len(st.doneWGs):len(st.doneWGs)], r)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(ex *Exec, st *State, c *callCtx) []Val {
		r := ptrArg(c.args[0]).ref
		ex.oblige(st, "wait", "every worker added to the wait group signals completion exactly once", Eq(st.get1("wg#add", "Int", "", r), st.get1("wg#done", "Int", "", r)), c.pos)
		return nil
	})
	regk("(*sync.Pool).Get", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		p := ptrArg(c.args[0])
		st.setGhost("pool.gets", Add(st.ghost("pool.gets", "Int"), IntL(1)))
		// an element that was put into the pool
		s2 := st.clone()
		v := s2.freshVal("pooled", c.res(0)).(*IfaceV)
		s2.assume(Not(Eq(v.tag, IntL(0))))
		s2.assume(Select(Select(s2.h.arr2("pool#in", "Bool", ""), p.ref), v.pay), Eq(v.tag, Select(s2.h.arr1("pool#tag", "Int", ""), p.ref)))
		k(s2, []Val{v})
		// or a new one
		nf := Select(st.h.get(p.key+".New", "(Array Int Int)", "ref", nil), p.ref)
		branch(ex, st, Eq(nf, IntL(0)), func(s *State) { k(s, []Val{nilIface}) }, func(s *State) {
			ex.dynCall(s, p.ref, nf, c, k)
		})
		return nil, true
	})
	reg("(*sync.Pool).Put", func(ex *Exec, st *State, c *callCtx) []Val {
		p := ptrArg(c.args[0])
		v := c.args[1].(*IfaceV)
		st.set2("pool#in", "Bool", "", p.ref, v.pay, True)
		st.set1("pool#tag", "Int", "", p.ref, v.tag)
		return nil
	})
	regk("(*sync.Once).Do", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		p := ptrArg(c.args[0])
		key := "once:" + p.key
		done := st.get1(key, "Bool", "", p.ref)
		branch(ex, st, done, func(s *State) { k(s, nil) }, func(s *State) {
			s.set1(key, "Bool", "", p.ref, True)
			sig := types.NewSignatureType(nil, nil, nil, nil, nil, false)
			if !ex.callValue(s, c.args[1].(*T), sig, nil, nil, c.pos, func(s2 *State, rs []Val) { k(s2, nil) }) {
				k(s, nil)
			}
		})
		return nil, true
	})
	// atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		reg("sync/atomic.Load"+ty, func(ex *Exec, st *State, c *callCtx) []Val {
			p := ptrArg(c.args[0])
			ex.oblige(st, "safety", "no nil dereference (atomic)", Not(Eq(p.ref, IntL(0))), c.pos)
			return []Val{st.load(p)}
		})
		reg("sync/atomic.Store"+ty, func(ex *Exec, st *State, c *callCtx) []Val {
			p := ptrArg(c.args[0])
			ex.oblige(st, "safety", "no nil dereference (atomic)", Not(Eq(p.ref, IntL(0))), c.pos)
			st.store(p, c.args[1])
			return nil
		})
		reg("sync/atomic.Add"+ty, func(ex *Exec, st *State, c *callCtx) []Val {
			p := ptrArg(c.args[0])
			ex.oblige(st, "safety", "no nil dereference (atomic)", Not(Eq(p.ref, IntL(0))), c.pos)
			v := ex.wrap(st, Add(st.load(p).(*T), c.args[1].(*T)), p.typ)
			st.store(p, v)
			return []Val{v}
		})
		reg("sync/atomic.Swap"+ty, func(ex *Exec, st *State, c *callCtx) []Val {
			p := ptrArg(c.args[0])
			v := st.load(p)
			st.store(p, c.args[1])
			return []Val{v}
		})
		regk("sync/atomic.CompareAndSwap"+ty, func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
			p := ptrArg(c.args[0])
			v := st.load(p).(*T)
			branch(ex, st, Eq(v, c.args[1].(*T)), func(s *State) {
				s.store(p, c.args[2])
				k(s, []Val{True})
			}, func(s *State) { k(s, []Val{False}) })
			return nil, true
		})
	}

	// ---- time ----
	reg("time.Now", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{ex.now(st)} })
	reg("(time.Time).Unix", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{c.args[0]} })
	reg("time.Unix", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{c.args[0]} })
	reg("(time.Time).After", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{Gt(c.args[0].(*T), c.args[1].(*T))}
	})
	reg("time.Since", func(ex *Exec, st *State, c *callCtx) []Val {
		ex.now(st)
		return []Val{st.freshVal("since", c.res(0))}
	})
	reg("time.Sleep", func(ex *Exec, st *State, c *callCtx) []Val { return nil })
	reg("time.After", func(ex *Exec, st *State, c *callCtx) []Val {
		ref := st.alloc()
		st.set1("chan#timer", "Bool", "", ref, True)
		st.set1("chan#dur", "Int", "", ref, c.args[0].(*T))
		return []Val{ref}
	})
	reg("time.NewTicker", func(ex *Exec, st *State, c *callCtx) []Val {
		ref := st.alloc()
		p := mkPtr(ref, c.res(0).Underlying().(*types.Pointer).Elem())
		ch := st.alloc()
		a := st.h.get(p.key+".C", "(Array Int Int)", "ref", nil)
		st.h.m[p.key+".C"] = Store(a, ref, ch)
		return []Val{p}
	})
	reg("(*time.Ticker).Stop", func(ex *Exec, st *State, c *callCtx) []Val { return nil })

	// ---- errors, fmt, strings ----
	reg("errors.New", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{mkError(c.args[0].(*T))} })
	reg("github.com/pkg/errors.New", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{mkError(c.args[0].(*T))} })
	errf := func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{mkError(ex.sprintf(st, c.args[0].(*T), ex.variadic(st, c.args[1])))}
	}
	reg("github.com/pkg/errors.Errorf", errf)
	reg("fmt.Errorf", errf)
	reg("iface:error.Error", func(ex *Exec, st *State, c *callCtx) []Val {
		m := errMsg(c.args[0].(*IfaceV))
		return []Val{m}
	})
	reg("fmt.Sprintf", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{ex.sprintf(st, c.args[0].(*T), ex.variadic(st, c.args[1]))}
	})
	reg("fmt.Sprint", func(ex *Exec, st *State, c *callCtx) []Val {
		as := ex.variadic(st, c.args[0])
		f := ""
		for range as {
			f += "%v"
		}
		return []Val{ex.sprintf(st, StrL(f), as)}
	})
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		reg(n, func(ex *Exec, st *State, c *callCtx) []Val { return nil })
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		regk(n, func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) { return nil, true })
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, func(ex *Exec, st *State, c *callCtx) []Val {
			return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
		})
	}
	reg("strings.Contains", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{strContains(c.args[0].(*T), c.args[1].(*T))}
	})
	reg("strings.HasPrefix", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{hasPrefix(c.args[0].(*T), c.args[1].(*T))}
	})
	reg("strings.LastIndex", func(ex *Exec, st *State, c *callCtx) []Val {
		r := Fresh("idx", "Int")
		setRange(r, big.NewInt(-1), big.NewInt(maxLen))
		st.assume(Le(IntL(-1), r), Le(r, strLen(st, c.args[0].(*T))), Le(Add(r, strLen(st, c.args[1].(*T))), Ite(Eq(r, IntL(-1)), IntL(maxLen), strLen(st, c.args[0].(*T)))))
		return []Val{r}
	})
	libModels["strings.Index"] = libModels["strings.LastIndex"]
	reg("strings.IndexByte", func(ex *Exec, st *State, c *callCtx) []Val {
		r := Fresh("idx", "Int")
		setRange(r, big.NewInt(-1), big.NewInt(maxLen))
		st.assume(Le(IntL(-1), r), Lt(r, strLen(st, c.args[0].(*T))))
		return []Val{r}
	})
	libModels["strings.LastIndexByte"] = libModels["strings.IndexByte"]
	reg("strings.Join", func(ex *Exec, st *State, c *callCtx) []Val {
		r := UF("joinstr", "Int", seqTerm(ex, st.h, c.args[0].(*SliceV)), c.args[1].(*T))
		strLen(st, r)
		return []Val{r}
	})
	reg("(*strings.Builder).WriteString", func(ex *Exec, st *State, c *callCtx) []Val {
		p := ptrArg(c.args[0])
		cur := st.get1("sb#s", "Int", "", p.ref)
		st.set1("sb#s", "Int", "", p.ref, strConcat(st, cur, c.args[1].(*T)))
		return []Val{strLen(st, c.args[1].(*T)), nilIface}
	})
	reg("(*strings.Builder).String", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{st.get1("sb#s", "Int", "", ptrArg(c.args[0]).ref)}
	})
	reg("sort.Strings", func(ex *Exec, st *State, c *callCtx) []Val {
		s := c.args[0].(*SliceV)
		oldMs := msTerm(ex, st.h, s)
		ex.sortPerm(st, s)
		st.assume(Eq(msTerm(ex, st.h, s), oldMs), Eq(seqTerm(ex, st.h, s), UF("sortseq", "Int", oldMs)))
		return nil
	})
	sortSlice := func(ex *Exec, st *State, c *callCtx) []Val {
		iv := c.args[0].(*IfaceV)
		t := tagTypes[iv.tag.big.Int64()]
		s := ex.unbox(st, st.h, iv, t).(*SliceV)
		ex.sortPerm(st, s)
		if st.expl {
			return nil
		}
		i, j := BVar("i", "Int"), BVar("j", "Int")
		less := ex.pureBool(st, c.args[1].(*T), []Val{j, i})
		st.assume(Forall([]*T{i, j}, Imp(And(Le(IntL(0), i), Lt(i, j), Lt(j, s.ln)), Not(less))))
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- bytes, json, copier, gjson ----
	bytesOf := func(ex *Exec, st *State, v Val) *T {
		s := v.(*SliceV)
		return ex.bytesToStr(st, s)
	}
	reg("bytes.Compare", func(ex *Exec, st *State, c *callCtx) []Val {
		a, b := bytesOf(ex, st, c.args[0]), bytesOf(ex, st, c.args[1])
		r := Fresh("cmp", "Int")
		st.assume(Le(IntL(-1), r), Le(r, IntL(1)), Eq(Eq(r, IntL(0)), Eq(a, b)))
		return []Val{r}
	})
	reg("bytes.Equal", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{Eq(bytesOf(ex, st, c.args[0]), bytesOf(ex, st, c.args[1]))}
	})
	reg("encoding/json.Marshal", func(ex *Exec, st *State, c *callCtx) []Val {
		iv := c.args[0].(*IfaceV)
		var content *T
		if iv.tag.big != nil && iv.tag.big.Sign() > 0 {
			t := tagTypes[iv.tag.big.Int64()]
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok && !isOpaque(pt.Elem()) {
					content = ex.jsonTerm(st.h, mkPtr(iv.pay, pt.Elem()))
				}
			}
		}
		if content == nil {
			content = Fresh("json", "Int")
		}
		st.assume(Not(Eq(content, IntL(0))))
		return []Val{ex.freshBytes(st, content), nilIface}
	})
	regk("encoding/json.Unmarshal", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		src := bytesOf(ex, st, c.args[0])
		iv := c.args[1].(*IfaceV)
		ok := UF("jsonok", "Bool", src)
		branch(ex, st, ok, func(s *State) {
			if iv.tag.big != nil {
				if pt, isP := tagTypes[iv.tag.big.Int64()].Underlying().(*types.Pointer); isP {
					p := mkPtr(iv.pay, pt.Elem())
					for _, l := range leaves(pt.Elem()) {
						if !exported(l.path) {
							continue
						}
						key := p.key + l.path
						a := s.h.get(key, keySortOf(key, l.sort, false), l.kind, l.typ)
						v := UF("jsondec"+strings.ReplaceAll(sanitize(l.path), ".", "_"), l.sort, src)
						s.leafFacts(l, v)
						s.setHeap(key, p.ref, nil, Store(a, p.ref, v))
					}
					// ghost: the text the object was decoded from
					s.setHeap("json#src", p.ref, nil, Store(s.h.arr1("json#src", "Int", ""), p.ref, src))
				}
			}
			k(s, []Val{nilIface})
		}, func(s *State) {
			e := s.freshVal("jsonerr", c.res(0)).(*IfaceV)
			s.assume(Not(Eq(e.tag, IntL(0))))
			k(s, []Val{e})
		})
		return nil, true
	})
	reg("github.com/jinzhu/copier.Copy", func(ex *Exec, st *State, c *callCtx) []Val {
		to, from := c.args[0].(*IfaceV), c.args[1].(*IfaceV)
		e := st.freshVal("copyerr", c.res(0))
		if to.tag.big == nil || from.tag.big == nil || to.tag.big.Sign() == 0 || from.tag.big.Sign() == 0 {
			unsup("copier.Copy of unknown types")
		}
		tt, ft := tagTypes[to.tag.big.Int64()], tagTypes[from.tag.big.Int64()]
		tp, ok := tt.Underlying().(*types.Pointer)
		if !ok {
			unsup("copier.Copy to %s", tt)
		}
		fe := ft
		var fv []*T
		var nonnil *T = True
		if fp, ok := ft.Underlying().(*types.Pointer); ok {
			fe = fp.Elem()
			fv = loadFrom(st.h, mkPtr(from.pay, fe))
			nonnil = Not(Eq(from.pay, IntL(0)))
		} else {
			fv = flatten(ex.unbox(st, st.h, from, ft), ft)
		}
		if !types.Identical(tp.Elem(), fe) {
			unsup("copier.Copy between different types")
		}
		p := mkPtr(to.pay, tp.Elem())
		old := loadFrom(st.h, p)
		for i, l := range leaves(fe) {
			if !exported(l.path) {
				continue
			}
			key := p.key + l.path
			a := st.h.get(key, keySortOf(key, l.sort, false), l.kind, l.typ)
			st.setHeap(key, p.ref, nil, Store(a, p.ref, Ite(nonnil, fv[i], old[i])))
		}
		return []Val{e}
	})
	gj := func(json, path *T, rt types.Type) Val {
		var ts []*T
		for _, l := range leaves(rt) {
			ts = append(ts, UF("gj"+strings.ReplaceAll(sanitize(l.path), ".", "_"), l.sort, json, path))
		}
		return build(ts, rt)
	}
	reg("github.com/tidwall/gjson.Get", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{gj(c.args[0].(*T), c.args[1].(*T), c.res(0))}
	})
	reg("github.com/tidwall/gjson.GetBytes", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{gj(bytesOf(ex, st, c.args[0]), c.args[1].(*T), c.res(0))}
	})
	reg("(github.com/tidwall/gjson.Result).Exists", func(ex *Exec, st *State, c *callCtx) []Val {
		sv := c.args[0].(*StructV)
		u := sv.typ.Underlying().(*types.Struct)
		var ty, raw *T
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Type":
				ty = sv.f[i].(*T)
			case "Raw":
				raw = sv.f[i].(*T)
			}
		}
		return []Val{Or(Not(Eq(ty, IntL(0))), Not(Eq(raw, IntL(0))))}
	})

	// ---- paths and files ----
	reg("net/url.PathEscape", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{UF("pathescape", "Int", c.args[0].(*T))}
	})
	reg("net/url.QueryEscape", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{UF("queryescape", "Int", c.args[0].(*T))}
	})
	reg("encoding/hex.EncodeToString", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{UF("hexenc", "Int", bytesOf(ex, st, c.args[0]))}
	})
	pathJoin := func(ex *Exec, st *State, c *callCtx) []Val {
		as := ex.variadic(st, c.args[0])
		if as == nil {
			return []Val{Fresh("path", "Int")}
		}
		r := as[0].(*T)
		for _, a := range as[1:] {
			e := a.(*T)
			j := UF("pathjoin", "Int", r, e)
			if safeElem(e) {
				st.assume(UF("childof", "Bool", j, r))
				if n := escapedName(e); n != nil {
					st.assume(UF("ownpath", "Bool", j, r, n))
				}
			}
			r = j
		}
		strLen(st, r)
		return []Val{r}
	}
	reg("path.Join", pathJoin)
	reg("path/filepath.Join", pathJoin)
	rm := func(ex *Exec, st *State, c *callCtx) []Val {
		st.set2("os#removed", "Bool", "", IntL(0), c.args[0].(*T), True)
		return []Val{st.freshVal("err", c.res(0))}
	}
	reg("os.RemoveAll", rm)
	reg("os.Remove", rm)
	reg("os.MkdirAll", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{st.freshVal("err", c.res(0))} })
	reg("io/ioutil.TempFile", func(ex *Exec, st *State, c *callCtx) []Val {
		e := st.freshVal("err", c.res(1)).(*IfaceV)
		ref := st.alloc()
		name := Fresh("tempname", "Int")
		st.assume(UF("tempfile", "Bool", name), Not(Eq(name, IntL(0))))
		st.set1("file#name", "Int", "", ref, name)
		pt := c.res(0).Underlying().(*types.Pointer).Elem()
		return []Val{mkPtr(Ite(Eq(e.tag, IntL(0)), ref, IntL(0)), pt), e}
	})
	libModels["os.CreateTemp"] = libModels["io/ioutil.TempFile"]
	reg("(*os.File).Name", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{st.get1("file#name", "Int", "", ptrArg(c.args[0]).ref)}
	})
	reg("os.OpenFile", func(ex *Exec, st *State, c *callCtx) []Val {
		e := st.freshVal("err", c.res(1)).(*IfaceV)
		ref := st.alloc()
		name := c.args[0].(*T)
		st.set1("file#name", "Int", "", ref, name)
		ok := Eq(e.tag, IntL(0))
		// O_TRUNC empties the file
		if fl := c.args[1].(*T); fl.big != nil && fl.big.Int64()&0x200 != 0 {
			cur := st.get1("file#n", "Int", "", name)
			st.set1("file#n", "Int", "", name, Ite(ok, IntL(0), cur))
			part := st.get1("file#part", "Int", "", name)
			st.set1("file#part", "Int", "", name, Ite(ok, IntL(0), part))
		}
		pt := c.res(0).Underlying().(*types.Pointer).Elem()
		return []Val{mkPtr(Ite(ok, ref, IntL(0)), pt), e}
	})
	reg("(*os.File).Close", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{st.freshVal("err", c.res(0))} })
	fileOf := func(st *State, iv *IfaceV) *T { return st.get1("file#name", "Int", "", iv.pay) }
	reg("bufio.NewWriter", func(ex *Exec, st *State, c *callCtx) []Val {
		ref := st.alloc()
		st.set1("bw#file", "Int", "", ref, fileOf(st, c.args[0].(*IfaceV)))
		return []Val{mkPtr(ref, c.res(0).Underlying().(*types.Pointer).Elem())}
	})
	fileAppend := func(st *State, f, s *T) {
		// a line is complete when the text written ends with a newline
		part := st.get1("file#part", "Int", "", f)
		s = strConcat(st, part, s)
		ps := pieces(s)
		if l, ok := litStr(ps[len(ps)-1]); !ok || !strings.HasSuffix(l, "\n") {
			st.set1("file#part", "Int", "", f, s)
			return
		}
		st.set1("file#part", "Int", "", f, IntL(0))
		n := st.get1("file#n", "Int", "", f)
		st.assume(Ge(n, IntL(0)), Lt(n, IntL(maxLen)))
		st.set2("file#line", "Int", "", f, n, s)
		st.set1("file#n", "Int", "", f, Add(n, IntL(1)))
	}
	bufWrite := func(st *State, r, s *T) {
		f := st.get1("bw#file", "Int", "", r)
		fileAppend(st, f, s)
		st.set1("file#pend", "Bool", "", f, True)
	}
	writeTo = func(st *State, w *IfaceV, s *T) bool {
		if w.tag.big == nil {
			return false
		}
		switch types.TypeString(tagTypes[w.tag.big.Int64()], nil) {
		case "*bufio.Writer":
			bufWrite(st, w.pay, s)
			return true
		case "*os.File":
			fileAppend(st, fileOf(st, w), s)
			return true
		}
		return false
	}
	reg("(*os.File).WriteString", func(ex *Exec, st *State, c *callCtx) []Val {
		fileAppend(st, st.get1("file#name", "Int", "", ptrArg(c.args[0]).ref), c.args[1].(*T))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("(*os.File).Write", func(ex *Exec, st *State, c *callCtx) []Val {
		fileAppend(st, st.get1("file#name", "Int", "", ptrArg(c.args[0]).ref), bytesOf(ex, st, c.args[1]))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("(*bufio.Writer).WriteByte", func(ex *Exec, st *State, c *callCtx) []Val {
		if b := c.args[1].(*T); b.big != nil {
			bufWrite(st, ptrArg(c.args[0]).ref, StrL(string(rune(b.big.Int64()))))
		} else {
			bufWrite(st, ptrArg(c.args[0]).ref, Fresh("byte", "Int"))
		}
		return []Val{st.freshVal("err", c.res(0))}
	})
	reg("(*bufio.Writer).WriteString", func(ex *Exec, st *State, c *callCtx) []Val {
		r := ptrArg(c.args[0]).ref
		bufWrite(st, r, c.args[1].(*T))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("(*bufio.Writer).Write", func(ex *Exec, st *State, c *callCtx) []Val {
		r := ptrArg(c.args[0]).ref
		bufWrite(st, r, bytesOf(ex, st, c.args[1]))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("(*bufio.Writer).Flush", func(ex *Exec, st *State, c *callCtx) []Val {
		r := ptrArg(c.args[0]).ref
		st.set1("file#pend", "Bool", "", st.get1("bw#file", "Int", "", r), False)
		return []Val{st.freshVal("err", c.res(0))}
	})
	reg("bufio.NewReader", func(ex *Exec, st *State, c *callCtx) []Val {
		ref := st.alloc()
		st.set1("br#file", "Int", "", ref, fileOf(st, c.args[0].(*IfaceV)))
		st.set1("br#pos", "Int", "", ref, IntL(0))
		st.setGhost("readn", IntL(0))
		return []Val{mkPtr(ref, c.res(0).Underlying().(*types.Pointer).Elem())}
	})
	regk("(*bufio.Reader).ReadString", func(ex *Exec, st *State, c *callCtx, k func(*State, []Val)) ([]Val, bool) {
		r := ptrArg(c.args[0]).ref
		f := st.get1("br#file", "Int", "", r)
		pos := st.get1("br#pos", "Int", "", r)
		n := st.get1("file#n", "Int", "", f)
		st.assume(Ge(pos, IntL(0)), Lt(pos, IntL(maxLen)))
		branch(ex, st, Lt(pos, n), func(s *State) {
			line := s.get2("file#line", "Int", "", f, pos)
			s.set1("br#pos", "Int", "", r, Add(pos, IntL(1)))
			s.setGhost("readn", Add(pos, IntL(1)))
			k(s, []Val{line, nilIface})
		}, func(s *State) {
			e := s.freshVal("eof", c.res(1)).(*IfaceV)
			s.assume(Not(Eq(e.tag, IntL(0))))
			k(s, []Val{s.freshVal("rest", c.res(0)), e})
		})
		return nil, true
	})

	// ---- http ----
	httpObj := func(v Val) *T { return v.(*IfaceV).pay }
	httpWrite := func(st *State, w, s *T) {
		code := st.get1("http#code", "Int", "", w)
		st.set1("http#code", "Int", "", w, Ite(Eq(code, IntL(0)), IntL(200), code))
		st.set1("http#body", "Int", "", w, strConcat(st, st.get1("http#body", "Int", "", w), s))
	}
	outWrite := func(st *State, w Val, s *T) {
		if !writeTo(st, w.(*IfaceV), s) {
			httpWrite(st, httpObj(w), s)
		}
	}
	reg("iface:net/http.ResponseWriter.WriteHeader", func(ex *Exec, st *State, c *callCtx) []Val {
		w := httpObj(c.args[0])
		code := st.get1("http#code", "Int", "", w)
		st.set1("http#code", "Int", "", w, Ite(Eq(code, IntL(0)), c.args[1].(*T), code))
		return nil
	})
	reg("iface:net/http.ResponseWriter.Header", func(ex *Exec, st *State, c *callCtx) []Val {
		v := Fresh("header", "Int")
		st.assume(Gt(v, IntL(0)))
		return []Val{v}
	})
	reg("(net/http.Header).Set", func(ex *Exec, st *State, c *callCtx) []Val { return nil })
	reg("(net/http.Header).Add", func(ex *Exec, st *State, c *callCtx) []Val { return nil })
	reg("iface:net/http.ResponseWriter.Write", func(ex *Exec, st *State, c *callCtx) []Val {
		httpWrite(st, httpObj(c.args[0]), bytesOf(ex, st, c.args[1]))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("io.WriteString", func(ex *Exec, st *State, c *callCtx) []Val {
		outWrite(st, c.args[0], c.args[1].(*T))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("fmt.Fprintf", func(ex *Exec, st *State, c *callCtx) []Val {
		outWrite(st, c.args[0], ex.sprintf(st, c.args[1].(*T), ex.variadic(st, c.args[2])))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("fmt.Fprint", func(ex *Exec, st *State, c *callCtx) []Val {
		as := ex.variadic(st, c.args[1])
		f := ""
		for range as {
			f += "%v"
		}
		outWrite(st, c.args[0], ex.sprintf(st, StrL(f), as))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("fmt.Fprintln", func(ex *Exec, st *State, c *callCtx) []Val {
		as := ex.variadic(st, c.args[1])
		f := ""
		for range as {
			f += "%v "
		}
		outWrite(st, c.args[0], ex.sprintf(st, StrL(strings.TrimSpace(f)+"\n"), as))
		return []Val{st.freshVal("n", c.res(0)), st.freshVal("err", c.res(1))}
	})
	reg("github.com/gorilla/mux.NewRouter", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{mkPtr(st.alloc(), c.res(0).Underlying().(*types.Pointer).Elem())}
	})
	reg("(*github.com/gorilla/mux.Router).HandleFunc", func(ex *Exec, st *State, c *callCtx) []Val {
		// the first registered matching route wins
		path := c.args[1].(*T)
		cur := st.get2("route", "Int", "", IntL(0), path)
		st.set2("route", "Int", "", IntL(0), path, Ite(Eq(cur, IntL(0)), c.args[2].(*T), cur))
		rt := mkPtr(st.alloc(), c.res(0).Underlying().(*types.Pointer).Elem())
		return []Val{rt}
	})
	reg("(*github.com/gorilla/mux.Route).Methods", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{c.args[0]} })
	reg("net/http.ListenAndServe", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{st.freshVal("err", c.res(0))} })

	// ---- grpc ----
	reg("google.golang.org/grpc.Dial", func(ex *Exec, st *State, c *callCtx) []Val {
		e := st.freshVal("dialerr", c.res(1)).(*IfaceV)
		ref := st.alloc()
		st.set1("conn#addr", "Int", "", ref, c.args[0].(*T))
		st.set1("conn#closed", "Bool", "", ref, False)
		st.set1("conn#last", "Int", "", ref, IntL(-1))
		pt := c.res(0).Underlying().(*types.Pointer).Elem()
		st.setGhost("dials", Add(st.ghost("dials", "Int"), IntL(1)))
		return []Val{mkPtr(Ite(Eq(e.tag, IntL(0)), ref, IntL(0)), pt), e}
	})
	reg("(*google.golang.org/grpc.ClientConn).GetState", func(ex *Exec, st *State, c *callCtx) []Val {
		p := ptrArg(c.args[0])
		ex.oblige(st, "safety", "no nil dereference (GetState)", Not(Eq(p.ref, IntL(0))), c.pos)
		r := st.freshVal("connstate", c.res(0)).(*T)
		st.assume(Le(IntL(0), r), Le(r, IntL(4)), Imp(st.get1("conn#closed", "Bool", "", p.ref), Eq(r, IntL(4))))
		st.set1("conn#last", "Int", "", p.ref, r)
		return []Val{r}
	})
	reg("(*google.golang.org/grpc.ClientConn).Close", func(ex *Exec, st *State, c *callCtx) []Val {
		p := ptrArg(c.args[0])
		ex.oblige(st, "safety", "no nil dereference (Close)", Not(Eq(p.ref, IntL(0))), c.pos)
		st.set1("conn#closed", "Bool", "", p.ref, True)
		return []Val{st.freshVal("closeerr", c.res(0))}
	})
	reg("github.com/bgokden/veri/veriservice.NewVeriServiceClient", func(ex *Exec, st *State, c *callCtx) []Val {
		v := st.freshVal("client", c.res(0)).(*IfaceV)
		st.assume(Not(Eq(v.tag, IntL(0))))
		cc := c.args[0].(*IfaceV)
		st.assume(Eq(UF("clientconn", "Int", v.pay), cc.pay))
		return []Val{v}
	})
	cl := "iface:github.com/bgokden/veri/veriservice.VeriServiceClient."
	reg(cl+"SearchStream", func(ex *Exec, st *State, c *callCtx) []Val {
		rs := ex.arbitrary(st, c.sig, "stream")
		st.assume(Imp(Eq(rs[1].(*IfaceV).tag, IntL(0)), Not(Eq(rs[0].(*IfaceV).tag, IntL(0)))))
		return rs
	})
	reg(cl+"Insert", func(ex *Exec, st *State, c *callCtx) []Val {
		// the request sent to the peer is remembered
		st.setGhost("rpc.insert", c.args[2].(*PtrV).ref)
		st.setGhost("rpc.insert.n", Add(st.ghost("rpc.insert.n", "Int"), IntL(1)))
		rs := ex.arbitrary(st, c.sig, "insert")
		st.setGhost("rpc.insert.ok", Eq(rs[1].(*IfaceV).tag, IntL(0)))
		return rs
	})
	reg("google.golang.org/grpc/peer.FromContext", func(ex *Exec, st *State, c *callCtx) []Val {
		rs := ex.arbitrary(st, c.sig, "peer")
		p := rs[0].(*PtrV)
		ok := rs[1].(*T)
		tag := Select(st.h.get(p.key+".Addr#t", "(Array Int Int)", "tag", nil), p.ref)
		st.assume(Imp(ok, And(Not(Eq(p.ref, IntL(0))), Not(Eq(tag, IntL(0))))))
		return rs
	})
	reg("context.Background", func(ex *Exec, st *State, c *callCtx) []Val {
		v := st.freshVal("ctx", c.res(0)).(*IfaceV)
		st.assume(Not(Eq(v.tag, IntL(0))))
		return []Val{v}
	})
	ctxWith := func(ex *Exec, st *State, c *callCtx) []Val {
		v := st.freshVal("ctx", c.res(0)).(*IfaceV)
		f := st.freshVal("cancel", c.res(1)).(*T)
		st.assume(Not(Eq(v.tag, IntL(0))), Not(Eq(f, IntL(0))))
		return []Val{v, f}
	}
	reg("context.WithTimeout", ctxWith)
	reg("context.WithCancel", ctxWith)
	reg("context.WithDeadline", ctxWith)
	reg("github.com/google/uuid.NewRandom", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{Fresh("uuid", "Int"), st.freshVal("err", c.res(1))}
	})
	reg("github.com/google/uuid.New", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{Fresh("uuid", "Int")} })
	uuidStr := func(ex *Exec, st *State, u *T) *T {
		r := UF("uuidstr", "Int", u)
		st.assume(Not(Eq(r, IntL(0))))
		return r
	}
	reg("(github.com/google/uuid.UUID).String", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{uuidStr(ex, st, c.args[0].(*T))}
	})
	reg("github.com/google/uuid.NewString", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{uuidStr(ex, st, Fresh("uuid", "Int"))}
	})

	// ---- peers seen as data sources ----
	ds := "iface:github.com/bgokden/veri/data.DataSource."
	reg(ds+"Insert", func(ex *Exec, st *State, c *callCtx) []Val {
		e := st.freshVal("inserterr", c.res(0)).(*IfaceV)
		ok := Eq(e.tag, IntL(0))
		d, cfg := ptrArg(c.args[1]), ptrArg(c.args[2])
		n := st.ghost("ins.n", "Int")
		st.assume(Ge(n, IntL(0)), Lt(n, IntL(maxLen)))
		st.set2("ins.src", "Int", "", IntL(0), n, c.args[0].(*IfaceV).pay)
		st.set2("ins.datum", "Int", "", IntL(0), n, d.ref)
		st.set2("ins.ok", "Bool", "", IntL(0), n, ok)
		ttl := loadFrom(st.h, &PtrV{ref: cfg.ref, key: cfg.key + ".TTL", typ: types.Typ[types.Uint64]})[0]
		cnt := loadFrom(st.h, &PtrV{ref: cfg.ref, key: cfg.key + ".Count", typ: types.Typ[types.Uint64]})[0]
		st.set2("ins.ttl", "Int", "", IntL(0), n, Ite(Eq(cfg.ref, IntL(0)), IntL(0), ttl))
		st.set2("ins.count", "Int", "", IntL(0), n, Ite(Eq(cfg.ref, IntL(0)), IntL(0), cnt))
		st.setGhost("ins.n", Add(n, IntL(1)))
		if ex.prop == "C07" { // ghost: a peer acknowledged a copy of the datum with this key
			k := UF("ownerKey", "Int", d.ref)
			was := Select(Select(st.h.arr2("acked", "Bool", ""), IntL(0)), k)
			st.set2("acked", "Bool", "", IntL(0), k, Or(was, ok))
		}
		acks := st.ghost("ins.acks", "Int")
		setRange(acks, new(big.Int), big.NewInt(maxLen))
		st.assume(Ge(acks, IntL(0)), Lt(acks, IntL(maxLen)))
		st.setGhost("ins.acks", Ite(ok, Add(acks, IntL(1)), acks))
		return []Val{e}
	})
	reg(ds+"GetDataInfo", func(ex *Exec, st *State, c *callCtx) []Val {
		rs := ex.arbitrary(st, c.sig, "info")
		// remember whether a source reported entries
		p := rs[0].(*PtrV)
		n := loadFrom(st.h, &PtrV{ref: p.ref, key: p.key + ".N", typ: types.Typ[types.Uint64]})[0]
		st.setGhost("src.n", Add(st.ghost("src.n", "Int"), IntL(1)))
		st.set2("src.info", "Int", "", IntL(0), c.args[0].(*IfaceV).pay, Ite(Eq(p.ref, IntL(0)), IntL(0), n))
		st.set2("src.asked", "Bool", "", IntL(0), c.args[0].(*IfaceV).pay, True)
		return rs
	})
	reg(ds+"GetID", func(ex *Exec, st *State, c *callCtx) []Val {
		iv := c.args[0].(*IfaceV)
		return []Val{UF("srcid", "Int", iv.tag, iv.pay)}
	})
	sendLog := func(ex *Exec, st *State, c *callCtx) []Val {
		n := st.ghost("out.n", "Int")
		st.assume(Ge(n, IntL(0)), Lt(n, IntL(maxLen)))
		st.set2("out.ref", "Int", "", IntL(0), n, ptrArg(c.args[1]).ref)
		st.setGhost("out.n", Add(n, IntL(1)))
		return []Val{st.freshVal("senderr", c.res(0))}
	}
	reg("iface:github.com/bgokden/veri/veriservice.VeriService_DataStreamServer.Send", sendLog)
	reg("iface:github.com/bgokden/veri/veriservice.VeriService_SearchStreamServer.Send", sendLog)

	// ---- annoy index ----
	an := "iface:github.com/bgokden/veri/annoyindex.AnnoyIndexAngular."
	annoyTag := types.NewNamed(types.NewTypeName(0, nil, "gover.annoyIndex", nil), types.Typ[types.Int], nil)
	reg("github.com/bgokden/veri/annoyindex.NewAnnoyIndexAngular", func(ex *Exec, st *State, c *callCtx) []Val {
		args := c.args
		ref := st.alloc()
		var dim *T
		if t, ok := args[0].(*T); ok {
			dim = t
		} else if as := ex.variadic(st, args[0]); len(as) == 1 {
			if iv, ok := as[0].(*IfaceV); ok {
				dim, _ = ex.unbox(st, st.h, iv, types.Typ[types.Int]).(*T)
			}
		}
		if dim == nil {
			dim = Fresh("dim", "Int")
		}
		st.set1("annoy#dim", "Int", "", ref, dim)
		a := st.h.arr2("annoy#has", "Bool", "")
		st.setHeap("annoy#has", ref, nil, Store(a, ref, ConstArr("(Array Int Bool)", False)))
		return []Val{&IfaceV{typeTag(annoyTag), ref}}
	})
	for _, m := range []string{"Build", "Unload", "OnDiskBuild", "Load", "Save"} {
		reg(an+m, func(ex *Exec, st *State, c *callCtx) []Val {
			if c.sig.Results().Len() == 0 {
				return nil
			}
			return ex.arbitrary(st, c.sig, "annoy")
		})
	}
	reg("github.com/bgokden/veri/annoyindex.DeleteAnnoyIndexAngular", func(ex *Exec, st *State, c *callCtx) []Val { return nil })
	reg(an+"AddItem", func(ex *Exec, st *State, c *callCtx) []Val {
		r := c.args[0].(*IfaceV).pay
		i := c.args[1].(*T)
		v := c.args[2].(*SliceV)
		if ex.prop == "C19" || ex.prop == "C12" {
			ex.oblige(st, "requires", "vectors added to the index have at least the dimension of the index", Ge(v.ln, st.get1("annoy#dim", "Int", "", r)), c.pos)
		}
		st.set2("annoy#has", "Bool", "", r, i, True)
		st.set2("annoy#vec", "Int", "", r, i, ex.vecTerm(st.h, v))
		if c.sig.Results().Len() == 0 {
			return nil
		}
		return ex.arbitrary(st, c.sig, "annoy")
	})
	reg(an+"GetNnsByVector", func(ex *Exec, st *State, c *callCtx) []Val {
		as := c.args[1:]
		if len(as) == 1 {
			as = ex.variadic(st, as[0])
		}
		if len(as) < 4 {
			unsup("GetNnsByVector with %d arguments", len(as))
		}
		r := c.args[0].(*IfaceV).pay
		un := func(v Val, t types.Type) Val {
			if iv, ok := v.(*IfaceV); ok {
				return ex.unbox(st, st.h, iv, t)
			}
			return v
		}
		v := un(as[0], types.NewSlice(types.Typ[types.Float32])).(*SliceV)
		n := un(as[1], types.Typ[types.Int]).(*T)
		if ex.prop == "C19" || ex.prop == "C12" {
			ex.oblige(st, "requires", "query vectors have at least the dimension of the index", Ge(v.ln, st.get1("annoy#dim", "Int", "", r)), c.pos)
		}
		intT := types.Typ[types.Int]
		out, ok := un(as[3], types.NewPointer(types.NewSlice(intT))).(*PtrV)
		if !ok {
			unsup("GetNnsByVector result argument")
		}
		sl := st.freshVal("nns", types.NewSlice(intT)).(*SliceV)
		newRef := st.alloc()
		m := sl.ln
		st.assume(Le(m, Ite(Ge(n, IntL(0)), n, IntL(0))))
		if k, ok := un(as[2], types.Typ[types.Int]).(*T); ok { // inspecting no node finds nothing
			st.assume(Imp(Eq(k, IntL(0)), Eq(m, IntL(0))))
		}
		row := Fresh("nnsrow", "(Array Int Int)")
		key := elemKey(intT)
		a := st.h.get(key, keySortOf(key, "Int", true), "", intT)
		st.h.m[key] = Store(a, newRef, row)
		res := &SliceV{Ite(Eq(sl.ref, IntL(0)), IntL(0), newRef), IntL(0), m, sl.cp, intT}
		b := BVar("i", "Int")
		x := App("select", "Int", row, b)
		st.assume(Forall([]*T{b}, Imp(And(Le(IntL(0), b), Lt(b, m)), And(Le(IntL(0), x), Le(x, IntL(maxLen)), Select(Select(st.h.arr2("annoy#has", "Bool", ""), r), x))), []*T{x}))
		st.store(out, res)
		return nil
	})

	// ---- math ----
	for _, b := range []struct {
		pkg  string
		bits int
	}{{"math", 64}, {"github.com/chewxy/math32", 32}} {
		b := b
		un := func(n string) {
			reg(b.pkg+"."+strings.ToUpper(n[:1])+n[1:], func(ex *Exec, st *State, c *callCtx) []Val {
				if realArith {
					r := UF("r"+n, "Real", c.args[0].(*T))
					if n == "sqrt" {
						st.assume(Ge(r, RealL("0")))
					}
					return []Val{r}
				}
				return []Val{UF(fmt.Sprintf("f%s%d", n, b.bits), "Real", c.args[0].(*T))}
			})
		}
		for _, n := range []string{"sqrt", "acos", "cos", "sin", "exp", "log", "floor", "ceil"} {
			un(n)
		}
		reg(b.pkg+".Abs", func(ex *Exec, st *State, c *callCtx) []Val {
			x := c.args[0].(*T)
			if realArith {
				return []Val{Ite(Ge(x, RealL("0")), x, Sub(RealL("0"), x))}
			}
			r := UF("fabs", "Real", x)
			st.assume(Ge(r, RealL("0")))
			return []Val{r}
		})
		reg(b.pkg+".Pow", func(ex *Exec, st *State, c *callCtx) []Val {
			x, y := c.args[0].(*T), c.args[1].(*T)
			if y.isLit() && Eq(y, RealL("2")) == True {
				return []Val{fmul(b.bits, x, x)}
			}
			return []Val{UF(fmt.Sprintf("fpow%d", b.bits), "Real", x, y)}
		})
		mm := func(n string, max bool) {
			reg(b.pkg+"."+n, func(ex *Exec, st *State, c *callCtx) []Val {
				x, y := c.args[0].(*T), c.args[1].(*T)
				if max {
					return []Val{Ite(Ge(x, y), x, y)}
				}
				return []Val{Ite(Le(x, y), x, y)}
			})
		}
		mm("Max", true)
		mm("Min", false)
		reg(b.pkg+".IsNaN", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{False} })
		reg(b.pkg+".IsInf", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{False} })
	}
	reg("math.Float32bits", func(ex *Exec, st *State, c *callCtx) []Val {
		v := c.args[0].(*T)
		if v.op == "f32bitsinv" {
			return []Val{v.args[0]}
		}
		return []Val{ex.typedFresh(st, UF("f32bits", "Int", v), c.res(0))}
	})
	reg("math.Float64bits", func(ex *Exec, st *State, c *callCtx) []Val {
		v := c.args[0].(*T)
		if v.op == "f64bitsinv" {
			return []Val{v.args[0]}
		}
		return []Val{ex.typedFresh(st, UF("f64bits", "Int", v), c.res(0))}
	})
	reg("math.Float32frombits", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{UF("f32bitsinv", "Real", c.args[0].(*T))}
	})
	reg("math.Float64frombits", func(ex *Exec, st *State, c *callCtx) []Val {
		return []Val{UF("f64bitsinv", "Real", c.args[0].(*T))}
	})
	reg("math/rand.Float64", func(ex *Exec, st *State, c *callCtx) []Val {
		r := Fresh("rand", "Real")
		st.assume(Ge(r, RealL("0")), Lt(r, RealL("1")))
		return []Val{r}
	})
	reg("runtime.NumGoroutine", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{st.freshVal("ng", c.res(0))} })
	reg("runtime.GOMAXPROCS", func(ex *Exec, st *State, c *callCtx) []Val { return []Val{st.freshVal("np", c.res(0))} })
	// connection cache: the loader makes one pool per address
	reg("iface:github.com/goburrow/cache.LoadingCache.Get", func(ex *Exec, st *State, c *callCtx) []Val {
		rs := ex.arbitrary(st, c.sig, "pool")
		v := rs[0].(*IfaceV)
		if ct := ex.prog.lookupType("*util.ConnectionPool"); ct != nil {
			key := c.args[1].(*IfaceV)
			cp := mkPtr(v.pay, ct.Underlying().(*types.Pointer).Elem())
			pool := loadFrom(st.h, &PtrV{ref: cp.ref, key: cp.key + ".Pool", typ: types.NewPointer(types.Typ[types.Int])})[0]
			st.assume(Or(Eq(v.tag, IntL(0)), And(Eq(v.tag, typeTag(ct)), Gt(v.pay, IntL(0)), Gt(pool, IntL(0)), Eq(st.get1("pool#addr", "Int", "", pool), key.pay))))
			if hk := ex.contractFor("cache.load"); hk != nil {
				// what the loader made, and pool operations keep
				ex.used[hk.name] = true
				vars := map[string]SV{"k": {key, c.sig.Params().At(0).Type()}, "v": {v, c.res(0)}}
				for _, e := range hk.ensures {
					if e.forProp(ex.prop) {
						st.assume(Imp(Not(Eq(v.tag, IntL(0))), ex.specCtx(st, vars).boolExpr(e)))
					}
				}
			}
		}
		return rs
	})
	reg("github.com/goburrow/cache.NewLoadingCache", func(ex *Exec, st *State, c *callCtx) []Val {
		if hk := ex.contractFor("cache.load"); hk != nil {
			sig := c.sig.Params().At(0).Type().Underlying().(*types.Signature)
			kt := sig.Params().At(0).Type()
			s2 := st.clone()
			key := s2.freshVal("key", types.Typ[types.String])
			bk := ex.makeIface(s2, key, types.Typ[types.String])
			ex.checkHook(s2, c.args[0].(*T), hk, []SV{{bk, kt}}, []Val{bk}, []types.Type{kt}, sig, c.pos)
		}
		v := st.freshVal("cache", c.res(0)).(*IfaceV)
		st.assume(Not(Eq(v.tag, IntL(0))))
		return []Val{v}
	})
}

// dynCall calls the New function of a pool.
func (ex *Exec) dynCall(st *State, pool, f *T, c *callCtx, k func(*State, []Val)) {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", c.res(0))), false)
	if f.big != nil {
		if !ex.callValue(st, f, sig, nil, nil, c.pos, k) {
			k(st, lastResult)
		}
		return
	}
	// a function stored earlier: the contract of the New function of pools
	if ct := ex.contractFor("pool.New"); ct != nil {
		as := []SV{{pool, nil}}
		if pt := ex.prog.lookupType("*util.ConnectionPool"); pt != nil {
			owner := mkPtr(st.get1("pool#owner", "Int", "", pool), pt.Underlying().(*types.Pointer).Elem())
			as = append(as, SV{owner, pt}, SV{st.get1("pool#addr", "Int", "", pool), types.Typ[types.String]})
		}
		k(st, ex.applyHook(st, ct, as, []types.Type{c.res(0)}))
		return
	}
	st.bumpAlloc()
	k(st, []Val{st.freshVal("new", c.res(0))})
}

// escapedName: the term is an injective function (constant text and one escaping) of
// the returned term.
func escapedName(t *T) *T {
	var n *T
	for _, p := range pieces(t) {
		if _, ok := litStr(p); ok {
			continue
		}
		if n != nil || len(p.args) != 1 {
			return nil
		}
		n = p.args[0]
	}
	return n
}

// safeElem: the term is a single path element that is not "." or "..".
func safeElem(t *T) bool {
	ps := pieces(t)
	nonDot := false
	for _, p := range ps {
		if l, ok := litStr(p); ok {
			if strings.ContainsAny(l, "/\\\x00") {
				return false
			}
			if strings.Trim(l, ".") != "" {
				nonDot = true
			}
			continue
		}
		switch p.op {
		case "pathescape", "queryescape":
		case "hexenc":
			nonDot = nonDot || false
		default:
			return false
		}
	}
	return nonDot
}
