package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Joining of paths: a branch whose arms only compute values (and write single
// cells of one object) is executed once per arm and continued once, with
// if-then-else values. This keeps the number of paths small; it loses nothing,
// since the guards of the arms are kept as facts.

type mergeInfo struct {
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
	region map[*ssa.BasicBlock]*mergeRegion // per If block, nil: do not merge
}

type mergeRegion struct {
	exits  map[*ssa.BasicBlock]bool
	blocks map[*ssa.BasicBlock]bool
}

var mergeInfos = map[*ssa.Function]*mergeInfo{}
var simpleFns = map[*ssa.Function]int{}

func pureInstr(in ssa.Instruction, stores bool) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.BinOp, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Lookup:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.TypeAssert:
		return true
	case *ssa.Store:
		return stores
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if x.Call.IsInvoke() {
			return false
		}
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		if _, isClosure := x.Call.Value.(*ssa.MakeClosure); isClosure {
			return false
		}
		if inRepo(f) {
			return simpleFn(f) != 0
		}
		switch f.String() {
		case "sync/atomic.LoadInt32", "sync/atomic.LoadInt64", "sync/atomic.LoadUint64", "math.Sqrt", "github.com/chewxy/math32.Sqrt", "strings.Contains", "strings.HasPrefix", "log.Printf", "log.Println", "log.Print":
			return true
		}
		return false
	}
	return false
}

// simpleFn: 0 not simple, 1 simple without branches, 2 simple with several paths.
func simpleFn(f *ssa.Function) int {
	if r, ok := simpleFns[f]; ok {
		return r
	}
	simpleFns[f] = 0
	if len(f.Blocks) == 0 || len(f.Blocks) > 24 || f.Recover != nil {
		return 0
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return 0
			}
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				continue
			}
			if !pureInstr(in, false) {
				return 0
			}
		}
	}
	r := 1
	if len(f.Blocks) > 1 {
		r = 2
	}
	simpleFns[f] = r
	return r
}

func mergeInfoOf(fn *ssa.Function) *mergeInfo {
	if m, ok := mergeInfos[fn]; ok {
		return m
	}
	m := &mergeInfo{ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, region: map[*ssa.BasicBlock]*mergeRegion{}}
	mergeInfos[fn] = m
	n := len(fn.Blocks)
	if n > 400 {
		return m
	}
	// post-dominator sets
	full := func() map[int]bool {
		s := map[int]bool{}
		for i := 0; i < n; i++ {
			s[i] = true
		}
		return s
	}
	pd := make([]map[int]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = map[int]bool{i: true}
		} else {
			pd[i] = full()
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			ns := map[int]bool{}
			for x := range pd[b.Succs[0].Index] {
				ok := true
				for _, s := range b.Succs[1:] {
					if !pd[s.Index][x] {
						ok = false
					}
				}
				if ok {
					ns[x] = true
				}
			}
			ns[i] = true
			if len(ns) != len(pd[i]) {
				pd[i] = ns
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		var best *ssa.BasicBlock
		for x := range pd[i] {
			if x == i {
				continue
			}
			if best == nil || pd[x][best.Index] == false && len(pd[x]) > len(pd[best.Index]) {
				best = fn.Blocks[x]
			} else if len(pd[x]) > len(pd[best.Index]) {
				best = fn.Blocks[x]
			}
		}
		m.ipdom[b] = best
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		if r := joinRegion(m, b); r != nil {
			m.region[b] = r
		} else if r := condRegion(b); r != nil {
			m.region[b] = r
		}
	}
	return m
}

// joinRegion: all paths from the branch reach one join, computing only values.
func joinRegion(m *mergeInfo, b *ssa.BasicBlock) *mergeRegion {
	j := m.ipdom[b]
	if j == nil || j == b {
		return nil
	}
	reg := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if !ok || x == j || reg[x] {
			return
		}
		if x == b || len(reg) > 12 || len(x.Succs) == 0 {
			ok = false
			return
		}
		reg[x] = true
		for _, in := range x.Instrs {
			if !pureInstr(in, true) {
				ok = false
				return
			}
		}
		for _, s := range x.Succs {
			if s.Dominates(x) {
				ok = false
				return
			}
			walk(s)
		}
	}
	for _, s := range b.Succs {
		walk(s)
	}
	// every block of the region is reached from this branch only
	for x := range reg {
		if !b.Dominates(x) {
			ok = false
		}
	}
	if !ok {
		return nil
	}
	return &mergeRegion{exits: map[*ssa.BasicBlock]bool{j: true}, blocks: reg}
}

// condRegion: a compound condition, several tests with two targets.
func condRegion(b *ssa.BasicBlock) *mergeRegion {
	reg := map[*ssa.BasicBlock]bool{}
	exits := func() map[*ssa.BasicBlock]bool {
		e := map[*ssa.BasicBlock]bool{}
		for _, s := range b.Succs {
			if !reg[s] {
				e[s] = true
			}
		}
		for x := range reg {
			for _, s := range x.Succs {
				if !reg[s] {
					e[s] = true
				}
			}
		}
		return e
	}
	var best *mergeRegion
	for n := 0; n < 10; n++ {
		grown := false
		for e := range exits() {
			if len(e.Succs) == 0 || e == b || e.Dominates(b) {
				continue
			}
			if _, isIf := e.Instrs[len(e.Instrs)-1].(*ssa.If); !isIf {
				continue
			}
			ok := true
			for _, in := range e.Instrs {
				if _, isPhi := in.(*ssa.Phi); isPhi || !pureInstr(in, false) {
					ok = false
				}
			}
			for _, p := range e.Preds {
				if p != b && !reg[p] {
					ok = false
				}
			}
			for _, s := range e.Succs {
				if s.Dominates(e) {
					ok = false
				}
			}
			if ok {
				reg[e] = true
				grown = true
				break
			}
		}
		if ex := exits(); len(ex) == 2 && len(reg) > 0 {
			bl := map[*ssa.BasicBlock]bool{}
			for x := range reg {
				bl[x] = true
			}
			best = &mergeRegion{exits: ex, blocks: bl}
		}
		if !grown {
			break
		}
	}
	if best == nil {
		return nil
	}
	// values computed by the tests must not be used outside
	for x := range best.blocks {
		for _, in := range x.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if best.blocks[r.Block()] {
					continue
				}
				if _, isPhi := r.(*ssa.Phi); isPhi && best.exits[r.Block()] {
					continue
				}
				return nil
			}
		}
	}
	return best
}

type mergePath struct {
	st   *State
	vals []Val
}

var quantCache = map[int]bool{}

func quantIn(t *T) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := quantCache[t.id]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if quantIn(a) {
			r = true
			break
		}
	}
	quantCache[t.id] = r
	return r
}

// joinPaths merges the states of all paths into one; nil when not possible.
func (ex *Exec) joinPaths(base *State, ps []mergePath, typs []types.Type) *mergePath {
	if len(ps) == 1 {
		return &ps[0]
	}
	if len(ps) == 0 {
		return nil
	}
	guards := make([]*T, len(ps))
	for i, p := range ps {
		if p.st.ctr != base.ctr || len(p.st.pc) < len(base.pc) || len(p.st.bvpc) != len(base.bvpc) || p.st.clock != base.clock || len(p.st.doneWGs) != len(base.doneWGs) {
			return nil
		}
		added := p.st.pc[len(base.pc):]
		for _, f := range added {
			if quantIn(f) {
				return nil
			}
		}
		guards[i] = And(added...)
	}
	merge := func(ts []*T) *T {
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = Ite(guards[i], ts[i], r)
		}
		return r
	}
	var vals []Val
	for vi, t := range typs {
		var fl [][]*T
		same := true
		for _, p := range ps {
			if !plainVal(p.vals[vi], t) {
				if p.vals[vi] != ps[0].vals[vi] {
					return nil
				}
				continue
			}
			fl = append(fl, flatten(p.vals[vi], t))
		}
		if len(fl) != len(ps) {
			if len(fl) == 0 {
				vals = append(vals, ps[0].vals[vi])
				continue
			}
			return nil
		}
		for _, f := range fl[1:] {
			for j := range f {
				if f[j] != fl[0][j] {
					same = false
				}
			}
		}
		if same {
			vals = append(vals, ps[0].vals[vi])
			continue
		}
		if _, isFn := t.Underlying().(*types.Signature); isFn {
			return nil
		}
		var out []*T
		for j := range fl[0] {
			var ts []*T
			for i := range fl {
				ts = append(ts, fl[i][j])
			}
			m := merge(ts)
			if leaves(t)[j].kind == "ref" {
				b := int64(0)
				for _, x := range ts {
					if bb := base.boundOf(x); bb > b {
						b = bb
					}
				}
				if m.big == nil {
					if _, ok := refBound[m.id]; !ok {
						refBound[m.id] = b
					}
				}
			}
			out = append(out, m)
		}
		vals = append(vals, build(out, t))
	}
	// heaps
	keys := map[string]bool{}
	for _, p := range ps {
		for k, v := range p.st.h.m {
			if base.h.at2(k) != v {
				keys[k] = true
			}
		}
	}
	newHeap := map[string]*T{}
	for k := range keys {
		b := base.h.at(k)
		var ref *T
		for _, p := range ps {
			v := p.st.h.at(k)
			if v == b {
				continue
			}
			if v.op != "store" || v.args[0] != b {
				return nil
			}
			if ref != nil && ref != v.args[1] {
				return nil
			}
			ref = v.args[1]
		}
		var ts []*T
		for _, p := range ps {
			v := p.st.h.at(k)
			if v == b {
				ts = append(ts, Select(b, ref))
			} else {
				ts = append(ts, v.args[2])
			}
		}
		if levelsOf(b.sort) != 1 {
			same := true
			for _, t := range ts {
				if t != ts[0] {
					same = false
				}
			}
			if !same {
				row := Select(b, ref)
				var idx *T
				for _, t := range ts {
					if t == row {
						continue
					}
					if t.op != "store" || t.args[0] != row || idx != nil && idx != t.args[1] {
						return nil
					}
					idx = t.args[1]
				}
				var vs []*T
				for _, t := range ts {
					if t == row {
						vs = append(vs, Select(row, idx))
					} else {
						vs = append(vs, t.args[2])
					}
				}
				newHeap[k] = Store(b, ref, Store(row, idx, merge(vs)))
				continue
			}
			newHeap[k] = Store(b, ref, ts[0])
			continue
		}
		newHeap[k] = Store(b, ref, merge(ts))
	}
	st := base.clone()
	for k, v := range newHeap {
		st.h.m[k] = v
	}
	st.assume(Or(guards...))
	return &mergePath{st, vals}
}

// at2 returns the array of a key when it was seen before, without creating it.
func (h *Heap) at2(key string) *T {
	if t, ok := h.m[key]; ok {
		return t
	}
	return Var("H"+h.epoch+":"+key, keySort[key].srt)
}

func plainVal(v Val, t types.Type) bool {
	switch x := v.(type) {
	case *PtrV:
		return x.plain()
	case *T, *SliceV, *IfaceV:
		return true
	case *StructV:
		for _, f := range x.f {
			if !plainVal(f, nil) {
				return false
			}
		}
		return true
	}
	return false
}

// callMerged runs a simple function and joins its return paths.
func (ex *Exec) callMerged(st *State, fn *ssa.Function, args []Val, bind []Val, site string, k func(*State, []Val)) {
	base := st.clone()
	var ps []mergePath
	ex.callFunc0(st, fn, args, bind, site, func(s *State, rs []Val) {
		ps = append(ps, mergePath{s, rs})
	})
	var typs []types.Type
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		typs = append(typs, fn.Signature.Results().At(i).Type())
	}
	if m := ex.joinPaths(base, ps, typs); m != nil {
		k(m.st, m.vals)
		return
	}
	for _, p := range ps {
		k(p.st, p.vals)
	}
}

// branchMerged runs the arms of a branch up to the exits of its region and
// continues once per exit; false: not possible.
func (ex *Exec) branchMerged(st *State, b *ssa.BasicBlock, c *T) bool {
	if c.hasBV || st.capture {
		return false
	}
	fr := st.top()
	reg := mergeInfoOf(fr.fn).region[b]
	if reg == nil {
		return false
	}
	base := st.clone()
	type exit struct {
		to *ssa.BasicBlock
		ps []mergePath
	}
	var exits []*exit
	saved := fr.stop
	stop := &stopAt{exits: reg.exits}
	stop.kv = func(s2 *State, to *ssa.BasicBlock, vals []Val) {
		s2.top().stop = saved
		for _, e := range exits {
			if e.to == to {
				e.ps = append(e.ps, mergePath{s2, vals})
				return
			}
		}
		exits = append(exits, &exit{to, []mergePath{{s2, vals}}})
	}
	run := func(s *State, cond *T, to *ssa.BasicBlock) {
		s.assumeB(cond)
		s.top().stop = stop
		ex.jump(s, b, to)
	}
	s2 := st.clone()
	run(s2, c, b.Succs[0])
	run(st, Not(c), b.Succs[1])
	for _, e := range exits {
		var typs []types.Type
		for _, in := range e.to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			typs = append(typs, p.Type())
		}
		if m := ex.joinPaths(base, e.ps, typs); m != nil {
			ex.jumpVals(m.st, e.to, m.vals)
			continue
		}
		for _, p := range e.ps {
			ex.jumpVals(p.st, e.to, p.vals)
		}
	}
	return true
}

type stopAt struct {
	exits map[*ssa.BasicBlock]bool
	kv    func(*State, *ssa.BasicBlock, []Val)
}
