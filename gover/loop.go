package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type LoopCtx struct {
	blocks map[*ssa.BasicBlock]bool
	dry    bool
	back   func(st *State, vals []Val)
}

// LoopDesc is a loop to be cut by an invariant.
type LoopDesc struct {
	vars   []loopVar
	start  func(st *State, vals []Val, ctx *LoopCtx)
	pos    string
	visKey string
	visObj *T
	mapRow func(h *Heap) *T // has-row of the iterated container
	unroll bool
	name   string
	header *ssa.BasicBlock
}

type loopVar struct {
	name string
	typ  types.Type
	init Val
}

// CFG loops
type cfgLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*cfgLoop {
	res := map[*ssa.BasicBlock]*cfgLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := res[s]
				if lp == nil {
					lp = &cfgLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = lp
				}
				// collect natural loop
				var stack []*ssa.BasicBlock
				if !lp.blocks[b] {
					lp.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !lp.blocks[p] {
							lp.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return res
}

func (ex *Exec) enterLoop(st *State, inits []Val, lp *cfgLoop) {
	fr := st.top()
	h := lp.header
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	d := &LoopDesc{pos: ex.pos(loopPos(lp)), name: fr.fn.String(), header: h}
	for i, p := range phis {
		d.vars = append(d.vars, loopVar{p.Comment, p.Type(), inits[i]})
	}
	// iterator of a map range in this loop
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := fr.env[nx.Iter].(*IterV); ok {
					if isInnermost(ex.prog.loopsOf(fr.fn), b, lp) {
						d.visKey, d.visObj = it.visKey, it.m
						mk := "M:" + shortType(it.typ)
						mref := Select(st.h.arr1("vismap", "Int", ""), it.m)
						d.mapRow = func(hp *Heap) *T { return Select(hp.arr2(mk+"#has", "Bool", ""), mref) }
					}
				}
			}
		}
	}
	depth := len(st.frames)
	d.start = func(s *State, vals []Val, ctx *LoopCtx) {
		f := s.frames[depth-1]
		ctx.blocks = lp.blocks
		f.loops[h] = ctx
		for i, p := range phis {
			f.env[p] = vals[i]
		}
		ex.execBlock(s, h, len(phis))
	}
	d.unroll = ex.shouldUnroll(st, fr.fn, lp)
	ex.runLoop(st, d)
}

func isInnermost(all map[*ssa.BasicBlock]*cfgLoop, b *ssa.BasicBlock, lp *cfgLoop) bool {
	for _, o := range all {
		if o != lp && o.blocks[b] && lp.blocks[o.header] {
			return false
		}
	}
	return true
}

func loopPos(lp *cfgLoop) token.Pos {
	for _, in := range lp.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// shouldUnroll: loops over a shrinking operand of fixed width (shift right by a
// constant, or continuation bits) end after a bounded number of iterations.
func (ex *Exec) shouldUnroll(st *State, fn *ssa.Function, lp *cfgLoop) bool {
	if !ex.prog.unrollFns[fn.Pkg.Pkg.Path()] {
		return false
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.SHR || bo.Op == token.SHL) {
				if bo.Op == token.SHR {
					if _, isPhi := bo.X.(*ssa.Phi); isPhi {
						return true
					}
				}
				if bo.Op == token.SHL {
					if _, isC := bo.Y.(*ssa.Const); !isC {
						return true
					}
				}
			}
		}
	}
	return false
}

type candidate struct {
	name string
	f    func(st *State, vals []Val, it *T) *T
	spec bool
}

func (ex *Exec) havoc(st *State, w *writeSet) []candidate {
	var frames []candidate
	keys := map[string]bool{}
	for k := range w.unknown {
		keys[k] = true
	}
	for k := range w.freshw {
		keys[k] = true
	}
	for k := range w.precise {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		a := st.h.at(k)
		meta := keySort[k]
		if w.unknown[k] || w.freshw[k] {
			nv := Fresh("hv:"+k, a.sort)
			registerBase(nv.name, a.sort, meta.kind, meta.typ, st.ctr)
			st.setHeap(k, nil, nil, nv)
			prec := w.precise[k]
			ctr0 := w.ctr0
			key := k
			old := a
			f := func(s *State, vals []Val, it *T) *T {
				r := BVar("r", "Int")
				cur := s.h.at(key)
				if cur == old {
					return True
				}
				cond := Lt(r, IntL(ctr0))
				for _, p := range prec {
					cond = And(cond, Not(Eq(r, p)))
				}
				x := App("select", arrayElem(cur.sort), cur, r)
				return Forall([]*T{r}, Imp(cond, Eq(x, Select(old, r))), []*T{x})
			}
			if !w.unknown[k] {
				st.assume(f(st, nil, nil))
			} else {
				frames = append(frames, candidate{name: "frame " + k, f: f})
			}
		} else {
			na := a
			for _, r := range sortedRefs(w.precise[k]) {
				es := arrayElem(a.sort)
				nv := Fresh("hv:"+k, es)
				if strings.HasPrefix(es, "(Array") {
					registerRow(nv.name, es, meta.kind, meta.typ, st.ctr)
				} else {
					if meta.kind == "ref" {
						refBound[nv.id] = st.ctr
					}
					st.leafFacts(Leaf{"", es, tyOr(meta.typ), meta.kind}, nv)
				}
				if k == "G:clock" {
					st.assume(Le(Select(a, r), nv)) // time never goes back
				}
				na = Store(na, r, nv)
				st.setHeap(k, r, nil, na)
			}
			st.h.m[k] = na
		}
	}
	return frames
}

func tyOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.UntypedNil]
	}
	return t
}

func sortedRefs(m map[int]*T) []*T {
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			if ids[j] < ids[i] {
				ids[i], ids[j] = ids[j], ids[i]
			}
		}
	}
	var out []*T
	for _, id := range ids {
		out = append(out, m[id])
	}
	return out
}

type invCheck struct {
	cand  int
	facts []*T
	goal  *T
	spec  bool
}

var houdiniTO = 3 * time.Second

// checkMany decides the goals in parallel; returns which candidates fail.
func checkMany(cs []invCheck) map[int]bool {
	bad := map[int]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	// group by path
	groups := map[int][]invCheck{}
	var order []int
	for _, c := range cs {
		if c.goal == True {
			continue
		}
		key := 0
		if len(c.facts) > 0 {
			key = c.facts[len(c.facts)-1].id*1000003 + len(c.facts)
		}
		if _, ok := groups[key]; !ok {
			order = append(order, key)
		}
		groups[key] = append(groups[key], c)
	}
	livePart := func(g []invCheck) []invCheck {
		var live []invCheck
		mu.Lock()
		for _, c := range g {
			if !bad[c.cand] {
				live = append(live, c)
			}
		}
		mu.Unlock()
		return live
	}
	hardTO := houdiniTO + time.Second
	if len(order) <= 8 {
		hardTO = 3 * houdiniTO
	}
	single := func(c invCheck) {
		defer wg.Done()
		to := houdiniTO
		if !c.spec { // that a variable does not change is simple where it holds
			to = houdiniTO
		}
		solverSem <- struct{}{}
		r := solveWithin(c.facts, c.goal, to)
		<-solverSem
		if r == "unsat" || c.spec && r != "sat" && solveHard(c.facts, c.goal, hardTO) == "unsat" {
			return
		}
		if d := os.Getenv("GOVER_DUMPB"); d != "" && c.spec {
			os.WriteFile(fmt.Sprintf("%s/bad%d_%s.smt2", d, c.goal.id, r), []byte(makeScript(c.facts, c.goal, "", false)), 0644)
		}
		mu.Lock()
		bad[c.cand] = true
		mu.Unlock()
	}
	var split func(g []invCheck)
	split = func(g []invCheck) {
		defer wg.Done()
		live := livePart(g)
		if len(live) == 0 {
			return
		}
		if len(live) == 1 {
			wg.Add(1)
			single(live[0])
			return
		}
		var gs []*T
		for _, c := range live {
			gs = append(gs, c.goal)
		}
		solverSem <- struct{}{}
		r := solveQuick(live[0].facts, And(gs...))
		<-solverSem
		if r == "unsat" {
			return
		}
		m := len(live) / 2
		wg.Add(2)
		go split(live[:m])
		go split(live[m:])
	}
	if len(order) <= 8 {
		for _, k := range order {
			wg.Add(1)
			go split(groups[k])
		}
		wg.Wait()
		return bad
	}
	// Candidates that fail mostly fail on several paths: the candidates are decided one by
	// one on a path that refuses their conjunction, and the other paths are tried again
	// without those that failed.
	for first := true; len(order) > 0; first = false {
		if !first || len(order) == 1 {
			var pending []int
			for _, k := range order {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					live := livePart(groups[k])
					if len(live) == 0 {
						return
					}
					var gs []*T
					for _, c := range live {
						gs = append(gs, c.goal)
					}
					solverSem <- struct{}{}
					r := solveWithin(live[0].facts, And(gs...), houdiniTO*2/3)
					<-solverSem
					if r != "unsat" {
						mu.Lock()
						pending = append(pending, k)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			isPending := map[int]bool{}
			for _, k := range pending {
				isPending[k] = true
			}
			var rest []int
			for _, k := range order {
				if isPending[k] {
					rest = append(rest, k)
				}
			}
			order = rest
			if len(order) == 0 {
				break
			}
		}
		for _, c := range livePart(groups[order[0]]) {
			wg.Add(1)
			go single(c)
		}
		wg.Wait()
		order = order[1:]
	}
	return bad
}

var solverSem = make(chan struct{}, 8)
var houdiniQ int64

func solveQuick(facts []*T, goal *T) string { return solveWithin(facts, goal, houdiniTO) }

func solveWithin(facts []*T, goal *T, cmdTO time.Duration) string {
	if goal == True {
		return "unsat"
	}
	if goal == False && len(facts) == 0 {
		return "sat"
	}
	if time.Now().After(deadline) {
		return "unknown"
	}
	atomic.AddInt64(&houdiniQ, 1)
	scr := makeScript(facts, goal, "", false)
	if d := os.Getenv("GOVER_DUMPH"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/h%d.smt2", d, goal.id), []byte(scr), 0644)
	}
	t0 := time.Now()
	st, _ := runSolverTO("z3-new", []string{"-in", fmt.Sprintf("-t:%d", int(cmdTO.Milliseconds())), "smt.mbqi=false", "auto_config=false"}, scr, cmdTO+time.Second)
	solverStat.Lock()
	if solverStat.dur == nil {
		solverStat.dur = map[string]time.Duration{}
		solverStat.count = map[string]int{}
	}
	solverStat.dur["z3-new (invariants)"] += time.Since(t0)
	solverStat.count["z3-new (invariants)"]++
	solverStat.Unlock()
	return st
}

// solveHard decides one candidate of the specification with the other solvers.
func solveHard(facts []*T, goal *T, to time.Duration) string {
	if time.Now().After(deadline) {
		return "unknown"
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	scr := makeScript(facts, goal, "", false)
	t0 := time.Now()
	res := make(chan string, 2)
	ctx, cancel := context.WithTimeout(context.Background(), to+2*time.Second)
	defer cancel()
	secs := int(to.Seconds())
	go func() {
		s, _ := runSolver(ctx, "z3-new", []string{"-in", fmt.Sprintf("-T:%d", secs)}, scr)
		res <- s
	}()
	go func() {
		s, _ := runSolver(ctx, "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n"+scr)
		res <- s
	}()
	out := "unknown"
	for i := 0; i < 2; i++ {
		if s := <-res; s == "unsat" || s == "sat" {
			out = s
			break
		}
	}
	solverStat.Lock()
	solverStat.dur["z3-new/cvc5 (invariants)"] += time.Since(t0)
	solverStat.count["z3-new/cvc5 (invariants)"]++
	solverStat.Unlock()
	return out
}

func (ex *Exec) runLoop(st *State, d *LoopDesc) {
	if d.unroll {
		ex.unrollLoop(st, d, 0)
		return
	}
	mark := int(atomic.LoadInt64(&freshCnt))
	ctr0 := st.ctr
	if !st.expl {
		tl := time.Now()
		defer func() { dbg("loop %s dry=%d took %.1fs (with what follows)", d.pos, st.dry, time.Since(tl).Seconds()) }()
	}
	n := len(d.vars)
	W := newWriteSet(mark, ctr0, nil)
	changed := make([]bool, n)
	chLeaf := make([][]bool, n) // leaves of loop variables that change
	for i, v := range d.vars {
		chLeaf[i] = make([]bool, len(flatten(v.init, v.typ)))
	}
	saveCmps := ex.cmps
	// exploration
	type backRec struct {
		vals []Val
		h    *Heap
	}
	var backs []backRec
	var startVals []Val
	var startHeap *Heap
	var cmps []cmpRec
	freshVals := func(s *State) []Val {
		out := make([]Val, n)
		for i, v := range d.vars {
			if !changed[i] {
				out[i] = v.init
				continue
			}
			fv := s.freshVal(varName(v.name), v.typ)
			all := true
			for _, c := range chLeaf[i] {
				all = all && c
			}
			if !all {
				a, b := flatten(fv, v.typ), flatten(v.init, v.typ)
				for j := range a {
					if !chLeaf[i][j] {
						a[j] = b[j]
					}
				}
				fv = build(a, v.typ)
				s.valFacts(fv, v.typ)
			}
			out[i] = fv
		}
		return out
	}
	for round := 0; round < 16; round++ {
		s := st.clone()
		s.expl = true
		s.dry++
		s.bumpAlloc()
		s.writes = nil
		ex.havoc(s, W)
		w := newWriteSet(mark, ctr0, st.writes)
		s.writes = w
		vals := freshVals(s)
		startVals = vals
		startHeap = s.h.clone()
		backs = nil
		cmps = nil
		ex.cmps = &cmps
		ctx := &LoopCtx{dry: true}
		ctx.back = func(s2 *State, nv []Val) {
			backs = append(backs, backRec{nv, s2.h})
		}
		d.start(s, vals, ctx)
		ex.cmps = saveCmps
		before := W.size()
		W.merge(w)
		stable := W.size() == before
		// which loop variables really change
		for i, v := range d.vars {
			for _, b := range backs {
				if !plainVal(v.init, v.typ) || !plainVal(b.vals[i], v.typ) {
					if v.init != b.vals[i] && !changed[i] {
						changed[i], stable = true, false
						for j := range chLeaf[i] {
							chLeaf[i][j] = true
						}
					}
					continue
				}
				a, c := flatten(v.init, v.typ), flatten(b.vals[i], v.typ)
				for j := range a {
					if a[j] != c[j] && !chLeaf[i][j] || round == 12 && !chLeaf[i][j] {
						chLeaf[i][j], changed[i], stable = true, true, false
					}
				}
			}
		}
		if stable {
			break
		}
	}
	it := Fresh("it", "Int")
	s1 := st.clone()
	s1.bumpAlloc()
	frameCands := ex.havoc(s1, W)
	s1.assume(Le(IntL(0), it))
	setRange(it, new(big.Int), big.NewInt(maxLen))
	s1.assume(Le(it, IntL(maxLen)))
	vals := freshVals(s1)
	if st.expl {
		ctx := &LoopCtx{}
		ctx.back = func(s2 *State, nv []Val) {}
		d.start(s1, vals, ctx)
		return
	}
	// candidates
	var cands []candidate
	cands = append(cands, frameCands...)
	symLeaf := map[int]func(s *State, vals []Val) *T{} // start symbol -> accessor
	addLeaf := func(name string, l Leaf, init *T, acc func(s *State, vals []Val) *T, start *T, ends []*T) {
		if l.sort == "Int" && (l.kind == "" && isIntType(l.typ) || l.kind == "len" || l.kind == "off" || l.kind == "cap") {
			symLeaf[start.id] = acc
			// step detection
			var steps []*big.Int
			okc := len(ends) > 0
			for _, e := range ends {
				d := Sub(e, start)
				if d.big == nil {
					okc = false
					break
				}
				steps = append(steps, d.big)
			}
			if okc {
				mn, mx := steps[0], steps[0]
				for _, s := range steps {
					if s.Cmp(mn) < 0 {
						mn = s
					}
					if s.Cmp(mx) > 0 {
						mx = s
					}
				}
				if mn.Cmp(mx) == 0 {
					c := IntB(mn)
					cands = append(cands, candidate{name: name + " = init+step*it", f: func(s *State, v []Val, it *T) *T {
						return Eq(acc(s, v), Add(init, Mul(c, it)))
					}})
				} else {
					lo, hi := IntB(mn), IntB(mx)
					cands = append(cands, candidate{name: name + " between", f: func(s *State, v []Val, it *T) *T {
						return And(Le(Add(init, Mul(lo, it)), acc(s, v)), Le(acc(s, v), Add(init, Mul(hi, it))))
					}})
				}
			}
			cands = append(cands, candidate{name: name + " >= init", f: func(s *State, v []Val, it *T) *T { return Ge(acc(s, v), init) }})
			if l.kind == "off" {
				cands = append(cands, candidate{name: name + " == init", f: func(s *State, v []Val, it *T) *T { return Eq(acc(s, v), init) }})
			}
		}
		if l.kind == "ref" {
			cands = append(cands, candidate{name: name + " != nil", f: func(s *State, v []Val, it *T) *T { return Not(Eq(acc(s, v), IntL(0))) }})
			cands = append(cands, candidate{name: name + " new", f: func(s *State, v []Val, it *T) *T { return Ge(acc(s, v), IntL(ctr0)) }})
			cands = append(cands, candidate{name: name + " new, nil or init", f: func(s *State, v []Val, it *T) *T {
				return Or(Ge(acc(s, v), IntL(ctr0)), Eq(acc(s, v), IntL(0)), Eq(acc(s, v), init))
			}})
			cands = append(cands, candidate{name: name + " == init", f: func(s *State, v []Val, it *T) *T { return Eq(acc(s, v), init) }})
		}
		if l.kind == "tag" {
			cands = append(cands, candidate{name: name + " tag nil or known", f: func(s *State, v []Val, it *T) *T {
				alts := []*T{Eq(acc(s, v), init)}
				for _, e := range ends {
					if e.big != nil {
						alts = append(alts, Eq(acc(s, v), e))
					}
				}
				return Or(alts...)
			}})
		}
	}
	for i, v := range d.vars {
		if !changed[i] {
			continue
		}
		ls := leaves(v.typ)
		ini := flatten(v.init, v.typ)
		stt := flatten(startVals[i], v.typ)
		for j, l := range ls {
			var ends []*T
			for _, b := range backs {
				ends = append(ends, flatten(b.vals[i], v.typ)[j])
			}
			i, j, typ := i, j, v.typ
			addLeaf(fmt.Sprintf("%s%s", v.name, l.path), l, ini[j], func(s *State, vs []Val) *T { return flatten(vs[i], typ)[j] }, stt[j], ends)
		}
		if sl, ok := v.typ.Underlying().(*types.Slice); ok {
			_ = sl
			i := i
			cands = append(cands, candidate{name: v.name + " shape", f: func(s *State, vs []Val, it *T) *T {
				x := vs[i].(*SliceV)
				return And(Le(x.ln, x.cp), Imp(Eq(x.ref, IntL(0)), Eq(x.cp, IntL(0))))
			}})
		}
	}
	for _, k := range sortedKeys(W.precise) {
		if W.unknown[k] || W.freshw[k] {
			continue
		}
		meta := keySort[k]
		if levelsOf(meta.srt) != 1 {
			continue
		}
		l := Leaf{"", arrayElem(meta.srt), tyOr(meta.typ), meta.kind}
		for _, r := range sortedRefs(W.precise[k]) {
			k, r := k, r
			init := Select(st.h.at(k), r)
			sv := Select(startHeap.at(k), r)
			var ends []*T
			for _, b := range backs {
				ends = append(ends, Select(b.h.at(k), r))
			}
			addLeaf(k, l, init, func(s *State, vs []Val) *T { return Select(s.h.at(k), r) }, sv, ends)
			if meta.kind == "" && l.sort == "Bool" {
				// flags
				cands = append(cands, candidate{name: k + " == init", f: func(s *State, vs []Val, it *T) *T { return Eq(Select(s.h.at(k), r), init) }})
			}
		}
	}
	// slice cells: keep the shape facts
	for _, k := range sortedKeys(W.precise) {
		if strings.HasSuffix(k, "#l") && !W.unknown[k] && !W.freshw[k] {
			base := strings.TrimSuffix(k, "#l")
			if levelsOf(keySort[k].srt) != 1 {
				continue
			}
			for _, r := range sortedRefs(W.precise[k]) {
				r := r
				cands = append(cands, candidate{name: base + " shape", f: func(s *State, vs []Val, it *T) *T {
					g := func(x string) *T {
						a, ok := s.h.m[base+x]
						if !ok {
							return nil
						}
						return Select(a, r)
					}
					rr, ll, cc := g("#r"), g("#l"), g("#c")
					if rr == nil || ll == nil || cc == nil {
						return True
					}
					return And(Le(ll, cc), Imp(Eq(rr, IntL(0)), Eq(cc, IntL(0))))
				}})
			}
		}
	}
	// comparisons inside the loop
	seenC := map[string]bool{}
	for _, c := range cmps {
		for _, sw := range []bool{false, true} {
			x, y, op := c.x, c.y, c.op
			if sw {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.LEQ:
					op = token.GEQ
				case token.GTR:
					op = token.LSS
				case token.GEQ:
					op = token.LEQ
				}
			}
			b, cst := splitConst(x)
			if b == nil {
				continue
			}
			acc, ok := symLeaf[b.id]
			if !ok || y.mf > mark {
				continue
			}
			key := fmt.Sprintf("%d|%s|%d|%s", b.id, cst, y.id, op)
			if seenC[key] {
				continue
			}
			seenC[key] = true
			cc := IntB(cst)
			switch op {
			case token.LSS, token.NEQ, token.EQL:
				cands = append(cands, candidate{name: "bound " + b.name, f: func(s *State, v []Val, it *T) *T { return Le(Add(acc(s, v), cc), y) }})
			case token.LEQ:
				cands = append(cands, candidate{name: "bound " + b.name, f: func(s *State, v []Val, it *T) *T { return Le(Add(acc(s, v), cc), Add(y, IntL(1))) }})
			}
			switch op {
			case token.GTR, token.NEQ, token.EQL:
				cands = append(cands, candidate{name: "lbound " + b.name, f: func(s *State, v []Val, it *T) *T { return Ge(Add(acc(s, v), cc), y) }})
			case token.GEQ:
				cands = append(cands, candidate{name: "lbound " + b.name, f: func(s *State, v []Val, it *T) *T { return Ge(Add(acc(s, v), cc), Sub(y, IntL(1))) }})
			}
		}
	}
	if d.visObj != nil && d.mapRow != nil {
		cands = append(cands, candidate{name: "visited keys belong to the map", f: func(s *State, vs []Val, it *T) *T {
			k := BVar("k", "Int")
			vis := Select(s.h.arr2(d.visKey, "Bool", ""), d.visObj)
			x := App("select", "Bool", vis, k)
			return Forall([]*T{k}, Imp(x, Select(d.mapRow(s.h), k)), []*T{x})
		}})
	}
	cands = append(cands, ex.templateCands(st, d, W, s1, vals)...)
	// entry checks
	active := make([]bool, len(cands))
	var checks []invCheck
	for i, c := range cands {
		g := ex.safeCand(c, st, initVals(d), IntL(0))
		if g == nil {
			continue
		}
		active[i] = true
		checks = append(checks, invCheck{i, st.pc, g, c.spec})
	}
	for i := range checkMany(checks) {
		if cands[i].spec {
			dbg("loop %s: %s fails on entry", d.pos, cands[i].name)
		}
		active[i] = false
	}
	rounds := 0
	for {
		rounds++
		s := s1.clone()
		s.dry++
		for i, c := range cands {
			if active[i] {
				s.assume(ex.safeCand(c, s, vals, it))
			}
		}
		var checks []invCheck
		ctx := &LoopCtx{dry: true}
		ctx.back = func(s2 *State, nv []Val) {
			it2 := Add(it, IntL(1))
			s2.assume(Le(it2, IntL(maxLen)))
			for i, c := range cands {
				if !active[i] {
					continue
				}
				g := ex.safeCand(c, s2, nv, it2)
				if g == nil {
					active[i] = false
					continue
				}
				checks = append(checks, invCheck{i, s2.pc[:len(s2.pc):len(s2.pc)], g, c.spec})
			}
		}
		d.start(s, vals, ctx)
		tc := time.Now()
		bad := checkMany(checks)
		dbg("loop %s dry=%d round %d: %d checks, %d bad, %.1fs", d.pos, st.dry, rounds, len(checks), len(bad), time.Since(tc).Seconds())
		if len(bad) == 0 || rounds > 12 {
			if len(bad) > 0 {
				for i := range active {
					active[i] = false
				}
			}
			if st.dry == 0 {
				ex.invOK += len(checks)
			}
			break
		}
		for i := range bad {
			if cands[i].spec {
				dbg("loop %s: %s not preserved (round %d)", d.pos, cands[i].name, rounds)
			}
			active[i] = false
		}
	}
	s := s1
	for i, c := range cands {
		if active[i] {
			if cands[i].spec || os.Getenv("GOVER_DEBUG") == "2" {
				dbg("loop %s: kept %s", d.pos, c.name)
			}
			s.assume(ex.safeCand(c, s, vals, it))
		}
	}
	ctx := &LoopCtx{}
	ctx.back = func(s2 *State, nv []Val) {}
	d.start(s, vals, ctx)
}

func (ex *Exec) safeCand(c candidate, s *State, vals []Val, it *T) (r *T) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specErr); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return c.f(s, vals, it)
}

func initVals(d *LoopDesc) []Val {
	var out []Val
	for _, v := range d.vars {
		out = append(out, v.init)
	}
	return out
}

func varName(s string) string {
	if s == "" {
		return "phi"
	}
	return s
}

func (ex *Exec) unrollLoop(st *State, d *LoopDesc, n int) {
	if n > 12 {
		ex.oblige(st, "unroll", "loop ends within 12 iterations", False, d.pos)
		return
	}
	ctx := &LoopCtx{}
	ctx.back = func(s2 *State, nv []Val) {
		if n >= 1 && !s2.expl && !ex.inc.sat(s2.pc) {
			return
		}
		if s2.expl && n >= 2 {
			return
		}
		nd := *d
		nd.vars = append([]loopVar(nil), d.vars...)
		for i := range nd.vars {
			nd.vars[i].init = nv[i]
		}
		ex.unrollLoop(s2, &nd, n+1)
	}
	s := st
	d.start(s, initVals(d), ctx)
}

// blocksAfter: the blocks reachable from b in at least one step.
func (ex *Exec) blocksAfter(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if r, ok := reachCache[b]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if !r[s] {
				r[s] = true
				visit(s)
			}
		}
	}
	visit(b)
	reachCache[b] = r
	return r
}

var reachCache = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// live: is the value used at or after the current point of the frame (the loop header for the innermost frame)?
func (ex *Exec) live(v ssa.Value, fr *Frame, d *LoopDesc, top bool) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc:
		return true
	}
	rs := v.Referrers()
	if rs == nil || fr.cur == nil {
		return true
	}
	var hb *ssa.BasicBlock
	if top && d.header != nil {
		hb = d.header
	}
	cb := fr.cur.Block()
	if cb == nil {
		return true
	}
	for _, r := range *rs {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		b := r.Block()
		if hb != nil {
			if b == hb || ex.blocksAfter(hb)[b] {
				if _, phi := r.(*ssa.Phi); phi && b == hb {
					continue
				}
				return true
			}
			continue
		}
		if ex.blocksAfter(cb)[b] {
			return true
		}
		if b == cb {
			after := false
			for _, in := range cb.Instrs {
				if in == fr.cur {
					after = true
					continue
				}
				if after && in == r {
					return true
				}
			}
		}
	}
	return false
}
