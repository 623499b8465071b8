package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type RootResult struct {
	fn        string
	contract  string
	obls      []*Obligation
	invs      int
	returns   int
	used      []string
	inlined   []string
	ext       []string
	models    []string
	assumed   []string
	dur       time.Duration
	vacuous   string
	paths     int
	spawned   []string
	elsewhere []string // contracts applied here and discharged by another check
}

func newExec(p *Prog, prop string) *Exec {
	return &Exec{prog: p, prop: prop, closures: map[int64]*Closure{}, used: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, ext: map[string]bool{}, models: map[string]bool{}, noContr: map[string]bool{}, localChans: map[int]bool{}, spawned: map[string]bool{}, maxSteps: 3000000}
}

func (ex *Exec) blankState() *State {
	h := &Heap{m: map[string]*T{}, epoch: "0", bound: allocBase}
	return &State{h: h, ctr: allocBase}
}

func (p *Prog) verifyRoot(prop string, fnName string, c *Contract) *RootResult {
	t0 := time.Now()
	res := &RootResult{fn: fnName, contract: c.name}
	fail := func(kind, label string) {
		res.obls = append(res.obls, &Obligation{fn: fnName, label: label, kind: kind, goal: False, res: solveResult{status: "failed", by: "generator"}})
	}
	// F@case: a further contract of F, for other preconditions; never applied to calls
	fn := p.fns[strings.SplitN(fnName, "@", 2)[0]]
	if fn == nil {
		if !c.optional {
			fail("missing", "the function under contract exists")
		}
		return res
	}
	ex := newExec(p, prop)
	ex.inc = newInc()
	defer ex.inc.close()
	ex.root, ex.rootC = fn, c
	ex.safety = c.safety[prop]
	ex.pureScores = prop != "C13"
	realArith = prop == "C13"
	st := ex.blankState()
	var args []Val
	vars := map[string]SV{}
	for i, pr := range fn.Params {
		v := st.freshVal("p_"+pr.Name(), pr.Type())
		args = append(args, v)
		if i < len(c.params) {
			vars[c.params[i]] = SV{v, pr.Type()}
		}
		if i == 0 && fn.Signature.Recv() != nil {
			if pv, ok := v.(*PtrV); ok {
				st.assume(Not(Eq(pv.ref, IntL(0))))
			}
		}
	}
	if len(c.params) != len(fn.Params) {
		fail("contract", fmt.Sprintf("the contract of %s has %d parameters, the code has %d", fnName, len(c.params), len(fn.Params)))
		return res
	}
	ex.rootVars = vars
	st.old = st.h
	st.oldCtr = st.ctr
	st.h = st.h.clone()
	var retPCs [][]*T
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case unsupported:
					fail("unsupported", "construct within reach of the verifier: "+x.msg)
				case specErr:
					fail("contract", "contract evaluates on this code: "+x.msg)
				default:
					if os.Getenv("GOVER_PANIC") != "" {
						panic(e)
					}
					fail("internal", fmt.Sprintf("verifier error: %v", e))
				}
			}
		}()
		for _, r := range c.requires {
			if r.forProp(prop) {
				st.assume(ex.specCtx(st, vars).boolExpr(r))
			}
		}
		// heap variables first seen later belong to the same base epoch
		for k, v := range st.h.m {
			st.old.m[k] = v
		}
		ex.callFunc(st, fn, args, nil, "", func(s *State, rs []Val) {
			ex.returns++
			retPCs = append(retPCs, s.pc[:len(s.pc):len(s.pc)])
			rv := map[string]SV{}
			for k, v := range vars {
				rv[k] = v
			}
			for i, r := range rs {
				if i < len(c.results) {
					rv[c.results[i]] = SV{r, fn.Signature.Results().At(i).Type()}
				}
			}
			for _, e := range c.ensures {
				if !e.forProp(prop) || e.assumed {
					continue
				}
				ctx := ex.specCtx(s, rv)
				// keep postconditions independent of each other
				pc := s.pc
				goal := ctx.boolExpr(e)
				ex.oblige(s, "ensures", e.label, goal, e.where)
				s.pc = pc
			}
			for _, e := range c.closures {
				if !e.forProp(prop) {
					continue
				}
				ctx := ex.specCtx(s, rv)
				call := e.expr.(*ast.CallExpr)
				hook := ex.contractFor(strings.Trim(call.Args[1].(*ast.BasicLit).Value, "\""))
				if hook == nil {
					fail("contract", "no hook for "+e.label)
					continue
				}
				fv := ctx.eval(call.Args[0])
				var as []SV
				for _, a := range call.Args[2:] {
					as = append(as, ctx.eval(a))
				}
				sig, ok := fv.t.Underlying().(*types.Signature)
				if !ok {
					fail("contract", e.label+": not a function")
					continue
				}
				ex.checkHook(s, fv.v.(*T), hook, as, nil, nil, sig, e.where)
			}
			if !c.noapply && (c.applyFor == nil || c.applyFor[prop]) || len(c.modifies) > 0 {
				ex.checkFrame(s, c, rv)
			}
		})
	}()
	res.obls = append(res.obls, ex.obls...)
	res.invs = ex.invOK
	res.returns = ex.returns
	res.used = sortedKeys(ex.used)
	res.inlined = sortedKeys(ex.inlined)
	res.ext = sortedKeys(ex.ext)
	res.models = sortedKeys(ex.models)
	res.assumed = sortedKeys(ex.assumed)
	res.spawned = sortedKeys(ex.spawned)
	res.paths = ex.paths
	if ex.returns == 0 {
		okBlocked := false
		for _, o := range res.obls {
			if o.kind == "unsupported" || o.kind == "contract" || o.kind == "internal" {
				okBlocked = true
			}
		}
		if !okBlocked && !neverReturns(fn) {
			fail("vacuity", "some path of "+fnName+" returns")
		}
	} else {
		// vacuity: some return is reachable under the assumed facts
		ok := false
		n := 0
		for i := range retPCs {
			pc := retPCs[len(retPCs)-1-i]
			if n++; n > 6 {
				break
			}
			if solveQuick(pc, False) != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			fail("vacuity", "the assumptions of "+fnName+" are satisfiable")
		}
	}
	res.dur = time.Since(t0)
	return res
}

func neverReturns(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

// heap keys that are bookkeeping of the verifier
func frameExempt(k string) bool {
	if strings.HasPrefix(k, "S:github.com/bgokden/veri/veriservice.") && (strings.Contains(k, ".sizeCache") || strings.Contains(k, ".state") || strings.Contains(k, ".unknownFields")) {
		return true // bookkeeping of generated messages
	}
	return strings.HasPrefix(k, "vis") || k == "G:clock" || strings.HasPrefix(k, "B:") || strings.HasPrefix(k, "G:dbg") || k == "G:timedout" || strings.HasPrefix(k, "chan#rn")
}

func (ex *Exec) checkFrame(st *State, c *Contract, vars map[string]SV) {
	if c.modAll {
		return
	}
	rows := ex.modRows(st, c, vars, st.old)
	allowed := map[string][]*T{}
	whole := map[string]bool{}
	for _, r := range rows {
		if r.ref == nil {
			whole[r.key] = true
		} else {
			allowed[r.key] = append(allowed[r.key], r.ref)
		}
	}
	for _, k := range sortedKeys(st.h.m) {
		if frameExempt(k) || whole[k] {
			continue
		}
		cur := st.h.m[k]
		old, ok := st.old.m[k]
		if !ok {
			meta := keySort[k]
			old = st.old.get(k, meta.srt, meta.kind, meta.typ)
		}
		if cur == old {
			continue
		}
		// stores to new objects or allowed objects need no proof
		x := cur
		simple := true
		for x != old {
			if x.op != "store" {
				simple = false
				break
			}
			i := x.args[1]
			ok := i.big != nil && i.big.IsInt64() && i.big.Int64() >= st.oldCtr
			for _, a := range allowed[k] {
				if a == i {
					ok = true
				}
			}
			if !ok {
				simple = false
				break
			}
			x = x.args[0]
		}
		if simple {
			continue
		}
		r := BVar("r", "Int")
		cond := And(Le(IntL(0), r), Lt(r, IntL(st.oldCtr)))
		for _, a := range allowed[k] {
			cond = And(cond, Not(Eq(r, a)))
		}
		pc := st.pc
		g := Forall([]*T{r}, Imp(cond, Eq(Select(cur, r), Select(old, r))))
		ex.oblige(st, "frame", "modifies only what its contract allows ("+k+")", g, "")
		st.pc = pc
	}
}

// ---- property verification ----

type PropResult struct {
	prop       string
	roots      []*RootResult
	lemmas     []*Obligation
	dur        time.Duration
	failed     []*Obligation
	total      int
	discharged int
	invs       int
}

func (p *Prog) implied(prop string, c *Contract) bool {
	if c.safety[prop] || c.home == prop {
		return true
	}
	for _, e := range c.ensures {
		if e.props[prop] && !e.assumed {
			return true
		}
	}
	return false
}

func (p *Prog) verifyProp(prop string, only string) *PropResult {
	t0 := time.Now()
	pr := &PropResult{prop: prop}
	ex0 := newExec(p, prop)
	p.specs.install(ex0)
	done := map[string]bool{}
	var queue []string
	for _, n := range p.specs.order {
		if p.implied(prop, p.specs.contracts[n]) {
			queue = append(queue, n)
		}
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if done[n] {
			continue
		}
		done[n] = true
		c := p.specs.contracts[n]
		if c == nil {
			continue
		}
		var fns []string
		if c.iface || len(c.impls) > 0 {
			fns = c.impls
		} else {
			fns = []string{n}
		}
		for _, f := range fns {
			if only != "" && !strings.Contains(f, only) {
				continue
			}
			r := p.verifyRoot(prop, f, c)
			pr.roots = append(pr.roots, r)
			fmt.Printf("  %-50s %4d obligations %3d invariants %3d returns %5.1fs\n", f, len(r.obls), r.invs, r.returns, r.dur.Seconds())
			for _, u := range r.used {
				if uc := p.specs.contracts[u]; uc != nil && !done[u] {
					if uc.home != "" && uc.home != prop {
						r.elsewhere = append(r.elsewhere, u+" ("+uc.home+")")
						continue
					}
					queue = append(queue, u)
				}
			}
		}
	}
	st := ex0.blankState()
	for _, l := range p.specs.lemmas {
		if l.props == nil || !l.props[prop] || only != "" {
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(specErr); ok {
						pr.lemmas = append(pr.lemmas, &Obligation{fn: "lemma", label: l.label + ": " + se.msg, kind: "contract", goal: False, res: solveResult{status: "failed"}})
						return
					}
					panic(e)
				}
			}()
			pr.lemmas = append(pr.lemmas, &Obligation{fn: "lemma", label: l.label, kind: "lemma", goal: openForall(ex0.specCtx(st, nil).boolExpr(l)), pos: l.where})
		}()
	}
	var all []*Obligation
	for _, r := range pr.roots {
		all = append(all, r.obls...)
		pr.invs += r.invs
	}
	all = append(all, pr.lemmas...)
	solveAll(all)
	for _, o := range all {
		pr.total++
		if o.res.status == "unsat" {
			pr.discharged++
		} else {
			pr.failed = append(pr.failed, o)
		}
	}
	pr.dur = time.Since(t0)
	return pr
}

func solveAll(all []*Obligation) {
	type key struct{ a, b, c int }
	groups := map[key][]*Obligation{}
	var order []key
	for _, o := range all {
		if o.res.status != "" {
			continue
		}
		if o.goal == True {
			o.res = solveResult{status: "unsat", by: "simplifier"}
			continue
		}
		h := 0
		for _, f := range o.facts {
			h = h*1000003 + f.id
		}
		k := key{h, o.goal.id, len(o.facts)}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	// first pass: quick, second pass: portfolio for the remaining ones
	run := func(ks []key, full bool, par int) []key {
		var rest []key
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, par)
		for _, k := range ks {
			k := k
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				g := groups[k]
				r := solve(g[0].facts, g[0].goal, full)
				for _, o := range g {
					o.res = r
				}
				if r.status != "unsat" {
					mu.Lock()
					rest = append(rest, k)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		return rest
	}
	rest := run(order, false, 8)
	sort.Slice(rest, func(i, j int) bool { return rest[i].b < rest[j].b })
	if len(rest) > 24 {
		// enough to report
		rest = rest[:24]
	}
	run(rest, true, 3)
}

var _ = types.Identical

// openForall replaces the outermost universal quantifiers of a goal by constants.
func openForall(t *T) *T {
	for {
		if t.op == "=>" {
			return Imp(t.args[0], openForall(t.args[1]))
		}
		if t.op != "forall" {
			return t
		}
		bvMu.Lock()
		vs := quantVars[t.id]
		bvMu.Unlock()
		m := map[int]*T{}
		for _, v := range vs {
			m[v.id] = Fresh("lem", v.sort)
		}
		t = Subst(t.args[0], m)
	}
}
