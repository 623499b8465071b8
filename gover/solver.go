package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type ufSig struct {
	args []string
	ret  string
}

var ufSigs = map[string]ufSig{}

// UF applies an uninterpreted function and remembers its signature.
func UF(name, ret string, args ...*T) *T {
	if _, ok := ufSigs[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.sort)
		}
		ufSigs[name] = ufSig{as, ret}
	}
	return App(name, ret, args...)
}

func init() {
	// interior pointers
}

// Axiom is a background fact, used when one of its trigger symbols occurs.
type Axiom struct {
	name string
	trig []string
	t    *T
}

var axioms []*Axiom

func addAxiom(name string, t *T, trig ...string) {
	axioms = append(axioms, &Axiom{name, trig, t})
}

// background collects base variable axioms and triggered axioms for the terms.
func background(ts []*T) []*T {
	var out []*T
	syms := symbolsOf(ts)
	used := map[string]bool{}
	for {
		added := false
		for _, ax := range axioms {
			if used[ax.name] {
				continue
			}
			for _, s := range ax.trig {
				if syms[s] {
					used[ax.name] = true
					out = append(out, ax.t)
					for k := range symbolsOf([]*T{ax.t}) {
						syms[k] = true
					}
					added = true
					break
				}
			}
		}
		if !added {
			break
		}
	}
	for _, s := range sortedKeys(syms) {
		if !strings.HasPrefix(s, "var:") {
			continue
		}
		bi, ok := baseInfos[s[4:]]
		if !ok {
			continue
		}
		if t := baseAxiom(s[4:], bi); t != nil {
			out = append(out, t)
		}
	}
	return out
}

var baseAxCache = map[string]*T{}
var baseAxMu sync.Mutex

func baseAxiom(name string, bi *baseInfo) *T {
	baseAxMu.Lock()
	defer baseAxMu.Unlock()
	if t, ok := baseAxCache[name]; ok {
		return t
	}
	var t *T
	mkSel := func(levels int) (*T, []*T, *T) {
		srt := "Int"
		for i := 0; i < levels; i++ {
			srt = "(Array Int " + srt + ")"
		}
		a := Var(name, srt)
		var vs []*T
		x := a
		for i := 0; i < levels; i++ {
			v := BVar("i", "Int")
			vs = append(vs, v)
			x = App("select", arrayElem(x.sort), x, v)
		}
		if bi.row {
			return x, vs, IntL(0)
		}
		return x, vs, vs[0]
	}
	switch bi.kind {
	case "ref":
		x, vs, o := mkSel(bi.levels)
		t = Forall(vs, Imp(Lt(o, IntL(bi.bound)), And(Le(IntL(0), x), Lt(x, IntL(bi.bound)))), []*T{x})
	case "pay":
		x, vs, o := mkSel(bi.levels)
		t = Forall(vs, Imp(Lt(o, IntL(bi.bound)), Lt(x, IntL(bi.bound))), []*T{x})
	case "int":
		x, vs, _ := mkSel(bi.levels)
		t = Forall(vs, And(Le(IntB(bi.lo), x), Le(x, IntB(bi.hi))), []*T{x})
	}
	baseAxCache[name] = t
	return t
}

var builtinOps = map[string]bool{"not": true, "and": true, "or": true, "=>": true, "ite": true, "=": true, "+": true, "-": true, "*": true, "/": true, "div": true, "mod": true, "<": true, "<=": true, "select": true, "store": true, "constarr": true, "forall": true, "exists": true, "to_real": true, "lit": true, "var": true, "bvar": true, "distinct": true}

func funDecls(ts []*T) string {
	var sb strings.Builder
	ops := map[string]*T{}
	seen := map[int]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if !builtinOps[t.op] && len(t.args) > 0 {
			ops[t.op] = t
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				visit(x)
			}
		}
	}
	for _, t := range ts {
		visit(t)
	}
	for _, k := range sortedKeys(ops) {
		t := ops[k]
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", k, strings.Join(as, " "), t.sort)
	}
	return sb.String()
}

// unfoldRec adds one or more levels of definitions of recursive spec functions.
type recDef struct {
	name string
	// unfold returns the defining equation for an application.
	unfold func(app *T) *T
}

var recDefs = map[string]*recDef{}

func unfoldAll(ts []*T, depth int) []*T {
	var out []*T
	done := map[int]bool{}
	cur := ts
	for d := 0; d < depth; d++ {
		var apps []*T
		seen := map[int]bool{}
		var visit func(t *T)
		visit = func(t *T) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if recDefs[t.op] != nil && !t.hasBV && !done[t.id] {
				done[t.id] = true
				apps = append(apps, t)
			}
			for _, a := range t.args {
				visit(a)
			}
		}
		for _, t := range cur {
			visit(t)
		}
		if len(apps) == 0 {
			break
		}
		var next []*T
		for _, a := range apps {
			if e := recDefs[a.op].unfold(a); e != nil && e != True {
				next = append(next, e)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

// script for: facts /\ not goal
var scriptMu sync.Mutex

func makeScript(facts []*T, goal *T, logicHdr string, models bool) string {
	scriptMu.Lock()
	defer scriptMu.Unlock()
	all := append([]*T(nil), facts...)
	ng := Not(expandExists(goal))
	all = append(all, ng)
	all = append(all, unfoldAll(all, 3)...)
	bg := background(all)
	all = append(all, bg...)
	bg2 := background(all)
	if len(bg2) > len(bg) {
		all = append(all, bg2...)
	}
	seen := map[int]bool{}
	var uniq []*T
	for _, t := range all {
		if t == True || seen[t.id] {
			continue
		}
		seen[t.id] = true
		uniq = append(uniq, t)
	}
	s := newScript()
	s.sb.WriteString(logicHdr)
	s.sb.WriteString(funDecls(uniq))
	s.prepare(uniq)
	for _, t := range uniq {
		s.assert(t)
	}
	s.sb.WriteString("(check-sat)\n")
	if models {
		s.sb.WriteString("(get-model)\n")
	}
	return s.sb.String()
}

type solveResult struct {
	status string // unsat, sat, unknown
	by     string
	dur    time.Duration
	model  string
}

var solverStat struct {
	sync.Mutex
	dur   map[string]time.Duration
	count map[string]int
}

func runSolver(ctx context.Context, name string, args []string, script string) (string, string) {
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	s := strings.TrimSpace(string(out))
	first := s
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			first = s
			break
		}
		first = s[:i]
		if !strings.HasPrefix(first, "WARNING") {
			break
		}
		s = s[i+1:]
	}
	switch first {
	case "sat", "unsat", "unknown":
		return first, s
	}
	return "unknown", s
}

func runSolverTO(name string, args []string, script string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	return runSolver(ctx, name, args, script)
}

func z3hdr() string {
	return "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"
}

var quickTO = 6 * time.Second
var slowTO = 20 * time.Second

// solve decides facts => goal. unsat means valid.
func solve(facts []*T, goal *T, full bool) solveResult {
	if goal == True {
		return solveResult{status: "unsat", by: "simplifier"}
	}
	t0 := time.Now()
	if t0.After(deadline) {
		return solveResult{status: "unknown", by: "time budget"}
	}
	scr := makeScript(facts, goal, "", false)
	record := func(r solveResult) solveResult {
		r.dur = time.Since(t0)
		solverStat.Lock()
		if solverStat.dur == nil {
			solverStat.dur = map[string]time.Duration{}
			solverStat.count = map[string]int{}
		}
		solverStat.dur[r.by] += r.dur
		solverStat.count[r.by]++
		solverStat.Unlock()
		return r
	}
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, goal.id), []byte(scr), 0644)
	}
	// z3-new without model-based instantiation first; when it has not succeeded after a
	// short time a portfolio runs beside it
	type pr struct{ st, by string }
	ch := make(chan pr, 5)
	ctx, cancel := context.WithTimeout(context.Background(), quickTO+slowTO+2*time.Second)
	defer cancel()
	run := func(by, bin string, args []string, pre string) {
		go func() {
			s, _ := runSolver(ctx, bin, args, pre+scr)
			ch <- pr{s, by}
		}()
	}
	first := quickTO
	if full {
		first += slowTO
	}
	run("z3-new", "z3-new", []string{"-in", fmt.Sprintf("-T:%d", int(first.Seconds())), "smt.mbqi=false", "auto_config=false"}, "")
	running, started := 1, false
	tm := time.After(headStart)
	start := func() {
		if started || !full {
			return
		}
		started = true
		secs := int(slowTO.Seconds())
		run("z3-new/default", "z3-new", []string{"-in", fmt.Sprintf("-T:%d", secs)}, "")
		run("cvc5", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n")
		run("z3-4.8", "z3", []string{"-in", fmt.Sprintf("-T:%d", secs), "smt.mbqi=false", "auto_config=false"}, "")
		running += 3
	}
	best := solveResult{status: "unknown", by: "portfolio"}
	for running > 0 {
		select {
		case r := <-ch:
			running--
			if r.st == "unsat" {
				return record(solveResult{status: "unsat", by: r.by})
			}
			if r.st == "sat" && r.by != "z3-4.8" && (r.by != "z3-new" || !full) {
				return record(solveResult{status: "sat", by: r.by})
			}
			if r.by == "z3-new" {
				if !full {
					return record(solveResult{status: r.st, by: r.by})
				}
				start()
			}
		case <-tm:
			start()
		}
	}
	return record(best)
}

var headStart = 1500 * time.Millisecond

func getModel(facts []*T, goal *T) string {
	scr := makeScript(facts, goal, "", true)
	ctx, cancel := context.WithTimeout(context.Background(), 12*time.Second)
	defer cancel()
	st, out := runSolver(ctx, "z3-new", []string{"-in", "-T:10"}, scr)
	if st == "sat" {
		return out
	}
	return ""
}

// ---- incremental solver for feasibility ----
type Inc struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	raw      io.WriteCloser
	stack    []*T
	declared map[int]bool
	defined  map[int]bool
	funs     map[string]bool
	queries  int
	dead     bool
}

func newInc() *Inc {
	i := &Inc{declared: map[int]bool{}, defined: map[int]bool{}, funs: map[string]bool{}}
	i.cmd = exec.Command("z3-new", "-in", "-smt2")
	w, _ := i.cmd.StdinPipe()
	r, _ := i.cmd.StdoutPipe()
	i.raw = w
	i.in = bufio.NewWriterSize(w, 1<<16)
	i.out = bufio.NewReader(r)
	if err := i.cmd.Start(); err != nil {
		i.dead = true
	}
	fmt.Fprintln(i.in, "(set-option :global-declarations true)\n(set-option :timeout 300)\n(set-option :smt.mbqi false)")
	return i
}

func hasQuant(t *T, cache map[int]bool) bool {
	if r, ok := cache[t.id]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	if !r {
		for _, a := range t.args {
			if hasQuant(a, cache) {
				r = true
				break
			}
		}
	}
	cache[t.id] = r
	return r
}

var hqCache = map[int]bool{}

func (i *Inc) declare(ts []*T) {
	var visit func(t *T)
	seen := map[int]bool{}
	visit = func(t *T) {
		if seen[t.id] || i.defined[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		if t.op == "var" && !i.declared[t.id] {
			i.declared[t.id] = true
			fmt.Fprintf(i.in, "(declare-const %s %s)\n", symText(t.name), t.sort)
		}
		if !builtinOps[t.op] && len(t.args) > 0 && !i.funs[t.op] {
			i.funs[t.op] = true
			var as []string
			for _, a := range t.args {
				as = append(as, a.sort)
			}
			fmt.Fprintf(i.in, "(declare-fun %s (%s) %s)\n", t.op, strings.Join(as, " "), t.sort)
		}
		if len(t.args) > 0 && !t.hasBV && t.op != "forall" && t.op != "exists" {
			var sb strings.Builder
			writeTerm(&sb, t, i.defined, 0)
			fmt.Fprintf(i.in, "(define-fun n%d () %s %s)\n", t.id, t.sort, sb.String())
			i.defined[t.id] = true
		}
	}
	for _, t := range ts {
		visit(t)
	}
}

// check: is pc /\ extra satisfiable? (quantified facts are left out). Unknown counts as satisfiable.
func (i *Inc) sat(pc []*T, extra ...*T) bool {
	if i.dead {
		return true
	}
	var want []*T
	for _, t := range pc {
		if t == False {
			return false
		}
		if !hasQuant(t, hqCache) {
			want = append(want, t)
		}
	}
	for _, e := range extra {
		if e == False {
			return false
		}
	}
	n := 0
	for n < len(want) && n < len(i.stack) && want[n] == i.stack[n] {
		n++
	}
	if p := len(i.stack) - n; p > 0 {
		fmt.Fprintf(i.in, "(pop %d)\n", p)
		i.stack = i.stack[:n]
	}
	for ; n < len(want); n++ {
		i.declare([]*T{want[n]})
		fmt.Fprintln(i.in, "(push 1)")
		var sb strings.Builder
		writeTerm(&sb, want[n], i.defined, 1)
		fmt.Fprintf(i.in, "(assert %s)\n", sb.String())
		i.stack = append(i.stack, want[n])
	}
	var ex []*T
	for _, e := range extra {
		if !hasQuant(e, hqCache) {
			ex = append(ex, e)
		}
	}
	i.declare(ex)
	fmt.Fprintln(i.in, "(push 1)")
	for _, e := range ex {
		var sb strings.Builder
		writeTerm(&sb, e, i.defined, 1)
		fmt.Fprintf(i.in, "(assert %s)\n", sb.String())
	}
	fmt.Fprintln(i.in, "(check-sat)\n(pop 1)")
	i.in.Flush()
	i.queries++
	for {
		line, err := i.out.ReadString('\n')
		if err != nil {
			i.dead = true
			return true
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unknown", "timeout":
			return true
		case "unsat":
			return false
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "inc:", line)
			if !strings.Contains(line, "check") {
				continue
			}
		}
	}
}

func (i *Inc) close() {
	i.raw.Close()
	i.cmd.Process.Kill()
	i.cmd.Wait()
}

// ---- interval reasoning ----
func rng(t *T) (lo, hi *big.Int) {
	if t.big != nil {
		return t.big, t.big
	}
	if r, ok := termRange[t.id]; ok {
		return r[0], r[1]
	}
	switch t.op {
	case "+":
		a, b := rngs(t.args)
		if a == nil {
			return nil, nil
		}
		return a, b
	case "-":
		if len(t.args) == 2 {
			al, ah := rng(t.args[0])
			bl, bh := rng(t.args[1])
			if al != nil && bl != nil {
				return new(big.Int).Sub(al, bh), new(big.Int).Sub(ah, bl)
			}
		}
	case "*":
		al, ah := rng(t.args[0])
		bl, bh := rng(t.args[1])
		if al != nil && bl != nil {
			ps := []*big.Int{new(big.Int).Mul(al, bl), new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)}
			sort.Slice(ps, func(i, j int) bool { return ps[i].Cmp(ps[j]) < 0 })
			return ps[0], ps[3]
		}
	case "mod":
		if t.args[1].big != nil {
			return new(big.Int), new(big.Int).Sub(t.args[1].big, big.NewInt(1))
		}
	case "div":
		al, ah := rng(t.args[0])
		if al != nil && t.args[1].big != nil && t.args[1].big.Sign() > 0 {
			q1, _ := new(big.Int).DivMod(al, t.args[1].big, new(big.Int))
			q2, _ := new(big.Int).DivMod(ah, t.args[1].big, new(big.Int))
			return q1, q2
		}
	case "ite":
		al, ah := rng(t.args[1])
		bl, bh := rng(t.args[2])
		if al != nil && bl != nil {
			lo, hi := al, ah
			if bl.Cmp(lo) < 0 {
				lo = bl
			}
			if bh.Cmp(hi) > 0 {
				hi = bh
			}
			return lo, hi
		}
	}
	return nil, nil
}

func rngs(args []*T) (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for _, a := range args {
		l, h := rng(a)
		if l == nil {
			return nil, nil
		}
		lo = new(big.Int).Add(lo, l)
		hi = new(big.Int).Add(hi, h)
	}
	return lo, hi
}

func init() {
	x := BVar("s", "Int")
	c1, c2 := UF("concat", "Int", IntL(0), x), UF("concat", "Int", x, IntL(0))
	addAxiom("concat-empty-left", Forall([]*T{x}, Eq(c1, x), []*T{c1}), "concat")
	addAxiom("concat-empty-right", Forall([]*T{x}, Eq(c2, x), []*T{c2}), "concat")
}

// expandExists adds, to every existential in positive position of a goal, instances at the index
// terms of the store chains its body selects from. This is an equivalent goal (the instances imply the
// existential) that gives the solver the witnesses to look at.
func expandExists(g *T) *T {
	switch g.op {
	case "and":
		a := make([]*T, len(g.args))
		for i, x := range g.args {
			a[i] = expandExists(x)
		}
		return And(a...)
	case "or":
		a := make([]*T, len(g.args))
		for i, x := range g.args {
			a[i] = expandExists(x)
		}
		return Or(a...)
	case "=>":
		return Imp(g.args[0], expandExists(g.args[1]))
	case "forall":
		b := expandExists(g.args[0])
		if b == g.args[0] {
			return g
		}
		bvMu.Lock()
		vs := quantVars[g.id]
		bvMu.Unlock()
		return Forall(vs, b, g.pats...)
	case "exists":
		bvMu.Lock()
		vs := quantVars[g.id]
		bvMu.Unlock()
		if len(vs) != 1 {
			return g
		}
		v := vs[0]
		seen := map[int]bool{}
		cand := map[int]bool{}
		var ws []*T
		var visit func(t *T)
		visit = func(t *T) {
			if seen[t.id] || !t.hasBV {
				return
			}
			seen[t.id] = true
			if t.op == "select" && t.args[1] == v {
				var chain func(a *T, d int)
				chain = func(a *T, d int) {
					if d > 6 {
						return
					}
					switch a.op {
					case "store":
						if a.args[1].sort == v.sort && !a.args[1].hasBV && !cand[a.args[1].id] {
							cand[a.args[1].id] = true
							ws = append(ws, a.args[1])
						}
						chain(a.args[0], d+1)
					case "ite":
						chain(a.args[1], d+1)
						chain(a.args[2], d+1)
					}
				}
				chain(t.args[0], 0)
			}
			for _, x := range t.args {
				visit(x)
			}
		}
		visit(g.args[0])
		if len(ws) == 0 || len(ws) > 5 {
			return g
		}
		out := []*T{g}
		for _, w := range ws {
			out = append(out, Subst(g.args[0], map[int]*T{v.id: w}))
		}
		return Or(out...)
	}
	return g
}

func init() {
	xr, xi := BVar("x", "Real"), BVar("x", "Int")
	bf, bi := UF("f2i", "Int", xr), UF("n2i", "Int", xi)
	addAxiom("box-float", Forall([]*T{xr}, Eq(UF("i2f", "Real", bf), xr), []*T{bf}), "f2i")
	addAxiom("box-int", Forall([]*T{xi}, Eq(UF("i2n", "Int", bi), xi), []*T{bi}), "n2i")
	// setof(row, off, n): the set of the elements row[off..off+n)
	r, o, n, k := BVar("r", "(Array Int Int)"), BVar("o", "Int"), BVar("n", "Int"), BVar("k", "Int")
	set := UF("setof", "(Array Int Bool)", r, o, n)
	rk := App("select", "Int", r, k)
	in := App("select", "Bool", set, rk)
	addAxiom("setof-in", Forall([]*T{r, o, n, k}, Imp(And(Le(o, k), Lt(k, Add(o, n))), in), []*T{set, rk}), "setof")
	v := BVar("v", "Int")
	iv := UF("idxof", "Int", r, o, n, v)
	mem := App("select", "Bool", set, v)
	addAxiom("setof-out", Forall([]*T{r, o, n, v}, Imp(mem, And(Le(o, iv), Lt(iv, Add(o, n)), Eq(App("select", "Int", r, iv), v))), []*T{mem}), "setof")
	// an element found in one sequence and still at its place in another one
	// (only between a sequence and an update of it: for arbitrary pairs this would follow
	// the orbits of permutations for ever)
	o2, n2, j, x := BVar("o2", "Int"), BVar("n2", "Int"), BVar("j", "Int"), BVar("x", "Int")
	r2 := App("store", "(Array Int Int)", r, j, x)
	set2 := UF("setof", "(Array Int Bool)", r2, o2, n2)
	addAxiom("setof-keep", Forall([]*T{r, o, n, v, j, x, o2, n2}, Imp(And(mem, Le(o2, iv), Lt(iv, Add(o2, n2)), Or(Not(Eq(iv, j)), Eq(v, x))), App("select", "Bool", set2, v)), []*T{mem, set2}), "setof")
	mem2 := App("select", "Bool", set2, v)
	iv2 := UF("idxof", "Int", r2, o2, n2, v)
	addAxiom("setof-keep2", Forall([]*T{r, o, n, v, j, x, o2, n2}, Imp(And(mem2, Le(o, iv2), Lt(iv2, Add(o, n)), Not(Eq(iv2, j))), mem), []*T{mem2, set}), "setof")
}
