package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// deadline of the verification of one property; what is not decided by then counts as not discharged.
var deadline = time.Now().Add(24 * time.Hour)

func main() {
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "only functions containing this")
	dir := flag.String("verif", "/verif", "directory of the contracts")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	verbose := flag.Bool("v", false, "print every obligation")
	noreplay := flag.Bool("noreplay", false, "do not look for a failing input")
	tier := flag.String("tier", "", "quick or thorough")
	budget := flag.Int("budget", 560, "seconds for the verification")
	driver := flag.Bool("driver", false, "only run the replay driver")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *tier == "thorough" {
		quickTO, slowTO = 20*time.Second, 90*time.Second
		*budget *= 5
	}
	deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	c := &checkRun{prop: *prop, dir: *dir, tier: *tier, t0: time.Now(), noreplay: *noreplay || *only != "", only: *only}
	if *driver {
		out, st := c.runHarness(240 * time.Second)
		fmt.Printf("%s\n%s driver: %s\n", out, *prop, st)
		return
	}
	code := 1
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GOVER_PANIC") != "" {
					panic(e)
				}
				c.general("internal", fmt.Sprintf("verifier error: %v", e))
			}
			code = c.finish()
		}()
		c.verify(*only, *verbose)
	}()
	os.Exit(code)
}

type checkRun struct {
	prop, dir, tier, only string
	t0                    time.Time
	noreplay              bool
	pr                    *PropResult
	cross                 int
	crossBy               map[string]int
	bounded               string
}

func (c *checkRun) general(kind, label string) {
	if c.pr == nil {
		c.pr = &PropResult{prop: c.prop}
	}
	c.pr.total++
	c.pr.failed = append(c.pr.failed, &Obligation{fn: "repository", kind: kind, label: label, goal: False, res: solveResult{status: "failed", by: "generator"}})
}

func (c *checkRun) verify(only string, verbose bool) {
	p, err := loadProg()
	if err != nil {
		c.general("load", "the code compiles: "+err.Error())
		return
	}
	p.specs = loadSpecs(filepath.Join(c.dir, "contracts"))
	pr := p.verifyProp(c.prop, only)
	c.pr = pr
	if verbose {
		for _, r := range pr.roots {
			for _, o := range r.obls {
				fmt.Printf("  %s [%s] %s (%s) %s %s %.2f\n", o.fn, o.kind, o.label, o.pos, o.res.status, o.res.by, o.res.dur.Seconds())
			}
			fmt.Println("   ext:", r.ext, "used:", r.used)
		}
		for _, o := range pr.lemmas {
			fmt.Printf("  %s [%s] %s (%s) %s %s %.2f\n", o.fn, o.kind, o.label, o.pos, o.res.status, o.res.by, o.res.dur.Seconds())
		}
	}
	if pr.total == 0 && only == "" {
		c.general("vacuity", "some obligation is generated for "+c.prop)
	}
	if c.tier == "thorough" && len(pr.failed) == 0 {
		c.crossCheck()
	}
}

// crossCheck decides every obligation a second time with other back ends (thorough tier).
func (c *checkRun) crossCheck() {
	var all []*Obligation
	for _, r := range c.pr.roots {
		all = append(all, r.obls...)
	}
	all = append(all, c.pr.lemmas...)
	c.crossBy = map[string]int{}
	type res struct {
		st, by string
	}
	ch := make(chan res, len(all))
	sem := make(chan struct{}, 7)
	n := 0
	for _, o := range all {
		if o.res.by == "simplifier" || o.goal == True {
			continue
		}
		o := o
		n++
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			if time.Now().After(deadline) {
				ch <- res{"unknown", ""}
				return
			}
			scr := makeScript(o.facts, o.goal, "", false)
			if o.res.by != "cvc5" {
				if st, _ := runSolverTO("cvc5", []string{"--lang=smt2", "--tlimit=15000"}, "(set-logic ALL)\n"+scr, 17*time.Second); st == "unsat" || st == "sat" {
					ch <- res{st, "cvc5"}
					return
				}
			}
			st, _ := runSolverTO("z3", []string{"-in", "-T:15", "smt.mbqi=false", "auto_config=false"}, scr, 17*time.Second)
			ch <- res{st, "z3-4.8"}
		}()
	}
	for i := 0; i < n; i++ {
		r := <-ch
		if r.st == "unsat" {
			c.cross++
			c.crossBy[r.by]++
		}
	}
	fmt.Printf("%s: %d of %d obligations confirmed by a second back end %v\n", c.prop, c.cross, n, c.crossBy)
}

func (c *checkRun) finish() int {
	pr := c.pr
	if pr == nil {
		pr = &PropResult{prop: c.prop}
	}
	for _, o := range pr.failed {
		fmt.Printf("FAILED OBLIGATION %s: [%s] %s (%s) %s by %s %.1fs\n", o.fn, o.kind, o.label, o.pos, o.res.status, o.res.by, o.res.dur.Seconds())
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d loop invariant checks, %.1fs\n", c.prop, pr.total, pr.discharged, pr.invs, time.Since(c.t0).Seconds())
	bad := len(pr.failed) > 0
	if c.noreplay {
		if bad {
			return 1
		}
		return 0
	}
	var violLine string
	if bad {
		path, found := c.replay()
		violLine = fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, path)
		if !found {
			violLine += " no-failing-input-found"
		}
	} else if c.tier == "thorough" {
		out, st := c.runHarness(20 * time.Minute)
		switch st {
		case "fail":
			path := c.writeReplay("no obligation failed; the real code shows a failing input (an assumption of the proof does not hold)\n\n"+out, true)
			violLine = fmt.Sprintf("VIOLATION property=%s replay=%s", c.prop, path)
			bad = true
		case "ok":
			c.bounded = "the assumed library contracts and the contracts themselves were also exercised on the real code by the randomised replay driver: no disagreement (bounded, not counted as proved)"
		default:
			c.bounded = "replay driver not available: " + st
		}
	}
	c.evidence(bad)
	if bad {
		fmt.Println(violLine)
		return 1
	}
	fmt.Printf("%s holds\n", c.prop)
	return 0
}

func (c *checkRun) writeReplay(body string, found bool) string {
	dir := filepath.Join(c.dir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, c.prop+".txt")
	os.WriteFile(path, []byte(body), 0644)
	return path
}

// replay looks for an input on which the real code breaks the property.
func (c *checkRun) replay() (string, bool) {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: obligations that are not discharged on the current tree\n\n", c.prop)
	for i, o := range c.pr.failed {
		fmt.Fprintf(&b, "%s: [%s] %s (%s): %s by %s after %.1fs\n", o.fn, o.kind, o.label, o.pos, o.res.status, o.res.by, o.res.dur.Seconds())
		if i < 3 && o.res.status != "failed" && o.goal != nil {
			if m := getModel(o.facts, o.goal); m != "" {
				if len(m) > 12000 {
					m = m[:12000] + "\n..."
				}
				fmt.Fprintf(&b, "verifier counterexample (values of the symbolic inputs):\n%s\n", m)
			}
		}
	}
	out, st := c.runHarness(240 * time.Second)
	fmt.Fprintf(&b, "\nreplay on the real code (%s): %s\n%s\n", c.harnessCmd(), st, out)
	return c.writeReplay(b.String(), st == "fail"), st == "fail"
}

func (c *checkRun) harnessFiles() (pkgs []string, files map[string][]string) {
	files = map[string][]string{}
	ms, _ := filepath.Glob(filepath.Join(c.dir, "replay", strings.ToLower(c.prop)+"_*_test.go"))
	sort.Strings(ms)
	for _, m := range ms {
		parts := strings.Split(strings.TrimSuffix(filepath.Base(m), "_test.go"), "_")
		pkg := parts[1]
		if files[pkg] == nil {
			pkgs = append(pkgs, pkg)
			hs, _ := filepath.Glob(filepath.Join(c.dir, "replay", "help_"+pkg+"_test.go"))
			files[pkg] = append(files[pkg], hs...)
		}
		files[pkg] = append(files[pkg], m)
	}
	return
}

func (c *checkRun) harnessCmd() string {
	return "go test -overlay <replay/" + strings.ToLower(c.prop) + "_*_test.go> -run TestVerif"
}

// runHarness runs the replay driver of the property: "fail" means that a failing input was found.
func (c *checkRun) runHarness(limit time.Duration) (string, string) {
	pkgs, files := c.harnessFiles()
	if len(pkgs) == 0 {
		return "", "no replay driver"
	}
	tmp, err := os.MkdirTemp("", "gover-replay-")
	if err != nil {
		return err.Error(), "no scratch directory"
	}
	defer os.RemoveAll(tmp)
	var outs strings.Builder
	status := "ok"
	for _, pkg := range pkgs {
		rel := pkg
		if pkg == "gencoder" {
			rel = "data/gencoder"
		}
		rep := map[string]string{}
		for _, f := range files[pkg] {
			rep[filepath.Join(repoDir, rel, "zz_verif_"+filepath.Base(f))] = f
		}
		ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
		ovf := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ovf, ov, 0644)
		bin := filepath.Join(tmp, pkg+".test")
		scratch := filepath.Join(tmp, "run-"+pkg)
		os.MkdirAll(scratch, 0755)
		build := exec.Command("go", "test", "-overlay", ovf, "-vet=off", "-c", "-o", bin, "./"+rel)
		build.Dir = repoDir
		if o, err := build.CombinedOutput(); err != nil {
			outs.WriteString(trunc(string(o), 4000))
			if status == "ok" {
				status = "the replay driver does not compile with this tree"
			}
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif", "-test.count=1", fmt.Sprintf("-test.timeout=%ds", int(limit.Seconds())-5))
		cmd.Dir = scratch
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "VERIF_TIER="+c.tier)
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		cancel()
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
		o := buf.String()
		switch {
		case strings.Contains(o, "REPLAY-FAIL"):
			i := strings.Index(o, "REPLAY-FAIL")
			outs.WriteString(trunc(o[i:], 8000))
			status = "fail"
		case err != nil && strings.Contains(o, "REPLAY-PANIC-COUNTS") && strings.Contains(o, "\npanic: ") && !strings.Contains(o, "panic: test timed out"):
			i := strings.LastIndex(o, "REPLAY-INPUT")
			if i < 0 {
				i = strings.Index(o, "panic: ")
			}
			outs.WriteString("REPLAY-FAIL: the process crashed\n" + trunc(o[i:], 8000))
			status = "fail"
		case err != nil:
			outs.WriteString(trunc(o, 4000))
			if status == "ok" {
				status = "the replay driver gave no answer"
			}
		default:
			outs.WriteString("no failing input found by " + pkg + "\n")
		}
		if status == "fail" {
			break
		}
	}
	return outs.String(), status
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func (c *checkRun) evidence(bad bool) {
	if c.prop == "" {
		return
	}
	pr := c.pr
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	by := map[string]int{}
	kinds := map[string]int{}
	var fns []string
	inl := map[string]bool{}
	ext := map[string]bool{}
	models := map[string]bool{}
	assumed := map[string]bool{}
	spawned := map[string]bool{}
	elsewhere := []string{}
	returns := 0
	for _, r := range pr.roots {
		fns = append(fns, fmt.Sprintf("%s (%d obligations, %d return states, %d loop invariants kept)", r.fn, len(r.obls), r.returns, r.invs))
		for _, x := range r.inlined {
			inl[x] = true
		}
		for _, x := range r.ext {
			ext[x] = true
		}
		for _, x := range r.assumed {
			assumed[x] = true
		}
		for _, x := range r.models {
			models[x] = true
		}
		elsewhere = append(elsewhere, r.elsewhere...)
		for _, x := range r.spawned {
			spawned[x] = true
		}
		returns += r.returns
		for _, o := range r.obls {
			kinds[o.kind]++
			if o.res.status == "unsat" {
				by[o.res.by]++
			}
		}
	}
	for _, o := range pr.lemmas {
		kinds["lemma"]++
		if o.res.status == "unsat" {
			by[o.res.by]++
		}
	}
	times := map[string]float64{}
	queries := map[string]int{}
	solverStat.Lock()
	for k, v := range solverStat.dur {
		times[k] = float64(int(v.Seconds()*100)) / 100
	}
	for k, v := range solverStat.count {
		queries[k] = v
	}
	solverStat.Unlock()
	cov := map[string]interface{}{
		"obligations":               pr.total,
		"discharged":                pr.discharged,
		"checker_cmd":               "bash check.sh " + c.prop + " (gover: verification conditions from go/ssa of /repo's current source, decided by z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2)",
		"trusted_base":              trustedBase,
		"functions_under_contract":  fns,
		"obligations_by_kind":       kinds,
		"discharged_by":             by,
		"loop_invariant_checks":     pr.invs,
		"return_states":             returns,
		"functions_inlined":         sortedKeys(inl),
		"library_models_used":       sortedKeys(models),
		"external_calls_arbitrary":  sortedKeys(ext),
		"contracts_discharged_by_other_checks": elsewhere,
		"goroutines_run_at_spawn":   sortedKeys(spawned),
		"solver_seconds":            times,
		"solver_queries":            queries,
		"failed_obligations":        failedList(pr),
	}
	if c.tier == "thorough" {
		cov["confirmed_by_second_backend"] = c.crossBy
		if c.bounded != "" {
			cov["bounded_conformance"] = c.bounded
		}
	}
	as := append([]string{}, baseAssumptions...)
	for _, m := range sortedKeys(models) {
		as = append(as, "assumed contract of library function: "+m)
	}
	for _, m := range sortedKeys(assumed) {
		as = append(as, "assumed clause of a contract: "+m)
	}
	for _, m := range sortedKeys(ext) {
		as = append(as, "external function with arbitrary result and no effect on the verified heap: "+m)
	}
	viol := 0
	if bad {
		viol = 1
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": as, "wall_s": float64(int(time.Since(c.t0).Seconds()*100)) / 100, "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.dir, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644)
}

func failedList(pr *PropResult) []string {
	l := []string{}
	for _, o := range pr.failed {
		l = append(l, fmt.Sprintf("%s [%s] %s (%s)", o.fn, o.kind, o.label, o.pos))
	}
	return l
}

var trustedBase = []string{
	"go/ssa (x/tools v0.52.0) as the semantics of the Go source",
	"gover's verification condition generator (/verif/gover)",
	"z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2",
	"library models in /verif/gover/lib.go (assumed contracts of dependencies and the standard library)",
	"axioms declared in /verif/contracts/*.spec",
}

var baseAssumptions = []string{
	"floating point values are real numbers (no rounding, NaN or overflow), except that conversions of bit patterns are exact and 32 bit rounding is an uninterpreted function",
	"machine integers are mathematical integers reduced modulo their width at conversions and arithmetic of unsigned types; signed overflow of int/int64 counters is excluded by range facts",
	"goroutines are executed to completion at the point they are started, or in the order the channel model states; interleavings and data races are not modelled (C23)",
	"receivers of methods under contract are not nil, pointers reachable from parameters are allocated objects",
	"an expiring cache (go-cache) does not expire an item in the middle of one operation; its janitor and eviction callback are not modelled",
	"the system clock counts whole seconds, never goes back and lies after 2001 and before 2^40 s",
	"memory allocation does not fail and strings/slices have at most 2^62 elements",
}
