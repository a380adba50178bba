package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// check decides one property: every spec of the property and tier is run, the
// evidence file is rewritten and violations are printed.
func check(repo, verif, prop, tier string, verbose bool) int {
	t0 := time.Now()
	var sel []*Spec
	for _, sp := range specTable() {
		if sp.Prop == prop && (sp.Tier == "" || sp.Tier == tier) {
			sel = append(sel, sp)
		}
	}
	if len(sel) == 0 {
		fmt.Fprintln(os.Stderr, "no checks for", prop)
		return 3
	}
	var hs []string
	for _, sp := range sel {
		hs = append(hs, sp.Pkg)
	}
	p, err := Prepare(repo, verif, uniq(hs)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer p.Close()
	var berr, lerr error
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); berr = p.BuildReplay() }()
	go func() { defer wg.Done(); lerr = p.Load() }()
	wg.Wait()
	if berr == nil {
		berr = lerr
	}
	if berr != nil && sel[0].Pkg == "hcmd" {
		// The stand-ins do not offer everything a plugin may use.
		var rs []*Result
		for _, sp := range sel {
			rs = append(rs, &Result{spec: sp, status: "incomplete", notes: []string{"the plugins do not build against the stand-ins: " + berr.Error()}})
		}
		return p.report(prop, tier, rs, t0)
	}
	if berr != nil {
		// The harnesses use the public API only: not building against it means
		// that the code under test does not build or changed its API.
		fmt.Fprintln(os.Stderr, berr)
		return 3
	}
	var runs []*Spec
	for _, sp := range sel {
		if sp.Lazy == 0 {
			sp.Lazy = 100
		}
		n := max(sp.Shards, 1)
		for i := 0; i < n; i++ {
			s := *sp
			s.shard = i
			runs = append(runs, &s)
		}
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	results := make([]*Result, len(runs))
	next := make(chan int)
	go func() {
		for i := range runs {
			next <- i
		}
		close(next)
	}()
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	// a violation that was confirmed natively ends the check
	kf := knownFindings(verif)
	stop := make(chan struct{})
	var once sync.Once
	stopped := func(sp *Spec) *Result {
		return &Result{spec: sp, status: "incomplete", notes: []string{"stopped: another run found a violation"}}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				select {
				case <-stop:
					results[i] = stopped(runs[i])
					continue
				default:
				}
				if time.Since(t0) > limit-30*time.Second {
					results[i] = &Result{spec: runs[i], status: "incomplete", notes: []string{"not run: the time limit of the check was reached"}}
					continue
				}
				sp := runs[i]
				if left := limit - time.Since(t0) - 20*time.Second; sp.Budget == 0 && left < 240*time.Second || sp.Budget > left {
					sp.Budget = left / 2
				}
				done := make(chan *Result, 1)
				go func() { done <- p.RunSpec(sp, verbose) }()
				select {
				case results[i] = <-done:
					if k := kf[sp.Known]; results[i].status == "violated" && (sp.Known == "" || k.prop != prop) {
						once.Do(func() { close(stop) })
					}
				case <-stop:
					results[i] = stopped(sp)
				case <-time.After(limit - time.Since(t0) - 10*time.Second):
					results[i] = &Result{spec: sp, status: "incomplete", notes: []string{"stopped: the time limit of the check was reached"}}
				}
				if verbose {
					fmt.Fprintf(os.Stderr, "%s shard %d: %s %.1fs\n", sp.Name(), sp.shard, results[i].status, results[i].wall.Seconds())
				}
			}
		}()
	}
	wg.Wait()
	return p.report(prop, tier, results, t0)
}

// labels lists the Reach labels a harness mentions, following calls within the
// harness packages.
func (p *Program) labels(pkg, fn string) []string {
	if p.prog == nil {
		return nil
	}
	hp := p.prog.ImportedPackage(repoPath + "/zzverif/" + pkg)
	if hp == nil || hp.Func(fn) == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	found := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil || !strings.Contains(callee.Pkg.Pkg.Path(), "/zzverif/") {
					continue
				}
				if callee.Pkg.Pkg.Path() == vrtPath {
					if callee.Name() == "Reach" {
						if c, ok := ci.Common().Args[0].(*ssa.Const); ok {
							s, _ := strconv.Unquote(c.Value.ExactString())
							found[s] = true
						}
					}
					continue
				}
				visit(callee)
			}
		}
	}
	visit(hp.Func(fn))
	var r []string
	for k := range found {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type known struct{ prop, id, text string }

// knownFindings reads the committed list: "finding: <id> property=<P> <text>".
func knownFindings(verif string) map[string]known {
	r := map[string]known{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && strings.HasPrefix(f[2], "property=") {
			r[f[1]] = known{strings.TrimPrefix(f[2], "property="), f[1], f[3]}
		}
	}
	return r
}

func (p *Program) report(prop, tier string, results []*Result, t0 time.Time) int {
	kf := knownFindings(p.verif)
	type agg struct {
		Harness   string   `json:"harness"`
		Status    string   `json:"status"`
		Bound     string   `json:"bound,omitempty"`
		Obls      int      `json:"obligations"`
		Disch     int      `json:"discharged"`
		Asserts   int      `json:"assertions_evaluated"`
		Queries   int      `json:"solver_queries"`
		SolverS   float64  `json:"solver_s"`
		WallS     float64  `json:"wall_s"`
		Reached   []string `json:"reached,omitempty"`
		Unreached []string `json:"unreached,omitempty"`
		Inputs    []string `json:"symbolic_inputs,omitempty"`
		Notes     []string `json:"notes,omitempty"`
		Shards    int      `json:"runs"`
		Native    int      `json:"witnesses_replayed"`
		Obs       int      `json:"observations_compared"`
	}
	byName := map[string]*agg{}
	var order []string
	funcs := map[string]bool{}
	assum := map[string]bool{}
	solvers := map[string]int{}
	var states, steps, traces, obls, disch, unknown, queries, obs, feas int
	var solverT time.Duration
	var samples []string
	var viol []*Result
	seenKnown := map[string]bool{}
	harnessReach := map[string]map[string]bool{}
	for _, r := range results {
		n := r.spec.Name()
		a := byName[n]
		if a == nil {
			a = &agg{Harness: n, Status: "holds", Bound: r.spec.Bound}
			byName[n] = a
			order = append(order, n)
		}
		a.Shards++
		hn := r.spec.Pkg + "." + r.spec.Func
		if harnessReach[hn] == nil {
			harnessReach[hn] = map[string]bool{}
		}
		for _, l := range r.reached {
			harnessReach[hn][l] = true
			a.Reached = append(a.Reached, l)
		}
		a.Reached = uniq(a.Reached)
		a.Inputs = uniq(append(a.Inputs, r.inputsDesc...))
		if len(a.Inputs) > 40 {
			a.Inputs = a.Inputs[:40]
		}
		a.Obls += r.obls
		a.Disch += r.discharged
		a.Asserts += r.asserts
		a.Queries += r.queries
		a.SolverS += r.solverTime.Seconds()
		a.WallS += r.wall.Seconds()
		a.Native += r.traces
		a.Obs += r.obsChecked
		a.Notes = uniq(append(a.Notes, r.notes...))
		states += r.states
		steps += r.steps
		traces += r.traces
		obls += r.obls
		disch += r.discharged
		unknown += r.unknown
		queries += r.queries
		feas += r.feas
		obs += r.obsChecked
		solverT += r.solverTime
		for _, f := range r.functions {
			funcs[f] = true
		}
		for _, f := range r.assumptions {
			assum[f] = true
		}
		for k, v := range r.solverNames {
			solvers[k] += v
		}
		if len(samples) < 6 {
			samples = append(samples, r.samples...)
		}
		switch r.status {
		case "violated":
			if id := r.spec.Known; id != "" {
				if k, ok := kf[id]; ok && k.prop == prop {
					if !seenKnown[id] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
					}
					seenKnown[id] = true
					a.Status = "known finding " + id
					continue
				}
			}
			a.Status = "violated"
			viol = append(viol, r)
		case "ok":
		default:
			if a.Status == "holds" {
				a.Status = "incomplete"
			}
		}
	}
	// vacuity: every label of a harness must be reached by some run
	for hn, got := range harnessReach {
		pkg, fn, _ := strings.Cut(hn, ".")
		for _, l := range p.labels(pkg, fn) {
			if got[l] {
				continue
			}
			for _, n := range order {
				if a := byName[n]; strings.HasPrefix(n, hn+"(") || n == hn {
					a.Unreached = append(a.Unreached, l)
					if a.Status == "holds" {
						a.Status = "incomplete"
					}
				}
			}
		}
	}
	var specs []*agg
	incomplete := 0
	for _, n := range order {
		specs = append(specs, byName[n])
		if byName[n].Status == "incomplete" {
			incomplete++
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	asl := []string{
		"encoding: SSA of the current sources, executed by /verif/engine; its arithmetic, memory and map semantics are trusted and cross-checked by replaying a witness per label natively",
		"strings, maps and allocation never fail; out-of-memory and goroutine interleavings are outside the claim",
	}
	for a := range assum {
		asl = append(asl, a)
	}
	sort.Strings(asl[2:])
	if len(samples) == 0 {
		samples = []string{"no witness was needed"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	status := "every obligation was discharged within the bounds"
	if len(viol) > 0 {
		status = "violated"
	} else if incomplete > 0 {
		status = fmt.Sprintf("%d of %d harness runs are incomplete: what they leave open is listed in their notes and is not claimed", incomplete, len(specs))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": traces, "samples": samples,
			"obligations": obls, "discharged": disch, "undecided": unknown,
			"solver_queries": queries, "feasibility_queries": feas, "solver_time_s": solverT.Seconds(), "verdicts_by_solver": solvers,
			"observations_compared": obs, "functions_encoded": fl, "harnesses": specs, "status": status,
			"explanation": "states: symbolic states after merging; transitions: SSA instructions executed symbolically; traces: solver models of a reachability label that were replayed against the compiled code and behaved as encoded. obligations counts the assertions and panic conditions left to a solver after simplification.",
		},
		"assumptions": asl,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(p.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(p.verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, a := range specs {
		fmt.Printf("%s %s: %s, %d/%d obligations, %d queries, %.1fs", prop, a.Harness, a.Status, a.Disch, a.Obls, a.Queries, a.WallS)
		if len(a.Unreached) > 0 {
			fmt.Printf(", unreached %q", a.Unreached)
		}
		fmt.Println()
		for _, n := range a.Notes {
			fmt.Println("  note:", n)
		}
	}
	if len(viol) > 0 {
		seen := map[string]bool{}
		for _, r := range viol {
			n := r.spec.Name()
			if seen[n] {
				continue
			}
			seen[n] = true
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p.saveCase(r.violation))
			fmt.Printf("  %s: %s\n", n, r.violation.Detail)
		}
		return 1
	}
	fmt.Printf("%s: %s (%.1fs)\n", prop, status, time.Since(t0).Seconds())
	return 0
}

// replay runs a saved case against the current code.
func replay(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	pkg, _, _ := strings.Cut(c.Harness, ".")
	p, err := Prepare(repo, verif, pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer p.Close()
	if err := p.BuildReplay(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	n := p.Native(&c, 20*time.Second)
	fmt.Print(n.raw)
	if len(n.fails) > 0 || n.panicv != "" || n.hang {
		fmt.Println("reproduced:", c.Property, c.Detail)
		return 1
	}
	return 0
}
