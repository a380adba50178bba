package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Spec is one harness run: a harness function with concrete parameters.
type Spec struct {
	Prop   string
	Pkg    string // package below zzverif
	Func   string
	Params map[string]int
	Unwind int
	Tier   string         // "quick": both tiers; "thorough": thorough only
	Term   bool           // a loop that may not terminate violates the property
	Fork   bool           // explore paths separately instead of merging
	Lazy   int            // if > 0: no feasibility queries before loops have run this often
	Conc   bool           // concrete-layout mode
	Cut    map[string]int // function -> loop iterations examined (part of the stated bound)
	Split  bool           // decide obligations one by one
	Shards int            // split the choices over this many runs
	Known  string         // id of the known finding this run demonstrates
	Budget time.Duration
	Bound  string // human description of the bound

	shard int
}

func (s *Spec) Name() string {
	var ks []string
	for k := range s.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%d", k, s.Params[k]))
	}
	n := s.Pkg + "." + s.Func
	if len(p) > 0 {
		n += "(" + strings.Join(p, ",") + ")"
	}
	return n
}

// Case is a replayable concrete input.
type Case struct {
	Property string               `json:"property"`
	Harness  string               `json:"harness"`
	Params   map[string]int       `json:"params"`
	Ints     map[string]string    `json:"ints"`
	Bytes    map[string]CaseBytes `json:"bytes"`
	U16s     map[string]CaseBytes `json:"u16s"`
	Expect   string               `json:"expect"`
	Detail   string               `json:"detail,omitempty"`
}

type CaseBytes struct {
	Len  uint64            `json:"len"`
	Cap  uint64            `json:"cap"`
	Data map[string]uint64 `json:"data"`
}

type Result struct {
	spec        *Spec
	status      string // ok, violated, incomplete, error
	notes       []string
	obls        int
	asserts     int
	discharged  int
	unknown     int
	reached     []string
	unreached   []string
	traces      int
	obsChecked  int
	mismatches  []string
	violation   *Case
	replayPath  string
	functions   []string
	states      int
	steps       int
	merges      int
	queries     int
	feas        int
	solverTime  time.Duration
	wall        time.Duration
	samples     []string
	solverNames map[string]int
	assumptions []string
	inputsDesc  []string
}

func (e *Engine) caseFrom(sp *Spec, env *Env) *Case {
	c := &Case{Property: sp.Prop, Harness: sp.Pkg + "." + sp.Func, Params: sp.Params,
		Ints: map[string]string{}, Bytes: map[string]CaseBytes{}, U16s: map[string]CaseBytes{}}
	for _, in := range e.inputs {
		switch in.Kind {
		case "int":
			c.Ints[in.Name] = strconv.FormatUint(e.c.Eval(in.Term, env), 10)
		case "bytes", "u16s":
			b := CaseBytes{Len: e.c.Eval(in.Term, env), Cap: e.c.Eval(in.Cap, env), Data: map[string]uint64{}}
			for i, v := range env.arrs[in.Arr] {
				if v != 0 && i < b.Cap {
					b.Data[strconv.FormatUint(i, 10)] = v
				}
			}
			if in.Kind == "bytes" {
				c.Bytes[in.Name] = b
			} else {
				c.U16s[in.Name] = b
			}
		}
	}
	return c
}

// NativeOut is what one native execution of a harness reported.
type NativeOut struct {
	reach  map[string]bool
	obs    map[string][]uint64
	fails  []string
	panicv string
	assume bool
	done   bool
	hang   bool
	raw    string
}

func (p *Program) Native(c *Case, timeout time.Duration) *NativeOut {
	f, err := os.CreateTemp(p.tmp, "case*.json")
	if err != nil {
		return &NativeOut{raw: err.Error()}
	}
	b, _ := json.Marshal(c)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, p.replayBin, f.Name())
	cmd.Env = append(goEnv(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	cmd.WaitDelay = time.Second
	out, _ := cmd.Output()
	n := &NativeOut{reach: map[string]bool{}, obs: map[string][]uint64{}, raw: string(out)}
	if ctx.Err() != nil {
		n.hang = true
	}
	for _, l := range strings.Split(string(out), "\n") {
		k, v, _ := strings.Cut(l, " ")
		switch k {
		case "REACH":
			n.reach[v] = true
		case "FAIL":
			n.fails = append(n.fails, v)
		case "PANIC":
			n.panicv = v
		case "ASSUME":
			n.assume = true
		case "DONE":
			n.done = true
		case "OBS":
			i := strings.LastIndex(v, " ")
			x, _ := strconv.ParseUint(v[i+1:], 10, 64)
			n.obs[v[:i]] = append(n.obs[v[:i]], x)
		}
	}
	if !n.done && !n.hang && n.panicv == "" && !n.assume {
		// the process died (fatal error, out of memory, stack overflow)
		n.panicv = "process died"
	}
	return n
}

// reproduces decides whether the native run exhibits obligation o.
func (n *NativeOut) reproduces(o *Obligation) (bool, string) {
	if n.assume {
		return false, ""
	}
	switch o.kind {
	case "assert":
		for _, f := range n.fails {
			return true, "assertion failed: " + f
		}
	case "unwind":
		if n.hang {
			return true, "does not terminate"
		}
	default:
		for _, f := range n.fails {
			return true, "assertion failed: " + f
		}
	}
	if n.panicv != "" {
		return true, "panic: " + n.panicv
	}
	if n.hang && o.kind != "assert" {
		return true, "does not terminate"
	}
	return false, ""
}

func (p *Program) RunSpec(sp *Spec, verbose bool) (res *Result) {
	t0 := time.Now()
	res = &Result{spec: sp, status: "ok", solverNames: map[string]int{}}
	defer func() {
		res.wall = time.Since(t0)
		if r := recover(); r != nil {
			if os.Getenv("GOSYM_DEBUG") != "" {
				panic(r)
			}
			res.status = "error"
			res.notes = append(res.notes, fmt.Sprintf("internal error: %v", r))
		}
	}()
	e, err := p.NewEngine(sp.Params)
	if err != nil {
		res.status = "incomplete"
		res.notes = append(res.notes, err.Error())
		return
	}
	defer e.solver.stop()
	hp := p.prog.ImportedPackage(repoPath + "/zzverif/" + sp.Pkg)
	var fn *ssa.Function
	if hp != nil {
		fn = hp.Func(sp.Func)
	}
	if fn == nil {
		res.status = "error"
		res.notes = append(res.notes, "no harness "+sp.Name())
		return
	}
	if sp.Unwind > 0 {
		e.unwind = sp.Unwind
	}
	budget := sp.Budget
	if budget == 0 {
		budget = 4 * time.Minute
	}
	e.deadline = time.Now().Add(budget)
	e.noMergeMode, e.conc, e.cut = sp.Fork, sp.Conc, sp.Cut
	e.lazy, e.lazyFrom = sp.Lazy > 0, sp.Lazy
	e.trace = os.Getenv("GOSYM_TRACE") != ""
	e.shard, e.shards, e.shardAt = sp.shard, sp.Shards, 3
	st := &State{pc: e.c.True, heap: map[ObjID]Value{}, allocs: e.k64(0)}
	e.enter(st, &FuncV{fn: fn}, nil)
	e.Run(st)
	res.obls = len(e.obls)
	res.asserts = e.asserts
	res.states, res.steps, res.merges = e.stats.states, e.stats.steps, e.stats.merges
	res.feas = e.stats.feas
	res.solverTime = e.solver.spent
	res.queries = e.solver.solved + e.solver.unknown
	for _, k := range sortedKeys(e.touched) {
		if !strings.Contains(k, "zzverif/") || strings.Contains(k, "zzverif/cmd") {
			res.functions = append(res.functions, k)
		}
	}
	for k := range e.assumed {
		res.assumptions = append(res.assumptions, k)
	}
	for _, in := range e.inputs {
		switch in.Kind {
		case "bytes":
			res.inputsDesc = append(res.inputsDesc, fmt.Sprintf("%s: bytes, length %d..%d, capacity ..%d", in.Name, in.Term.lo, in.Term.hi, in.Cap.hi))
		case "int":
			res.inputsDesc = append(res.inputsDesc, fmt.Sprintf("%s: %d-bit, %d..%d", in.Name, in.W, in.Term.lo, in.Term.hi))
		}
	}
	if len(e.incomplete) > 0 {
		res.status = "incomplete"
		res.notes = append(res.notes, uniq(e.incomplete)...)
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "%s: executed %d steps, %d states, %d merges, %d obligations, %d terms, feas %d (hits %d, unsat %d) %.1fs solver %.1fs total\n", sp.Name(), e.stats.steps, e.stats.states,
			e.stats.merges, len(e.obls), e.c.n, e.stats.feas, e.solver.hits, e.stats.feasUnsat, e.solver.spent.Seconds(), time.Since(t0).Seconds())
	}
	e.solver.stop()

	p.discharge(e, sp, res, verbose)
	if res.status == "violated" {
		return
	}
	p.witnesses(e, sp, res, verbose)
	return
}

func uniq(s []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func (p *Program) account(res *Result, v Verdict) {
	if v.solver == "simplifier" {
		return
	}
	res.queries++
	res.solverTime += v.dur
	if v.solver != "" {
		res.solverNames[v.solver]++
	}
}

func (p *Program) decide(e *Engine, res *Result, f *Term, to time.Duration) Verdict {
	v := prepQuery(e.c, f, e.axioms).solve(to, solverNames...)
	p.account(res, v)
	return v
}

var solverNames = []string{"z3-ackr", "z3-new", "cvc5"}

// chunk is how many obligations share a query at first.
const chunk = 64

type oblGroup struct {
	obls []*Obligation
	ts   []*Term
	to   time.Duration
	q    *Query
	v    Verdict
}

func (p *Program) discharge(e *Engine, sp *Spec, res *Result, verbose bool) {
	c := e.c
	if os.Getenv("GOSYM_OBLS") != "" {
		for _, o := range e.obls {
			fmt.Fprintf(os.Stderr, "obl %s %s at %s: pc conj %d bad %s\n", o.kind, o.label, o.pos, len(conj(o.pc)), c.Show(o.bad, 9))
		}
	}
	to := 60 * time.Second
	if sp.Budget > 0 {
		to = sp.Budget / 2
	}
	var work []*oblGroup
	group := func(class string) {
		var g *oblGroup
		for i := range e.obls {
			o := &e.obls[i]
			k := "panic"
			if o.kind == "assert" || o.kind == "unwind" {
				k = o.kind
			}
			if k != class {
				continue
			}
			n := chunk
			if sp.Split {
				n = 1
			}
			if g == nil || len(g.obls) >= n {
				g = &oblGroup{to: to / 4}
				work = append(work, g)
			}
			g.obls = append(g.obls, o)
		}
	}
	group("panic")
	group("assert")
	group("unwind")
	spurious := 0
	deadline := time.Now().Add(to * 4)
	for len(work) > 0 {
		if time.Now().After(deadline) {
			for _, g := range work {
				res.unknown += len(g.obls)
			}
			res.status = "incomplete"
			res.notes = append(res.notes, "time budget of the solver exhausted")
			return
		}
		// a batch of queries at a time
		n := min(len(work), 8)
		batch := work[:n]
		work = work[n:]
		ch := make(chan *oblGroup, n)
		for _, g := range batch {
			g.ts = nil
			for _, o := range g.obls {
				g.ts = append(g.ts, c.And(o.pc, o.bad))
			}
			g.q = prepQuery(c, c.Or2(g.ts), e.axioms)
			go func() {
				g.v = g.q.solve(g.to, solverNames...)
				ch <- g
			}()
		}
		for range batch {
			<-ch
		}
		for _, gr := range batch {
			g, v, ts := gr.obls, gr.v, gr.ts
			p.account(res, v)
			gr.q = nil
			if verbose && (v.dur > time.Second || v.res != "unsat") {
				fmt.Fprintf(os.Stderr, "  %s: %d obligations (%s %s): %s by %s in %.2fs\n", sp.Name(), len(g), g[0].kind, g[0].label, v.res, v.solver, v.dur.Seconds())
			}
			switch v.res {
			case "unsat":
				res.discharged += len(g)
			case "unknown":
				if len(g) > 1 {
					m := (len(g) + 7) / 8
					for i := 0; i < len(g); i += m {
						t := gr.to
						if m == 1 {
							t = to
						}
						work = append(work, &oblGroup{obls: g[i:min(i+m, len(g))], to: t})
					}
					continue
				}
				res.unknown++
				res.status = "incomplete"
				res.notes = append(res.notes, fmt.Sprintf("undecided within the time limit: %s %s at %s", g[0].kind, g[0].label, g[0].pos))
			case "sat":
				if v.env == nil {
					res.unknown += len(g)
					res.status = "incomplete"
					res.notes = append(res.notes, "solver gave no model")
					continue
				}
				var bad *Obligation
				var rest []*Obligation
				for i, o := range g {
					if bad == nil && c.Eval(ts[i], v.env) == 1 {
						bad = o
					} else {
						rest = append(rest, o)
					}
				}
				if bad == nil {
					res.unknown += len(g)
					res.status = "incomplete"
					res.notes = append(res.notes, "model does not satisfy the query (evaluator disagrees with the solver)")
					continue
				}
				cs := e.caseFrom(sp, v.env)
				n := p.Native(cs, 20*time.Second)
				ok, how := n.reproduces(bad)
				// the order of a map cannot be chosen natively: try again
				for i := 0; !ok && !n.hang && e.mapOrder && i < 40; i++ {
					n = p.Native(cs, 20*time.Second)
					ok, how = n.reproduces(bad)
				}
				if ok {
					cs.Expect = bad.kind
					cs.Detail = fmt.Sprintf("%s %s at %s; natively: %s", bad.kind, bad.label, bad.pos, how)
					res.status = "violated"
					res.violation = cs
					if verbose {
						fmt.Fprintf(os.Stderr, "  %s: %s\n", sp.Name(), cs.Detail)
					}
					return
				}
				if verbose {
					b, _ := json.Marshal(cs)
					fmt.Fprintf(os.Stderr, "  %s: not reproduced: %s %s at %s: %s\n native: %s\n", sp.Name(), bad.kind, bad.label, bad.pos, b, n.raw)
				}
				spurious++
				res.unknown++
				res.status = "incomplete"
				if bad.kind == "unwind" {
					res.notes = append(res.notes, fmt.Sprintf("unwinding bound too small at %s: executions beyond it were not examined", bad.pos))
				} else {
					res.notes = append(res.notes, fmt.Sprintf("counterexample did not reproduce natively: %s %s at %s", bad.kind, bad.label, bad.pos))
				}
				if len(rest) > 0 && spurious < 8 {
					work = append(work, &oblGroup{obls: rest, to: gr.to})
				} else {
					res.unknown += len(rest)
				}
			}
		}
	}
}

// Or2 is a plain disjunction without factoring.
func (c *Ctx) Or2(ts []*Term) *Term { return c.nary(OOr, ts) }

func (p *Program) witnesses(e *Engine, sp *Spec, res *Result, verbose bool) {
	for _, l := range e.reachOrd {
		var v Verdict
		alts := e.reach[l]
		for i := range alts {
			v = p.decide(e, res, alts[i].pc, 20*time.Second)
			if v.res == "sat" && v.env != nil || i >= 20 {
				break
			}
		}
		if v.res != "sat" || v.env == nil {
			res.unreached = append(res.unreached, l+" ("+v.res+")")
			if verbose {
				fmt.Fprintf(os.Stderr, "  %s: witness %s: %s\n", sp.Name(), l, v.res)
			}
			continue
		}
		cs := e.caseFrom(sp, v.env)
		n := p.Native(cs, 20*time.Second)
		if !n.reach[l] {
			b, _ := json.Marshal(cs)
			res.mismatches = append(res.mismatches, fmt.Sprintf("witness for %s does not reach it natively: %s", l, b))
			if verbose {
				fmt.Fprintf(os.Stderr, "  %s: witness %s NOT native: %s\n%s\n", sp.Name(), l, b, n.raw)
			}
			continue
		}
		res.reached = append(res.reached, l)
		res.traces++
		if len(res.samples) < 3 {
			b, _ := json.Marshal(cs)
			if len(b) < 1500 {
				res.samples = append(res.samples, fmt.Sprintf("%s reaches %q with %s", sp.Name(), l, b))
			}
		}
		// compare observed values
		want := map[string][]uint64{}
		for _, o := range e.obs {
			if e.c.Eval(o.pc, v.env) == 1 {
				want[o.label] = append(want[o.label], e.c.Eval(o.val, v.env))
			}
		}
		for k, w := range want {
			g := n.obs[k]
			for i := range w {
				res.obsChecked++
				if i >= len(g) || g[i] != w[i] {
					res.mismatches = append(res.mismatches, fmt.Sprintf("observation %s: encoding says %v, native says %v", k, w, g))
					if verbose {
						b, _ := json.Marshal(cs)
						fmt.Fprintf(os.Stderr, "  %s: %s\n %s\n", sp.Name(), res.mismatches[len(res.mismatches)-1], b)
					}
					break
				}
			}
		}
	}
	if len(res.mismatches) > 0 && res.status == "ok" {
		res.status = "incomplete"
		res.notes = append(res.notes, res.mismatches...)
	}
}

func (p *Program) saveCase(c *Case) string {
	dir := filepath.Join(p.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(c, "", " ")
	h := fnv.New32a()
	h.Write(b)
	f := filepath.Join(dir, fmt.Sprintf("%s_%s_%08x.json", c.Property, strings.ReplaceAll(c.Harness, ".", "_"), h.Sum32()))
	os.WriteFile(f, b, 0o644)
	return f
}
