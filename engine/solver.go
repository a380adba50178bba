package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---- solver processes ----

// solverSem bounds the number of solver processes running at once.
var solverSem = make(chan struct{}, 12)
var acquire sync.Mutex

var (
	totQueries int64
	totNanos   int64
)

// Solver decides path feasibility during symbolic execution. Verdicts other
// than "unsat" are treated as feasible.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	script  *Script
	nax     int
	cache   map[int]string
	models  []*Env
	calls   int
	timeout int // ms
	broken  bool

	hits, solved, unknown int
	spent                 time.Duration
}

func NewSolver(timeoutMs int) *Solver {
	return &Solver{cache: map[int]string{}, timeout: timeoutMs}
}

func (s *Solver) start(c *Ctx) error {
	s.stop()
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:3000")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.script = c.NewScript()
	s.nax = 0
	s.calls = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) flush() error {
	if s.script.sb.Len() > 0 {
		_, err := io.WriteString(s.in, s.script.sb.String())
		s.script.sb.Reset()
		return err
	}
	return nil
}

// readSexp reads one s-expression or atom.
func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inStr, inBar := false, false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if inStr {
			sb.WriteByte(b)
			if b == '"' {
				inStr = false
			}
			continue
		}
		if inBar {
			sb.WriteByte(b)
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '"':
			inStr = true
		case '|':
			inBar = true
		case '(':
			depth++
		case ')':
			depth--
		case ' ', '\n', '\r', '\t':
			if !started {
				continue
			}
			if depth == 0 {
				return sb.String(), nil
			}
		}
		started = true
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			return sb.String(), nil
		}
	}
}

func (s *Solver) QuickSat(c *Ctx, pc *Term, axioms []*Term) string {
	if r, ok := s.cache[pc.id]; ok {
		return r
	}
	for i := len(s.models) - 1; i >= 0; i-- {
		m := s.models[i]
		ok := c.Eval(pc, m) == 1
		for _, a := range axioms {
			ok = ok && c.Eval(a, m) == 1
		}
		if ok {
			s.hits++
			s.cache[pc.id] = "sat"
			return "sat"
		}
	}
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	r := s.query(c, pc, axioms)
	if r != "unknown" {
		s.solved++
	} else {
		s.unknown++
	}
	s.cache[pc.id] = r
	return r
}

func (s *Solver) query(c *Ctx, pc *Term, axioms []*Term) string {
	if s.cmd == nil || s.calls > 400 {
		if s.start(c) != nil {
			return "unknown"
		}
	}
	s.calls++
	for ; s.nax < len(axioms); s.nax++ {
		s.script.Assert(axioms[s.nax])
	}
	s.script.Define(pc)
	if s.flush() != nil {
		s.stop()
		return "unknown"
	}
	io.WriteString(s.in, "(push 1)\n")
	for _, t := range conj(pc) {
		fmt.Fprintf(s.in, "(assert %s)\n", s.script.ref(t))
	}
	io.WriteString(s.in, "(check-sat)\n")
	ans, err := readSexp(s.out)
	if err != nil {
		s.stop()
		return "unknown"
	}
	switch ans {
	case "sat":
		if m := s.model(c, pc); m != nil {
			if len(s.models) >= 24 {
				s.models = append(s.models[:0], s.models[1:]...)
			}
			s.models = append(s.models, m)
		} else {
			return "sat"
		}
	case "unsat":
	case "unknown", "timeout":
		ans = "unknown"
	default:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", ans)
		}
		s.stop()
		return "unknown"
	}
	io.WriteString(s.in, "(pop 1)\n")
	return ans
}

// deps lists the variables and array reads t depends on.
func deps(ts ...*Term) (vars, sels []*Term) {
	seen := map[int]bool{}
	st := append([]*Term(nil), ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		switch t.op {
		case OVar:
			vars = append(vars, t)
		case OSelect:
			sels = append(sels, t)
		}
		st = append(st, t.args...)
	}
	return
}

func (s *Solver) model(c *Ctx, pc *Term) *Env {
	vars, sels := deps(pc)
	var q strings.Builder
	q.WriteString("(get-value (true")
	for _, v := range vars {
		q.WriteByte(' ')
		q.WriteString(s.script.ref(v))
	}
	for _, t := range sels {
		q.WriteByte(' ')
		q.WriteString(s.script.ref(t.args[0]))
		q.WriteByte(' ')
		q.WriteString(s.script.ref(t))
	}
	q.WriteString("))\n")
	io.WriteString(s.in, q.String())
	out, err := readSexp(s.out)
	if err != nil {
		s.stop()
		return nil
	}
	return parseModel(out, vars, sels)
}

// parseModel reads the answer to a get-value whose first entry is `true`,
// followed by the variables and by (index, value) pairs of the array reads.
func parseModel(out string, vars, sels []*Term) *Env {
	vals := parseValues(out)
	if vals == nil || len(vals) != 1+len(vars)+2*len(sels) {
		return nil
	}
	env := &Env{vars: map[string]uint64{}, arrs: map[string]map[uint64]uint64{}}
	k := 1
	for _, v := range vars {
		env.vars[v.name] = vals[k]
		k++
	}
	for _, t := range sels {
		m := env.arrs[t.name]
		if m == nil {
			m = map[uint64]uint64{}
			env.arrs[t.name] = m
		}
		m[vals[k]] = vals[k+1]
		k += 2
	}
	return env
}

// parseValues extracts the value of every pair of a get-value answer.
func parseValues(s string) []uint64 {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "((") {
		return nil
	}
	var vals []uint64
	// each pair ends with "<value>)"; scan at depth 2
	depth := 0
	inBar := false
	last := ""
	cur := strings.Builder{}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if inBar {
			cur.WriteByte(b)
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '|':
			inBar = true
			cur.WriteByte(b)
		case '(':
			depth++
			cur.Reset()
		case ')':
			if cur.Len() > 0 {
				last = cur.String()
				cur.Reset()
			}
			if depth == 2 {
				v, ok := parseVal(last)
				if !ok {
					return nil
				}
				vals = append(vals, v)
			}
			depth--
		case ' ', '\n', '\t', '\r':
			if cur.Len() > 0 {
				last = cur.String()
				cur.Reset()
			}
		default:
			cur.WriteByte(b)
		}
	}
	return vals
}

func parseVal(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

// ---- one-shot queries ----

type Verdict struct {
	res    string // sat, unsat, unknown
	env    *Env
	solver string
	dur    time.Duration
}

const abv = "(set-logic QF_ABV)\n"

type backend struct {
	name string
	args []string
	pre  string
	chk  string
}

func backends(name string) backend {
	switch name {
	case "z3-new":
		return backend{"z3-new", []string{"z3-new", "-in", "-smt2", "-memory:6000"}, abv, "(check-sat)\n"}
	case "z3-ackr":
		return backend{"z3-new/ackermann", []string{"z3-new", "-in", "-smt2", "-memory:6000"}, "",
			"(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr ackermannize_bv qfbv))\n"}
	case "z3-smt":
		return backend{"z3-new/smt", []string{"z3-new", "-in", "-smt2", "-memory:6000"}, "", "(push 1)\n(check-sat)\n"}
	case "z3":
		return backend{"z3-4.8", []string{"z3", "-in", "-smt2", "-memory:6000"}, abv, "(check-sat)\n"}
	case "cvc5":
		return backend{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", "-q"}, abv, "(check-sat)\n"}
	}
	panic(name)
}

// Query is a formula ready to be sent to solvers.
type Query struct {
	trivial    bool
	body, gv   string
	vars, sels []*Term
}

func prepQuery(c *Ctx, f *Term, axioms []*Term) *Query {
	if f.isFalse() {
		return &Query{trivial: true}
	}
	sc := c.NewScript()
	for _, a := range axioms {
		sc.Assert(a)
	}
	sc.Define(f)
	for _, t := range conj(f) {
		fmt.Fprintf(sc.sb, "(assert %s)\n", sc.ref(t))
	}
	q := &Query{body: sc.sb.String()}
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, atomic.AddInt64(&dumpN, 1)), []byte("(set-logic QF_ABV)\n"+q.body+"(check-sat)\n"), 0o644)
	}
	q.vars, q.sels = deps(append([]*Term{f}, axioms...)...)
	var gv strings.Builder
	gv.WriteString("(get-value (true")
	for _, v := range q.vars {
		gv.WriteByte(' ')
		gv.WriteString(sc.ref(v))
	}
	for _, t := range q.sels {
		gv.WriteByte(' ')
		gv.WriteString(sc.ref(t.args[0]))
		gv.WriteByte(' ')
		gv.WriteString(sc.ref(t))
	}
	gv.WriteString("))\n")
	q.gv = gv.String()
	return q
}

// solve runs the query through several solvers in parallel and returns the
// first definite verdict.
func (q *Query) solve(timeout time.Duration, names ...string) Verdict {
	if q.trivial {
		return Verdict{res: "unsat", solver: "simplifier"}
	}
	if len(names) > 1 {
		// one solver usually settles it
		if v := q.solve1(min(timeout, 4*time.Second), names[0]); v.res == "unsat" || v.res == "sat" && v.env != nil {
			return v
		}
	}
	return q.solve1(timeout, names...)
}

func (q *Query) solve1(timeout time.Duration, names ...string) Verdict {
	// the time limit starts when the solvers do
	acquire.Lock() // all slots or none: partial holders would wait for each other
	for range names {
		solverSem <- struct{}{}
	}
	acquire.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	ch := make(chan Verdict, len(names))
	t0 := time.Now()
	for _, n := range names {
		b := backends(n)
		if b.pre != "" && strings.Contains(q.body, "to_fp") {
			b.pre = "(set-logic ALL)\n"
		}
		go func() {
			defer func() { <-solverSem }()
			atomic.AddInt64(&totQueries, 1)
			s0 := time.Now()
			v := oneShot(ctx, b, q.body, q.gv, q.vars, q.sels)
			atomic.AddInt64(&totNanos, int64(time.Since(s0)))
			ch <- v
		}()
	}
	best := Verdict{res: "unknown"}
	for range names {
		v := <-ch
		if v.res == "unsat" || v.res == "sat" && v.env != nil {
			best = v
			break
		}
		if v.res == "sat" {
			best = v
		}
	}
	cancel()
	best.dur = time.Since(t0)
	return best
}

var dumpN int64

func oneShot(ctx context.Context, b backend, body, gv string, vars, sels []*Term) Verdict {
	cmd := exec.CommandContext(ctx, b.args[0], b.args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return Verdict{res: "unknown"}
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return Verdict{res: "unknown"}
	}
	if err := cmd.Start(); err != nil {
		return Verdict{res: "unknown"}
	}
	defer func() {
		in.Close()
		cmd.Process.Kill()
		cmd.Wait()
	}()
	go func() {
		io.WriteString(in, "(set-option :print-success false)\n(set-option :produce-models true)\n"+b.pre)
		io.WriteString(in, body)
		io.WriteString(in, b.chk)
	}()
	r := bufio.NewReaderSize(out, 1<<16)
	ans, err := readSexp(r)
	if err != nil {
		return Verdict{res: "unknown"}
	}
	v := Verdict{solver: b.name}
	switch ans {
	case "unsat":
		v.res = "unsat"
	case "sat":
		v.res = "sat"
		io.WriteString(in, gv)
		o, err := readSexp(r)
		if err == nil {
			v.env = parseModel(o, vars, sels)
		}
	default:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", b.name, ans)
		}
		v.res = "unknown"
	}
	return v
}
