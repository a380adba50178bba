package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	info   *fnInfo
	regs   []Value
	blk    int
	prev   int
	ip     int
	iters  []int32
	syms   []int32
	catch  bool // pushed by vrt.Catch
	sink   bool // result is discarded (deferred calls, Catch bodies)
	defers []deferred
	// panicking state while this frame runs its deferred calls
	unwinding bool
	recovered bool
	isDefer   bool
}

type deferred struct {
	fn   *FuncV
	args []Value
	bi   string
}

type frozenMark struct {
	limit ObjID
	label string
}

type State struct {
	pc     *Term
	frames []*Frame
	heap   map[ObjID]Value
	frozen []frozenMark
	allocs *Term
	panicV Value // current panic value while unwinding through defers
	key    []int32
	seq    int
	steps  int
	chosen int  // how many Choose calls precede
	clean  bool // unreachable objects were dropped
	fits   int8 // whether the next append fits its capacity: 1 yes, -1 no, 0 not split
	choice int  // values taken by Choose on this path; only equal ones merge
}

type Obligation struct {
	pc, bad *Term
	kind    string // panic kind, "assert", "unwind", ...
	label   string
	pos     string
	choice  int
}

// reachAlt is one way to reach a label.
type reachAlt struct {
	choice int
	pc     *Term
}

type Observation struct {
	pc     *Term
	label  string
	val    *Term
	signed bool
}

type Engine struct {
	c          *Ctx
	prog       *ssa.Program
	infos      map[*ssa.Function]*fnInfo
	nextObj    ObjID
	baseHeap   map[ObjID]Value
	globals    map[*ssa.Global]ObjID
	globalOf   map[ObjID]*ssa.Global
	nodeObjs   map[*Node]ObjID
	nodeObjVal map[ObjID]Value
	axioms     []*Term
	localCells map[ObjID]bool
	cur        *State

	queue stateHeap
	seq   int

	obls       []Obligation
	reach      map[string][]reachAlt
	reachOrd   []string
	obs        []Observation
	inputs     []Input
	inputIdx   map[string]int
	params     map[string]int
	finished   []*State
	incomplete []string
	assumed    map[string]bool

	unwind      int
	maxSteps    int
	deadline    time.Time
	noMergeMode bool
	merging     bool           // inside tryMergeStates
	cut         map[string]int // function -> iterations of its loops that are examined
	ranges      map[string][2]int64
	choices     int
	shard       int // this engine explores the choices of one shard
	shards      int
	shardAt     int
	shardN      int
	conc        bool // concrete-layout mode, see conc.go
	lazyFrom    int  // loop iterations after which lazy execution asks the solver
	lazy        bool // no feasibility queries: loops end at constants or at the unwinding bound
	initMode    bool
	solver      *Solver
	models      map[string]*ssa.Function
	pkgs        map[string]*ssa.Package

	stats struct {
		states, merges, steps, feas, feasUnsat, forks int
		feasTime                                      time.Duration
	}
	touched    map[string]int
	trace      bool
	mapOrder   bool // a map with several entries was iterated
	asserts    int
	symNodes   map[string]*Node
	ranged     map[string]bool
	enumerated map[string][2]int64
	opaqueErr  types.Type
}

// Input is a nondeterministic harness input.
type Input struct {
	Name string
	Kind string // "int" or "bytes"
	W    uint8
	Term *Term // value (int) or length (bytes)
	Cap  *Term
	Arr  string
}

type stateHeap []*State

func (h stateHeap) Len() int { return len(h) }
func (h stateHeap) Less(i, j int) bool {
	if h[i].choice != h[j].choice {
		return h[i].choice > h[j].choice // depth first over choices
	}
	if d := cmpKey(h[i].key, h[j].key); d != 0 {
		return d < 0
	}
	return h[i].seq < h[j].seq
}
func (h stateHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *stateHeap) Push(x interface{}) { *h = append(*h, x.(*State)) }
func (h *stateHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func cmpKey(a, b []int32) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) computeKey() {
	k := st.key[:0:0]
	for _, f := range st.frames {
		k = append(k, f.info.id)
		for i, h := range f.info.loops[f.blk] {
			k = append(k, f.info.pos[h], f.iters[i])
		}
		k = append(k, f.info.pos[f.blk], int32(f.ip))
	}
	st.key = k
}

func (e *Engine) push(st *State) {
	st.computeKey()
	e.seq++
	st.seq = e.seq
	heap.Push(&e.queue, st)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.iters = append([]int32(nil), f.iters...)
	n.syms = append([]int32(nil), f.syms...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

// fork copies st; only the top frame is exclusively owned by each copy.
func (e *Engine) fork(st *State) *State {
	e.stats.forks++
	n := *st
	n.frames = append([]*Frame(nil), st.frames...)
	n.frames[len(n.frames)-1] = st.top().clone()
	n.heap = make(map[ObjID]Value, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.frozen = append([]frozenMark(nil), st.frozen...)
	return &n
}

// assume adds a condition; false means the state is (syntactically) dead.
func (e *Engine) assume(st *State, t *Term) bool {
	st.pc = e.c.And(st.pc, t)
	return !st.pc.isFalse()
}

func (e *Engine) feasible(pc *Term) bool {
	if pc.isTrue() {
		return true
	}
	if pc.isFalse() {
		return false
	}
	if e.lazy {
		return true
	}
	return e.feasibleQ(pc)
}

var feasDebug = os.Getenv("GOSYM_FEAS") != ""

// feasibleQ always asks the solver.
func (e *Engine) feasibleQ(pc *Term) bool {
	if pc.isTrue() || pc.isFalse() {
		return pc.isTrue()
	}
	t0 := time.Now()
	e.stats.feas++
	r := e.solver.QuickSat(e.c, pc, e.axioms)
	e.stats.feasTime += time.Since(t0)
	if feasDebug && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "feasibility %s %.1fs at %s\n", r, time.Since(t0).Seconds(), e.posOf(e.cur))
	}
	if r == "unsat" {
		e.stats.feasUnsat++
		return false
	}
	return true
}

func (e *Engine) posOf(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		b := f.info.fn.Blocks[f.blk]
		for k := min(f.ip, len(b.Instrs)-1); k >= 0; k-- {
			if p := b.Instrs[k].Pos(); p.IsValid() {
				ps := e.prog.Fset.Position(p)
				return fmt.Sprintf("%s:%d (%s)", short(ps.Filename), ps.Line, f.info.fn.Name())
			}
		}
	}
	return "?"
}

func short(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[i+1:]
	}
	return p
}

func (e *Engine) inCatch(st *State) bool {
	for _, f := range st.frames {
		if f.catch || len(f.defers) > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) obligation(st *State, bad *Term, kind, label string) {
	full := e.c.And(st.pc, bad)
	if full.isFalse() {
		return
	}
	e.obls = append(e.obls, Obligation{pc: st.pc, bad: bad, kind: kind, label: label, pos: e.posOf(st), choice: st.choice})
}

// check records that bad must not happen here. Inside Catch (or when deferred
// calls are pending) the panicking path is followed instead.
func (e *Engine) check(st *State, bad *Term, kind string) {
	if bad.isFalse() {
		return
	}
	if e.c.And(st.pc, bad).isFalse() || e.known(st.pc, bad) {
		return
	}
	if e.inCatch(st) {
		if e.feasible(e.c.And(st.pc, bad)) {
			p := e.fork(st)
			p.pc = e.c.And(p.pc, bad)
			e.doPanic(p, e.runtimeErr(kind))
		}
		st.pc = e.c.And(st.pc, e.c.Not(bad))
		return
	}
	if e.initMode {
		unsupported("possible panic (%s) during package initialisation", kind)
	}
	e.obligation(st, bad, kind, "")
	if bad.isTrue() {
		st.pc = e.c.False
	}
}

func (e *Engine) runtimeErr(kind string) Value {
	return &IfaceV{[]IAlt{{e.c.True, e.opaqueErr, &OpaqueV{"panic:" + kind}}}}
}

// doPanic unwinds st; the state is consumed (re-queued or reported).
func (e *Engine) doPanic(st *State, v Value) {
	st.panicV = v
	pos := e.posOf(st)
	for len(st.frames) > 0 {
		f := st.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.unwinding = true
			f.recovered = false
			if e.pushDeferred(st, d) {
				e.push(st)
			}
			return
		}
		if f.catch {
			st.panicV = nil
			e.popTo(st, e.c.True)
			return
		}
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) > 0 {
			st.frames[len(st.frames)-1] = st.top().clone()
		}
	}
	e.obls = append(e.obls, Obligation{pc: st.pc, bad: e.c.True, kind: "panic", pos: pos, choice: st.choice})
}

func (e *Engine) pushDeferred(st *State, d deferred) bool {
	if d.fn == nil || d.fn.fn == nil {
		unsupported("deferred builtin or model call")
	}
	if !e.enter(st, d.fn, d.args) {
		return false
	}
	st.top().sink = true
	st.top().isDefer = true
	return true
}

// popTo removes the top frame, stores result r in the caller and re-queues.
func (e *Engine) popTo(st *State, r Value) {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		e.finished = append(e.finished, st)
		return
	}
	st.frames[len(st.frames)-1] = st.top().clone()
	caller := st.top()
	if f.isDefer {
		// continue running the caller's deferred calls
		if caller.unwinding {
			if caller.recovered {
				if len(caller.defers) > 0 {
					d := caller.defers[len(caller.defers)-1]
					caller.defers = caller.defers[:len(caller.defers)-1]
					if e.pushDeferred(st, d) {
						e.push(st)
					}
					return
				}
				// return from caller through its Recover block
				caller.unwinding = false
				rb := caller.info.fn.Recover
				if rb == nil {
					var z Value
					res := caller.info.fn.Signature.Results()
					switch res.Len() {
					case 0:
					case 1:
						z = e.zero(res.At(0).Type())
					default:
						z = e.zero(res)
					}
					e.popTo(st, z)
					return
				}
				caller.prev = caller.blk
				caller.blk = rb.Index
				caller.ip = 0
				caller.iters, caller.syms = nil, nil
				e.push(st)
				return
			}
			e.doPanic(st, st.panicV)
			return
		}
		// normal RunDefers: re-execute the instruction
		e.push(st)
		return
	}
	in := caller.info.fn.Blocks[caller.blk].Instrs[caller.ip]
	if v, ok := in.(ssa.Value); ok && !f.sinkOnly() {
		if f.catch {
			if r == nil {
				r = e.c.False
			}
			if t, ok := r.(*Term); !ok || t.w != 0 {
				r = e.c.False
			}
		}
		caller.regs[caller.info.reg[v]] = r
	}
	caller.ip++
	e.push(st)
}

func (f *Frame) sinkOnly() bool { return f.sink && !f.catch }

// enter pushes a frame for fn.
func (e *Engine) enter(st *State, fv *FuncV, args []Value) bool {
	fn := fv.fn
	if fn.Blocks == nil {
		unsupported("call to %s, which has no body", fn)
	}
	if len(st.frames) > 60 {
		unsupported("call depth exceeded at %s", fn)
	}
	fi := e.info(fn)
	f := &Frame{info: fi, regs: make([]Value, fi.nreg)}
	if len(args) != len(fn.Params) {
		unsupported("arity mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		f.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.reg[p]] = fv.binds[i]
	}
	st.frames = append(st.frames, f)
	e.touch(fn)
	return true
}

func (e *Engine) touch(fn *ssa.Function) {
	if fn.Pkg != nil {
		e.touched[fn.String()]++
	} else {
		e.touched[fn.String()]++
	}
}

// ---- main loop ----

// Run explores from the initial state to exhaustion.
func (e *Engine) Run(st *State) {
	e.push(st)
	for e.queue.Len() > 0 {
		if time.Now().After(e.deadline) {
			e.incomplete = append(e.incomplete, "time budget of the symbolic execution exhausted")
			e.queue = nil
			return
		}
		s := heap.Pop(&e.queue).(*State)
		// merge everything at the same position
		if !e.noMergeMode {
			var failed []*State
			for e.queue.Len() > 0 && e.queue[0].choice == s.choice && cmpKey(e.queue[0].key, s.key) == 0 {
				o := heap.Pop(&e.queue).(*State)
				m := e.mergeStates(s, o)
				if m == nil {
					failed = append(failed, o)
				} else {
					e.stats.merges++
					s = m
				}
			}
			for _, o := range failed {
				heap.Push(&e.queue, o)
			}
		}
		e.stats.states++
		s.clean = false
		e.runState(s)
	}
}

func (e *Engine) runState(st *State) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok {
				if e.trace {
					panic(r)
				}
				if nm, is := r.(noMerge); is {
					_ = nm
					u = Unsupported{"unmergeable values"}
				} else {
					if os.Getenv("GOSYM_DEBUG") != "" {
						panic(r)
					}
					u = Unsupported{fmt.Sprintf("internal: %v", r)}
				}
			}
			if e.initMode {
				panic(u)
			}
			if len(st.frames) > 0 && e.feasibleQ(st.pc) {
				e.incomplete = append(e.incomplete, fmt.Sprintf("not encodable at %s: %s", e.posOf(st), u.msg))
			}
		}
	}()
	for {
		if st.pc.isFalse() {
			return
		}
		e.cur = st
		f := st.top()
		b := f.info.fn.Blocks[f.blk]
		in := b.Instrs[f.ip]
		e.stats.steps++
		if e.stats.steps&0xffff == 0 && time.Now().After(e.deadline) {
			e.incomplete = append(e.incomplete, "time budget of the symbolic execution exhausted at "+e.posOf(st))
			return
		}
		if e.trace {
			fmt.Fprintf(os.Stderr, "[%d] %s b%d i%d: %v\n", st.seq, f.info.fn.Name(), f.blk, f.ip, in)
		}
		if e.conc && e.concSplit(st, f, in) {
			return
		}
		if !e.step(st, f, in) {
			return
		}
	}
}

// jump transfers control to successor index si of the current block.
// It returns false when the state was re-queued or dropped.
func (e *Engine) jump(st *State, si int, symbolic bool) bool {
	f := st.top()
	fi := f.info
	b := fi.fn.Blocks[f.blk]
	t := b.Succs[si]
	oldLoops := fi.loops[f.blk]
	newLoops := fi.loops[t.Index]
	if symbolic {
		// count symbolic iterations of every loop one successor leaves
		for i, h := range oldLoops {
			for _, s := range b.Succs {
				if !fi.inL[h][s.Index] {
					f.syms[i]++
					break
				}
			}
		}
	}
	niters := make([]int32, len(newLoops))
	nsyms := make([]int32, len(newLoops))
	for i, h := range newLoops {
		if i < len(oldLoops) && oldLoops[i] == h {
			niters[i] = f.iters[i]
			nsyms[i] = f.syms[i]
			if h == t.Index && i == len(newLoops)-1 {
				niters[i]++
				if e.lazy && int(nsyms[i]) > e.lazyFrom && !e.feasibleQ(st.pc) {
					return false
				}
				if n, ok := e.cut[fi.fn.String()]; ok && int(niters[i]) > n {
					return false // outside the stated bound
				}
				if int(nsyms[i]) > e.unwind {
					if e.feasible(st.pc) {
						e.obls = append(e.obls, Obligation{pc: st.pc, bad: e.c.True, kind: "unwind",
							label: fmt.Sprintf("loop may run more than %d times", e.unwind), pos: e.posOf(st), choice: st.choice})
					}
					return false
				}
				if int(niters[i]) > e.maxSteps {
					unsupported("loop ran %d concrete iterations", niters[i])
				}
			}
		} else {
			break
		}
	}
	f.iters, f.syms = niters, nsyms
	f.prev = f.blk
	f.blk = t.Index
	f.ip = 0
	// evaluate phis in parallel
	pi := -1
	// when the same block precedes twice, pick the edge that matches si
	seen := 0
	want := 0
	for k := 0; k < si; k++ {
		if b.Succs[k] == t {
			want++
		}
	}
	for k, p := range t.Preds {
		if p == b {
			if seen == want {
				pi = k
				break
			}
			seen++
		}
	}
	var vals []Value
	for _, in := range t.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, f, ph.Edges[pi]))
	}
	for i, v := range vals {
		f.regs[fi.reg[t.Instrs[i].(*ssa.Phi)]] = v
	}
	f.ip = len(vals)
	// only stop at blocks where paths can meet
	if len(t.Preds) > 1 {
		e.push(st)
		return false
	}
	return true
}

func (e *Engine) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return &PtrV{[]PtrAlt{{g: e.c.True, obj: e.globalObj(x)}}}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{model: "builtin:" + x.Name()}
	}
	r, ok := f.info.reg[v]
	if !ok {
		unsupported("no register for %v", v)
	}
	if f.regs[r] == nil {
		unsupported("read of an undefined register %s in %s", v.Name(), f.info.fn)
	}
	return f.regs[r]
}

func (e *Engine) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	if w, ok := scalarW(t); ok {
		if w == 0 {
			return e.c.Bool(constant.BoolVal(x.Value))
		}
		if isFloat(t) {
			return e.floatConst(x, w)
		}
		if isSigned(t) {
			return e.c.Const(w, uint64(x.Int64()))
		}
		return e.c.Const(w, x.Uint64())
	}
	if isString(t) {
		return e.str(constant.StringVal(x.Value))
	}
	unsupported("constant %v", x)
	return nil
}

func (e *Engine) globalObj(g *ssa.Global) ObjID {
	if o, ok := e.globals[g]; ok {
		return o
	}
	e.nextObj++
	o := e.nextObj
	e.globals[g] = o
	e.globalOf[o] = g
	et := g.Type().(*types.Pointer).Elem()
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if e.initialised(path) || g.Name() == "init$guard" {
		e.baseHeap[o] = e.zero(et)
	} else if _, ok := et.Underlying().(*types.Interface); ok && types.Implements(et, errIface) {
		e.baseHeap[o] = &IfaceV{[]IAlt{{e.c.True, e.opaqueErr, &OpaqueV{"err:" + g.String()}}}}
	}
	return o
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (e *Engine) initialised(path string) bool {
	return e.pkgs[path] != nil
}

// ---- state merging ----

func (e *Engine) mergeStates(a, b *State) *State {
	if len(a.frames) != len(b.frames) || len(a.frozen) != len(b.frozen) || a.choice != b.choice || a.fits != b.fits {
		return nil
	}
	for i := range a.frozen {
		if a.frozen[i] != b.frozen[i] {
			return nil
		}
	}
	for i := range a.frames {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		if x.info != y.info || x.blk != y.blk || x.ip != y.ip || x.catch != y.catch || x.sink != y.sink ||
			x.isDefer != y.isDefer || x.unwinding != y.unwinding || x.recovered != y.recovered || len(x.defers) != len(y.defers) {
			return nil
		}
	}
	if e.conc && e.apart(a, b) {
		return nil
	}
	for _, s := range []*State{a, b} {
		if !s.clean {
			e.gc(s)
			s.clean = true
		}
	}
	g := e.guardFor(a.pc, b.pc)
	r := e.tryMergeStates(a, b, g)
	if r == nil {
		return nil
	}
	r.pc = e.c.Or(a.pc, b.pc)
	return r
}

// apart reports quickly that merging would lose a fixed position.
func (e *Engine) apart(a, b *State) bool {
	e.merging = true
	defer func() { e.merging = false }()
	for i := range a.frames {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			continue
		}
		ip := x.ip
		if i < len(a.frames)-1 && !a.frames[i+1].isDefer {
			ip++
		}
		live := x.info.live(x.blk, ip)
		for k, v := range x.regs {
			w := y.regs[k]
			if v == w || v == nil || w == nil {
				continue
			}
			switch v := v.(type) {
			case *Term:
				if w, ok := w.(*Term); ok && e.layoutDiffers(v, w) && live.has(k) {
					return true
				}
			case *SliceV:
				if w, ok := w.(*SliceV); ok && (e.layoutDiffers(v.len, w.len) || e.layoutDiffers(v.cap, w.cap)) && live.has(k) {
					return true
				}
			}
		}
	}
	return false
}

// guardFor picks a condition that is true on every state of pa and false on
// every state of pb (the two are mutually exclusive).
func (e *Engine) guardFor(pa, pb *Term) *Term {
	ca, cb := conj(pa), conj(pb)
	inb := map[int]bool{}
	for _, t := range cb {
		inb[t.id] = true
	}
	var rest []*Term
	for _, t := range ca {
		if inb[t.id] {
			continue
		}
		if inb[e.c.Not(t).id] {
			return t
		}
		rest = append(rest, t)
	}
	return e.c.And(rest...)
}

func (e *Engine) tryMergeStates(a, b *State, g *Term) (res *State) {
	e.merging = true
	defer func() {
		e.merging = false
		if r := recover(); r != nil {
			if _, ok := r.(noMerge); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	n := &State{frames: make([]*Frame, len(a.frames)), frozen: a.frozen, choice: a.choice, chosen: a.chosen, steps: max(a.steps, b.steps)}
	n.allocs = e.c.Ite(g, a.allocs, b.allocs)
	if a.panicV != nil && b.panicV != nil {
		n.panicV = e.merge(g, a.panicV, b.panicV)
	} else if a.panicV != nil || b.panicV != nil {
		panic(noMerge{})
	}
	for i := range a.frames {
		x, y := a.frames[i], b.frames[i]
		if x == y {
			n.frames[i] = x
			continue
		}
		f := *x
		f.regs = make([]Value, len(x.regs))
		ip := x.ip
		if i < len(a.frames)-1 && !a.frames[i+1].isDefer {
			ip++
		}
		live := x.info.live(x.blk, ip)
		for k := range x.regs {
			if x.regs[k] == nil || y.regs[k] == nil || !live.has(k) {
				continue
			}
			if x.regs[k] == y.regs[k] {
				f.regs[k] = x.regs[k]
				continue
			}
			if e.conc {
				if p, ok := x.regs[k].(*Term); ok {
					if q, ok := y.regs[k].(*Term); ok && e.layoutDiffers(p, q) {
						panic(noMerge{})
					}
				}
			}
			f.regs[k] = e.merge(g, x.regs[k], y.regs[k])
		}
		f.iters = append([]int32(nil), x.iters...)
		f.syms = append([]int32(nil), x.syms...)
		for k := range f.syms {
			f.syms[k] = max(f.syms[k], y.syms[k])
		}
		f.defers = nil
		for k := range x.defers {
			dx, dy := x.defers[k], y.defers[k]
			d := deferred{bi: dx.bi, fn: e.merge(g, dx.fn, dy.fn).(*FuncV)}
			for q := range dx.args {
				d.args = append(d.args, e.merge(g, dx.args[q], dy.args[q]))
			}
			f.defers = append(f.defers, d)
		}
		n.frames[i] = &f
	}
	n.heap = make(map[ObjID]Value, len(a.heap))
	for o, v := range a.heap {
		w, ok := b.heap[o]
		if !ok {
			if bw, ok2 := e.baseHeap[o]; ok2 {
				w, ok = bw, true
			}
		}
		if !ok || v == w {
			n.heap[o] = v
			continue
		}
		n.heap[o] = e.merge(g, v, w)
	}
	for o, w := range b.heap {
		if _, ok := a.heap[o]; ok {
			continue
		}
		if v, ok := e.baseHeap[o]; ok {
			n.heap[o] = e.merge(g, v, w)
			continue
		}
		n.heap[o] = w
	}
	return n
}

// gc drops objects unreachable from live registers and globals.
func (e *Engine) gc(st *State) {
	mark := map[ObjID]bool{}
	var work []ObjID
	var visit func(v Value)
	addO := func(o ObjID) {
		if o != 0 && !mark[o] {
			mark[o] = true
			work = append(work, o)
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case *PtrV:
			for _, a := range x.alts {
				addO(a.obj)
			}
		case *MapV:
			for _, a := range x.alts {
				addO(a.obj)
			}
		case *SliceV:
			for _, a := range x.alts {
				addO(a.obj)
			}
		case *StrV:
			for _, a := range x.alts {
				addO(a.obj)
			}
		case *IfaceV:
			for _, a := range x.alts {
				visit(a.val)
			}
		case *FuncV:
			for _, b := range x.binds {
				visit(b)
			}
			if x.recv != nil {
				visit(x.recv)
			}
		case *StructV:
			for _, b := range x.f {
				visit(b)
			}
		case *ArrG:
			for _, b := range x.e {
				visit(b)
			}
		case *TupleV:
			for _, b := range x.e {
				visit(b)
			}
		case *UPtrV:
			visit(x.p)
		case *IterV:
			if x.m != nil {
				visit(x.m)
			}
			if x.str != nil {
				visit(x.str)
			}
			for _, b := range x.cands {
				visit(b)
			}
		case *MapC:
			for _, en := range x.ents {
				visit(en.key)
				visit(en.val)
			}
			if x.zero != nil {
				visit(x.zero)
			}
		}
	}
	for i, f := range st.frames {
		ip := f.ip
		if i < len(st.frames)-1 && !st.frames[i+1].isDefer {
			ip++
		}
		live := f.info.live(f.blk, ip)
		for k, v := range f.regs {
			if v != nil && live.has(k) {
				visit(v)
			}
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	if st.panicV != nil {
		visit(st.panicV)
	}
	for _, o := range e.globals {
		addO(o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if v, ok := st.heap[o]; ok {
			visit(v)
		} else if v, ok := e.baseHeap[o]; ok {
			visit(v)
		}
	}
	for o := range st.heap {
		if !mark[o] {
			delete(st.heap, o)
		}
	}
}

// hasAddr reports that a condition compares addresses: cheap to decide, and
// most outcomes contradict the layout of memory.
func hasAddr(t *Term) bool {
	switch t.op {
	case OVar:
		return strings.HasPrefix(t.name, "addr!")
	case ONot, OUlt, OEq, OLin:
		for _, a := range t.args {
			if hasAddr(a) {
				return true
			}
		}
	}
	return false
}

// branch handles a two-way conditional.
func (e *Engine) branch(st *State, cv ssa.Value, cond *Term) bool {
	if cond.isTrue() {
		return e.jump(st, 0, false)
	}
	if cond.isFalse() {
		return e.jump(st, 1, false)
	}
	pt := e.c.And(st.pc, cond)
	pf := e.c.And(st.pc, e.c.Not(cond))
	ft, ff := !pt.isFalse(), !pf.isFalse()
	if ft && ff && e.lazy && hasAddr(cond) {
		ft = e.feasibleQ(pt)
		ff = !ft || e.feasibleQ(pf)
	}
	if ft {
		ft = e.feasible(pt)
	}
	if ff && ft {
		ff = e.feasible(pf)
	}
	switch {
	case ft && ff:
		o := e.fork(st)
		o.pc = pf
		st.pc = pt
		e.refine(o, o.top(), cv, false)
		e.refine(st, st.top(), cv, true)
		if e.jump(o, 1, true) {
			e.push(o)
		}
		if e.jump(st, 0, true) {
			e.push(st)
		}
		return false
	case ft:
		e.refine(st, st.top(), cv, true)
		// the condition is implied; keep it out of the path condition
		return e.jump(st, 0, true)
	case ff:
		e.refine(st, st.top(), cv, false)
		return e.jump(st, 1, true)
	}
	return false
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = token.ADD
