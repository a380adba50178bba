package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoPath = "github.com/danhhz/zeropb"
const vrtPath = repoPath + "/zzverif/vrt"
const vmodelPath = repoPath + "/zzverif/vmodel"

// calleeOf resolves the target of a call. ok=false means the state was
// consumed (forked over several targets, or panicked).
func (e *Engine) calleeOf(st *State, f *Frame, cc *ssa.CallCommon) (fv *FuncV, args []Value, ok bool) {
	for _, a := range cc.Args {
		args = append(args, e.val(st, f, a))
	}
	if !cc.IsInvoke() {
		switch v := e.val(st, f, cc.Value).(type) {
		case *FuncV:
			if v.fn == nil && v.model == "" {
				e.check(st, e.c.True, "nil dereference")
				return nil, nil, false
			}
			return v, args, true
		}
		unsupported("call of %T", e.val(st, f, cc.Value))
	}
	iv, is := e.val(st, f, cc.Value).(*IfaceV)
	if !is {
		unsupported("invoke on %T", e.val(st, f, cc.Value))
	}
	nilg := e.c.False
	var alts []IAlt
	for _, a := range iv.alts {
		if a.typ == nil {
			nilg = e.c.Or(nilg, a.g)
		} else if g := e.c.And(st.pc, a.g); !g.isFalse() {
			alts = append(alts, a)
		}
	}
	e.check(st, nilg, "nil dereference")
	if st.pc.isFalse() || len(alts) == 0 {
		return nil, nil, false
	}
	if len(alts) > 1 {
		// one state per dynamic type; each re-executes the call with a
		// receiver narrowed to that type
		r, isReg := f.info.reg[cc.Value]
		if !isReg {
			unsupported("invoke on a non-register")
		}
		for i, a := range alts {
			var s *State
			if i == len(alts)-1 {
				s = st
			} else {
				s = e.fork(st)
			}
			s.pc = e.c.And(s.pc, a.g)
			s.top().regs[r] = &IfaceV{[]IAlt{{e.c.True, a.typ, a.val}}}
			if s != st {
				if e.feasible(s.pc) {
					e.noMergePush(s)
				}
			}
		}
		if !e.feasible(st.pc) {
			return nil, nil, false
		}
		alts = alts[len(alts)-1:]
	}
	a := alts[0]
	if o, is := a.val.(*OpaqueV); is {
		return &FuncV{model: "opaque." + cc.Method.Name()}, append([]Value{o}, args...), true
	}
	m := e.prog.LookupMethod(a.typ, cc.Method.Pkg(), cc.Method.Name())
	if m == nil {
		unsupported("no method %v on %v", cc.Method, a.typ)
	}
	return &FuncV{fn: m}, append([]Value{a.val}, args...), true
}

// noMergePush queues a state that must not merge right back with its siblings.
func (e *Engine) noMergePush(s *State) {
	e.push(s)
	e.seq++
	s.key = append(append([]int32(nil), s.key...), int32(-e.seq))
}

func (e *Engine) prepCall(st *State, f *Frame, cc *ssa.CallCommon) (deferred, bool) {
	fv, args, ok := e.calleeOf(st, f, cc)
	if !ok {
		return deferred{}, false
	}
	if fv.fn == nil {
		unsupported("deferred %s", fv.model)
	}
	return deferred{fn: fv, args: args}, true
}

func (e *Engine) call(st *State, f *Frame, x *ssa.Call) bool {
	fv, args, ok := e.calleeOf(st, f, &x.Call)
	if !ok {
		return false
	}
	done := func(v Value) bool {
		if st.pc.isFalse() {
			return false
		}
		f.regs[f.info.reg[x]] = v
		f.ip++
		return true
	}
	if fv.fn == nil {
		if strings.HasPrefix(fv.model, "builtin:") {
			return e.builtin(st, f, x, fv.model[8:], args, done)
		}
		if fv.model == "opaque.Error" {
			return done(e.str(args[0].(*OpaqueV).id))
		}
		unsupported("call of %s", fv.model)
	}
	name := fv.fn.String()
	if fv.fn.Origin() != nil {
		name = fv.fn.Origin().String()
	}
	if strings.HasPrefix(name, vrtPath+".") {
		return e.vrt(st, f, x, name[len(vrtPath)+1:], args, done)
	}
	if m, ok := e.models[name]; ok {
		e.enter(st, &FuncV{fn: m}, args)
		return e.entered(st)
	}
	if v, handled := e.intrinsic(st, x, name, args); handled {
		return done(v)
	}
	if fv.fn.Name() == "init" && fv.fn.Pkg != nil && fv.fn.Synthetic != "" && !e.initialised(fv.fn.Pkg.Pkg.Path()) {
		return done(nil)
	}
	if fv.fn.Blocks == nil {
		unsupported("call of %s, which has no Go body", name)
	}
	if fv.fn.Pkg != nil && e.unmodelled(fv.fn.Pkg.Pkg.Path()) {
		unsupported("call of %s (package not modelled)", name)
	}
	if !e.enter(st, fv, args) {
		return false
	}
	return e.entered(st)
}

func (e *Engine) entered(st *State) bool {
	return true
}

// unmodelled lists packages whose bodies must not be entered by accident.
func (e *Engine) unmodelled(p string) bool {
	switch p {
	case "fmt", "os", "reflect", "sync", "log", "io/ioutil", "syscall", "runtime", "time", "internal/poll", "sync/atomic", "internal/fmtsort", "internal/bytealg", "internal/runtime/atomic":
		return true
	}
	return strings.HasPrefix(p, "google.golang.org/") || p == "github.com/golang/protobuf/proto"
}

func (e *Engine) anyErr(id string) Value {
	return &IfaceV{[]IAlt{{e.c.True, e.opaqueErr, &OpaqueV{id}}}}
}

func (e *Engine) intrinsic(st *State, x *ssa.Call, name string, args []Value) (Value, bool) {
	switch name {
	case "math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits":
		return args[0], true
	case "github.com/pkg/errors.Errorf", "github.com/pkg/errors.New", "errors.New", "fmt.Errorf",
		"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack":
		if strings.Contains(name, "errors.Wrap") || strings.Contains(name, "WithStack") {
			// nil in, nil out
			iv := args[0].(*IfaceV)
			nilg := e.c.False
			for _, a := range iv.alts {
				if a.typ == nil {
					nilg = e.c.Or(nilg, a.g)
				}
			}
			st.allocs = e.c.AddC(st.allocs, 1)
			return e.mergeOrDie(nilg, e.nilIface(), e.anyErr(name)), true
		}
		st.allocs = e.c.AddC(st.allocs, 1)
		return e.anyErr(name), true
	case "github.com/golang/protobuf/proto.RegisterType", "github.com/golang/protobuf/proto.RegisterFile",
		"github.com/golang/protobuf/proto.RegisterEnum":
		return nil, true
	case "runtime.KeepAlive", "(*strings.Builder).copyCheck":
		return nil, true
	case "internal/abi.NoEscape":
		return args[0], true
	}
	return nil, false
}

func (e *Engine) concInt(v Value, what string) int64 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		unsupported("%s must be concrete", what)
	}
	return sx(t.val, t.w)
}

func (e *Engine) concName(st *State, v Value) string {
	s, ok := e.concStr(st, v.(*StrV))
	if !ok {
		unsupported("name must be concrete")
	}
	return s
}

func (e *Engine) declare(in Input) Input {
	if i, ok := e.inputIdx[in.Name]; ok {
		if e.inputs[i].Kind != in.Kind {
			unsupported("input %s declared twice with different kinds", in.Name)
		}
		if e.inputs[i].Term != in.Term {
			unsupported("input %s declared twice with different ranges", in.Name)
		}
		return e.inputs[i]
	}
	e.inputIdx[in.Name] = len(e.inputs)
	e.inputs = append(e.inputs, in)
	return in
}

// vrt implements the harness runtime.
func (e *Engine) vrt(st *State, f *Frame, x *ssa.Call, name string, args []Value, done func(Value) bool) bool {
	c := e.c
	switch name {
	case "init":
		return done(nil)
	case "U64", "U32", "U16", "U8", "I64", "I32":
		n := e.concName(st, args[0])
		var w uint8 = 64
		fmt.Sscanf(name[1:], "%d", &w)
		in := e.declare(Input{Name: n, Kind: "int", W: w, Term: c.Var(n, w)})
		return done(in.Term)
	case "Bool":
		n := e.concName(st, args[0])
		in := e.declare(Input{Name: n, Kind: "int", W: 0, Term: c.Var(n, 0)})
		return done(in.Term)
	case "Int":
		n := e.concName(st, args[0])
		lo, hi := e.concInt(args[1], "bound"), e.concInt(args[2], "bound")
		e.sameRange(n, lo, hi)
		var t *Term
		if lo == hi {
			t = e.k64(lo)
		} else if lo >= 0 || hi < 0 {
			t = c.VarRange(n, 64, uint64(lo), uint64(hi))
		} else {
			t = c.Var(n, 64)
		}
		in := e.declare(Input{Name: n, Kind: "int", W: 64, Term: t})
		// the range must be stated explicitly: the term layer has already
		// simplified with it
		if !t.isConst() {
			e.rangeAxiom(n, t, lo, hi)
		}
		return done(in.Term)
	case "N":
		return done(e.str(e.concName(st, args[0]) + "." + strconv.FormatInt(e.concInt(args[1], "index"), 10)))
	case "Choose":
		n := e.concName(st, args[0])
		lo, hi := e.concInt(args[1], "bound"), e.concInt(args[2], "bound")
		if lo >= hi {
			return done(e.k64(lo))
		}
		if lo < 0 {
			unsupported("negative choice")
		}
		e.sameRange(n, lo, hi)
		t := c.VarRange(n, 64, uint64(lo), uint64(hi))
		in := e.declare(Input{Name: n, Kind: "int", W: 64, Term: t})
		e.rangeAxiom(n, t, lo, hi)
		e.enumerated[n] = [2]int64{lo, hi}
		for k := lo; k <= hi; k++ {
			pc := c.And(st.pc, c.Eq(in.Term, e.k64(k)))
			if pc.isFalse() {
				continue
			}
			if e.shards > 1 && st.chosen+1 == e.shardAt {
				e.shardN++
				if e.shardN%e.shards != e.shard {
					continue
				}
			}
			ns := e.fork(st)
			ns.pc = pc
			e.choices++
			ns.choice = e.choices
			ns.chosen = st.chosen + 1
			top := ns.top()
			top.regs[top.info.reg[x]] = e.k64(k)
			top.ip++
			e.push(ns)
		}
		return false
	case "Param":
		n := e.concName(st, args[0])
		v := e.params[n] // 0 by default
		return done(e.k64(int64(v)))
	case "Bytes":
		n := e.concName(st, args[0])
		lo, hi, capMax := e.concInt(args[1], "min length"), e.concInt(args[2], "max length"), e.concInt(args[3], "max capacity")
		in, node := e.bytesInput(n, lo, hi, capMax)
		o := e.newObj(st, &ArrS{node: node, n: in.Cap, w: 8})
		return done(&SliceV{alts: []SAlt{{g: c.True, obj: o, off: e.k64(0)}}, len: in.Term, cap: in.Cap})
	case "U16s":
		n := e.concName(st, args[0])
		ln := e.concInt(args[1], "length")
		node := e.symNode("a."+n, 16)
		e.declare(Input{Name: n, Kind: "u16s", W: 16, Term: e.k64(ln), Cap: e.k64(ln), Arr: "a." + n})
		o := e.newObj(st, &ArrS{node: node, n: e.k64(ln), w: 16})
		return done(&SliceV{alts: []SAlt{{g: c.True, obj: o, off: e.k64(0)}}, len: e.k64(ln), cap: e.k64(ln)})
	case "Str":
		n := e.concName(st, args[0])
		lo, hi := e.concInt(args[1], "min length"), e.concInt(args[2], "max length")
		in, node := e.bytesInput(n, lo, hi, hi)
		return done(&StrV{alts: []SAlt{{g: c.True, node: node, off: e.k64(0)}}, len: in.Term})
	case "Assume":
		t := args[0].(*Term)
		if !e.assume(st, t) {
			return false
		}
		if !e.feasible(st.pc) {
			return false
		}
		return done(nil)
	case "Distinct":
		a, b := args[0].(*Term), args[1].(*Term)
		t := c.Not(c.Eq(a, b))
		if t.isTrue() {
			return done(nil)
		}
		if a.op == OVar && b.op == OVar {
			// inputs: assumed on every path, so that it may be used everywhere
			e.axioms = append(e.axioms, t)
			c.distinct[[2]int{a.id, b.id}] = true
			c.distinct[[2]int{b.id, a.id}] = true
			return done(nil)
		}
		if !e.assume(st, t) {
			return false
		}
		return done(nil)
	case "Assert":
		t := args[0].(*Term)
		e.asserts++
		if !t.isTrue() {
			e.obligation(st, c.Not(t), "assert", e.concName(st, args[1]))
			st.pc = c.And(st.pc, t)
		}
		return done(nil)
	case "Reach":
		l := e.concName(st, args[0])
		if _, ok := e.reach[l]; !ok {
			e.reachOrd = append(e.reachOrd, l)
		}
		e.reach[l] = append(e.reach[l], reachAlt{st.choice, st.pc})
		return done(nil)
	case "Observe":
		l := e.concName(st, args[0])
		e.obs = append(e.obs, Observation{pc: st.pc, label: l, val: args[1].(*Term)})
		return done(nil)
	case "Catch":
		fv := args[0].(*FuncV)
		e.enter(st, fv, nil)
		st.top().catch = true
		st.top().sink = true
		return e.entered(st)
	case "Freeze":
		st.frozen = append(append([]frozenMark(nil), st.frozen...), frozenMark{e.nextObj, e.concName(st, args[0])})
		return done(nil)
	case "Thaw":
		st.frozen = st.frozen[:len(st.frozen)-1]
		return done(nil)
	case "Allocs":
		return done(st.allocs)
	case "Symbolic":
		return done(c.True)
	case "SameBacking":
		// both slices start inside the same array
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		r := c.False
		for _, p := range a.alts {
			for _, q := range b.alts {
				if p.obj != 0 && p.obj == q.obj {
					r = c.Or(r, c.And(p.g, q.g))
				}
			}
		}
		return done(r)
	case "Squeeze", "Has":
		return done(e.text(st, name, args))
	case "StrInside":
		a, b := args[0].(*StrV), args[1].(*SliceV)
		r := c.False
		for _, p := range a.alts {
			for _, q := range b.alts {
				if p.obj != 0 && p.obj == q.obj && samePathShape(p.path, q.path) {
					d := c.Sub(p.off, q.off)
					r = c.Or(r, c.And(p.g, q.g, c.Ule(d, b.len), c.Ule(c.Add(d, a.len), b.len)))
				}
			}
		}
		return done(r)
	}
	unsupported("unknown vrt function %s", name)
	return false
}

// text implements the text functions of the harness runtime for strings of
// concrete length.
func (e *Engine) text(st *State, name string, args []Value) Value {
	c := e.c
	chars := func(v Value) []*Term {
		s := v.(*StrV)
		if !s.len.isConst() || s.len.val > 1<<16 {
			unsupported("text of symbolic length")
		}
		r := make([]*Term, s.len.val)
		for i := range r {
			r[i] = e.byteAt(st, s.alts, e.k64(int64(i)))
		}
		return r
	}
	s := chars(args[0])
	if name == "Has" {
		t := chars(args[1])
		found := c.False
	next:
		for i := 0; i+len(t) <= len(s); i++ {
			all := c.True
			for j := range t {
				if all = c.And(all, c.Eq(s[i+j], t[j])); all.isFalse() {
					continue next
				}
			}
			found = c.Or(found, all)
		}
		return found
	}
	is := func(t *Term, b byte) bool {
		q := c.Eq(t, c.Const(8, uint64(b)))
		if !q.isConst() {
			if !e.feasible(c.And(st.pc, q)) {
				return false
			}
			unsupported("text with a character that may be white space")
		}
		return q.isTrue()
	}
	node := c.ZeroNode(8)
	n := int64(0)
	for i := 0; i < len(s); i++ {
		if is(s[i], '/') && i+1 < len(s) && is(s[i+1], '/') {
			for i < len(s) && !is(s[i], '\n') {
				i++
			}
			continue
		}
		if is(s[i], ' ') || is(s[i], '\n') || is(s[i], '\t') {
			continue
		}
		node = c.StoreNode(node, e.k64(n), s[i])
		n++
	}
	return &StrV{alts: []SAlt{{g: c.True, node: node, off: e.k64(0)}}, len: e.k64(n)}
}

// sameRange rejects an input that is declared again with another range: the
// range is part of the input's term.
func (e *Engine) sameRange(n string, lo, hi int64) {
	if r, ok := e.ranges[n]; ok && r != [2]int64{lo, hi} {
		unsupported("input %s declared twice with different ranges", n)
	}
	e.ranges[n] = [2]int64{lo, hi}
}

func (e *Engine) symNode(name string, w uint8) *Node {
	if n, ok := e.symNodes[name]; ok {
		return n
	}
	n := e.c.SymNode(name, w)
	e.symNodes[name] = n
	return n
}

func (e *Engine) rangeAxiom(n string, t *Term, lo, hi int64) {
	if e.ranged[n] {
		return
	}
	e.ranged[n] = true
	// written without the simplifier, which already knows the range
	c := e.c
	if lo > 0 || lo < 0 {
		l := c.mk(OSlt, 0, 0, "", []*Term{t, e.k64(lo)}, nil)
		e.axioms = append(e.axioms, c.Not(l))
	}
	h := c.mk(OSlt, 0, 0, "", []*Term{e.k64(hi), t}, nil)
	e.axioms = append(e.axioms, c.Not(h))
	if lo == 0 {
		l := c.mk(OSlt, 0, 0, "", []*Term{t, e.k64(0)}, nil)
		e.axioms = append(e.axioms, c.Not(l))
	}
}

func (e *Engine) bytesInput(n string, lo, hi, capMax int64) (Input, *Node) {
	c := e.c
	e.sameRange(n, lo, hi)
	e.sameRange(n+".cap", lo, capMax)
	if i, ok := e.inputIdx[n]; ok {
		return e.inputs[i], e.symNode("a."+n, 8)
	}
	ln := e.k64(hi)
	if lo < hi {
		ln = c.VarRange(n+".len", 64, uint64(lo), uint64(hi))
		e.rangeAxiom(n+".len", ln, lo, hi)
	}
	cp := ln
	if capMax > hi {
		cp = c.VarRange(n+".cap", 64, uint64(lo), uint64(capMax))
		e.rangeAxiom(n+".cap", cp, lo, capMax)
		e.axioms = append(e.axioms, c.Not(c.mk(OUlt, 0, 0, "", []*Term{cp, ln}, nil)))
	} else if capMax < 0 {
		// exact capacity
	}
	in := e.declare(Input{Name: n, Kind: "bytes", W: 8, Term: ln, Cap: cp, Arr: "a." + n})
	return in, e.symNode("a."+n, 8)
}

// ---- builtins ----

func (e *Engine) builtin(st *State, f *Frame, x *ssa.Call, name string, args []Value, done func(Value) bool) bool {
	c := e.c
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return done(v.len)
		case *StrV:
			return done(v.len)
		case *MapV:
			n := e.k64(0)
			for _, a := range v.alts {
				if a.obj == 0 {
					continue
				}
				n = c.Ite(a.g, e.mapLen(e.getPath(e.objVal(st, a.obj), a.path).(*MapC)), n)
			}
			return done(n)
		case *ArrS:
			return done(v.n)
		case *ArrG:
			return done(e.k64(int64(len(v.e))))
		}
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			return done(v.cap)
		case *ArrS:
			return done(v.n)
		}
	case "copy":
		dst := args[0].(*SliceV)
		var salts []SAlt
		var sl *Term
		switch s := args[1].(type) {
		case *SliceV:
			salts, sl = s.alts, s.len
		case *StrV:
			salts, sl = s.alts, s.len
		}
		n := c.Ite(c.Ult(dst.len, sl), dst.len, sl)
		if e.isGeneric(st, dst.alts) {
			if !n.isConst() {
				unsupported("generic copy of symbolic length")
			}
			var vals []Value
			for i := uint64(0); i < n.val; i++ {
				vals = append(vals, e.genElem(st, salts, e.k64(int64(i))))
			}
			for i := range vals {
				e.store(st, e.elemAt(dst.alts, e.k64(int64(i))), vals[i])
			}
			return done(n)
		}
		e.writeRange(st, dst.alts, e.k64(0), salts, n)
		return done(n)
	case "append":
		return e.appendB(st, x, args, done)
	case "delete":
		m := args[0].(*MapV)
		mt := x.Call.Args[0].Type().Underlying().(*types.Map)
		e.mapWrite(st, m, args[1], c.False, e.zero(mt.Elem()))
		return done(nil)
	case "print", "println":
		return done(nil)
	case "recover":
		// valid only in a deferred function while its caller unwinds
		if st.top().isDefer && len(st.frames) > 1 {
			cf := st.frames[len(st.frames)-2]
			if cf.unwinding && !cf.recovered {
				nc := *cf
				nc.recovered = true
				st.frames = append([]*Frame(nil), st.frames...)
				st.frames[len(st.frames)-2] = &nc
				v := st.panicV
				st.panicV = nil
				if iv, ok := v.(*IfaceV); ok {
					return done(iv)
				}
				return done(v)
			}
		}
		return done(e.nilIface())
	case "min", "max":
		t := args[0].(*Term)
		if isFloat(x.Type()) {
			unsupported("floating point %s", name)
		}
		for _, a := range args[1:] {
			u := a.(*Term)
			var lt *Term
			if isSigned(x.Type()) {
				lt = c.Slt(t, u)
			} else {
				lt = c.Ult(t, u)
			}
			if name == "min" {
				t = c.Ite(lt, t, u)
			} else {
				t = c.Ite(lt, u, t)
			}
		}
		return done(t)
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			for _, a := range v.alts {
				if a.obj == 0 {
					continue
				}
				mc := e.objVal(st, a.obj).(*MapC)
				e.noteWrite(st, a.obj, a.g)
				st.heap[a.obj] = e.mergeOrDie(a.g, &MapC{zero: mc.zero}, mc)
			}
			return done(nil)
		case *SliceV:
			if !e.isGeneric(st, v.alts) {
				w := uint8(8)
				for _, a := range v.alts {
					if a.obj != 0 {
						w = e.arrAt(st, a).(*ArrS).w
					}
				}
				z := SAlt{g: c.True, node: c.ZeroNode(w), off: e.k64(0)}
				e.writeRange(st, v.alts, e.k64(0), []SAlt{z}, v.len)
				return done(nil)
			}
		}
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		e.check(st, e.ptrNil(p), "nil dereference")
		return done(p)
	case "String": // unsafe.String(ptr, len)
		p := e.asPtr(args[0])
		ln := e.index64(args[1].(*Term), x.Call.Args[1].Type())
		return done(&StrV{alts: e.ptrToSAlts(p), len: ln})
	case "Slice":
		p := e.asPtr(args[0])
		ln := e.index64(args[1].(*Term), x.Call.Args[1].Type())
		return done(&SliceV{alts: e.ptrToSAlts(p), len: ln, cap: ln})
	case "StringData":
		return done(e.elemPtr(st, args[0].(*StrV).alts))
	case "SliceData":
		return done(e.elemPtr(st, args[0].(*SliceV).alts))
	}
	unsupported("builtin %s on %T", name, args[0])
	return false
}

func (e *Engine) isGeneric(st *State, alts []SAlt) bool {
	for _, a := range alts {
		if a.obj == 0 {
			continue
		}
		if _, ok := e.arrAt(st, a).(*ArrG); ok {
			return true
		}
	}
	return false
}

func (e *Engine) genElem(st *State, alts []SAlt, i *Term) Value {
	var r Value
	for k := len(alts) - 1; k >= 0; k-- {
		a := alts[k]
		if a.obj == 0 && a.node == nil {
			continue
		}
		var v Value
		switch arr := e.arrAt(st, a).(type) {
		case *ArrG:
			v = e.indexArrG(arr, e.c.Add(a.off, i))
		case *ArrS:
			v = e.c.Read(arr.node, e.c.Add(a.off, i))
		}
		if r == nil {
			r = v
		} else {
			r = e.mergeOrDie(a.g, v, r)
		}
	}
	return r
}

func (e *Engine) elemAt(alts []SAlt, i *Term) *PtrV {
	p := &PtrV{}
	for _, a := range alts {
		if a.obj == 0 {
			continue
		}
		np := append(append([]PathElem(nil), a.path...), PathElem{idx: e.c.Add(a.off, i)})
		p.alts = append(p.alts, PtrAlt{a.g, a.obj, np})
	}
	return p
}

func (e *Engine) appendB(st *State, x *ssa.Call, args []Value, done func(Value) bool) bool {
	c := e.c
	split := st.fits
	st.fits = 0
	s := args[0].(*SliceV)
	var talts []SAlt
	var n *Term
	switch t := args[1].(type) {
	case *SliceV:
		talts, n = t.alts, t.len
	case *StrV:
		talts, n = t.alts, t.len
	default:
		unsupported("append of %T", t)
	}
	if n.isConst() && n.val == 0 {
		return done(s)
	}
	et := x.Type().Underlying().(*types.Slice).Elem()
	nl := c.Add(s.len, n)
	if w, ok := arrW(et); ok {
		fits := c.Ule(nl, s.cap)
		switch {
		case split != 0:
			fits = c.Bool(split > 0)
		case !fits.isConst():
			if !e.feasible(c.And(st.pc, fits)) {
				fits = c.False
			} else if !e.feasible(c.And(st.pc, c.Not(fits))) {
				fits = c.True
			}
		}
		var newObj ObjID
		var ncap *Term
		if !fits.isTrue() {
			// content: the old elements followed by the new ones
			var nn *Node
			for k := len(s.alts) - 1; k >= 0; k-- {
				a := s.alts[k]
				cn := c.ZeroNode(w)
				if a.obj != 0 {
					arr := e.arrAt(st, a).(*ArrS)
					if a.off.isConst() && a.off.val == 0 {
						// old contents beyond len are overwritten or unspecified:
						// zero in the real runtime
						cn = c.CopyNode(cn, e.k64(0), arr.node, a.off, s.len)
					} else {
						cn = c.CopyNode(cn, e.k64(0), arr.node, a.off, s.len)
					}
				}
				if nn == nil {
					nn = cn
				} else {
					nn = c.IteNode(a.g, cn, nn)
				}
			}
			// the runtime may grow the array by any amount
			slack := uint64(e.params["growslack"])
			grow := c.Const(64, uint64(e.params["growconst"]))
			if grow.val == 0 {
				grow = c.Fresh("grow", 64)
				grow.lo, grow.hi = slack, 1<<33
				grow.dflt = c.Const(64, slack)
				e.axioms = append(e.axioms, c.Not(c.mk(OUlt, 0, 0, "", []*Term{c.Const(64, grow.hi), grow}, nil)))
				if slack > 0 {
					e.axioms = append(e.axioms, c.Not(c.mk(OUlt, 0, 0, "", []*Term{grow, c.Const(64, slack)}, nil)))
				}
			}
			ncap = c.Add(nl, grow)
			newObj = e.newObj(st, &ArrS{node: nn, n: ncap, w: w})
			e.writeRange(st, []SAlt{{g: c.True, obj: newObj, off: e.k64(0)}}, s.len, talts, n)
			st.allocs = c.Ite(fits, st.allocs, c.AddC(st.allocs, 1))
		}
		r := &SliceV{len: nl, cap: s.cap}
		if !fits.isFalse() {
			// in place
			var dst []SAlt
			for _, a := range s.alts {
				if g := c.And(fits, a.g); !g.isFalse() {
					a.g = g
					dst = append(dst, a)
				}
			}
			if fits.isTrue() {
				e.writeRange(st, dst, s.len, talts, n)
			} else {
				e.writeRangeG(st, dst, s.len, talts, n)
			}
			r.alts = append(r.alts, dst...)
		}
		if newObj != 0 {
			r.alts = append(r.alts, SAlt{g: c.Not(fits), obj: newObj, off: e.k64(0)})
			r.cap = c.Ite(fits, s.cap, ncap)
		}
		if len(r.alts) > 12 {
			unsupported("too many aliases")
		}
		return done(r)
	}
	// generic elements need concrete geometry
	if !s.len.isConst() || !n.isConst() || !s.cap.isConst() {
		unsupported("append to a slice of %v with symbolic length", et)
	}
	ol, k := int(s.len.val), int(n.val)
	var vals []Value
	for i := 0; i < k; i++ {
		vals = append(vals, e.genElem(st, talts, e.k64(int64(i))))
	}
	if ol+k <= int(s.cap.val) {
		for i, v := range vals {
			e.store(st, e.elemAt(s.alts, e.k64(int64(ol+i))), v)
		}
		return done(&SliceV{alts: s.alts, len: nl, cap: s.cap})
	}
	na := &ArrG{}
	for i := 0; i < ol; i++ {
		na.e = append(na.e, e.genElem(st, s.alts, e.k64(int64(i))))
	}
	na.e = append(na.e, vals...)
	o := e.newObj(st, na)
	st.allocs = c.AddC(st.allocs, 1)
	return done(&SliceV{alts: []SAlt{{g: c.True, obj: o, off: e.k64(0)}}, len: nl, cap: nl})
}

// writeRangeG is writeRange that keeps every guard, even a single one.
func (e *Engine) writeRangeG(st *State, dst []SAlt, dOff *Term, src []SAlt, n *Term) {
	for _, d := range dst {
		if d.obj == 0 {
			continue
		}
		root := e.objVal(st, d.obj)
		old := e.getPath(root, d.path).(*ArrS)
		e.noteWrite(st, d.obj, e.c.And(d.g, e.c.Not(e.c.Eq(n, e.k64(0)))))
		fz := st.frozen
		st.frozen = nil
		e.writeRange(st, []SAlt{{g: e.c.True, obj: d.obj, path: d.path, off: d.off}}, dOff, src, n)
		st.frozen = fz
		nw := e.getPath(e.objVal(st, d.obj), d.path).(*ArrS)
		st.heap[d.obj] = e.replaceArr(e.objVal(st, d.obj), d.path, &ArrS{node: e.c.IteNode(d.g, nw.node, old.node), n: old.n, w: old.w})
	}
}

var _ = strings.Join
