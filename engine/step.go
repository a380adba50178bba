package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) floatConst(x *ssa.Const, w uint8) Value {
	f, _ := constant.Float64Val(constant.ToFloat(x.Value))
	if w == 32 {
		return e.c.Const(32, uint64(math.Float32bits(float32(f))))
	}
	return e.c.Const(64, math.Float64bits(f))
}

// step executes one instruction; false means the state was consumed.
func (e *Engine) step(st *State, f *Frame, in ssa.Instruction) bool {
	c := e.c
	set := func(v Value) bool {
		f.regs[f.info.reg[in.(ssa.Value)]] = v
		f.ip++
		return true
	}
	get := func(v ssa.Value) Value { return e.val(st, f, v) }
	term := func(v ssa.Value) *Term {
		x := get(v)
		if u, ok := x.(*UPtrV); ok {
			return e.addrOf(u)
		}
		t, ok := x.(*Term)
		if !ok {
			unsupported("expected a scalar, got %T", x)
		}
		return t
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.ip++
		return true
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := e.newObj(st, e.zero(t))
		return set(&PtrV{[]PtrAlt{{g: c.True, obj: o}}})
	case *ssa.BinOp:
		v := e.binop(st, x.Op, get(x.X), get(x.Y), x.X.Type(), x.Y.Type())
		return set(v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := e.asPtr(get(x.X))
			e.check(st, e.ptrNil(p), "nil dereference")
			if st.pc.isFalse() {
				return false
			}
			return set(e.load(st, p, x.Type()))
		case token.NOT:
			return set(c.Not(term(x.X)))
		case token.SUB:
			if isFloat(x.X.Type()) {
				t := term(x.X)
				return set(c.BXor(t, c.Const(t.w, uint64(1)<<(t.w-1))))
			}
			t := term(x.X)
			return set(c.Sub(c.Const(t.w, 0), t))
		case token.XOR:
			t := term(x.X)
			return set(c.BXor(t, c.Const(t.w, mask(t.w))))
		}
		unsupported("unary %v", x.Op)
	case *ssa.ChangeType:
		return set(get(x.X))
	case *ssa.ChangeInterface:
		return set(get(x.X))
	case *ssa.MakeInterface:
		v := get(x.X)
		return set(&IfaceV{[]IAlt{{c.True, x.X.Type(), v}}})
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.binds = append(fv.binds, get(b))
		}
		return set(fv)
	case *ssa.Convert:
		return set(e.convert(st, get(x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		return set(get(x.Tuple).(*TupleV).e[x.Index])
	case *ssa.Field:
		return set(get(x.X).(*StructV).f[x.Field])
	case *ssa.FieldAddr:
		p := e.asPtr(get(x.X))
		e.check(st, e.ptrNil(p), "nil dereference")
		if st.pc.isFalse() {
			return false
		}
		return set(e.extend(p, PathElem{fld: x.Field}))
	case *ssa.Index:
		i := e.index64(term(x.Index), x.Index.Type())
		switch a := get(x.X).(type) {
		case *ArrS:
			e.check(st, c.Not(c.Ult(i, a.n)), "index out of range")
			if st.pc.isFalse() {
				return false
			}
			return set(c.Read(a.node, i))
		case *ArrG:
			e.check(st, c.Not(c.Ult(i, e.k64(int64(len(a.e))))), "index out of range")
			if st.pc.isFalse() {
				return false
			}
			return set(e.indexArrG(a, i))
		case *StrV:
			e.check(st, c.Not(c.Ult(i, a.len)), "index out of range")
			if st.pc.isFalse() {
				return false
			}
			return set(e.byteAt(st, a.alts, i))
		}
		unsupported("index of %T", get(x.X))
	case *ssa.IndexAddr:
		i := e.index64(term(x.Index), x.Index.Type())
		switch a := get(x.X).(type) {
		case *SliceV:
			e.check(st, c.Not(c.Ult(i, a.len)), "index out of range")
			if st.pc.isFalse() {
				return false
			}
			p := &PtrV{}
			for _, al := range a.alts {
				if al.obj == 0 {
					continue
				}
				np := append(append([]PathElem(nil), al.path...), PathElem{idx: c.Add(al.off, i)})
				p.alts = append(p.alts, PtrAlt{al.g, al.obj, np})
			}
			if len(p.alts) == 0 {
				st.pc = c.False
				return false
			}
			return set(p)
		case *PtrV:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.check(st, e.ptrNil(a), "nil dereference")
			e.check(st, c.Not(c.Ult(i, e.k64(at.Len()))), "index out of range")
			if st.pc.isFalse() {
				return false
			}
			return set(e.extend(a, PathElem{idx: i}))
		}
		unsupported("indexaddr of %T", get(x.X))
	case *ssa.Lookup:
		switch m := get(x.X).(type) {
		case *StrV:
			i := e.index64(term(x.Index), x.Index.Type())
			e.check(st, c.Not(c.Ult(i, m.len)), "index out of range")
			if st.pc.isFalse() {
				return false
			}
			return set(e.byteAt(st, m.alts, i))
		case *MapV:
			k := get(x.Index)
			vt := x.X.Type().Underlying().(*types.Map).Elem()
			present, val := c.False, e.zero(vt)
			for _, a := range m.alts {
				if a.obj == 0 {
					continue
				}
				mc := e.getPath(e.objVal(st, a.obj), a.path).(*MapC)
				p, v := e.mapGet(mc, k)
				present = c.Ite(a.g, p, present)
				val = e.mergeOrDie(a.g, v, val)
			}
			if x.CommaOk {
				return set(&TupleV{[]Value{val, present}})
			}
			return set(val)
		}
		unsupported("lookup in %T", get(x.X))
	case *ssa.MapUpdate:
		m := get(x.Map).(*MapV)
		e.check(st, e.mapNil(m), "assignment to entry in nil map")
		if st.pc.isFalse() {
			return false
		}
		k, v := get(x.Key), get(x.Value)
		e.mapWrite(st, m, k, c.True, v)
		f.ip++
		return true
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		if x.Reserve != nil {
			// a negative hint panics only for make(map, n<0)
			_ = x.Reserve
		}
		o := e.newObj(st, &MapC{zero: e.zero(mt.Elem())})
		st.allocs = c.AddC(st.allocs, 1)
		return set(&MapV{[]PtrAlt{{g: c.True, obj: o}}})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := e.index64(term(x.Len), x.Len.Type())
		cp := e.index64(term(x.Cap), x.Cap.Type())
		e.check(st, c.Or(c.Slt(n, e.k64(0)), c.Slt(cp, n), c.Ult(e.k64(1<<47), cp)), "makeslice: len out of range")
		if st.pc.isFalse() {
			return false
		}
		if _, ok := arrW(et); !ok && !cp.isConst() {
			return e.splitInt(st, f, x.Cap)
		}
		o := e.newObj(st, e.zeroArr(et, cp))
		st.allocs = c.AddC(st.allocs, 1)
		return set(&SliceV{alts: []SAlt{{g: c.True, obj: o, off: e.k64(0)}}, len: n, cap: cp})
	case *ssa.Slice:
		return e.slice(st, f, x)
	case *ssa.Store:
		p := e.asPtr(get(x.Addr))
		e.check(st, e.ptrNil(p), "nil dereference")
		if st.pc.isFalse() {
			return false
		}
		e.store(st, p, get(x.Val))
		f.ip++
		return true
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, x)
	case *ssa.Range:
		switch m := get(x.X).(type) {
		case *MapV:
			it := &IterV{m: m}
			for _, a := range m.alts {
				if a.obj == 0 {
					continue
				}
				mc := e.getPath(e.objVal(st, a.obj), a.path).(*MapC)
			next:
				for _, en := range mc.ents {
					for _, k := range it.cands {
						if e.sameValue(k, en.key) {
							continue next
						}
					}
					// an entry that was deleted for sure cannot be visited
					p, _ := e.mapGet(mc, en.key)
					if q := c.And(st.pc, a.g, p); q.isFalse() || !e.feasibleQ(q) {
						continue
					}
					it.cands = append(it.cands, en.key)
				}
			}
			for range it.cands {
				it.visited = append(it.visited, c.False)
				it.ranks = append(it.ranks, c.Fresh("maporder", 4))
				e.mapOrder = e.mapOrder || len(it.cands) > 1
			}
			return set(it)
		case *StrV:
			return set(&IterV{str: m, pos: e.k64(0)})
		}
		unsupported("range over %T", get(x.X))
	case *ssa.Next:
		return e.next(st, f, x)
	case *ssa.If:
		if e.trace {
			if t := term(x.Cond); !t.isConst() {
				fmt.Fprintf(os.Stderr, "undecided %s at %s: %s\n", f.info.fn, e.posOf(st), e.c.Show(t, 6))
			}
		}
		return e.branch(st, x.Cond, term(x.Cond))
	case *ssa.Jump:
		return e.jump(st, 0, false)
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
		case 1:
			r = get(x.Results[0])
		default:
			t := &TupleV{}
			for _, v := range x.Results {
				t.e = append(t.e, get(v))
			}
			r = t
		}
		e.popTo(st, r)
		return false
	case *ssa.Panic:
		v := get(x.X)
		if e.inCatch(st) {
			e.doPanic(st, v)
			return false
		}
		if e.initMode {
			unsupported("panic during initialisation")
		}
		e.obligation(st, c.True, "panic", "explicit panic")
		return false
	case *ssa.Defer:
		d, ok := e.prepCall(st, f, &x.Call)
		if !ok {
			return false
		}
		f.defers = append(f.defers, d)
		f.ip++
		return true
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return e.pushDeferred(st, d)
		}
		f.ip++
		return true
	case *ssa.Call:
		return e.call(st, f, x)
	case *ssa.SliceToArrayPointer:
		s := get(x.X).(*SliceV)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		e.check(st, c.Ult(s.len, e.k64(at.Len())), "slice to array pointer conversion")
		if st.pc.isFalse() {
			return false
		}
		p := &PtrV{}
		for _, a := range s.alts {
			if a.obj == 0 {
				p.alts = append(p.alts, PtrAlt{g: a.g})
				continue
			}
			if !a.off.isConst() || a.off.val != 0 {
				unsupported("slice to array pointer with an offset")
			}
			p.alts = append(p.alts, PtrAlt{a.g, a.obj, a.path})
		}
		return set(p)
	}
	unsupported("instruction %T", in)
	return false
}

func (e *Engine) asPtr(v Value) *PtrV {
	switch p := v.(type) {
	case *PtrV:
		return p
	case *UPtrV:
		if p.off == nil {
			return p.p
		}
	}
	unsupported("pointer operation on %T", v)
	return nil
}

func (e *Engine) extend(p *PtrV, pe PathElem) *PtrV {
	r := &PtrV{}
	for _, a := range p.alts {
		if a.obj == 0 {
			continue
		}
		np := append(append([]PathElem(nil), a.path...), pe)
		r.alts = append(r.alts, PtrAlt{a.g, a.obj, np})
	}
	return r
}

func (e *Engine) index64(t *Term, ty types.Type) *Term {
	if isSigned(ty) {
		return e.c.Sext(t, 64)
	}
	return e.c.Zext(t, 64)
}

func (e *Engine) mapWrite(st *State, m *MapV, k Value, present *Term, v Value) {
	live := 0
	for _, a := range m.alts {
		if a.obj != 0 {
			live++
		}
	}
	for _, a := range m.alts {
		if a.obj == 0 {
			continue
		}
		g := a.g
		if live == 1 && present.isTrue() {
			g = e.c.True
		}
		root := e.objVal(st, a.obj)
		mc := root.(*MapC)
		e.noteWrite(st, a.obj, g)
		st.heap[a.obj] = e.mapPutIf(g, mc, k, present, v)
	}
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) bool {
	c := e.c
	it := f.regs[f.info.reg[x.Iter]].(*IterV)
	if it.str != nil {
		p := it.pos
		more := c.Ult(p, it.str.len)
		b := e.byteAt(st, it.str.alts, p)
		if !more.isFalse() {
			ascii := c.Ult(b, c.Const(8, 0x80))
			if !ascii.isTrue() {
				if b.isConst() {
					// concrete non-ASCII: decode natively when fully concrete
					unsupported("range over a string with non-ASCII bytes")
				}
				e.assumed["symbolic string bytes iterated as runes are ASCII"] = true
				st.pc = c.And(st.pc, c.Or(c.Not(more), ascii))
			}
		}
		f.regs[f.info.reg[x.Iter]] = &IterV{str: it.str, pos: c.AddC(p, 1)}
		f.regs[f.info.reg[x]] = &TupleV{[]Value{more, p, c.Zext(b, 32)}}
		f.ip++
		return true
	}
	// map: pick the first available candidate in rank order
	n := len(it.cands)
	kt := x.Type().(*types.Tuple).At(1).Type()
	vt := x.Type().(*types.Tuple).At(2).Type()
	avail := make([]*Term, n)
	vals := make([]Value, n)
	for i, k := range it.cands {
		present := c.False
		var val Value
		for _, a := range it.m.alts {
			if a.obj == 0 {
				continue
			}
			mc := e.getPath(e.objVal(st, a.obj), a.path).(*MapC)
			p, v := e.mapGet(mc, k)
			present = c.Ite(a.g, p, present)
			if val == nil {
				val = v
			} else {
				val = e.mergeOrDie(a.g, v, val)
			}
		}
		vals[i] = val
		// a candidate equal to an earlier one is the same key
		dup := c.False
		for j := 0; j < i; j++ {
			dup = c.Or(dup, e.valEq(st, it.cands[j], k))
		}
		avail[i] = c.And(present, c.Not(it.visited[i]), c.Not(dup))
	}
	nit := &IterV{m: it.m, cands: it.cands, ranks: it.ranks}
	ok := c.False
	var key, val Value
	sels := make([]*Term, n)
	for i := range it.cands {
		s := avail[i]
		for j := range it.cands {
			if j == i || avail[j].isFalse() {
				continue
			}
			before := c.Ult(it.ranks[j], it.ranks[i])
			if j < i {
				before = c.Not(c.Ult(it.ranks[i], it.ranks[j]))
			}
			s = c.And(s, c.Not(c.And(avail[j], before)))
		}
		sels[i] = s
		ok = c.Or(ok, avail[i])
		nit.visited = append(nit.visited, c.Or(it.visited[i], s))
	}
	for i := n - 1; i >= 0; i-- {
		if sels[i].isFalse() {
			continue
		}
		if key == nil {
			key, val = it.cands[i], vals[i]
			continue
		}
		key = e.mergeOrDie(sels[i], it.cands[i], key)
		val = e.mergeOrDie(sels[i], vals[i], val)
	}
	if key == nil {
		key, val = e.zeroOrNil(kt), e.zeroOrNil(vt)
	}
	f.regs[f.info.reg[x.Iter]] = nit
	f.regs[f.info.reg[x]] = &TupleV{[]Value{ok, key, val}}
	f.ip++
	return true
}

func (e *Engine) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return e.c.False
	}
	return e.zero(t)
}

func (e *Engine) slice(st *State, f *Frame, x *ssa.Slice) bool {
	c := e.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.index64(e.val(st, f, v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = e.k64(0)
	}
	res := func(v Value) bool {
		f.regs[f.info.reg[x]] = v
		f.ip++
		return true
	}
	switch s := e.val(st, f, x.X).(type) {
	case *StrV:
		if hi == nil {
			hi = s.len
		}
		e.check(st, c.Or(c.Ult(s.len, hi), c.Ult(hi, lo)), "slice bounds out of range")
		if st.pc.isFalse() {
			return false
		}
		r := &StrV{len: e.difference(hi, lo)}
		for _, a := range s.alts {
			a.off = c.Add(a.off, lo)
			r.alts = append(r.alts, a)
		}
		return res(r)
	case *SliceV:
		if hi == nil {
			hi = s.len
		}
		if mx == nil {
			mx = s.cap
		} else {
			e.check(st, c.Ult(s.cap, mx), "slice bounds out of range")
		}
		e.check(st, c.Or(c.Ult(mx, hi), c.Ult(hi, lo)), "slice bounds out of range")
		if st.pc.isFalse() {
			return false
		}
		r := &SliceV{len: e.difference(hi, lo), cap: e.difference(mx, lo)}
		for _, a := range s.alts {
			if a.obj != 0 {
				a.off = c.Add(a.off, lo)
			}
			r.alts = append(r.alts, a)
		}
		return res(r)
	case *PtrV:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		e.check(st, e.ptrNil(s), "nil dereference")
		n := e.k64(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		} else {
			e.check(st, c.Ult(n, mx), "slice bounds out of range")
		}
		e.check(st, c.Or(c.Ult(mx, hi), c.Ult(hi, lo)), "slice bounds out of range")
		if st.pc.isFalse() {
			return false
		}
		r := &SliceV{len: e.difference(hi, lo), cap: e.difference(mx, lo)}
		for _, a := range s.alts {
			if a.obj == 0 {
				continue
			}
			r.alts = append(r.alts, SAlt{g: a.g, obj: a.obj, path: a.path, off: lo})
		}
		return res(r)
	}
	unsupported("slice of %T", e.val(st, f, x.X))
	return false
}

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) bool {
	c := e.c
	v := e.val(st, f, x.X).(*IfaceV)
	ok := c.False
	var res Value
	it, isIface := x.AssertedType.Underlying().(*types.Interface)
	if isIface {
		r := &IfaceV{}
		for _, a := range v.alts {
			if a.typ == nil {
				continue
			}
			if types.Implements(a.typ, it) {
				ok = c.Or(ok, a.g)
				r.alts = append(r.alts, a)
			}
		}
		r.alts = append(r.alts, IAlt{g: c.Not(ok)})
		res = r
	} else {
		for _, a := range v.alts {
			if a.typ != nil && types.Identical(a.typ, x.AssertedType) {
				ok = c.Or(ok, a.g)
				if res == nil {
					res = a.val
				} else {
					res = e.mergeOrDie(a.g, a.val, res)
				}
			}
		}
		if x.CommaOk {
			z := e.zero(x.AssertedType)
			if res == nil {
				res = z
			} else {
				res = e.mergeOrDie(ok, res, z)
			}
		}
	}
	if x.CommaOk {
		f.regs[f.info.reg[x]] = &TupleV{[]Value{res, ok}}
		f.ip++
		return true
	}
	e.check(st, c.Not(ok), "interface conversion")
	if st.pc.isFalse() {
		return false
	}
	if r, is := res.(*IfaceV); is && isIface {
		// drop the nil alternative
		res = &IfaceV{r.alts[:len(r.alts)-1]}
	}
	if res == nil {
		st.pc = c.False
		return false
	}
	f.regs[f.info.reg[x]] = res
	f.ip++
	return true
}

func (e *Engine) fisNaN(t *Term) *Term {
	c := e.c
	var expMask uint64 = 0x7f800000
	var abs uint64 = 0x7fffffff
	if t.w == 64 {
		expMask = 0x7ff0000000000000
		abs = 0x7fffffffffffffff
	}
	return c.Ult(c.Const(t.w, expMask), c.BAnd(t, c.Const(t.w, abs)))
}

func (e *Engine) fcmp(op token.Token, a, b *Term) *Term {
	c := e.c
	w := a.w
	absM := c.Const(w, mask(w)>>1)
	nan := c.Or(e.fisNaN(a), e.fisNaN(b))
	bothZero := c.And(c.Eq(c.BAnd(a, absM), c.Const(w, 0)), c.Eq(c.BAnd(b, absM), c.Const(w, 0)))
	eq := c.And(c.Not(nan), c.Or(c.Eq(a, b), bothZero))
	// order-preserving map for non-NaN values: negative -> ~x, else x|sign
	lt := func(a, b *Term) *Term {
		sa, sb := c.Slt(a, c.Const(w, 0)), c.Slt(b, c.Const(w, 0))
		mag := c.Ite(sa, c.Ite(sb, c.Ult(b, a), c.True), c.Ite(sb, c.False, c.Ult(a, b)))
		return c.And(c.Not(nan), c.Not(bothZero), mag)
	}
	switch op {
	case token.EQL:
		return eq
	case token.NEQ:
		return c.Not(eq)
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return c.Or(lt(a, b), eq)
	case token.GEQ:
		return c.Or(lt(b, a), eq)
	}
	unsupported("floating point %v", op)
	return nil
}

func (e *Engine) binop(st *State, op token.Token, xv, yv Value, xt, yt types.Type) Value {
	c := e.c
	switch op {
	case token.EQL:
		if isFloat(xt) {
			return e.fcmp(op, xv.(*Term), yv.(*Term))
		}
		return e.valEq(st, xv, yv)
	case token.NEQ:
		if isFloat(xt) {
			return e.fcmp(op, xv.(*Term), yv.(*Term))
		}
		return c.Not(e.valEq(st, xv, yv))
	}
	if s, ok := xv.(*StrV); ok {
		t := yv.(*StrV)
		switch op {
		case token.ADD:
			return e.concat(st, s, t)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			p, ok1 := e.concStr(st, s)
			q, ok2 := e.concStr(st, t)
			if !ok1 || !ok2 {
				unsupported("ordering of symbolic strings")
			}
			switch op {
			case token.LSS:
				return c.Bool(p < q)
			case token.GTR:
				return c.Bool(p > q)
			case token.LEQ:
				return c.Bool(p <= q)
			}
			return c.Bool(p >= q)
		}
	}
	// pointer-derived integers
	if u, ok := xv.(*UPtrV); ok {
		if t, ok := yv.(*Term); ok && (op == token.ADD || op == token.SUB) {
			off := t
			if op == token.SUB {
				off = c.Sub(e.k64(0), t)
			}
			if u.off != nil {
				off = c.Add(u.off, off)
			}
			return e.uptrAdd(u, off)
		}
		xv = e.addrOf(u)
	}
	if u, ok := yv.(*UPtrV); ok {
		yv = e.addrOf(u)
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		unsupported("%v on %T and %T", op, xv, yv)
	}
	if isFloat(xt) {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return e.fcmp(op, x, y)
		case token.ADD:
			return c.fpOp(fpAdd, x, y)
		case token.SUB:
			return c.fpOp(fpSub, x, y)
		case token.MUL:
			return c.fpOp(fpMul, x, y)
		case token.QUO:
			return c.fpOp(fpDiv, x, y)
		}
		unsupported("floating point %v", op)
	}
	signed := isSigned(xt)
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		e.check(st, c.Eq(y, c.Const(y.w, 0)), "integer divide by zero")
		if st.pc.isFalse() {
			return c.Const(x.w, 0)
		}
		o := OUdiv
		switch {
		case op == token.QUO && signed:
			o = OSdiv
		case op == token.REM && signed:
			o = OSrem
		case op == token.REM:
			o = OUrem
		}
		return c.Div(o, x, y)
	case token.AND:
		if x.w == 0 {
			return c.And(x, y)
		}
		return c.BAnd(x, y)
	case token.OR:
		if x.w == 0 {
			return c.Or(x, y)
		}
		return c.BOr(x, y)
	case token.XOR:
		return c.BXor(x, y)
	case token.AND_NOT:
		return c.BAnd(x, c.BXor(y, c.Const(y.w, mask(y.w))))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			e.check(st, c.Slt(y, c.Const(y.w, 0)), "negative shift amount")
			if st.pc.isFalse() {
				return c.Const(x.w, 0)
			}
		}
		var s *Term
		if y.w > x.w {
			s = c.Ite(c.Ult(y, c.Const(y.w, uint64(x.w))), c.Extract(y, 0, x.w), c.Const(x.w, uint64(x.w)))
		} else {
			s = c.Zext(y, x.w)
		}
		if op == token.SHL {
			return c.Shl(x, s)
		}
		if signed {
			return c.Ashr(x, s)
		}
		return c.Lshr(x, s)
	case token.LSS:
		if signed {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if signed {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if signed {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if signed {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	unsupported("operator %v", op)
	return nil
}

// uptrAdd keeps provenance when the displacement moves within an array.
func (e *Engine) uptrAdd(u *UPtrV, off *Term) Value {
	p := &PtrV{}
	for _, a := range u.p.alts {
		n := len(a.path)
		if a.obj == 0 || n == 0 || a.path[n-1].idx == nil {
			return &UPtrV{p: u.p, off: off}
		}
		arr, ok := e.getPath(e.objVal(e.cur, a.obj), a.path[:n-1]).(*ArrS)
		if !ok || arr.w != 8 {
			return &UPtrV{p: u.p, off: off}
		}
		np := append([]PathElem(nil), a.path...)
		np[n-1].idx = e.c.Add(np[n-1].idx, off)
		p.alts = append(p.alts, PtrAlt{a.g, a.obj, np})
	}
	return &UPtrV{p: p}
}

// strNode flattens a string to one immutable node and offset.
func (e *Engine) strNode(st *State, alts []SAlt) (*Node, *Term) {
	var n *Node
	off := e.k64(0)
	for k := len(alts) - 1; k >= 0; k-- {
		a := alts[k]
		if a.obj == 0 && a.node == nil {
			continue
		}
		arr := e.arrAt(st, a).(*ArrS)
		if n == nil {
			n, off = arr.node, a.off
			continue
		}
		if off == a.off {
			n = e.c.IteNode(a.g, arr.node, n)
		} else {
			n = e.c.IteNode(a.g, arr.node, n)
			unsupportedIf(true, "string snapshot of differing offsets")
		}
	}
	if n == nil {
		n = e.c.ZeroNode(8)
	}
	return n, off
}

func unsupportedIf(b bool, m string) {
	if b {
		unsupported("%s", m)
	}
}

func (e *Engine) concat(st *State, a, b *StrV) Value {
	p, ok1 := e.concStr(st, a)
	q, ok2 := e.concStr(st, b)
	if ok1 && ok2 {
		return e.str(p + q)
	}
	if a.len.isConst() && a.len.val == 0 {
		return b
	}
	if b.len.isConst() && b.len.val == 0 {
		return a
	}
	n := e.c.ZeroNode(8)
	an, ao := e.strNode(st, a.alts)
	bn, bo := e.strNode(st, b.alts)
	n = e.c.CopyNode(n, e.k64(0), an, ao, a.len)
	n = e.c.CopyNode(n, a.len, bn, bo, b.len)
	st.allocs = e.c.AddC(st.allocs, 1)
	return &StrV{alts: []SAlt{{g: e.c.True, node: n, off: e.k64(0)}}, len: e.c.Add(a.len, b.len)}
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	// unsafe.Pointer and uintptr
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		switch x := v.(type) {
		case *PtrV:
			return x
		case *UPtrV:
			if x.off == nil {
				return x.p
			}
		case *Term:
			if x.isConst() && x.val == 0 {
				return e.nilPtr()
			}
		}
		unsupported("conversion of an arbitrary integer to a pointer")
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
			return &UPtrV{p: v.(*PtrV)}
		}
	}
	if u, ok := v.(*UPtrV); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.Uintptr {
			return u
		}
		v = e.addrOf(u)
	}
	fw, fok := scalarW(from)
	tw, tok := scalarW(to)
	if fok && tok && fw > 0 && tw > 0 {
		t := v.(*Term)
		if isFloat(from) != isFloat(to) || isFloat(from) && fw != tw {
			if isFloat(to) && !isFloat(from) && t.isConst() {
				x := float64(t.val)
				if isSigned(from) {
					x = float64(sx(t.val, t.w))
				}
				if tw == 32 {
					return c.Const(32, uint64(math.Float32bits(float32(x))))
				}
				return c.Const(64, math.Float64bits(x))
			}
			if isFloat(from) && isFloat(to) {
				return c.fpConvert(t, tw)
			}
			unsupported("floating point conversion")
		}
		if tw <= fw {
			return c.Extract(t, 0, tw)
		}
		if isSigned(from) {
			return c.Sext(t, tw)
		}
		return c.Zext(t, tw)
	}
	if isString(to) {
		switch x := v.(type) {
		case *SliceV:
			et := fu.(*types.Slice).Elem()
			if w, _ := scalarW(et); w != 8 {
				unsupported("string from []rune")
			}
			st.allocs = c.Ite(c.Eq(x.len, e.k64(0)), st.allocs, c.AddC(st.allocs, 1))
			if s, ok := e.concStr(st, &StrV{alts: x.alts, len: x.len}); ok {
				return e.str(s)
			}
			r := &StrV{len: x.len}
			for _, a := range x.alts {
				if a.obj == 0 {
					r.alts = append(r.alts, SAlt{g: a.g, node: c.StrNode(""), off: e.k64(0)})
					continue
				}
				arr := e.arrAt(st, a).(*ArrS)
				r.alts = append(r.alts, SAlt{g: a.g, node: arr.node, off: a.off})
			}
			return r
		case *StrV:
			return x
		case *Term:
			if x.isConst() {
				return e.str(string(rune(sx(x.val, x.w))))
			}
			e.assumed["symbolic runes converted to strings are ASCII"] = true
			st.pc = c.And(st.pc, c.Ult(x, c.Const(x.w, 0x80)))
			n := c.StoreNode(c.ZeroNode(8), e.k64(0), c.Extract(x, 0, 8))
			return &StrV{alts: []SAlt{{g: c.True, node: n, off: e.k64(0)}}, len: e.k64(1)}
		}
	}
	if s, ok := tu.(*types.Slice); ok {
		if x, ok := v.(*StrV); ok {
			w, _ := scalarW(s.Elem())
			if w != 8 {
				unsupported("[]rune from string")
			}
			node := c.ZeroNode(8)
			for k := len(x.alts) - 1; k >= 0; k-- {
				a := x.alts[k]
				if a.obj == 0 && a.node == nil {
					continue
				}
				arr := e.arrAt(st, a).(*ArrS)
				cn := c.CopyNode(c.ZeroNode(8), e.k64(0), arr.node, a.off, x.len)
				if k == len(x.alts)-1 {
					node = cn
				} else {
					node = c.IteNode(a.g, cn, node)
				}
			}
			capv := e.freshCap(st, x.len)
			o := e.newObj(st, &ArrS{node: node, n: capv, w: 8})
			st.allocs = c.Ite(c.Eq(x.len, e.k64(0)), st.allocs, c.AddC(st.allocs, 1))
			return &SliceV{alts: []SAlt{{g: c.True, obj: o, off: e.k64(0)}}, len: x.len, cap: capv}
		}
		if x, ok := v.(*SliceV); ok {
			return x
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsupported("conversion %v to %v", from, to)
	return nil
}

// freshCap is a capacity the allocator may choose for n elements.
func (e *Engine) freshCap(st *State, n *Term) *Term {
	c := e.c
	if n.isConst() && n.val <= 4096 && !e.symCaps() {
		return n
	}
	k := c.Fresh("cap", 64)
	k.lo, k.hi = 0, 1<<40
	k.dflt = n
	st.pc = c.And(st.pc, c.Ule(n, k), c.Ult(k, c.Const(64, 1<<40)))
	return k
}

func (e *Engine) symCaps() bool { return e.params["symcaps"] == 1 }

var _ = fmt.Sprint

// splitInt continues with one state per value of v; each executes the current
// instruction again.
func (e *Engine) splitInt(st *State, f *Frame, v ssa.Value) bool {
	r, isReg := f.info.reg[v]
	t, isTerm := f.regs[r].(*Term)
	if !isReg || !isTerm || t.hi-t.lo > 32 {
		unsupported("size of a generic array is symbolic")
	}
	for n := t.lo; n <= t.hi; n++ {
		pc := e.c.And(st.pc, e.c.Eq(t, e.c.Const(t.w, n)))
		if pc.isFalse() || !e.feasible(pc) {
			continue
		}
		s := e.fork(st)
		s.pc = pc
		s.top().regs[r] = e.c.Const(t.w, n)
		e.noMergePush(s)
	}
	return false
}
