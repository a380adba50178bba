package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concrete-layout mode: lengths, offsets and indices of small buffers are kept
// constant on every state. States that differ in such a constant are not
// merged, and a symbolic index is split into all the values it can take, so
// the solver never reasons about symbolic positions. Nothing is dropped: the
// split is exhaustive, contents stay symbolic.

const concLimit = 80

// concSplit splits st over the values of the indices used by in. It reports
// whether the state was consumed.
func (e *Engine) concSplit(st *State, f *Frame, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Slice:
		var limit *Term
		switch s := e.val(st, f, x.X).(type) {
		case *SliceV:
			limit = s.cap
		case *StrV:
			limit = s.len
		default:
			return false
		}
		for _, v := range []ssa.Value{x.Max, x.High, x.Low} {
			if v != nil && e.concVal(st, f, v, limit, "slice bounds out of range") {
				return true
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && st.fits == 0 {
			return e.splitAppend(st, f, x)
		}
	case *ssa.IndexAddr:
		if s, ok := e.val(st, f, x.X).(*SliceV); ok {
			return e.concVal(st, f, x.Index, s.len, "index out of range")
		}
	}
	return false
}

// splitAppend separates appending in place from moving to a new array.
func (e *Engine) splitAppend(st *State, f *Frame, x *ssa.Call) bool {
	c := e.c
	s, ok := e.val(st, f, x.Call.Args[0]).(*SliceV)
	if !ok {
		return false
	}
	var n *Term
	switch t := e.val(st, f, x.Call.Args[1]).(type) {
	case *SliceV:
		n = t.len
	case *StrV:
		n = t.len
	default:
		return false
	}
	fits := c.Ule(c.Add(s.len, n), s.cap)
	if fits.isConst() {
		return false
	}
	for i, g := range []*Term{fits, c.Not(fits)} {
		pc := c.And(st.pc, g)
		if pc.isFalse() || !e.feasible(pc) {
			continue
		}
		n := e.fork(st)
		n.pc = pc
		n.fits = int8(1 - 2*i)
		e.push(n)
	}
	return true
}

func (e *Engine) concVal(st *State, f *Frame, v ssa.Value, limit *Term, kind string) bool {
	t, ok := e.val(st, f, v).(*Term)
	if !ok || t.isConst() || t.w != 64 {
		return false
	}
	c := e.c
	if ls, ok := c.leaves(t); ok {
		if len(ls) == 1 {
			return false
		}
		if plainInputs(ls) && limit.hi <= concLimit {
			// states that differ in an input would be merged again
			return false
		}
		e.splitLeaves(st, t, ls)
		return true
	}
	if limit.hi > concLimit {
		return false
	}
	hi := limit.hi
	e.check(st, c.Ult(e.k64(int64(hi)), t), kind)
	if st.pc.isFalse() {
		return true
	}
	return e.splitTerm(st, t, hi)
}

// plainInputs reports that all of ls are inputs and one is no length.
func plainInputs(ls []leafAlt) bool {
	plain := false
	for _, l := range ls {
		if l.t.op != OVar {
			return false
		}
		plain = plain || !layoutVar(l.t)
	}
	return plain
}

type leafAlt struct{ g, t *Term }

// leaves lists the alternatives of a conditional term whose ends are linear
// in the inputs.
func (c *Ctx) leaves(t *Term) ([]leafAlt, bool) {
	const max = 64
	add := func(r []leafAlt, g, t *Term) []leafAlt {
		if g.isFalse() {
			return r
		}
		for i := range r {
			if r[i].t == t {
				r[i].g = c.Or(r[i].g, g)
				return r
			}
		}
		return append(r, leafAlt{g, t})
	}
	var walk func(t *Term, depth int) ([]leafAlt, bool)
	one := func(in *Term, depth int, f func(*Term) *Term) ([]leafAlt, bool) {
		ls, ok := walk(in, depth+1)
		if !ok {
			return nil, false
		}
		var r []leafAlt
		for _, l := range ls {
			x := f(l.t)
			if !linearLeaf(x) {
				return nil, false
			}
			r = add(r, l.g, x)
		}
		return r, true
	}
	walk = func(t *Term, depth int) ([]leafAlt, bool) {
		if depth > 40 {
			return nil, false
		}
		if linearLeaf(t) {
			return []leafAlt{{c.True, t}}, true
		}
		switch t.op {
		case OIte:
			p, ok1 := walk(t.args[1], depth+1)
			q, ok2 := walk(t.args[2], depth+1)
			if !ok1 || !ok2 || len(p)+len(q) > max {
				return nil, false
			}
			var r []leafAlt
			for _, l := range p {
				r = add(r, c.And(t.args[0], l.g), l.t)
			}
			for _, l := range q {
				r = add(r, c.And(c.Not(t.args[0]), l.g), l.t)
			}
			return r, true
		case OZext:
			return one(t.args[0], depth, func(x *Term) *Term { return c.Zext(x, t.w) })
		case OExtract:
			return one(t.args[0], depth, func(x *Term) *Term { return c.Extract(x, uint8(t.val), t.w) })
		case ONarrow:
			return one(t.args[0], depth, func(x *Term) *Term { return x })
		case OLin:
			r := []leafAlt{{c.True, c.Const(t.w, t.val)}}
			for i, a := range t.args {
				ls, ok := walk(a, depth+1)
				if !ok || len(ls)*len(r) > max {
					return nil, false
				}
				var n []leafAlt
				for _, p := range r {
					for _, q := range ls {
						n = add(n, c.And(p.g, q.g), c.linAdd(p.t, q.t, t.coefs[i], 0))
					}
				}
				r = n
			}
			return r, true
		}
		return nil, false
	}
	return walk(t, 0)
}

func linearLeaf(t *Term) bool {
	switch t.op {
	case OConst, OVar, OSelect:
		return true
	case OLin:
		for _, a := range t.args {
			if a.op != OVar && a.op != OSelect {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) splitLeaves(st *State, t *Term, ls []leafAlt) {
	c := e.c
	for _, l := range ls {
		pc := c.And(st.pc, l.g)
		if pc.isFalse() || !e.feasibleQ(pc) {
			continue
		}
		n := e.fork(st)
		n.pc = pc
		substTop(n, t, l.t)
		e.push(n)
	}
}

func substTop(n *State, t, kt *Term) {
	top := n.top()
	for i, r := range top.regs {
		if rt, ok := r.(*Term); ok && rt == t {
			top.regs[i] = kt
		} else if s, ok := r.(*SliceV); ok && (s.len == t || s.cap == t) {
			top.regs[i] = concSlice(s, t, kt)
		}
	}
}

// splitTerm re-queues st once for every value 0..hi that t can take.
func (e *Engine) splitTerm(st *State, t *Term, hi uint64) bool {
	c := e.c
	for k := uint64(0); k <= hi; k++ {
		if k < t.lo || k > t.hi {
			continue
		}
		kt := e.k64(int64(k))
		pc := c.And(st.pc, c.Eq(t, kt))
		if pc.isFalse() || !e.feasibleQ(pc) {
			continue
		}
		n := e.fork(st)
		n.pc = pc
		substTop(n, t, kt)
		e.push(n)
	}
	return true
}

func concSlice(s *SliceV, t, k *Term) *SliceV {
	n := *s
	if n.len == t {
		n.len = k
	}
	if n.cap == t {
		n.cap = k
	}
	return &n
}

// layoutDiffers reports that merging a and b would lose a fixed position.
func (e *Engine) layoutDiffers(a, b *Term) bool {
	return e.conc && e.merging && a.w == 64 && a != b && layoutTerm(a) && layoutTerm(b)
}

// layoutTerm holds for constants and for sums of constants and input lengths.
func layoutTerm(t *Term) bool {
	switch t.op {
	case OConst:
		return true
	case OVar:
		return layoutVar(t)
	case OLin:
		for _, a := range t.args {
			if a.op != OVar || !layoutVar(a) {
				return false
			}
		}
		return true
	}
	return false
}

func layoutVar(t *Term) bool {
	return strings.HasSuffix(t.name, ".len") || strings.HasPrefix(t.name, "grow!")
}
