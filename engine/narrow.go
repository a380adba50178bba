package main

import (
	"fmt"
	"go/token"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Emission with narrowed widths: a term whose value is known to fit k bits is
// printed as a k-bit vector, whatever its nominal width. Modular operations
// are computed at the width of the result, comparisons at the width of the
// wider operand.

// pw is the printed width of t.
func pw(t *Term) uint8 {
	if t.w <= 1 {
		return t.w
	}
	n := uint8(bits.Len64(t.hi))
	if n == 0 {
		n = 1
	}
	if n > t.w {
		n = t.w
	}
	return n
}

// idxW is the printed width of array indices; harness inputs are smaller.
const idxW = 24

// refW prints t as a w-bit vector, truncating or zero-extending.
func (s *Script) refW(t *Term, w uint8) string {
	if t.op == OConst {
		return bvConst(t.val&mask(w), w)
	}
	p := pw(t)
	r := s.ref(t)
	switch {
	case p == w:
		return r
	case p < w:
		return fmt.Sprintf("((_ zero_extend %d) %s)", w-p, r)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", w-1, r)
}

func (s *Script) body(t *Term) string {
	p := pw(t)
	op := func(name string, w uint8, as ...*Term) string {
		var sb strings.Builder
		sb.WriteString("(" + name)
		for _, a := range as {
			sb.WriteByte(' ')
			sb.WriteString(s.refW(a, w))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	cut := func(x string, w uint8) string {
		if w == p {
			return x
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", p-1, x)
	}
	full := func(name string) string { return cut(op(name, t.w, t.args...), t.w) }
	logic := func(name string) string {
		var sb strings.Builder
		sb.WriteString("(" + name)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.op {
	case ONot:
		return logic("not")
	case OAnd:
		return logic("and")
	case OOr:
		return logic("or")
	case OIte:
		if t.w == 0 {
			return logic("ite")
		}
		return "(ite " + s.ref(t.args[0]) + " " + s.refW(t.args[1], p) + " " + s.refW(t.args[2], p) + ")"
	case OEq:
		if t.args[0].w == 0 {
			return logic("=")
		}
		return op("=", max(pw(t.args[0]), pw(t.args[1])), t.args...)
	case OUlt:
		return op("bvult", max(pw(t.args[0]), pw(t.args[1])), t.args...)
	case OSlt:
		w := t.args[0].w
		if w > 1 {
			h := uint64(1) << (w - 1)
			if t.args[0].hi < h && t.args[1].hi < h {
				return op("bvult", max(pw(t.args[0]), pw(t.args[1])), t.args...)
			}
		}
		return op("bvslt", w, t.args...)
	case OMul:
		return op("bvmul", p, t.args...)
	case OBAnd:
		return op("bvand", p, t.args...)
	case OBOr:
		return op("bvor", p, t.args...)
	case OBXor:
		return op("bvxor", p, t.args...)
	case OShl:
		if b := t.args[1]; b.op == OConst {
			if b.val >= uint64(p) {
				return bvConst(0, p)
			}
			return op("bvshl", p, t.args...)
		}
		return full("bvshl")
	case OLshr:
		if b := t.args[1]; b.op == OConst {
			w := pw(t.args[0])
			if b.val >= uint64(w) {
				return bvConst(0, p)
			}
			return fmt.Sprintf("((_ extract %d %d) %s)", w-1, b.val, s.ref(t.args[0])) + ""
		}
		return full("bvlshr")
	case OUdiv:
		return full("bvudiv")
	case OUrem:
		return full("bvurem")
	case OSdiv:
		return full("bvsdiv")
	case OSrem:
		return full("bvsrem")
	case OAshr:
		return full("bvashr")
	case OFp:
		return s.fpBody(t)
	case OExtract:
		a := t.args[0]
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(p)-1, t.val, s.refW(a, max(pw(a), uint8(t.val)+p)))
	case ONarrow, OZext:
		return s.refW(t.args[0], p)
	case OSext:
		a := t.args[0]
		if a.hi < uint64(1)<<(a.w-1) {
			return s.refW(a, p)
		}
		return cut(fmt.Sprintf("((_ sign_extend %d) %s)", t.w-a.w, s.refW(a, a.w)), t.w)
	case OSelect:
		return fmt.Sprintf("(select %s %s)", smtName(t.name), s.refW(t.args[0], idxW))
	case OLin:
		var parts []string
		for i, a := range t.args {
			k := t.coefs[i]
			switch {
			case k == 1:
				parts = append(parts, s.refW(a, p))
			case k == mask(t.w):
				parts = append(parts, "(bvneg "+s.refW(a, p)+")")
			default:
				parts = append(parts, "(bvmul "+bvConst(k&mask(p), p)+" "+s.refW(a, p)+")")
			}
		}
		if t.val != 0 {
			parts = append(parts, bvConst(t.val&mask(p), p))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(bvadd " + strings.Join(parts, " ") + ")"
	}
	panic("emit")
}

// ---- narrowing by path conditions ----

// srange bounds t as a signed number.
func srange(t *Term, depth int) (int64, int64) {
	h := uint64(1) << (t.w - 1)
	if t.hi < h {
		return int64(t.lo), int64(t.hi)
	}
	if t.lo >= h {
		return sx(t.lo, t.w), sx(t.hi, t.w)
	}
	lo, hi := -int64(h-1)-1, int64(h-1)
	switch t.op {
	case OConst:
		v := sx(t.val, t.w)
		return v, v
	case OIte:
		if depth > 40 {
			return lo, hi
		}
		al, ah := srange(t.args[1], depth+1)
		bl, bh := srange(t.args[2], depth+1)
		return min(al, bl), max(ah, bh)
	}
	return lo, hi
}

// refine replaces registers whose value the branch condition bounds tightly by
// copies that the term layer knows to be small.
func (e *Engine) refine(st *State, f *Frame, x ssa.Value, taken bool) {
	switch b := x.(type) {
	case *ssa.UnOp:
		if b.Op == token.NOT {
			e.refine(st, f, b.X, !taken)
		}
	case *ssa.BinOp:
		w, ok := scalarW(b.X.Type())
		if !ok || w < 16 || isFloat(b.X.Type()) {
			return
		}
		reg := func(v ssa.Value) *Term {
			if _, ok := v.(*ssa.Const); !ok {
				r, ok := f.info.reg[v]
				if !ok || f.regs[r] == nil {
					return nil
				}
			}
			t, _ := e.val(st, f, v).(*Term)
			return t
		}
		p, q := reg(b.X), reg(b.Y)
		if p == nil || q == nil || p.w != w || q.w != w {
			return
		}
		op := b.Op
		if !taken {
			switch op {
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			}
		}
		switch op {
		case token.GTR:
			op, p, q = token.LSS, q, p
		case token.GEQ:
			op, p, q = token.LEQ, q, p
		}
		var less int64
		switch op {
		case token.EQL:
			if p.isConst() {
				p, q = q, p
			}
			if q.isConst() && !p.isConst() {
				e.substReg(f, p, q)
			}
			return
		case token.LSS:
			less = 1
		case token.LEQ:
		default:
			return
		}
		if isSigned(b.X.Type()) {
			pl, ph := srange(p, 0)
			ql, qh := srange(q, 0)
			if qh > -1<<62 {
				ph = min(ph, qh-less)
			}
			if pl < 1<<62 {
				ql = max(ql, pl+less)
			}
			if pl >= 0 && ph >= 0 {
				e.narrow(f, p, uint64(ph))
			}
			if ql >= 0 && qh >= 0 {
				e.narrow(f, q, uint64(qh))
			}
		} else if q.hi >= uint64(less) {
			e.narrow(f, p, min(p.hi, q.hi-uint64(less)))
		}
	}
}

func (e *Engine) narrow(f *Frame, t *Term, hi uint64) {
	if t.isConst() || hi >= t.hi || bits.Len64(t.hi) < bits.Len64(hi)+8 {
		return
	}
	n := uint8(max(1, bits.Len64(hi)))
	e.substReg(f, t, e.c.Narrow(t, n))
}

func (e *Engine) substReg(f *Frame, t, by *Term) {
	for i, r := range f.regs {
		if rt, ok := r.(*Term); ok && rt == t {
			f.regs[i] = by
		}
	}
}

// difference is hi-lo where lo <= hi holds on this path.
func (e *Engine) difference(hi, lo *Term) *Term {
	d := e.c.Sub(hi, lo)
	if d.hi > hi.hi {
		d = e.c.Narrow(d, uint8(max(1, bits.Len64(hi.hi))))
	}
	return d
}

func strip(t *Term) *Term {
	if t.op == ONarrow {
		return t.args[0]
	}
	return t
}

// known reports that the path condition syntactically contradicts bad.
func (e *Engine) known(pc, bad *Term) bool {
	c := e.c
	neg := false
	t := bad
	if t.op == ONot {
		neg, t = true, t.args[0]
	}
	if t.op != OUlt && t.op != OSlt && t.op != OEq || t.args[0].w == 0 {
		return false
	}
	a, b := t.args[0], t.args[1]
	sa, sb := strip(a), strip(b)
	if sa == a && sb == b {
		return false
	}
	for _, v := range [][2]*Term{{sa, sb}, {a, sb}, {sa, b}} {
		var x *Term
		switch t.op {
		case OUlt:
			x = c.Ult(v[0], v[1])
		case OSlt:
			x = c.Slt(v[0], v[1])
		default:
			x = c.Eq(v[0], v[1])
		}
		if neg {
			x = c.Not(x)
		}
		if c.And(pc, x).isFalse() {
			return true
		}
	}
	return false
}
