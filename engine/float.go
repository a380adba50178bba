package main

import "math"

// Floating-point values are kept as their bit patterns. The results of
// arithmetic are computed by the solvers' theory of floating point, except for
// NaNs, whose bits follow the processor: a NaN operand is passed on, quieted,
// and an operation without NaN operands yields the default NaN.

const (
	fpAdd = iota
	fpSub
	fpMul
	fpDiv
	fpConv // between the widths
)

var fpNames = [...]string{"fp.add", "fp.sub", "fp.mul", "fp.div"}

func fpParts(w uint8) (expMask, quiet, dflt uint64, sort string) {
	if w == 32 {
		return 0x7f800000, 1 << 22, 0xffc00000, "8 24"
	}
	return 0x7ff << 52, 1 << 51, 0xfff8 << 48, "11 53"
}

func fpIsNaN(c *Ctx, t *Term) *Term {
	exp, _, _, _ := fpParts(t.w)
	return c.Ult(c.Const(t.w, exp), c.BAnd(t, c.Const(t.w, mask(t.w-1))))
}

// fpOp is the result of an arithmetic operation.
func (c *Ctx) fpOp(op int, x, y *Term) *Term {
	_, quiet, dflt, _ := fpParts(x.w)
	if x.isConst() && y.isConst() {
		return c.Const(x.w, fpEval(op, x.w, x.w, x.val, y.val))
	}
	r := c.mk(OFp, x.w, uint64(op), "", []*Term{x, y}, nil)
	r = c.Ite(fpIsNaN(c, r), c.Const(x.w, dflt), r)
	q := c.Const(x.w, quiet)
	return c.Ite(fpIsNaN(c, x), c.BOr(x, q), c.Ite(fpIsNaN(c, y), c.BOr(y, q), r))
}

// fpConvert converts between the widths.
func (c *Ctx) fpConvert(x *Term, w uint8) *Term {
	if x.isConst() {
		return c.Const(w, fpEval(fpConv, x.w, w, x.val, 0))
	}
	exp, quiet, _, _ := fpParts(w)
	sign := c.Extract(x, x.w-1, 1)
	var payload *Term
	if w == 64 {
		payload = c.Shl(c.Zext(c.Extract(x, 0, 23), 64), c.Const(64, 29))
	} else {
		payload = c.Zext(c.Extract(x, 29, 23), 32)
	}
	nan := c.BOr(c.BOr(c.Shl(c.Zext(sign, w), c.Const(w, uint64(w-1))), c.Const(w, exp|quiet)), payload)
	return c.Ite(fpIsNaN(c, x), nan, c.mk(OFp, w, fpConv, "", []*Term{x}, nil))
}

// fpEval computes an operation natively.
func fpEval(op int, from, w uint8, a, b uint64) uint64 {
	if op == fpConv {
		if w == 64 {
			return math.Float64bits(float64(math.Float32frombits(uint32(a))))
		}
		return uint64(math.Float32bits(float32(math.Float64frombits(a))))
	}
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		switch op {
		case fpAdd:
			x += y
		case fpSub:
			x -= y
		case fpMul:
			x *= y
		case fpDiv:
			x /= y
		}
		return uint64(math.Float32bits(x))
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case fpAdd:
		x += y
	case fpSub:
		x -= y
	case fpMul:
		x *= y
	case fpDiv:
		x /= y
	}
	return math.Float64bits(x)
}

func (s *Script) fpBody(t *Term) string {
	_, _, _, sort := fpParts(t.w)
	if t.val == fpConv {
		a := t.args[0]
		_, _, _, from := fpParts(a.w)
		return "(fp.to_ieee_bv ((_ to_fp " + sort + ") RNE ((_ to_fp " + from + ") " + s.refW(a, a.w) + ")))"
	}
	in := func(i int) string { return "((_ to_fp " + sort + ") " + s.refW(t.args[i], t.w) + ")" }
	return "(fp.to_ieee_bv (" + fpNames[t.val] + " RNE " + in(0) + " " + in(1) + "))"
}
