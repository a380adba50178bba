package main

// Hash-consed SMT terms: booleans (w==0) and bit-vectors of width 1..64.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OLin // val + sum coefs[i]*args[i]
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OExtract // val = lo, w = width
	OZext
	OSext
	ONarrow // args[0], known on this path to fit in val bits
	OFp     // val = operation
	OSelect // name = array symbol, args[0] = index (64 bit)
)

type Term struct {
	op     Op
	w      uint8
	val    uint64
	name   string
	args   []*Term
	coefs  []uint64
	id     int
	lo, hi uint64 // unsigned range (bit-vectors only)
	// dflt is used by the evaluator for engine-introduced variables that no
	// model mentions (for example the capacity chosen by the allocator).
	dflt *Term
}

type termKey struct {
	op    Op
	w     uint8
	val   uint64
	name  string
	argsk string
}

// Ctx is one term universe; a harness run owns exactly one.
type Ctx struct {
	tab       map[termKey]*Term
	n         int
	True      *Term
	False     *Term
	arrays    map[string]uint8 // array symbol -> element width
	vars      []*Term
	fresh     int
	nodes     int
	pieceMemo map[int]*pieces
	cmpMemo   map[[3]int]*Term
	distinct  map[[2]int]bool // pairs of variables that are assumed to differ
}

func NewCtx() *Ctx {
	c := &Ctx{cmpMemo: map[[3]int]*Term{}, pieceMemo: map[int]*pieces{}, distinct: map[[2]int]bool{}, tab: map[termKey]*Term{}, arrays: map[string]uint8{}}
	c.True = c.mk(OConst, 0, 1, "", nil, nil)
	c.False = c.mk(OConst, 0, 0, "", nil, nil)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, val uint64, name string, args []*Term, coefs []uint64) *Term {
	var buf [64]byte
	b := buf[:0]
	for i, a := range args {
		id := uint32(a.id)
		b = append(b, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
		if coefs != nil {
			k := coefs[i]
			b = append(b, byte(k), byte(k>>8), byte(k>>16), byte(k>>24), byte(k>>32), byte(k>>40), byte(k>>48), byte(k>>56))
		}
	}
	key := termKey{op, w, val, name, string(b)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, args: args, coefs: coefs, id: c.n}
	c.n++
	if w > 0 {
		t.lo, t.hi = 0, mask(w)
		c.setRange(t)
	}
	c.tab[key] = t
	return t
}

func (c *Ctx) setRange(t *Term) {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi = min(a.lo, b.lo), max(a.hi, b.hi)
	case ONarrow:
		t.lo, t.hi = 0, min(t.args[0].hi, mask(uint8(t.val)))
	case OZext:
		t.lo, t.hi = t.args[0].lo, t.args[0].hi
	case OExtract:
		a := t.args[0]
		if a.hi>>t.val <= mask(t.w) {
			t.lo, t.hi = a.lo>>t.val, a.hi>>t.val
		} else if t.val == 0 && t.w < 64 && a.lo>>t.w == a.hi>>t.w {
			t.lo, t.hi = a.lo&mask(t.w), a.hi&mask(t.w)
		}
	case OSext:
		a := t.args[0]
		if a.hi < (uint64(1) << (a.w - 1)) {
			t.lo, t.hi = a.lo, a.hi
		} else if a.lo >= (uint64(1) << (a.w - 1)) {
			t.lo, t.hi = uint64(sx(a.lo, a.w))&mask(t.w), uint64(sx(a.hi, a.w))&mask(t.w)
		}
	case OBAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
	case OBOr, OBXor:
		h := t.args[0].hi | t.args[1].hi
		n := bits.Len64(h)
		if n < 64 {
			t.hi = (uint64(1) << n) - 1
		}
		if t.op == OBOr {
			t.lo = max(t.args[0].lo, t.args[1].lo)
		}
	case OUrem:
		if t.args[1].lo > 0 {
			t.hi = t.args[1].hi - 1
		}
		t.hi = min(t.hi, t.args[0].hi)
	case OUdiv:
		if t.args[1].lo > 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].hi, t.args[0].hi/t.args[1].lo
		}
	case OLshr:
		if t.args[1].op == OConst && t.args[1].val < 64 {
			t.lo, t.hi = t.args[0].lo>>t.args[1].val, t.args[0].hi>>t.args[1].val
		} else {
			t.hi = t.args[0].hi
		}
	case OShl:
		if t.args[1].op == OConst && t.args[1].val < 64 {
			s := t.args[1].val
			if bits.Len64(t.args[0].hi)+int(s) <= int(t.w) {
				t.lo, t.hi = t.args[0].lo<<s, t.args[0].hi<<s
			}
		}
	case OMul:
		h, l := bits.Mul64(t.args[0].hi, t.args[1].hi)
		if h == 0 && l <= mask(t.w) {
			t.lo, t.hi = t.args[0].lo*t.args[1].lo, l
		}
	case OLin:
		if len(t.args) == 1 {
			// k+a and k-a that stay on one side of zero
			a, k, m := t.args[0], t.val, mask(t.w)
			if t.coefs[0] == 1 && a.hi <= m-k {
				t.lo, t.hi = a.lo+k, a.hi+k
				return
			}
			if h, l := bits.Mul64(a.hi, t.coefs[0]); h == 0 && l <= m && l <= m-k {
				t.lo, t.hi = a.lo*t.coefs[0]+k, l+k
				return
			}
			if t.coefs[0] == m && a.lo > k {
				t.lo, t.hi = (k-a.hi)&m, (k-a.lo)&m
				return
			}
			if t.coefs[0] == m && a.hi <= k {
				t.lo, t.hi = k-a.hi, k-a.lo
				return
			}
		}
		const big = int64(1) << 61
		var slo, shi int64
		k := sx(t.val, t.w)
		if k > big || k < -big {
			return
		}
		slo, shi = k, k
		for i, a := range t.args {
			co := sx(t.coefs[i], t.w)
			ab := co
			if ab < 0 {
				ab = -ab
			}
			if h, l := bits.Mul64(uint64(ab), a.hi); h != 0 || l > uint64(big) {
				return
			}
			if co > 0 {
				slo += co * int64(a.lo)
				shi += co * int64(a.hi)
			} else {
				slo += co * int64(a.hi)
				shi += co * int64(a.lo)
			}
			if slo < -big || shi > big {
				return
			}
		}
		if slo >= 0 && uint64(shi) <= mask(t.w) {
			t.lo, t.hi = uint64(slo), uint64(shi)
		}
	}
}

func sx(v uint64, w uint8) int64 {
	if w == 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) Const(w uint8, v uint64) *Term { return c.mk(OConst, w, v&mask(w), "", nil, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var declares (or returns) a named variable.
func (c *Ctx) Var(name string, w uint8) *Term {
	n := c.n
	t := c.mk(OVar, w, 0, name, nil, nil)
	if t.id == n {
		c.vars = append(c.vars, t)
	}
	return t
}

// VarRange declares a variable known to lie in [lo,hi]; the caller must also
// assume that range.
func (c *Ctx) VarRange(name string, w uint8, lo, hi uint64) *Term {
	t := c.Var(name, w)
	t.lo, t.hi = lo, hi
	return t
}

func (c *Ctx) Fresh(prefix string, w uint8) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), w)
}

func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }
func (t *Term) isConst() bool { return t.op == OConst }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, "", []*Term{a}, nil)
}

func (c *Ctx) nary(op Op, ts []*Term) *Term {
	// op is OAnd or OOr
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	var flat []*Term
	seen := map[int]bool{}
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == ONot && t.args[0].op == dual && len(t.args[0].args) <= 8 {
			for _, a := range t.args[0].args {
				if !add(c.Not(a)) {
					return false
				}
			}
			return true
		}
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		flat = append(flat, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	// Absorption: within And, a nested Or containing a sibling is redundant
	// (and dually); a nested Or containing the negation of a sibling loses it.
	if len(flat) > 1 {
		again := false
		out := flat[:0:0]
		for _, t := range flat {
			if args, ok := dualArgs(c, t, op, dual); ok {
				drop := false
				var kept []*Term
				changed := false
				for _, a := range args {
					if seen[a.id] {
						drop = true
						break
					}
					if seen[c.Not(a).id] {
						changed = true
						continue
					}
					kept = append(kept, a)
				}
				if drop {
					continue
				}
				if changed {
					again = true
					t = c.nary(dual, kept)
				}
			}
			out = append(out, t)
		}
		flat = out
		if again {
			return c.nary(op, flat)
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return c.mk(op, 0, 0, "", flat, nil)
}

// dualArgs are the arguments of t seen as a term of op dual.
func dualArgs(c *Ctx, t *Term, op, dual Op) ([]*Term, bool) {
	if t.op == dual {
		return t.args, true
	}
	if t.op == ONot && t.args[0].op == op && len(t.args[0].args) <= 8 {
		var r []*Term
		for _, a := range t.args[0].args {
			r = append(r, c.Not(a))
		}
		return r, true
	}
	return nil, false
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, ts) }
func (c *Ctx) Or(ts ...*Term) *Term {
	// common-factor extraction: (X & R1) | (X & R2) = X & (R1|R2)
	if len(ts) == 2 {
		a, b := conj(ts[0]), conj(ts[1])
		if len(a) > 1 || len(b) > 1 {
			in := map[int]bool{}
			for _, x := range a {
				in[x.id] = true
			}
			var common, rb []*Term
			com := map[int]bool{}
			for _, x := range b {
				if in[x.id] {
					common = append(common, x)
					com[x.id] = true
				} else {
					rb = append(rb, x)
				}
			}
			if len(common) > 0 {
				var ra []*Term
				for _, x := range a {
					if !com[x.id] {
						ra = append(ra, x)
					}
				}
				return c.And(append(common, c.nary(OOr, []*Term{c.And(ra...), c.And(rb...)}))...)
			}
		}
	}
	return c.nary(OOr, ts)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.args[0] == g {
		return c.Ite(g, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == g {
		return c.Ite(g, a, b.args[2])
	}
	// ite(g, x, ite(h, x, y)) = ite(g|h, x, y)
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(g, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return c.Ite(c.And(c.Not(g), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[2] == b {
		return c.Ite(c.And(g, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return c.Ite(c.And(g, c.Not(a.args[0])), a.args[2], b)
	}
	return c.mk(OIte, a.w, 0, "", []*Term{g, a, b}, nil)
}

// composite reports that comparing t may look deep into it.
func composite(t *Term) bool { return t.op != OVar && t.op != OConst && t.op != OSelect }

func (c *Ctx) memo(op int, a, b *Term, f func(a, b *Term) *Term) *Term {
	if a == b || !composite(a) && !composite(b) {
		return f(a, b)
	}
	k := [3]int{op, a.id, b.id}
	if r := c.cmpMemo[k]; r != nil {
		return r
	}
	r := f(a, b)
	c.cmpMemo[k] = r
	return r
}

func (c *Ctx) Eq(a, b *Term) *Term  { return c.memo(0, a, b, c.eq) }
func (c *Ctx) Ult(a, b *Term) *Term { return c.memo(1, a, b, c.ult) }

func (c *Ctx) eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, 0, "", []*Term{a, b}, nil)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.op == OVar && b.op == OVar && c.distinct[[2]int{a.id, b.id}] {
		return c.False
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			// push into ite when one side decides
			x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
			if x.isConst() || y.isConst() {
				return c.Ite(a.args[0], x, y)
			}
		case OZext:
			if b.val > mask(a.args[0].w) {
				return c.False
			}
			return c.Eq(a.args[0], c.Const(a.args[0].w, b.val))
		case OLin:
			if a.val != 0 {
				return c.Eq(c.linAdd(a, c.Const(a.w, 0), 1, -a.val), c.Const(a.w, b.val-a.val))
			}
		case OBOr, OShl:
			p := c.piecesOf(a)
			if p.k&^b.val != 0 || b.val&^p.bits() != 0 {
				return c.False
			}
			if len(p.ps) == 1 && p.ps[0].src == 0 && a.w >= 8 {
				x := p.ps[0]
				if t := c.simple(p.crop(x.dst, x.n, 0).mask(mask(x.n)), a.w); t != nil && t.op != OBOr && t.op != OShl {
					return c.Eq(t, c.Const(t.w, b.val&^p.k>>x.dst))
				}
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OLin || b.op == OLin {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		if d.lo > 0 || c.Sub(b, a).lo > 0 {
			return c.False
		}
		// canonical form: positive parts on the left, negative on the right
		if d.op == OLin && a.w == 64 {
			l, r := c.Const(64, 0), c.Const(64, 0)
			if sx(d.val, 64) >= 0 {
				l = c.Const(64, d.val)
			} else {
				r = c.Const(64, -d.val)
			}
			for i, x := range d.args {
				if sx(d.coefs[i], 64) >= 0 {
					l = c.linAdd(l, x, d.coefs[i], 0)
				} else {
					r = c.linAdd(r, x, -d.coefs[i], 0)
				}
			}
			if a != l || b != r {
				if l.op != OLin && r.op != OLin {
					return c.Eq(l, r)
				}
				a, b = l, r
				if a.hi < b.lo || b.hi < a.lo {
					return c.False
				}
			}
		}
	}
	if a.w >= 8 && (bitsOp(a) || bitsOp(b)) {
		p, q := c.piecesOf(a), c.piecesOf(b)
		if p.same(q) {
			return c.True
		}
		if p.k&^q.bits() != 0 || q.k&^p.bits() != 0 {
			return c.False
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if a.op == OIte && b.isConst() {
		x, y := c.Ult(a.args[1], b), c.Ult(a.args[2], b)
		if x.isConst() || y.isConst() {
			return c.Ite(a.args[0], x, y)
		}
	}
	if b.op == OIte && a.isConst() {
		x, y := c.Ult(a, b.args[1]), c.Ult(a, b.args[2])
		if x.isConst() || y.isConst() {
			return c.Ite(b.args[0], x, y)
		}
	}
	if g, x, y, ok := c.liftIte(a); ok && !(a.op == OIte && b.isConst()) {
		x, y = c.Ult(x, b), c.Ult(y, b)
		if x.isConst() || y.isConst() {
			return c.Ite(g, x, y)
		}
	}
	if g, x, y, ok := c.liftIte(b); ok && !(b.op == OIte && a.isConst()) {
		x, y = c.Ult(a, x), c.Ult(a, y)
		if x.isConst() || y.isConst() {
			return c.Ite(g, x, y)
		}
	}
	if u, v := stripNarrow(a), stripNarrow(b); (u.op == OLin || v.op == OLin) && c.noWrapSmall(a) && c.noWrapSmall(b) {
		// both values are small non-negative: compare through the difference
		d := c.Sub(v, u)
		if d.lo > 0 && d.hi < 1<<62 {
			return c.True
		}
		d2 := c.Sub(u, v)
		if d2.hi < 1<<62 {
			return c.False
		}
		// canonical: no term on both sides, no negative coefficients
		if l, r, ok := c.balance(d); ok && (l != a || r != b) {
			return c.Ult(l, r)
		}
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.isConst() && a.val == 0 {
		return c.Not(c.Eq(b, a))
	}
	return c.mk(OUlt, 0, 0, "", []*Term{a, b}, nil)
}

func stripNarrow(t *Term) *Term {
	if t.op == ONarrow {
		return t.args[0]
	}
	return t
}

// balance writes d as r-l, both sums of small terms with small coefficients.
func (c *Ctx) balance(d *Term) (l, r *Term, ok bool) {
	if d.op != OLin {
		return nil, nil, false
	}
	l, r = c.Const(64, 0), c.Const(64, 0)
	for i, a := range d.args {
		k := int64(d.coefs[i])
		if a.hi >= 1<<40 && k != 1 && k != -1 || k > 1<<12 || k < -1<<12 {
			return nil, nil, false
		}
		if k > 0 {
			r = c.linAdd(r, a, uint64(k), 0)
		} else {
			l = c.linAdd(l, a, uint64(-k), 0)
		}
	}
	if k := int64(d.val); k > 1<<60 || k < -1<<60 {
		return nil, nil, false
	} else if k > 0 {
		r = c.AddC(r, k)
	} else {
		l = c.AddC(l, -k)
	}
	return l, r, c.noWrapSmall(l) && c.noWrapSmall(r)
}

// liftIte writes t as a conditional if a conditional occurs in it once, with
// at most one nested alternative.
func (c *Ctx) liftIte(t *Term) (g, x, y *Term, ok bool) {
	switch t.op {
	case OIte:
		if t.args[1].op != OIte || t.args[2].op != OIte {
			return t.args[0], t.args[1], t.args[2], true
		}
	case ONarrow:
		if g, x, y, ok = c.liftIte(t.args[0]); ok {
			return g, c.Narrow(x, uint8(t.val)), c.Narrow(y, uint8(t.val)), true
		}
	case OLin:
		k := -1
		for i, a := range t.args {
			if a.op == OIte {
				if k >= 0 || a.args[1].op == OIte && a.args[2].op == OIte {
					return nil, nil, nil, false
				}
				k = i
			}
		}
		if k >= 0 {
			a := t.args[k]
			rest := c.linAdd(t, a, -t.coefs[k], 0)
			return a.args[0], c.linAdd(rest, a.args[1], t.coefs[k], 0), c.linAdd(rest, a.args[2], t.coefs[k], 0), true
		}
	}
	return nil, nil, nil, false
}

func (c *Ctx) noWrapSmall(a *Term) bool { return a.w == 64 && a.hi < 1<<61 }

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	half := uint64(1) << (a.w - 1)
	an, bn := a.hi < half, b.hi < half   // known non-negative
	am, bm := a.lo >= half, b.lo >= half // known negative
	if an && bn || am && bm {
		return c.Ult(a, b)
	}
	if am && bn {
		return c.True
	}
	if an && bm {
		return c.False
	}
	if a.op == OIte && b.isConst() {
		x, y := c.Slt(a.args[1], b), c.Slt(a.args[2], b)
		if x.isConst() || y.isConst() {
			return c.Ite(a.args[0], x, y)
		}
	}
	if b.op == OIte && a.isConst() {
		x, y := c.Slt(a, b.args[1]), c.Slt(a, b.args[2])
		if x.isConst() || y.isConst() {
			return c.Ite(b.args[0], x, y)
		}
	}
	return c.mk(OSlt, 0, 0, "", []*Term{a, b}, nil)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// linAdd returns a + k*b + extra.
func (c *Ctx) linAdd(a, b *Term, k uint64, extra uint64) *Term {
	w := a.w
	m := mask(w)
	type ct struct {
		t *Term
		k uint64
	}
	var cs []ct
	cnst := extra
	addTerm := func(t *Term, k uint64) {
		switch t.op {
		case OConst:
			cnst += t.val * k
		case OLin:
			cnst += t.val * k
			for i, x := range t.args {
				cs = append(cs, ct{x, t.coefs[i] * k})
			}
		default:
			cs = append(cs, ct{t, k})
		}
	}
	addTerm(a, 1)
	addTerm(b, k)
	sort.Slice(cs, func(i, j int) bool { return cs[i].t.id < cs[j].t.id })
	var out []ct
	for _, x := range cs {
		if n := len(out); n > 0 && out[n-1].t == x.t {
			out[n-1].k += x.k
		} else {
			out = append(out, x)
		}
	}
	var args []*Term
	var coefs []uint64
	for _, x := range out {
		if x.k&m != 0 {
			args = append(args, x.t)
			coefs = append(coefs, x.k&m)
		}
	}
	cnst &= m
	if len(args) == 0 {
		return c.Const(w, cnst)
	}
	if len(args) == 1 && coefs[0] == 1 && cnst == 0 {
		return args[0]
	}
	return c.mk(OLin, w, cnst, "", args, coefs)
}

func (c *Ctx) Add(a, b *Term) *Term { return c.linAdd(a, b, 1, 0) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.linAdd(a, b, mask(a.w), 0) }
func (c *Ctx) AddC(a *Term, k int64) *Term {
	return c.linAdd(a, c.Const(a.w, 0), 1, uint64(k))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val*b.val)
		}
		return c.linAdd(c.Const(a.w, 0), a, b.val, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) Div(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		switch op {
		case OUdiv:
			return c.Const(w, a.val/b.val)
		case OUrem:
			return c.Const(w, a.val%b.val)
		case OSdiv:
			if sx(b.val, w) == -1 {
				return c.Const(w, -a.val)
			}
			return c.Const(w, uint64(sx(a.val, w)/sx(b.val, w)))
		case OSrem:
			if sx(b.val, w) == -1 {
				return c.Const(w, 0)
			}
			return c.Const(w, uint64(sx(a.val, w)%sx(b.val, w)))
		}
	}
	half := uint64(1) << (w - 1)
	if (op == OSdiv || op == OSrem) && a.hi < half && b.hi < half {
		if op == OSdiv {
			op = OUdiv
		} else {
			op = OUrem
		}
	}
	if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 && (op == OUdiv || op == OUrem) {
		s := bits.TrailingZeros64(b.val)
		if op == OUdiv {
			return c.Lshr(a, c.Const(w, uint64(s)))
		}
		return c.BAnd(a, c.Const(w, b.val-1))
	}
	return c.mk(op, w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// low mask that keeps every possible bit of a
		n := bits.Len64(a.hi)
		if n < 64 && b.val&((uint64(1)<<n)-1) == (uint64(1)<<n)-1 {
			return a
		}
		if a.op == OZext {
			in := a.args[0]
			return c.Zext(c.BAnd(in, c.Const(in.w, b.val)), a.w)
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.BAnd(a.args[1], b), c.BAnd(a.args[2], b))
		}
		if a.op == OBAnd && a.args[1].isConst() {
			return c.BAnd(a.args[0], c.Const(a.w, b.val&a.args[1].val))
		}
		if a.w >= 8 {
			if r := c.simple(c.piecesOf(a).mask(b.val), a.w); r != nil {
				return r
			}
		}
		return c.mk(OBAnd, a.w, 0, "", []*Term{a, b}, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, a.w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
		return c.mk(OBOr, a.w, 0, "", []*Term{a, b}, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.w >= 8 {
		if r := c.simple(c.piecesOf(a).join(c.piecesOf(b)), a.w); r != nil {
			return r
		}
	}
	return c.mk(OBOr, a.w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		if a.isConst() {
			return c.Const(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) { // ~a = -a-1
			return c.linAdd(c.Const(a.w, 0), a, mask(a.w), mask(a.w))
		}
		return c.mk(OBXor, a.w, 0, "", []*Term{a, b}, nil)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBXor, a.w, 0, "", []*Term{a, b}, nil)
}

// Shifts: b has the same width as a (callers saturate).
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val >= uint64(w) {
			return c.Const(w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return c.Const(w, a.val<<b.val)
		}
		if a.op == OLin {
			return c.linAdd(c.Const(w, 0), a, uint64(1)<<b.val, 0)
		}
		if a.op == OShl && a.args[1].isConst() {
			return c.Shl(a.args[0], c.Const(w, a.args[1].val+b.val))
		}
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(OShl, w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val >= uint64(w) {
			return c.Const(w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			return c.Const(w, a.val>>b.val)
		}
		if a.hi>>b.val == 0 {
			return c.Const(w, 0)
		}
		if a.op == OLshr && a.args[1].isConst() {
			return c.Lshr(a.args[0], c.Const(w, a.args[1].val+b.val))
		}
		if a.op == OZext && b.val < uint64(a.args[0].w) {
			in := a.args[0]
			return c.Zext(c.Lshr(in, c.Const(in.w, b.val)), w)
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Lshr(a.args[1], b), c.Lshr(a.args[2], b))
		}
	}
	if b.isConst() && w >= 8 && (a.op == OBOr || a.op == OShl || a.op == OBXor || a.op == OBAnd || a.op == OLin) {
		if r := c.simple(c.piecesOf(a).crop(uint8(b.val), 64, 0), w); r != nil {
			return r
		}
	}
	return c.mk(OLshr, w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.w
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			s := b.val
			if s >= uint64(w) {
				s = uint64(w) - 1
			}
			return c.Const(w, uint64(sx(a.val, w)>>s))
		}
		if a.hi < uint64(1)<<(w-1) {
			return c.Lshr(a, b)
		}
		if a.lo >= uint64(1)<<(w-1) && b.val >= uint64(w)-1 {
			return c.Const(w, mask(w))
		}
		if b.val >= uint64(w) {
			b = c.Const(w, uint64(w)-1)
		}
	}
	return c.mk(OAshr, w, 0, "", []*Term{a, b}, nil)
}

func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.val>>lo)
	}
	switch a.op {
	case OZext, OSext:
		in := a.args[0]
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		if a.op == OZext && lo == 0 {
			return c.Zext(in, w)
		}
		if a.op == OZext && lo >= in.w {
			return c.Const(w, 0)
		}
		if a.op == OSext && lo == 0 {
			return c.Sext(in, w)
		}
	case OExtract:
		return c.Extract(a.args[0], uint8(a.val)+lo, w)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], lo, w), c.Extract(a.args[2], lo, w))
		}
	case OBAnd:
		if lo == 0 {
			return c.BAnd(c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w))
		}
	case OBOr:
		return c.BOr(c.Extract(a.args[0], lo, w), c.Extract(a.args[1], lo, w))
	case OLshr:
		if a.args[1].isConst() {
			s := a.args[1].val
			if uint64(lo)+s+uint64(w) <= uint64(a.w) {
				return c.Extract(a.args[0], lo+uint8(s), w)
			}
		}
	case OShl:
		if a.args[1].isConst() {
			s := a.args[1].val
			if uint64(lo) >= s {
				return c.Extract(a.args[0], lo-uint8(s), w)
			}
			if uint64(lo)+uint64(w) <= s {
				return c.Const(w, 0)
			}
			if lo == 0 {
				return c.Shl(c.Extract(a.args[0], 0, w), c.Const(w, s))
			}
		}
	case OLin:
		if lo == 0 {
			r := c.Const(w, a.val)
			for i, x := range a.args {
				r = c.linAdd(r, c.Extract(x, 0, w), a.coefs[i], 0)
			}
			return r
		}
	}
	if w >= 8 {
		if r := c.simple(c.piecesOf(a).crop(lo, w, 0), w); r != nil {
			return r
		}
	}
	return c.mk(OExtract, w, uint64(lo), "", []*Term{a}, nil)
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, 0, w)
	}
	if a.isConst() {
		return c.Const(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	// zext(extract(x,0,k)) = x when x is known to fit
	if a.op == OExtract && a.val == 0 && a.args[0].hi <= mask(a.w) {
		return c.Zext(a.args[0], w)
	}
	if a.op == OLin {
		if r := c.zextLin(a, w); r != nil {
			return r
		}
	}
	return c.mk(OZext, w, 0, "", []*Term{a}, nil)
}

// zextLin widens a sum that is known not to leave its narrow range.
func (c *Ctx) zextLin(a *Term, w uint8) *Term {
	if a.w > 32 {
		return nil
	}
	m := int64(mask(a.w))
	half := m/2 + 1
	lo, hi := int64(0), int64(0)
	for i, x := range a.args {
		k := int64(a.coefs[i])
		if k >= half {
			k -= m + 1
		}
		if k > 1<<20 || k < -(1<<20) {
			return nil
		}
		if k > 0 {
			lo += k * int64(x.lo)
			hi += k * int64(x.hi)
		} else {
			lo += k * int64(x.hi)
			hi += k * int64(x.lo)
		}
	}
	for _, k0 := range []int64{int64(a.val), int64(a.val) - m - 1} {
		if lo+k0 < 0 || hi+k0 > m {
			continue
		}
		r := c.Const(w, uint64(k0))
		for i, x := range a.args {
			k := int64(a.coefs[i])
			if k >= half {
				k -= m + 1
			}
			r = c.linAdd(r, c.Zext(x, w), uint64(k)&mask(w), 0)
		}
		return r
	}
	return nil
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return c.Zext(a, w)
	}
	if a.lo >= uint64(1)<<(a.w-1) {
		ones := mask(w) &^ mask(a.w)
		if z := c.Zext(a, w); z.op == OLin {
			return c.linAdd(z, c.Const(w, ones), 1, 0)
		} else {
			return c.BOr(z, c.Const(w, ones))
		}
	}
	return c.mk(OSext, w, 0, "", []*Term{a}, nil)
}

func (c *Ctx) Narrow(t *Term, bits uint8) *Term {
	if t.op == ONarrow {
		t = t.args[0]
	}
	if t.hi <= mask(bits) {
		return t
	}
	return c.mk(ONarrow, t.w, uint64(bits), "", []*Term{t}, nil)
}

// unNarrow resolves two narrowings of one term to the wider one.
func unNarrow(a, b *Term) (*Term, bool) {
	x, y := a, b
	if x.op == ONarrow {
		x = x.args[0]
	}
	if y.op == ONarrow {
		y = y.args[0]
	}
	if x != y {
		return nil, false
	}
	if a.hi > b.hi {
		return a, true
	}
	return b, true
}

func (c *Ctx) Select(arr string, w uint8, idx *Term) *Term {
	if _, ok := c.arrays[arr]; !ok {
		c.arrays[arr] = w
	}
	return c.mk(OSelect, w, 0, arr, []*Term{idx}, nil)
}

// ---- evaluation under a concrete environment ----

type Env struct {
	vars  map[string]uint64
	arrs  map[string]map[uint64]uint64
	cache map[int]uint64
}

func (c *Ctx) Eval(t *Term, e *Env) uint64 {
	if e.cache == nil {
		e.cache = map[int]uint64{}
	}
	if v, ok := e.cache[t.id]; ok {
		return v
	}
	var v uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev := func(i int) uint64 { return c.Eval(t.args[i], e) }
	w := t.w
	switch t.op {
	case OConst:
		v = t.val
	case OVar:
		if x, ok := e.vars[t.name]; ok {
			v = x
		} else if t.dflt != nil {
			v = c.Eval(t.dflt, e)
		} else {
			v = t.lo
		}
	case ONot:
		v = 1 - ev(0)
	case OAnd:
		v = 1
		for i := range t.args {
			if ev(i) == 0 {
				v = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if ev(i) == 1 {
				v = 1
				break
			}
		}
	case OIte:
		if ev(0) == 1 {
			v = ev(1)
		} else {
			v = ev(2)
		}
	case OEq:
		v = b2u(ev(0) == ev(1))
	case OUlt:
		v = b2u(ev(0) < ev(1))
	case OSlt:
		aw := t.args[0].w
		v = b2u(sx(ev(0), aw) < sx(ev(1), aw))
	case OLin:
		v = t.val
		for i := range t.args {
			v += t.coefs[i] * ev(i)
		}
	case OMul:
		v = ev(0) * ev(1)
	case OUdiv:
		if b := ev(1); b == 0 {
			v = mask(w)
		} else {
			v = ev(0) / b
		}
	case OUrem:
		if b := ev(1); b == 0 {
			v = ev(0)
		} else {
			v = ev(0) % b
		}
	case OSdiv, OSrem:
		a, b := sx(ev(0), w), sx(ev(1), w)
		if b == 0 || b == -1 {
			if t.op == OSdiv {
				v = uint64(-a)
			}
		} else if t.op == OSdiv {
			v = uint64(a / b)
		} else {
			v = uint64(a % b)
		}
	case OBAnd:
		v = ev(0) & ev(1)
	case OBOr:
		v = ev(0) | ev(1)
	case OBXor:
		v = ev(0) ^ ev(1)
	case OShl:
		if s := ev(1); s < 64 {
			v = ev(0) << s
		}
	case OLshr:
		if s := ev(1); s < 64 {
			v = ev(0) >> s
		}
	case OAshr:
		s := ev(1)
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		v = uint64(sx(ev(0), w) >> s)
	case OExtract:
		v = ev(0) >> t.val
	case ONarrow:
		v = ev(0) & mask(uint8(t.val))
	case OZext:
		v = ev(0)
	case OFp:
		b := uint64(0)
		if len(t.args) > 1 {
			b = ev(1)
		}
		v = fpEval(int(t.val), t.args[0].w, w, ev(0), b)
	case OSext:
		v = uint64(sx(ev(0), t.args[0].w))
	case OSelect:
		v = e.arrs[t.name][ev(0)]
	}
	if w > 0 {
		v &= mask(w)
	}
	e.cache[t.id] = v
	return v
}

// ---- printing ----

func smtName(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

func bvConst(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// Script renders assertions as an SMT-LIB script (declarations, shared
// definitions, assertions) without check-sat.
type Script struct {
	c    *Ctx
	sb   *strings.Builder
	done map[int]bool
	decl map[string]bool
}

func (c *Ctx) NewScript() *Script {
	return &Script{c: c, sb: &strings.Builder{}, done: map[int]bool{}, decl: map[string]bool{}}
}

func (s *Script) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvConst(t.val, t.w)
	case OVar:
		return smtName(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// Define emits everything t depends on.
func (s *Script) Define(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.done[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !s.done[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.emit(f.t)
		s.done[f.t.id] = true
		st = st[:len(st)-1]
	}
}

func (s *Script) emit(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		fmt.Fprintf(s.sb, "(declare-const %s %s)\n", smtName(t.name), sortName(pw(t)))
		return
	case OSelect:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(s.sb, "(declare-const %s (Array (_ BitVec %d) (_ BitVec %d)))\n", smtName(t.name), idxW, t.w)
		}
	}
	p := pw(t)
	fmt.Fprintf(s.sb, "(define-fun t%d () %s %s)\n", t.id, sortName(p), s.body(t))
}

func (s *Script) Assert(t *Term) {
	s.Define(t)
	fmt.Fprintf(s.sb, "(assert %s)\n", s.ref(t))
}

var opNames = []string{"const", "var", "not", "and", "or", "ite", "=", "<u", "<s", "lin", "*", "/u", "%u", "/s", "%s", "&", "|", "^", "<<", ">>u", ">>s", "extract", "zext", "sext", "narrow", "select"}

// Show prints t to the given depth.
func (c *Ctx) Show(t *Term, depth int) string {
	switch t.op {
	case OConst:
		return fmt.Sprint(t.val)
	case OVar:
		return t.name
	}
	if depth == 0 {
		return fmt.Sprintf("#%d[%d..%d]", t.id, t.lo, t.hi)
	}
	s := "(" + opNames[t.op]
	if t.op == OLin {
		s += fmt.Sprintf(" %d", sx(t.val, t.w))
	}
	for i, a := range t.args {
		s += " "
		if t.coefs != nil {
			s += fmt.Sprintf("%d*", sx(t.coefs[i], t.w))
		}
		s += c.Show(a, depth-1)
	}
	return s + ")"
}
