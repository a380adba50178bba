package main

import "math/bits"

// A term built from masks, constant shifts, extractions and disjoint ORs is a
// sequence of bit ranges of other terms. Recognising that lets a value that
// was split into bytes and put together again simplify to itself.

type piece struct {
	base *Term
	src  uint8 // first bit taken from base
	n    uint8 // number of bits
	dst  uint8 // where they go
}

type pieces struct {
	k  uint64 // constant bits
	ps []piece
}

const maxPieces = 12

func (c *Ctx) piecesOf(t *Term) *pieces {
	if p, ok := c.pieceMemo[t.id]; ok {
		return p
	}
	p := c.computePieces(t)
	if p == nil || len(p.ps) > maxPieces {
		p = &pieces{ps: []piece{{t, 0, pw(t), 0}}}
	}
	c.pieceMemo[t.id] = p
	return p
}

func (c *Ctx) computePieces(t *Term) *pieces {
	switch t.op {
	case OConst:
		return &pieces{k: t.val}
	case ONarrow:
		return c.piecesOf(t.args[0]).crop(0, uint8(t.val), 0)
	case OZext:
		return c.piecesOf(t.args[0])
	case OExtract:
		return c.piecesOf(t.args[0]).crop(uint8(t.val), t.w, 0)
	case OLshr:
		if b := t.args[1]; b.isConst() && b.val < 64 {
			return c.piecesOf(t.args[0]).crop(uint8(b.val), 64, 0)
		}
	case OShl:
		if b := t.args[1]; b.isConst() && b.val < uint64(t.w) {
			return c.piecesOf(t.args[0]).crop(0, t.w-uint8(b.val), uint8(b.val))
		}
	case OBAnd:
		if t.args[1].isConst() {
			return c.piecesOf(t.args[0]).mask(t.args[1].val)
		}
	case OLin:
		// a sum of shifted terms that do not overlap
		if p := (&pieces{k: t.val}); len(t.args) <= maxPieces {
			for i, a := range t.args {
				co := t.coefs[i]
				if co == 0 || co&(co-1) != 0 {
					return nil
				}
				k := uint8(bits.TrailingZeros64(co))
				if p = p.join(c.piecesOf(a).crop(0, t.w-k, k)); p == nil {
					return nil
				}
			}
			return p
		}
	case OBOr, OBXor:
		if k := t.args[1]; t.op == OBOr && k.isConst() {
			p := c.piecesOf(t.args[0]).mask(^k.val)
			p.k |= k.val
			return p
		}
		return c.piecesOf(t.args[0]).join(c.piecesOf(t.args[1]))
	}
	return nil
}

// crop keeps the n bits from lo on and moves them to to.
func (p *pieces) crop(lo, n, to uint8) *pieces {
	if n > 64 {
		n = 64
	}
	r := &pieces{k: ((p.k >> lo) & mask(n)) << to}
	for _, x := range p.ps {
		a, b := max(int(x.dst), int(lo)), min(int(x.dst)+int(x.n), int(lo)+int(n))
		if a >= b {
			continue
		}
		d := a - int(x.dst)
		r.ps = append(r.ps, piece{x.base, x.src + uint8(d), uint8(b - a), uint8(a-int(lo)) + to})
	}
	return r
}

func (p *pieces) mask(m uint64) *pieces {
	r := &pieces{k: p.k & m}
	for i := 0; i < 64; {
		if m>>i&1 == 0 {
			i++
			continue
		}
		j := i
		for j < 64 && m>>j&1 == 1 {
			j++
		}
		r.ps = append(r.ps, p.crop(uint8(i), uint8(j-i), uint8(i)).ps...)
		i = j
	}
	return r
}

func (p *pieces) bits() uint64 {
	b := p.k
	for _, x := range p.ps {
		b |= mask(x.n) << x.dst
	}
	return b
}

// join is the OR of operands with disjoint bits, nil if they overlap.
func (p *pieces) join(q *pieces) *pieces {
	if p.bits()&q.bits() != 0 {
		return nil
	}
	r := &pieces{k: p.k | q.k}
	i, j := 0, 0
	for i < len(p.ps) || j < len(q.ps) {
		var x piece
		if j == len(q.ps) || i < len(p.ps) && p.ps[i].dst < q.ps[j].dst {
			x = p.ps[i]
			i++
		} else {
			x = q.ps[j]
			j++
		}
		if n := len(r.ps); n > 0 {
			l := &r.ps[n-1]
			if l.base == x.base && l.src+l.n == x.src && l.dst+l.n == x.dst {
				l.n += x.n
				continue
			}
		}
		r.ps = append(r.ps, x)
	}
	return r
}

// simple returns the canonical term for p at width w when p is a constant or a
// single range of bits.
func (c *Ctx) simple(p *pieces, w uint8) *Term {
	if p == nil {
		return nil
	}
	if len(p.ps) == 0 {
		return c.Const(w, p.k)
	}
	if len(p.ps) != 1 || p.k != 0 {
		return nil
	}
	x := p.ps[0]
	if x.src != 0 || x.dst != 0 {
		return nil
	}
	b := x.base
	if x.n < pw(b) {
		if x.n == b.w {
			// the whole of b
		} else {
			b = c.mk(OExtract, x.n, 0, "", []*Term{b}, nil)
		}
	}
	switch {
	case b.w == w:
		return b
	case b.w < w:
		return c.mk(OZext, w, 0, "", []*Term{b}, nil)
	}
	return c.mk(OExtract, w, 0, "", []*Term{b}, nil)
}

func bitsOp(t *Term) bool {
	return t.op == OBOr || t.op == OShl || t.op == OLshr || t.op == OBAnd || t.op == OLin
}

func (p *pieces) same(q *pieces) bool {
	if p.k != q.k || len(p.ps) != len(q.ps) {
		return false
	}
	for i := range p.ps {
		if p.ps[i] != q.ps[i] {
			return false
		}
	}
	return true
}
