//go:build go1.21

package h

import (
	"math"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// setNum calls the setter for numeric kind k.
func setNum(k int, buf *[]byte, off zeropb.Offsets, f int, raw uint64) {
	switch k {
	case kBool:
		zeropb.SetBool(buf, off, f, raw&1 == 1)
	case kInt32:
		zeropb.SetInt32(buf, off, f, int32(raw))
	case kInt64:
		zeropb.SetInt64(buf, off, f, int64(raw))
	case kUint32:
		zeropb.SetUint32(buf, off, f, uint32(raw))
	case kUint64:
		zeropb.SetUint64(buf, off, f, raw)
	case kSint32:
		zeropb.SetZigZagInt32(buf, off, f, int32(raw))
	case kSint64:
		zeropb.SetZigZagInt64(buf, off, f, int64(raw))
	case kFix32:
		zeropb.SetFixedUint32(buf, off, f, uint32(raw))
	case kFix64:
		zeropb.SetFixedUint64(buf, off, f, raw)
	case kSfix32:
		zeropb.SetFixedInt32(buf, off, f, int32(raw))
	case kSfix64:
		zeropb.SetFixedInt64(buf, off, f, int64(raw))
	case kFloat:
		zeropb.SetFloat32(buf, off, f, math.Float32frombits(uint32(raw)))
	case kDouble:
		zeropb.SetFloat64(buf, off, f, math.Float64frombits(raw))
	}
}

// normOf is the value of kind k made from raw, widened like getNum does.
func normOf(k int, raw uint64) uint64 {
	switch k {
	case kBool:
		return raw & 1
	case kInt32, kSfix32, kSint32:
		return uint64(int64(int32(uint32(raw))))
	case kUint32, kFix32, kFloat:
		return uint64(uint32(raw))
	}
	return raw
}

// wireOf is what the encoding prescribes for the value made from raw.
func wireOf(k int, raw uint64) uint64 {
	v := normOf(k, raw)
	switch k {
	case kSint32, kSint64:
		return v<<1 ^ uint64(int64(v)>>63)
	case kSfix32:
		return uint64(uint32(v))
	}
	return v
}

// readWire reads field g with an accessor for wire type typ; the result is the
// value on the wire (the length for bytes).
func readWire(typ int, buf []byte, off zeropb.Offsets, g int) uint64 {
	switch typ {
	case tVarint:
		return zeropb.GetUint64(buf, off, g)
	case tFix32:
		return uint64(zeropb.GetFixedUint32(buf, off, g))
	case tFix64:
		return zeropb.GetFixedUint64(buf, off, g)
	}
	return uint64(len(zeropb.GetBytes(buf, off, g)))
}

// sameBytes asserts that a and b are equal.
func sameBytes(a, b []byte, max int, label string) {
	vrt.Assert(len(a) == len(b), label+" (length)")
	if max > 0 && len(a) == len(b) && len(a) > 0 {
		j := vrt.Int(vrt.N("j", max), 0, max-1)
		if j < len(a) {
			vrt.Assert(a[j] == b[j], label+" (content)")
		}
	}
}

// What Step verifies.
const (
	wSet   = 1 << iota // the field reads back as set
	wOther             // another field reads as before
	wFresh             // a fresh decode agrees
	wRef               // the reference decoder agrees
	wRep               // a repeated field keeps its elements
)

// decoded builds an arbitrary message in a buffer with or without spare
// capacity and decodes it.
func (x *bld) decoded(m *low) {
	x.records()
	buf := x.b
	if vrt.Choose("full", vrt.Param("fullLo"), vrt.Param("fullHi")) == 1 {
		buf = buf[:len(buf):len(buf)]
	}
	err := m.decode(buf)
	vrt.Assert(err == nil, "a well-formed message is accepted")
}

// Step applies one mutation to an arbitrary decoded message.
func Step() {
	what := vrt.Param("what")
	maxPay, maxNew := vrt.Param("pay"), vrt.Param("new")
	x := newBld(vrt.Param("k"), maxPay)
	f, g := x.fields()
	var m low
	x.decoded(&m)

	// the mutated field
	w := x.last(roleF)
	kind := vrt.Choose("kind", vrt.Param("kLo"), vrt.Param("kHi"))
	if w >= 0 && x.rs[w].typ != kindType(kind) {
		return // the message does not follow the schema
	}
	wg := x.last(roleG) // of the observed field
	raw := uint64(0)
	var pay []byte
	if kindType(kind) == tBytes {
		var ok bool
		if pay, ok = anyPay("new", maxNew, x.size(w), x.prefix(w)); !ok {
			return
		}
		if kind == kString {
			zeropb.SetString(&m.buf, m.off(), f, string(pay))
		} else {
			zeropb.SetBytes(&m.buf, m.off(), f, pay)
		}
	} else {
		var ok bool
		if raw, ok = anyRaw(kind); !ok {
			return
		}
		setNum(kind, &m.buf, m.off(), f, raw)
	}
	if w >= 0 {
		vrt.Reach("replaced")
	} else {
		vrt.Reach("added")
	}

	if vrt.Param("again") == 1 && kindType(kind) == tBytes {
		// and once more
		pay = vrt.Bytes("again", 5, 5, 5)
		zeropb.SetBytes(&m.buf, m.off(), f, pay)
	}

	if what&wSet != 0 {
		x.checkSet(kind, m.buf, m.off(), f, raw, pay, maxNew, "the value set is read back")
	}
	if what&wOther != 0 {
		x.checkOther(wg, m.buf, m.off(), g, "another field is unchanged")
	}
	if what&wRep != 0 {
		x.checkRepeated(m.buf, m.off(), nil, 0, "a repeated field is unchanged")
	}
	if what&wFresh != 0 {
		n := x.fresh(&m)
		x.checkSet(kind, n.buf, n.off(), f, raw, pay, maxNew, "a fresh decode reads the value set")
		if what&wOther != 0 {
			x.checkOther(wg, n.buf, n.off(), g, "a fresh decode reads another field unchanged")
		}
		if what&wRep != 0 {
			x.checkRepeated(n.buf, n.off(), nil, 0, "a fresh decode finds the repeated field unchanged")
		}
	}
	if what&wRef != 0 {
		rs, ok, full := scan(m.buf, vrt.Param("k")+1)
		vrt.Assert(ok && full, "the encoding is well-formed")
		r := lastOf(rs, uint64(f))
		vrt.Assert(r.used && r.typ == kindType(kind), "the reference decoder finds the field")
		if kindType(kind) == tBytes {
			vrt.Assert(r.v == uint64(len(pay)), "the reference decoder finds the length")
		} else {
			vrt.Assert(refValue(m.buf, r) == wireOf(kind, raw), "the reference decoder finds the value")
		}
		if what&wOther != 0 {
			x.refOther(rs, m.buf, g, wg)
		}
	}
}

func (x *bld) refOther(rs []rec, buf []byte, g, wg int) {
	r := lastOf(rs, uint64(g))
	if wg < 0 {
		vrt.Assert(!r.used, "the reference decoder finds no field that was not there")
	} else {
		vrt.Assert(r.used && r.typ == x.rs[wg].typ && refValue(buf, r) == x.rs[wg].v, "the reference decoder finds the other value")
	}
}

// fresh decodes the message's encoding anew: it must succeed and record every
// field in the same place.
func (x *bld) fresh(m *low) *low {
	var n low
	err := n.decode(m.buf)
	vrt.Assert(err == nil, "the encoding decodes")
	for id := 1; id < nf(); id++ {
		p, ok := m.off().Get(id)
		q, qk := n.off().Get(id)
		vrt.Assert(ok == qk && p == q, "a fresh decode finds every field in the same place")
	}
	return &n
}

// checkRepeated iterates repA: it must hold what was put there, followed by
// extra if that is given.
func (x *bld) checkRepeated(buf []byte, off zeropb.Offsets, extra []byte, maxExtra int, label string) {
	next := zeropb.GetRepeatedNonPacked(buf, off, repA)
	var el []byte
	for i := range x.rs {
		if x.rs[i].role != roleRep {
			continue
		}
		next, el = zeropb.FindNextField(next, repA)
		vrt.Assert(el != nil, label)
		sameBytes(el, x.pays[i], vrt.Param("pay"), label)
	}
	if extra != nil {
		next, el = zeropb.FindNextField(next, repA)
		vrt.Assert(el != nil, label)
		sameBytes(el, extra, maxExtra, label)
	}
	next, el = zeropb.FindNextField(next, repA)
	vrt.Assert(el == nil, label)
}

// Append appends an element to the repeated field of an arbitrary decoded
// message.
func Append() {
	what := vrt.Param("what")
	maxNew := vrt.Param("new")
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	_, g := x.fields()
	var m low
	x.decoded(&m)
	wg := x.last(roleG)
	pay, ok := anyPay("new", maxNew, -1, 0)
	if !ok {
		return
	}
	zeropb.AppendBytes(&m.buf, m.off(), repA, pay)
	if len(pay) == 0 {
		vrt.Reach("empty element")
	} else {
		vrt.Reach("element")
	}
	if what&wSet != 0 {
		x.checkRepeated(m.buf, m.off(), pay, maxNew, "the element is added at the end")
	}
	if what&wOther != 0 {
		x.checkOther(wg, m.buf, m.off(), g, "another field is unchanged")
	}
	if what&wFresh != 0 {
		n := x.fresh(&m)
		x.checkRepeated(n.buf, n.off(), pay, maxNew, "a fresh decode finds the element at the end")
	}
	if what&wRef != 0 {
		rs, ok, full := scan(m.buf, vrt.Param("k")+1)
		vrt.Assert(ok && full, "the encoding is well-formed")
		j := 0
		for i := range x.rs {
			if x.rs[i].role == roleRep {
				j++
			}
		}
		for i := range rs {
			if rs[i].used && rs[i].field == repA {
				j--
				vrt.Assert(rs[i].typ == tBytes, "the reference decoder finds elements")
				if j == -1 {
					vrt.Assert(rs[i].v == uint64(len(pay)), "the reference decoder finds the new element")
				}
			}
		}
		vrt.Assert(j == -1, "the reference decoder finds one more element")
		x.refOther(rs, m.buf, g, wg)
	}
}

// Iterate iterates the repeated field of an arbitrary decoded message.
func Iterate() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	x.fields()
	var m low
	x.decoded(&m)
	x.checkRepeated(m.buf, m.off(), nil, 0, "iterating yields the elements in order")
	if x.last(roleRep) >= 0 {
		vrt.Reach("elements")
	} else {
		vrt.Reach("no element")
	}
}

// refValue is the value of r: the number, or the length of a bytes value.
func refValue(b []byte, r rec) uint64 {
	switch r.typ {
	case tFix32:
		return uint64(le32(b, r.val))
	case tFix64:
		return le64(b, r.val)
	}
	return r.v
}

func (x *bld) checkSet(kind int, buf []byte, off zeropb.Offsets, f int, raw uint64, pay []byte, maxNew int, label string) {
	switch kind {
	case kString:
		sameBytes([]byte(zeropb.GetString(buf, off, f)), pay, maxNew, label)
	case kBytes:
		got := zeropb.GetBytes(buf, off, f)
		vrt.Assert(got != nil, label)
		sameBytes(got, pay, maxNew, label)
	default:
		vrt.Assert(getNum(kind, buf, off, f) == normOf(kind, raw), label)
	}
}

func (x *bld) checkOther(wg int, buf []byte, off zeropb.Offsets, g int, label string) {
	if wg < 0 {
		vrt.Assert(zeropb.GetUint64(buf, off, g) == 0, label)
		vrt.Assert(zeropb.GetBytes(buf, off, g) == nil, label)
		return
	}
	typ := x.rs[wg].typ
	vrt.Assert(readWire(typ, buf, off, g) == x.rs[wg].v, label)
	if typ == tBytes {
		got := zeropb.GetBytes(buf, off, g)
		vrt.Assert(got != nil, label)
		sameBytes(got, x.pays[wg], vrt.Param("pay"), label)
	}
}

// varintRange is the range of values whose minimal varint takes n < 10 bytes.
func varintRange(n int) (lo, hi int) {
	hi = 1<<uint(7*n) - 1
	if n == 9 {
		hi = math.MaxInt64
	}
	if n > 1 {
		lo = 1 << uint(7*(n-1))
	}
	return lo, hi
}

// anyRaw is an arbitrary value for kind k. The length of its encoding is
// chosen from the run's set "rawlens" (a bit mask), value by value.
func anyRaw(k int) (raw uint64, ok bool) {
	switch k {
	case kBool:
		return uint64(vrt.Int("rawbool", 0, 1)), true
	case kFix32, kSfix32, kFloat:
		return uint64(vrt.U32("raw32")), true
	case kFix64, kSfix64, kDouble:
		return vrt.U64("raw64"), true
	}
	n := vrt.Choose("rawlen", 1, 10)
	if vrt.Param("rawlens")>>uint(n)&1 == 0 {
		return 0, false
	}
	switch k {
	case kSint32, kSint64:
		neg := vrt.Choose("rawneg", 0, 1)
		lo, hi := 0, math.MaxInt64
		if n < 10 {
			_, hi = varintRange(n)
			hi >>= 1
		}
		if n > 1 {
			lo = 1 << uint(7*(n-1)-1)
		}
		if k == kSint32 && hi > math.MaxInt32 {
			hi = math.MaxInt32
		}
		if lo > hi {
			return 0, false
		}
		v := uint64(vrt.Int(vrt.N(vrt.N("rawzig", n), k), lo, hi))
		if neg == 1 {
			v = -v - 1
		}
		return v, true
	}
	if n == 10 {
		switch k {
		case kUint32:
			return 0, false
		case kInt32:
			return uint64(vrt.Int("rawneg32", 0, 1<<31-1)) | 0xffffffff80000000, true
		}
		return uint64(vrt.Int("raw.10", 0, math.MaxInt64)) | 1<<63, true
	}
	lo, hi := varintRange(n)
	if k == kInt32 && hi > math.MaxInt32 {
		hi = math.MaxInt32
	}
	if k == kUint32 && hi > math.MaxUint32 {
		hi = math.MaxUint32
	}
	if lo > hi {
		return 0, false
	}
	return uint64(vrt.Int(vrt.N(vrt.N("raw", n), k), lo, hi)), true
}

// anyPay is an arbitrary payload of up to max bytes; the length of its prefix
// is chosen. If the record it replaces is of the same wire type, so is whether
// it takes the same space as the old value (old bytes, -1 if there is none).
// Taking the same space with a prefix of another length is left to the runs
// whose payload lengths are fixed.
func anyPay(name string, max, old, oldPrefix int) ([]byte, bool) {
	if vrt.Param("fixpay") == 2 {
		n := vrt.Choose(name+"small", 0, 1) * 5
		if n != 0 {
			n = anyLarge(name + "large")
		}
		return vrt.Bytes(vrt.N(name, n), n, n, n), true
	}
	if vrt.Param("fixpay") == 3 {
		// around the lengths at which the prefix takes another byte
		n := 1<<uint(7*vrt.Choose(name+"width", 1, 3)) - vrt.Choose(name+"below", 0, 1)
		return vrt.Bytes(vrt.N(name, n), n, n, n), true
	}
	p := vrt.Choose(name+"prefix", 1, 3)
	lo, hi := varintRange(p)
	if hi > max {
		hi = max
	}
	if lo > hi {
		return nil, false
	}
	if old < 0 {
		return vrt.Bytes(vrt.N(name, p), lo, hi, hi), true
	}
	if vrt.Choose(name+"same", 0, 1) == 1 {
		if p != oldPrefix && vrt.Param("fixpay") == 0 {
			return nil, false
		}
		n := old - p
		vrt.Assume(lo <= n)
		vrt.Assume(n <= hi)
		return vrt.Bytes(vrt.N(name+"same", p), hi, hi, hi)[:n:n], true
	}
	b := vrt.Bytes(vrt.N(name+"diff", p), lo, hi, hi)
	vrt.Assume(len(b)+p != old)
	return b, true
}

// size is the space the value of record w takes, -1 if there is none.
func (x *bld) size(w int) int {
	if w < 0 {
		return -1
	}
	return x.rs[w].plen + int(x.rs[w].v)
}

func (x *bld) prefix(w int) int {
	if w < 0 {
		return 0
	}
	return x.rs[w].plen
}
