//go:build go1.21

package h

import (
	"math"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// GetPayload: the string and bytes accessors return the payload of the field's
// last record, in place.
func GetPayload() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, _ := x.fields()
	var m low
	x.decoded(&m)
	w := x.last(roleF)
	if w >= 0 && x.rs[w].typ != tBytes {
		return
	}
	s, b := zeropb.GetString(m.buf, m.off(), f), zeropb.GetBytes(m.buf, m.off(), f)
	if w < 0 {
		vrt.Reach("absent")
		vrt.Assert(b == nil && s == "", "an absent field reads as empty")
		return
	}
	vrt.Reach("present")
	vrt.Assert(b != nil, "a present bytes field is not nil")
	sameBytes(b, x.pays[w], vrt.Param("pay"), "the bytes accessor returns the payload")
	sameBytes([]byte(s), x.pays[w], vrt.Param("pay"), "the string accessor returns the payload")
	if n := int(x.rs[w].v); n > 0 && len(b) == n && len(s) == n {
		// a change to the message's memory shows
		i := vrt.Int("i", 0, vrt.Param("pay")-1)
		if i < n {
			p := x.rs[w].val + x.rs[w].plen + i
			old := m.buf[p]
			m.buf[p] = old ^ 1
			vrt.Assert(b[i] == old^1, "the bytes accessor shares the message's memory")
			vrt.Assert(s[i] == old^1, "the string accessor shares the message's memory")
		}
	}
}

// Reads calls every accessor of the wire type of field g, and iterates the
// repeated field.
func (x *bld) reads(m *low, g int, wg int) {
	typ := -1
	if wg >= 0 {
		typ = x.rs[wg].typ
	}
	for kind := 0; kind < kString; kind++ {
		if typ == -1 || kindType(kind) == typ {
			getNum(kind, m.buf, m.off(), g)
		}
	}
	if typ == -1 || typ == tBytes {
		zeropb.GetString(m.buf, m.off(), g)
		zeropb.GetBytes(m.buf, m.off(), g)
	}
	next := zeropb.GetRepeatedNonPacked(m.buf, m.off(), repA)
	for i := 0; i <= len(x.rs)+1; i++ {
		next, _ = zeropb.FindNextField(next, repA)
	}
}

// ReadOnly: reading changes neither the bytes nor the bookkeeping.
func ReadOnly() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	_, g := x.fields()
	var m low
	x.decoded(&m)
	wg := x.last(roleG)
	if wg >= 0 {
		vrt.Reach("present")
	} else {
		vrt.Reach("absent")
	}
	n := len(m.buf)
	old := append([]byte(nil), m.buf...)
	vrt.Freeze("reading modifies the message")
	x.reads(&m, g, wg)
	vrt.Thaw()
	vrt.Assert(len(m.buf) == n, "reading keeps the message's length")
	sameBytes(m.buf, old, vrt.Param("k")*(recSpace+vrt.Param("pay")), "reading keeps the message's bytes")
	x.fresh(&m)
	x.checkOther(wg, m.buf, m.off(), g, "reading again gives the same answer")
	x.checkRepeated(m.buf, m.off(), nil, 0, "iterating again gives the same elements")
}

// NoAlloc: decoding, reading, and mutating with room to spare do not allocate.
func NoAlloc() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, g := x.fields()
	x.records()
	if vrt.Param("fixpay") == 2 && len(x.b) >= math.MaxUint16 {
		return // too long
	}
	var m low
	if vrt.Param("dirty") == 1 {
		m.dirty()
	}
	a0 := vrt.Allocs()
	err := m.decode(x.b)
	a1 := vrt.Allocs()
	vrt.Assert(err == nil, "a well-formed message is accepted")
	vrt.Assert(a0 == a1, "decoding does not allocate")
	if vrt.Param("dirty") == 1 {
		vrt.Reach("decoded into a used message")
		return
	}
	a1 = vrt.Allocs()
	x.reads(&m, g, x.last(roleG))
	a2 := vrt.Allocs()
	vrt.Assert(a1 == a2, "reading does not allocate")
	w := x.last(roleF)
	kind := vrt.Choose("kind", vrt.Param("kLo"), vrt.Param("kHi"))
	if w >= 0 && x.rs[w].typ != kindType(kind) {
		return
	}
	if kindType(kind) == tBytes {
		pay, ok := anyPay("new", vrt.Param("new"), x.size(w), x.prefix(w))
		if !ok {
			return
		}
		if vrt.Param("fixpay") == 2 && len(m.buf)+recSpace+len(pay) >= math.MaxUint16 {
			return // would become too long
		}
		s := string(pay)
		rep := vrt.Choose("rep", 0, 1)
		a3 := vrt.Allocs()
		if kind == kString {
			zeropb.SetString(&m.buf, m.off(), f, s)
		} else if rep == 1 {
			zeropb.AppendBytes(&m.buf, m.off(), repA, pay)
		} else {
			zeropb.SetBytes(&m.buf, m.off(), f, pay)
		}
		a4 := vrt.Allocs()
		vrt.Assert(a3 == a4, "setting or appending with room to spare does not allocate")
		vrt.Reach("payload")
		return
	}
	raw, ok := anyRaw(kind)
	if !ok {
		return
	}
	if vrt.Param("fixpay") == 2 && len(m.buf)+recSpace >= math.MaxUint16 {
		return // would become too long
	}
	a3 := vrt.Allocs()
	setNum(kind, &m.buf, m.off(), f, raw)
	a4 := vrt.Allocs()
	vrt.Assert(a3 == a4, "setting with room to spare does not allocate")
	vrt.Reach("number")
}
