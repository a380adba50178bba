//go:build go1.21

package h

import (
	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// DecodeTotal: decoding any bytes returns, without panicking and without
// touching the input.
func DecodeTotal() {
	n := vrt.Param("n")
	buf := vrt.Bytes("buf", 0, n, n)
	old := append([]byte(nil), buf...)
	vrt.Freeze("the buffer being decoded is modified")
	var m testzeropb.TestMessage
	err := m.Decode(buf)
	vrt.Thaw()
	vrt.Assert(len(m.Encode()) == len(buf), "the message keeps the buffer")
	sameBytes(buf, old, n, "the buffer being decoded is unchanged")
	if err == nil {
		vrt.Reach("accepted")
	} else {
		vrt.Reach("rejected")
	}
}

// DecodeExact: exactly the well-formed messages are accepted. Field number 0
// is left open.
func DecodeExact() {
	n, k := vrt.Param("n"), vrt.Param("k")
	buf := vrt.Bytes("buf", 0, n, n)
	rs, ok, full := scan(buf, k)
	vrt.Assume(full)
	for i := range rs {
		vrt.Assume(!rs[i].used || rs[i].field != 0)
	}
	var x low
	err := x.decode(buf)
	if ok {
		vrt.Reach("well-formed")
	} else {
		vrt.Reach("malformed")
	}
	vrt.Assert((err == nil) == ok, "Decode accepts exactly the well-formed messages")
}

// overflow appends a varint that does not fit 64 bits.
func (x *bld) overflow(name string) {
	for i := 0; i < 9; i++ {
		x.b = append(x.b, vrt.U8(vrt.N(name, i))|0x80)
	}
	x.b = append(x.b, byte(vrt.Int(name+".last", 2, 255)))
	// what follows the tenth byte does not matter
	x.b = append(x.b, vrt.Bytes(name+".rest", 2, 2, 2)...)
}

// DecodeTail: k well-formed records are accepted, and rejected if what follows
// them is malformed in any of the ways there are.
func DecodeTail() {
	k := vrt.Param("k")
	x := newBld(k, vrt.Param("pay"))
	x.fields()
	x.records()
	bad := true
	typ := vrt.Choose("type", 0, 3)
	if typ == 3 {
		typ = tFix32
	}
	switch vrt.Choose("tail", 0, 7) {
	case 0:
		bad = false
		vrt.Reach("well-formed")
	case 1: // the last record is cut somewhere
		if k == 0 {
			return
		}
		r := x.rs[k-1]
		p := r.start + vrt.Choose("cut", 1, 12)
		if p >= r.val+r.plen && r.typ == tBytes || p >= r.end {
			return
		}
		x.b = x.b[:p]
		vrt.Reach("cut")
	case 2: // a payload is cut
		if k == 0 {
			return
		}
		r := x.rs[k-1]
		if r.typ != tBytes {
			return
		}
		q := vrt.Int(vrt.N("cut payload", r.plen), 0, vrt.Param("pay"))
		vrt.Assume(q < int(r.v))
		x.b = x.b[:r.val+r.plen+q]
		vrt.Reach("payload cut")
	case 3: // an unknown wire type
		t := vrt.Choose("badtype", 3, 7)
		if t == tFix32 {
			return
		}
		x.tag(k, vrt.Choose("tailrole", 0, 5), t, 2)
		x.b = append(x.b, vrt.Bytes("rest", 9, 9, 9)...)
		vrt.Reach("bad type")
	case 4: // a tag that overflows
		x.overflow("tag")
		vrt.Reach("tag overflow")
	case 5: // a value or length that overflows
		if typ != tVarint && typ != tBytes {
			return
		}
		x.tag(k, vrt.Choose("tailrole", 0, 5), typ, 2)
		x.overflow("val")
		vrt.Reach("value overflow")
	case 6: // a tag that overflows by being too long
		x.b = append(x.b, 0x88, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80)
		x.b = append(x.b, vrt.Bytes("long", 2, 2, 2)...)
		vrt.Reach("tag too long")
	case 7: // a length that exceeds the input by any amount
		pl := vrt.Choose("length", 1, 10)
		x.tag(k, vrt.Choose("tailrole", 0, 5), tBytes, 2)
		v := anyVarint(vrt.N("len", pl), pl)
		n := vrt.Choose("left", 0, 3)
		vrt.Assume(v > uint64(n))
		x.putVarint(v, pl)
		x.b = append(x.b, vrt.Bytes(vrt.N("left bytes", n), n, n, n)...)
		vrt.Reach("length too large")
	}
	var m low
	err := m.decode(x.b)
	vrt.Assert((err != nil) == bad, "Decode accepts exactly the well-formed messages")
}

// Hostile: reading whatever Decode accepted does not panic, stays inside the
// input and ends.
func Hostile() {
	n, k := vrt.Param("n"), vrt.Param("k")
	buf := vrt.Bytes("buf", 0, n, n)
	var m low
	if m.decode(buf) != nil {
		return
	}
	rs, ok, full := scan(buf, k)
	if full && !ok {
		m.lenient()
		return
	}
	if !full {
		return
	}
	f := vrt.Int("f", 1, repA-1)
	r := lastOf(rs, uint64(f))
	kind := vrt.Choose("kind", 0, nKinds-1)
	if !r.used || r.typ == kindType(kind) {
		vrt.Reach("read")
		switch kind {
		case kString:
			vrt.Assert(uint64(len(zeropb.GetString(m.buf, m.off(), f))) == r.v, "a value lies inside the input")
		case kBytes:
			b := zeropb.GetBytes(m.buf, m.off(), f)
			vrt.Assert(uint64(len(b)) == r.v && cap(b) <= len(b), "a value lies inside the input")
		default:
			getNum(kind, m.buf, m.off(), f)
		}
	}
	els := 0
	for i := range rs {
		if rs[i].used && rs[i].field == repA {
			if rs[i].typ != tBytes {
				return
			}
			els++
		}
	}
	next := zeropb.GetRepeatedNonPacked(m.buf, m.off(), repA)
	for i := 0; i <= k; i++ {
		var el []byte
		next, el = zeropb.FindNextField(next, repA)
		vrt.Assert((el != nil) == (i < els), "iteration yields the elements and ends")
		if el == nil {
			break
		}
		vrt.Assert(cap(el) <= len(el), "an element lies inside the input")
	}
	vrt.Reach("iterated")
}

// lenient reads a malformed message that Decode accepted nevertheless (none is
// today): nothing is known about the values, but reading them must be safe.
func (m *low) lenient() {
	f := vrt.Int("f", 1, repA-1)
	if b := zeropb.GetBytes(m.buf, m.off(), f); b != nil {
		vrt.Assert(cap(b) <= len(b), "a value lies inside the input")
	}
	next := zeropb.GetRepeatedNonPacked(m.buf, m.off(), repA)
	for i := 0; i <= len(m.buf); i++ {
		var el []byte
		next, el = zeropb.FindNextField(next, repA)
		if el == nil {
			return
		}
		vrt.Assert(cap(el) <= len(el), "an element lies inside the input")
	}
	vrt.Assert(false, "iteration ends")
}

// HostileBuilt: reading a message of any shape does not panic, stays inside
// its bytes and ends. Records of the field read carry its wire type, all
// others carry any.
func HostileBuilt() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, _ := x.fields()
	var m low
	x.decoded(&m)
	w := x.last(roleF)
	typ := -1
	if w >= 0 {
		typ = x.rs[w].typ
	}
	kind := vrt.Choose("kind", vrt.Param("kLo"), vrt.Param("kHi"))
	if typ >= 0 && kindType(kind) != typ {
		return
	}
	if w >= 0 {
		vrt.Reach("read")
	}
	switch kind {
	case kString:
		s := zeropb.GetString(m.buf, m.off(), f)
		vrt.Assert(s == "" || vrt.StrInside(s, m.buf), "a value lies inside the input")
	case kBytes:
		b := zeropb.GetBytes(m.buf, m.off(), f)
		vrt.Assert(cap(b) <= len(b), "a value lies inside the input")
	default:
		getNum(kind, m.buf, m.off(), f)
	}
	next := zeropb.GetRepeatedNonPacked(m.buf, m.off(), repA)
	els := 0
	for i := range x.rs {
		if x.rs[i].role == roleRep {
			els++
		}
	}
	for i := 0; i <= els; i++ {
		var el []byte
		next, el = zeropb.FindNextField(next, repA)
		vrt.Assert((el != nil) == (i < els), "iteration yields the elements and ends")
		vrt.Assert(el == nil || cap(el) <= len(el), "an element lies inside the input")
	}
	vrt.Reach("iterated")
}
