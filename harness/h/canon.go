//go:build go1.21

package h

import (
	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// putMin appends the minimal varint of v.
func (x *bld) putMin(v uint64) {
	for v >= 0x80 {
		x.b = append(x.b, byte(v)|0x80)
		v >>= 7
	}
	x.b = append(x.b, byte(v))
}

// sparse is a message with many field numbers.
type sparse struct {
	buf []byte
	a   []uint16
	m   map[int]uint64
}

func (x *sparse) off() zeropb.Offsets { return zeropb.WrapOffsets(x.a, &x.m) }

// emptyBuf is an empty buffer: nil, or with some or much capacity.
func emptyBuf(max int) []byte {
	switch vrt.Choose("empty", 0, 2) {
	case 1:
		return make([]byte, 0, 3)
	case 2:
		return make([]byte, 0, recSpace+max)
	}
	return nil
}

// Canonical: a value set into an empty message is encoded as specified. The
// tag takes 1 to maxtag bytes.
func Canonical() {
	tl := vrt.Choose("taglen", 1, vrt.Param("maxtag"))
	lo, hi := 1, 1<<uint(7*tl-3)-1
	if tl > 1 {
		lo = 1 << uint(7*(tl-1)-3)
	}
	if max := vrt.Param("maxfield"); hi > max {
		hi = max
	}
	f := vrt.Int(vrt.N("f", tl), lo, hi)
	m := sparse{a: make([]uint16, vrt.Param("maxfield")+1), buf: emptyBuf(vrt.Param("new"))}
	want := newBld(1, vrt.Param("new"))
	kind := vrt.Choose("kind", 0, nKinds-1)
	want.putVarint(uint64(f)<<3|uint64(kindType(kind)), tl)
	if kindType(kind) == tBytes {
		pay, ok := anyPay("new", vrt.Param("new"), -1, 0)
		if !ok {
			return
		}
		want.putMin(uint64(len(pay)))
		want.b = append(want.b, pay...)
		switch {
		case kind == kString:
			zeropb.SetString(&m.buf, m.off(), f, string(pay))
		case vrt.Choose("rep", 0, 1) == 1:
			zeropb.AppendBytes(&m.buf, m.off(), f, pay)
		default:
			zeropb.SetBytes(&m.buf, m.off(), f, pay)
		}
		vrt.Reach("payload")
	} else {
		raw, ok := anyRaw(kind)
		if !ok {
			return
		}
		switch v := wireOf(kind, raw); kindType(kind) {
		case tVarint:
			want.putMin(v)
		case tFix32:
			want.putRaw(v, 4)
		case tFix64:
			want.putRaw(v, 8)
		}
		setNum(kind, &m.buf, m.off(), f, raw)
		vrt.Reach("number")
	}
	sameBytes(m.buf, want.b, recSpace+vrt.Param("new"), "the canonical encoding is written")
}

// Sparse: fields of any number are set, replaced and read back. Field f has a
// tag of maxtag bytes, field g one of a single byte.
func Sparse() {
	n, tl := vrt.Param("maxfield"), vrt.Param("maxtag")
	f := vrt.Int("f", 1<<uint(7*(tl-1)-3), n)
	g := vrt.Int("g", 1, 15)
	vrt.Distinct(f, g)
	m := sparse{a: make([]uint16, n+1)}
	v := uint64(vrt.U32("gval"))
	set := func(name string) []byte {
		p := vrt.Bytes(name, 0, 100, 100)
		zeropb.SetBytes(&m.buf, m.off(), f, p)
		return p
	}
	first := vrt.Choose("first", 0, 1) == 1
	if first {
		zeropb.SetFixedUint32(&m.buf, m.off(), g, uint32(v))
	}
	set("old")
	if !first {
		zeropb.SetFixedUint32(&m.buf, m.off(), g, uint32(v))
	}
	p := set("new")
	sameBytes(zeropb.GetBytes(m.buf, m.off(), f), p, 100, "the field reads as set")
	vrt.Assert(uint64(zeropb.GetFixedUint32(m.buf, m.off(), g)) == v, "the other field is unchanged")
	vrt.Assert(len(m.buf) == 1+4+tl+1+len(p), "nothing else is left in the encoding")
	vrt.Reach("done")
}
