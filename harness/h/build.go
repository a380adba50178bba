//go:build go1.21

package h

import "github.com/danhhz/zeropb/zzverif/vrt"

// bld builds an encoded message record by record. The shape (tag lengths, wire
// types, length of every varint) is chosen value by value; field ids, values,
// payload lengths and payload contents are symbolic.
type bld struct {
	b    []byte
	rs   []rec
	f, g int
	pays [][]byte // payload of every record, nil unless it is a bytes record
}

// space is the most a built message can take besides its payloads.
const recSpace = 40

func newBld(k, maxPay int) *bld {
	return &bld{b: make([]byte, 0, (k+2)*(recSpace+maxPay))}
}

// anyVarint is an arbitrary value that fits a varint of n bytes.
func anyVarint(name string, n int) uint64 {
	if n < 10 {
		return uint64(vrt.Int(vrt.N(name, n), 0, 1<<uint(7*n)-1))
	}
	return vrt.U64(vrt.N(name, n))
}

// putVarint appends v as a varint of exactly n bytes, padded if need be.
func (x *bld) putVarint(v uint64, n int) {
	if n < 10 {
		vrt.Assume(v < 1<<uint(7*n))
	}
	for i := 0; i < n-1; i++ {
		x.b = append(x.b, byte(v>>uint(7*i))|0x80)
	}
	x.b = append(x.b, byte(v>>uint(7*(n-1))))
}

func (x *bld) putRaw(v uint64, n int) {
	for i := 0; i < n; i++ {
		x.b = append(x.b, byte(v>>uint(8*i)))
	}
}

// Roles a record can have: it belongs to field f, to field g, to another
// singular field, to a field the schema does not know (all of them symbolic
// and different), to the repeated bytes field repA, or to the repeated repB.
const (
	roleF = iota
	roleG
	roleOther
	roleUnknown
	roleRep
	roleRepB
)

// fields declares the fields f and g. They are between 1 and 5; in wide runs f
// is 16 or 17, whose tag takes two bytes.
func (x *bld) fields() (f, g int) {
	lo, hi := 1, repA-1
	if vrt.Param("wide") == 1 {
		lo, hi = 16, nf()-1
	}
	x.f, x.g = vrt.Int("f", lo, hi), vrt.Int("g", 1, repA-1)
	vrt.Distinct(x.f, x.g)
	return x.f, x.g
}

// tag appends the tag of record i.
func (x *bld) tag(i int, role, typ, tagLen int) (field int) {
	switch role {
	case roleF:
		field = x.f
	case roleG:
		field = x.g
	case roleOther:
		field = vrt.Int(vrt.N("other", i), 1, repA-1)
		vrt.Distinct(field, x.f)
		vrt.Distinct(field, x.g)
	case roleRep:
		field = repA
	case roleRepB:
		field = repB
	default:
		max := 1<<61 - 1
		if tagLen < 10 {
			max = 1<<uint(7*tagLen-3) - 1
		}
		if max < nf() {
			vrt.Assume(false)
		}
		field = vrt.Int(vrt.N(vrt.N("unknown", i), tagLen), nf(), max)
	}
	x.putVarint(uint64(field)<<3|uint64(typ), tagLen)
	return field
}

// Record shapes: varints of every length, the fixed widths, bytes with length
// prefixes of 1 and 2 bytes and padded ones.
func (x *bld) record(i, maxTag, maxVarint, maxPrefix, maxPay int) {
	r := rec{used: true, start: len(x.b)}
	var p []byte
	role := x.role(i)
	big := vrt.Param("fixpay") == 2 && i == vrt.Param("bigAt")
	if role == roleRep || big {
		r.typ = tBytes
	} else if r.typ = vrt.Choose(vrt.N("type", i), 0, 3); r.typ == 3 {
		r.typ = tFix32
	}
	tl := vrt.Choose(vrt.N("taglen", i), 1, maxTag)
	r.field = uint64(x.tag(i, role, r.typ, tl))
	r.role = role
	r.val = len(x.b)
	switch r.typ {
	case tVarint:
		r.plen = vrt.Choose(vrt.N("varlen", i), 1, maxVarint)
		if vrt.Param("varlens")>>uint(r.plen)&1 == 0 {
			vrt.Assume(false)
		}
		r.v = anyVarint(vrt.N("value", i), r.plen)
		x.putVarint(r.v, r.plen)
	case tFix32:
		r.v = uint64(vrt.U32(vrt.N("value32", i)))
		x.putRaw(r.v, 4)
	case tFix64:
		r.v = vrt.U64(vrt.N("value64", i))
		x.putRaw(r.v, 8)
	case tBytes:
		r.plen = vrt.Choose(vrt.N("prefix", i), 1, maxPrefix)
		if max := 1<<uint(7*r.plen) - 1; maxPay > max {
			maxPay = max
		}
		if vrt.Param("fixpay") >= 2 {
			n := 3
			if big {
				n = anyLarge(vrt.N("paylen", i))
				vrt.Assume(r.plen == 3)
			}
			p = vrt.Bytes(vrt.N(vrt.N("payload", i), n), n, n, n)
		} else if vrt.Param("fixpay") == 1 {
			n := [...]int{0, 1, 2, 126, 127, 128, 129}[vrt.Choose(vrt.N("paylen", i), 0, 6)]
			vrt.Assume(n <= maxPay)
			p = vrt.Bytes(vrt.N(vrt.N("payload", i), n), n, n, n)
		} else {
			p = vrt.Bytes(vrt.N(vrt.N("payload", i), r.plen), 0, maxPay, maxPay)
		}
		r.v = uint64(len(p))
		x.putVarint(r.v, r.plen)
		x.b = append(x.b, p...)
	}
	r.end = len(x.b)
	x.rs = append(x.rs, r)
	x.pays = append(x.pays, p)
}

// role is the role of record i: one of a range or, if roles is given, the
// digit i+1 of that.
func (x *bld) role(i int) int {
	if d := vrt.Param("roles"); d > 0 {
		for j := vrt.Param("k") - 1; j > i; j-- {
			d /= 10
		}
		return d % 10
	}
	return vrt.Choose(vrt.N("role", i), vrt.Param("roleLo"), vrt.Param("roleHi"))
}

// anyLarge is a payload length. With one of them in front, what follows starts
// below, at and beyond byte 65535, the largest an offset table's array takes.
func anyLarge(name string) int {
	switch n := vrt.Choose(name, 0, vrt.Param("near")+1); n {
	case 0:
		return 17000
	case 1:
		return 70000
	default:
		return 65524 + n
	}
}

// last is the index of the last record with the given role, or -1.
func (x *bld) last(role int) int {
	w := -1
	for i := range x.rs {
		if x.rs[i].role == role {
			w = i
		}
	}
	return w
}

// records appends the k records described by the run's parameters.
func (x *bld) records() {
	k := vrt.Param("k")
	for i := 0; i < k; i++ {
		x.record(i, vrt.Param("tag"), 10, vrt.Param("prefix"), vrt.Param("pay"))
	}
}
