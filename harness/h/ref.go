//go:build go1.21

// Package h holds the harnesses over the runtime library and the generated
// messages. They use the public API only.
package h

import (
	"encoding/binary"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// Wire types.
const (
	tVarint = 0
	tFix64  = 1
	tBytes  = 2
	tFix32  = 5
)

// maxFields is the largest offset table of low.
const maxFields = 20

// nf is the size of the offset table of low: field ids 0..nf-1.
func nf() int {
	if vrt.Param("wide") == 1 {
		return 18
	}
	return 8
}

// Field ids 6 and 7 of low are repeated.
const repA, repB = 6, 7

var lowRepeated = zeropb.RepeatedFields{repA: struct{}{}, repB: struct{}{}}

// low is a message without generated accessors, built like the generated ones.
type low struct {
	buf []byte
	a   [maxFields]uint16
	m   map[int]uint64
}

func (x *low) off() zeropb.Offsets { return zeropb.WrapOffsets(x.a[:nf()], &x.m) }

func (x *low) decode(buf []byte) error {
	x.buf = buf
	return zeropb.Decode(buf, x.off(), lowRepeated)
}

// rec is one record of a message: a tag and a value.
type rec struct {
	used  bool
	start int // of the tag
	role  int
	field uint64
	typ   int
	val   int // position of the value
	plen  int // varint length, or length of the length prefix of a bytes value
	v     uint64
	end   int
}

// refVarint decodes a varint: n is 0 if the input ends early and negative if
// the value does not fit 64 bits. The standard library is trusted here.
func refVarint(b []byte, p int) (v uint64, n int) { return binary.Uvarint(b[p:]) }

// refRecord is the reference parser of one record at p.
func refRecord(b []byte, p int) (r rec, ok bool) {
	tag, n := refVarint(b, p)
	if n <= 0 {
		return r, false
	}
	r.used = true
	r.start = p
	r.field = tag >> 3
	r.typ = int(tag & 7)
	r.val = p + n
	switch r.typ {
	case tVarint:
		v, n := refVarint(b, r.val)
		if n <= 0 {
			return r, false
		}
		r.v, r.plen, r.end = v, n, r.val+n
	case tFix32, tFix64:
		w := 4
		if r.typ == tFix64 {
			w = 8
		}
		if len(b)-r.val < w {
			return r, false
		}
		r.end = r.val + w
	case tBytes:
		v, n := refVarint(b, r.val)
		if n <= 0 || v > uint64(len(b)-r.val-n) {
			return r, false
		}
		r.v, r.plen, r.end = v, n, r.val+n+int(v)
	default:
		return r, false
	}
	return r, true
}

// scan parses up to k records; full reports that they are all there is.
func scan(b []byte, k int) (rs []rec, ok, full bool) {
	rs = make([]rec, k)
	p := 0
	for i := 0; i < k; i++ {
		if p == len(b) {
			return rs, true, true
		}
		r, good := refRecord(b, p)
		if !good {
			return rs, false, true
		}
		rs[i] = r
		p = r.end
	}
	return rs, true, p == len(b)
}

// lastOf is the last record of field f, if any.
func lastOf(rs []rec, f uint64) (r rec) {
	for i := range rs {
		if rs[i].used && rs[i].field == f {
			r = rs[i]
		}
	}
	return r
}

// first is the first record of field f, if any.
func first(rs []rec, f uint64) (r rec) {
	for i := len(rs) - 1; i >= 0; i-- {
		if rs[i].used && rs[i].field == f {
			r = rs[i]
		}
	}
	return r
}

func le32(b []byte, p int) uint32 {
	return uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24
}

func le64(b []byte, p int) uint64 {
	return uint64(le32(b, p)) | uint64(le32(b, p+4))<<32
}

func zigzag(v uint64) int64 { return int64(v>>1) ^ -int64(v&1) }
