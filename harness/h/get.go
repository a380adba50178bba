//go:build go1.21

package h

import (
	"math"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// Kinds of accessors.
const (
	kBool = iota
	kInt32
	kInt64
	kUint32
	kUint64
	kSint32
	kSint64
	kFix32
	kFix64
	kSfix32
	kSfix64
	kFloat
	kDouble
	kString
	kBytes
	nKinds
)

func kindType(k int) int {
	switch k {
	case kFix32, kSfix32, kFloat:
		return tFix32
	case kFix64, kSfix64, kDouble:
		return tFix64
	case kString, kBytes:
		return tBytes
	}
	return tVarint
}

// getNum calls the accessor for numeric kind k; the result is widened the way
// Go widens the accessor's type.
func getNum(k int, buf []byte, off zeropb.Offsets, f int) uint64 {
	switch k {
	case kBool:
		if zeropb.GetBool(buf, off, f) {
			return 1
		}
		return 0
	case kInt32:
		return uint64(zeropb.GetInt32(buf, off, f))
	case kInt64:
		return uint64(zeropb.GetInt64(buf, off, f))
	case kUint32:
		return uint64(zeropb.GetUint32(buf, off, f))
	case kUint64:
		return zeropb.GetUint64(buf, off, f)
	case kSint32:
		return uint64(zeropb.GetZigZagInt32(buf, off, f))
	case kSint64:
		return uint64(zeropb.GetZigZagInt64(buf, off, f))
	case kFix32:
		return uint64(zeropb.GetFixedUint32(buf, off, f))
	case kFix64:
		return zeropb.GetFixedUint64(buf, off, f)
	case kSfix32:
		return uint64(zeropb.GetFixedInt32(buf, off, f))
	case kSfix64:
		return uint64(zeropb.GetFixedInt64(buf, off, f))
	case kFloat:
		return uint64(math.Float32bits(zeropb.GetFloat32(buf, off, f)))
	case kDouble:
		return math.Float64bits(zeropb.GetFloat64(buf, off, f))
	}
	return 0
}

// numOf is what kind k means by the wire value v.
func numOf(k int, v uint64) uint64 {
	switch k {
	case kBool:
		if v != 0 {
			return 1
		}
		return 0
	case kInt32, kSfix32:
		return uint64(int64(int32(uint32(v))))
	case kUint32, kFix32, kFloat:
		return uint64(uint32(v))
	case kSint32:
		return uint64(int64(int32(zigzag(v))))
	case kSint64:
		return uint64(zigzag(v))
	}
	return v
}

// GetScalar: every numeric accessor returns the last value the message holds
// for the field, or zero.
func GetScalar() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, _ := x.fields()
	x.records()
	var m low
	err := m.decode(x.b)
	vrt.Assert(err == nil, "a well-formed message is accepted")
	w := x.last(roleF)
	var v uint64
	typ := -1
	if w >= 0 {
		typ = x.rs[w].typ
		v = x.rs[w].v
		vrt.Reach("present")
	} else {
		vrt.Reach("absent")
	}
	for kind := 0; kind < kString; kind++ {
		if typ == -1 || kindType(kind) == typ {
			got := getNum(kind, x.b, m.off(), f)
			vrt.Assert(got == numOf(kind, v), "the accessor returns the last value of the field")
		}
	}
}
