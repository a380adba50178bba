//go:build go1.21

package h

import (
	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// Unknown: records of unknown fields survive a mutation byte for byte, in
// order, and readers do not see them.
func Unknown() {
	k := vrt.Param("k")
	x := newBld(k, vrt.Param("pay"))
	f, _ := x.fields()
	var m low
	x.decoded(&m)
	old := append([]byte(nil), m.buf...)
	w := x.last(roleF)
	if w >= 0 && x.rs[w].typ != tVarint && x.rs[w].typ != tBytes {
		return
	}
	any := false
	for i := range x.rs {
		any = any || x.rs[i].role == roleUnknown
	}
	if !any {
		return
	}
	if w < 0 {
		vrt.Assert(zeropb.GetBytes(m.buf, m.off(), f) == nil, "an unknown field is not taken for a known one")
		vrt.Assert(zeropb.GetUint64(m.buf, m.off(), f) == 0, "an unknown field is not taken for a known one")
	}
	if rep := vrt.Choose("rep", 0, 1) == 1; rep || w >= 0 && x.rs[w].typ == tBytes {
		size, prefix := x.size(w), x.prefix(w)
		if rep {
			size = -1
		}
		pay, ok := anyPay("new", vrt.Param("new"), size, prefix)
		if !ok {
			return
		}
		if rep {
			zeropb.AppendBytes(&m.buf, m.off(), repA, pay)
			vrt.Reach("appended")
		} else {
			zeropb.SetBytes(&m.buf, m.off(), f, pay)
			vrt.Reach("payload set")
		}
	} else {
		raw, ok := anyRaw(kUint64)
		if !ok {
			return
		}
		zeropb.SetUint64(&m.buf, m.off(), f, raw)
		vrt.Reach("number set")
	}
	rs, ok, full := scan(m.buf, k+1)
	vrt.Assert(ok && full, "the encoding is well-formed")
	j := 0
	for i := range x.rs {
		if x.rs[i].role != roleUnknown {
			continue
		}
		// the next record in the new encoding whose field is unknown
		for j < len(rs) && !(rs[j].used && rs[j].field >= uint64(nf())) {
			j++
		}
		if j == len(rs) {
			vrt.Assert(false, "an unknown record is kept")
			return
		}
		a := old[x.rs[i].start:x.rs[i].end]
		b := m.buf[rs[j].start:rs[j].end]
		sameBytes(b, a, recSpace+vrt.Param("pay"), "an unknown record is kept byte for byte")
		j++
	}
	for ; j < len(rs); j++ {
		vrt.Assert(!rs[j].used || rs[j].field < uint64(nf()), "no unknown record is added")
	}
}
