//go:build go1.21

package h

import (
	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// Isolated: appending to a bytes value read from a message, singular or
// element, leaves the message alone.
func Isolated() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, _ := x.fields()
	var m low
	x.decoded(&m)
	w := x.last(roleF)
	var got []byte
	if vrt.Choose("element", 0, 1) == 1 {
		got = zeropb.GetRepeatedNonPacked(m.buf, m.off(), repA)
		_, got = zeropb.FindNextField(got, repA)
		vrt.Reach("element")
	} else {
		if w >= 0 && x.rs[w].typ != tBytes {
			return
		}
		got = zeropb.GetBytes(m.buf, m.off(), f)
		vrt.Reach("field")
	}
	old := append([]byte(nil), m.buf...)
	more := vrt.Bytes("more", 0, 20, 20)
	vrt.Freeze("appending to a value read from the message writes to the message")
	_ = append(got, more...)
	vrt.Thaw()
	sameBytes(m.buf, old, vrt.Param("k")*(recSpace+vrt.Param("pay")), "the message is unchanged")
}

// SelfAlias: setting or appending a value read from the message, or a part of
// it, has the effect of using a private copy.
func SelfAlias() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, g := x.fields()
	var m, n low
	x.decoded(&m)
	n.decode(append(make([]byte, 0, cap(x.b)), x.b...))
	src := g
	if vrt.Choose("same", 0, 1) == 1 {
		src = f
	}
	ws, wf := x.last(roleG), x.last(roleF)
	if src == f {
		ws = wf
	}
	how := vrt.Choose("how", 0, 2)
	if ws < 0 || x.rs[ws].typ != tBytes || how != 2 && wf >= 0 && x.rs[wf].typ != tBytes {
		return
	}
	v := zeropb.GetBytes(m.buf, m.off(), src)
	lo := vrt.Choose("from", 0, 2)
	if lo > 0 {
		if len(v) < lo {
			return
		}
		v = v[lo:]
	}
	private := append([]byte(nil), x.pays[ws][lo:]...)
	switch how {
	case 0:
		zeropb.SetBytes(&m.buf, m.off(), f, v)
		zeropb.SetBytes(&n.buf, n.off(), f, private)
	case 1:
		s := zeropb.GetString(m.buf, m.off(), src)
		zeropb.SetString(&m.buf, m.off(), f, s[lo:])
		zeropb.SetString(&n.buf, n.off(), f, string(private))
	case 2:
		zeropb.AppendBytes(&m.buf, m.off(), repA, v)
		zeropb.AppendBytes(&n.buf, n.off(), repA, private)
	}
	if src == f {
		vrt.Reach("from the field itself")
	} else {
		vrt.Reach("from another field")
	}
	x.sameState(&m, &n, "a value of the message itself is set like a copy of it")
}
