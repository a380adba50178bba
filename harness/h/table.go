//go:build go1.21

package h

import (
	"math"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

const nTab = 5

// Table: Get returns what was last Set. The table starts in any state that
// satisfies its invariant: a field is in the map exactly if the array says so.
func Table() {
	a := vrt.U16s("a", nTab)
	var mp map[int]uint64
	if vrt.Choose("map", 0, 1) == 1 {
		mp = make(map[int]uint64)
	}
	var pos [nTab]uint64
	for i := range a {
		pos[i] = uint64(a[i])
		if a[i] == math.MaxUint16 {
			vrt.Assume(mp != nil)
			pos[i] = uint64(vrt.Int(vrt.N("in map", i), math.MaxUint16, math.MaxInt64))
			mp[i] = pos[i]
		}
	}
	off := zeropb.WrapOffsets(a, &mp)
	for op := 0; op < vrt.Param("ops"); op++ {
		switch vrt.Choose(vrt.N("op", op), 0, 1) {
		case 0:
			f := vrt.Int(vrt.N("f", op), 0, nTab-1)
			p := uint64(vrt.Int(vrt.N("p", op), 1, math.MaxInt64))
			off.Set(f, p)
			pos[f] = p
			vrt.Reach("set")
		case 1:
			off.Clear()
			pos = [nTab]uint64{}
			vrt.Reach("cleared")
		}
		for i := range a {
			p, ok := off.Get(i)
			vrt.Assert(ok == (pos[i] != 0), "a field is present exactly if it was stored")
			vrt.Assert(!ok || p == pos[i], "the position is the one stored last")
		}
	}
}

// dirty fills m's table for fields 1, 2 and repA with any state that satisfies
// the table's invariant.
func (m *low) dirty() {
	u := vrt.U16s("old", nf())
	if vrt.Choose("oldmap", 0, 1) == 1 {
		m.m = make(map[int]uint64)
	}
	for _, i := range [...]int{1, 2, repA} {
		m.a[i] = u[i]
		if m.m != nil && vrt.Choose(vrt.N("oldbig", i), 0, 1) == 1 {
			m.a[i] = math.MaxUint16
			m.m[i] = uint64(vrt.Int(vrt.N("old", i), math.MaxUint16, 1<<40))
		} else {
			vrt.Assume(u[i] != math.MaxUint16)
		}
	}
}

func (x *bld) sameState(m, n *low, label string) {
	vrt.Assert(len(m.buf) == len(n.buf), label)
	sameBytes(m.buf, n.buf, (vrt.Param("k")+1)*(recSpace+vrt.Param("pay")), label)
	for id := 1; id < nf(); id++ {
		p, ok := m.off().Get(id)
		q, qk := n.off().Get(id)
		vrt.Assert(ok == qk && p == q, label)
	}
}

// Reuse: a used message that decodes new bytes behaves like a new one.
func Reuse() {
	x := newBld(vrt.Param("k"), vrt.Param("pay"))
	f, _ := x.fields()
	x.records()
	var m, n low
	m.dirty()
	b := append([]byte(nil), x.b...)
	if err := m.decode(b); err != nil {
		vrt.Assert(false, "a used message accepts what a new one accepts")
	}
	n.decode(x.b[:len(x.b):len(x.b)])
	x.sameState(&m, &n, "a reused message agrees with a new one")
	w := x.last(roleF)
	if vrt.Param("noset") == 1 || w >= 0 && x.rs[w].typ != tVarint {
		vrt.Reach("decoded")
		return
	}
	vrt.Reach("decoded and set")
	raw, ok := anyRaw(kUint64)
	if !ok {
		return
	}
	setNum(kUint64, &m.buf, m.off(), f, raw)
	setNum(kUint64, &n.buf, n.off(), f, raw)
	x.sameState(&m, &n, "a reused message agrees with a new one after setting a field")
}
