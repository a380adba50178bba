//go:build go1.21

package h

import (
	"github.com/danhhz/zeropb/golden/testzeropb"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

// sub is the content of a sub-message.
type sub struct {
	n     int64
	s     []byte
	hasN  bool
	hasS  bool
	hasEl bool
}

func anySub(m *testzeropb.TestMessage, name string, max int) (c sub) {
	shape := vrt.Choose(name+"shape", 0, 7)
	c.hasN, c.hasS, c.hasEl = shape&1 != 0, shape&2 != 0, shape&4 != 0
	if c.hasN {
		n := vrt.Choose(name+"vlen", 0, 2)
		lo, hi := varintRange([...]int{1, 3, 9}[n])
		c.n = int64(vrt.Int(vrt.N(name+"n", n), lo, hi))
		m.SetInt64(c.n)
	}
	if c.hasEl {
		var e testzeropb.TestMessage
		m.AppendToMessages(e)
	}
	if c.hasS {
		c.s = vrt.Bytes(name+"s", 0, max, max)
		m.SetByteArray(c.s)
	}
	return c
}

func checkSub(m *testzeropb.TestMessage, c sub, max int, label string) {
	vrt.Assert(m.Int64() == c.n, label)
	vrt.Assert((m.ByteArray() != nil) == c.hasS, label)
	sameBytes(m.ByteArray(), c.s, max, label)
	it := m.Messages()
	var e testzeropb.TestMessage
	ok, err := it.Next(&e)
	vrt.Assert(ok == c.hasEl && err == nil, label)
	if c.hasEl {
		vrt.Assert(len(e.Encode()) == 0, label)
		ok, err = it.Next(&e)
		vrt.Assert(!ok && err == nil, label)
	}
	vrt.Assert(m.Uint32() == 0 && m.String() == "", label)
}

// Nested: sub-messages survive being set, appended, read and decoded again.
func Nested() {
	max := vrt.Param("pay")
	var p, s testzeropb.TestMessage
	before := vrt.Choose("before", 0, 3)
	if before&1 != 0 {
		p.SetFixed64(7)
	}
	if before&2 != 0 {
		var o testzeropb.TestMessage
		o.SetString("old")
		p.SetMessage(o)
	}
	c := anySub(&s, "sub", max)
	app := vrt.Choose("append", 0, 1) == 1
	var out testzeropb.TestMessage
	ok, err := p.Message(&out)
	vrt.Assert(ok == (before&2 != 0) && err == nil, "an absent sub-message is reported as absent")
	var el testzeropb.TestMessage
	el.SetUint32(9)
	if app {
		p.AppendToMessages(el)
		p.AppendToMessages(s)
	} else {
		p.SetMessage(s)
	}
	p.SetFixed32(5) // something behind it
	for round := 0; round < 2; round++ {
		if round == 1 {
			b := p.Encode()
			p = testzeropb.TestMessage{}
			vrt.Assert(p.Decode(b[:len(b):len(b)]) == nil, "the encoding decodes")
		}
		var q testzeropb.TestMessage
		if app {
			it := p.Messages()
			ok, err := it.Next(&q)
			vrt.Assert(ok && err == nil && q.Uint32() == 9, "the first element is kept")
			ok, err = it.Next(&q)
			vrt.Assert(ok && err == nil, "the element is found")
			checkSub(&q, c, max, "the element reads as appended")
			ok, err = it.Next(&q)
			vrt.Assert(!ok && err == nil, "the iteration ends")
			vrt.Reach("appended")
		} else {
			ok, err := p.Message(&q)
			vrt.Assert(ok && err == nil, "a sub-message that was set is present")
			checkSub(&q, c, max, "the sub-message reads as set")
			vrt.Reach("set")
		}
		vrt.Assert(p.Fixed32() == 5, "the parent's other fields are unchanged")
		vrt.Assert(before&1 == 0 || p.Fixed64() == 7, "the parent's other fields are unchanged")
	}
}

// Grow: a sub-message read from a message grows without touching the message.
func Grow() {
	max := vrt.Param("pay")
	var p, s testzeropb.TestMessage
	c := anySub(&s, "sub", max)
	el := vrt.Choose("append", 0, 1) == 1
	if el {
		p.AppendToMessages(s)
	} else {
		p.SetMessage(s)
	}
	p.SetFixed32(5)
	p.AppendToMessages(s)
	b := p.Encode()
	if vrt.Choose("full", 0, 1) == 1 {
		b = b[:len(b):len(b)]
	}
	vrt.Assert(p.Decode(b) == nil, "the encoding decodes")
	old := append([]byte(nil), b...)
	var q testzeropb.TestMessage
	it := p.Messages()
	if el {
		it.Next(&q)
	} else {
		p.Message(&q)
	}
	q.SetFixed64(vrt.U64("v"))
	switch vrt.Choose("then", 0, 2) {
	case 0:
		q.SetByteArray(vrt.Bytes("more", max+1, max+8, max+8))
	case 1:
		q.AppendToMessages(q)
	case 2:
		q.SetSfixed32(1)
	}
	sameBytes(p.Encode(), old, 2*recSpace+2*max, "the parent keeps its bytes")
	if el {
		it = p.Messages()
		it.Next(&q)
	} else {
		p.Message(&q)
	}
	checkSub(&q, c, max, "the sub-message in the parent is unchanged")
	vrt.Assert(p.Fixed32() == 5, "the parent's other fields are unchanged")
	vrt.Reach("grown")
}
