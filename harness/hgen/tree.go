//go:build go1.21

package hgen

import (
	"errors"
	"strconv"

	"github.com/danhhz/zeropb/generate"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

var errFirst, errLater = errors.New("first"), errors.New("later")

// sink is a writer that fails at a chosen call, and with another error at
// every later one. A failing call may have taken a part of its argument.
type sink struct {
	b            []byte
	calls        int
	failAt       int
	keep         int
	failed       bool
	later        bool
	afterFailure int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.failed {
		s.afterFailure++
		return 0, errLater
	}
	if s.calls == s.failAt {
		s.failed = true
		n := s.keep
		if n > len(p) {
			n = len(p)
		}
		s.b = append(s.b, p[:n]...)
		return n, errFirst
	}
	s.calls++
	s.b = append(s.b, p...)
	return len(p), nil
}

type text string

func (t text) String() string { return string(t) }

// ptext has a pointer receiver.
type ptext struct{ s string }

func (t *ptext) String() string { return t.s }

// Tree: a template's output is the concatenation of its parts.
func Tree() {
	k, n := vrt.Param("k"), vrt.Param("n")
	w := &sink{failAt: -1}
	if f := vrt.Choose("fail", 0, k); f < k {
		w.failAt = f
		w.keep = vrt.Choose("keep", 0, 1)
	}
	step := vrt.Choose("stop", 0, 2)
	indent := vrt.Str(vrt.N("indent", step), step, step)
	st := generate.NewStringTree(w, indent)
	var want []byte
	parts := make([]interface{}, 0, k)
	split := vrt.Choose("split", 0, 1) == 1
	for i := 0; i < k; i++ {
		var p interface{}
		var s string
		switch kind := vrt.Choose(vrt.N("kind", i), 0, 5); kind {
		case 0:
			d := vrt.Choose(vrt.N("depth", i), 0, vrt.Param("depth"))
			in := generate.StringTreeIndent(0)
			for j := 0; j < d; j++ {
				in = in.Next()
				s += indent
			}
			p = in
		case 5:
			d := vrt.Choose(vrt.N("digits", i), 0, vrt.Param("digs"))
			lo := 1
			for j := 1; j < d; j++ {
				lo *= 10
			}
			hi := lo*10 - 1
			if hi > 1<<31-1 {
				hi = 1<<31 - 1
			}
			var v int
			switch {
			case d == 0:
			case vrt.Choose(vrt.N("neg", i), 0, 1) == 1:
				v = vrt.Int(vrt.N(vrt.N("negative", i), d), -hi, -lo)
			default:
				v = vrt.Int(vrt.N(vrt.N("number", i), d), lo, hi)
			}
			v32 := int32(v)
			p, s = v32, strconv.Itoa(int(v32))
		default:
			l := vrt.Choose(vrt.N("len", i), 0, n)
			s = vrt.Str(vrt.N(vrt.N("text", i), l), l, l)
			switch kind {
			case 1:
				p = []byte(s)
			case 2:
				p = s
			case 3:
				p = text(s)
			case 4:
				p = &ptext{s}
			}
		}
		want = append(want, s...)
		parts = append(parts, p)
		if split {
			st.Write(parts...)
			parts = parts[:0]
		}
	}
	if !split {
		st.Write(parts...)
	}
	if w.failed {
		vrt.Reach("failed")
		vrt.Assert(st.Error() == errFirst, "the first error is reported")
		vrt.Assert(w.afterFailure == 0, "nothing is written after an error")
		vrt.Assert(len(w.b) <= len(want) && string(w.b) == string(want[:len(w.b)]), "what was written is the beginning of the text")
		return
	}
	vrt.Reach("written")
	vrt.Assert(st.Error() == nil, "no error is reported without one")
	vrt.Assert(string(w.b) == string(want), "the output is the concatenation of the parts")
}
