//go:build go1.21

package hgen

import (
	"strconv"

	"github.com/danhhz/zeropb/generate"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

const (
	optional = generate.FieldDescriptorProto_LABEL_OPTIONAL
	required = generate.FieldDescriptorProto_LABEL_REQUIRED
	repeated = generate.FieldDescriptorProto_LABEL_REPEATED
	tMessage = generate.FieldDescriptorProto_TYPE_MESSAGE
)

// simple lists the scalar types: their Go type and accessor suffix.
var simple = []struct {
	typ      generate.FieldDescriptorProto_Type
	goType   string
	accessor string
}{
	{generate.FieldDescriptorProto_TYPE_BOOL, "bool", "Bool"},
	{generate.FieldDescriptorProto_TYPE_INT32, "int32", "Int32"},
	{generate.FieldDescriptorProto_TYPE_INT64, "int64", "Int64"},
	{generate.FieldDescriptorProto_TYPE_UINT32, "uint32", "Uint32"},
	{generate.FieldDescriptorProto_TYPE_UINT64, "uint64", "Uint64"},
	{generate.FieldDescriptorProto_TYPE_SINT32, "int32", "ZigZagInt32"},
	{generate.FieldDescriptorProto_TYPE_SINT64, "int64", "ZigZagInt64"},
	{generate.FieldDescriptorProto_TYPE_FIXED32, "uint32", "FixedUint32"},
	{generate.FieldDescriptorProto_TYPE_FIXED64, "uint64", "FixedUint64"},
	{generate.FieldDescriptorProto_TYPE_SFIXED32, "int32", "FixedInt32"},
	{generate.FieldDescriptorProto_TYPE_SFIXED64, "int64", "FixedInt64"},
	{generate.FieldDescriptorProto_TYPE_DOUBLE, "float64", "Float64"},
	{generate.FieldDescriptorProto_TYPE_FLOAT, "float32", "Float32"},
	{generate.FieldDescriptorProto_TYPE_STRING, "string", "String"},
	{generate.FieldDescriptorProto_TYPE_BYTES, "[]byte", "Bytes"},
	{generate.FieldDescriptorProto_TYPE_ENUM, "uint32", "Uint32"},
}

const nSimple = 16

// anyNumber is a field number of 1 to 9 digits; the number of digits is
// explored separately.
func anyNumber(name string) int32 {
	d := vrt.Choose(name+"digits", vrt.Param("digLo"), vrt.Param("digHi"))
	lo := 1
	for i := 1; i < d; i++ {
		lo *= 10
	}
	hi := lo*10 - 1
	if hi > 1<<29-1 {
		hi = 1<<29 - 1
	}
	return int32(vrt.Int(vrt.N(name, d), lo, hi))
}

// anyIdent is an identifier: a letter of the given case and a character.
func anyIdent(name string, upper bool) string {
	b := make([]byte, 2)
	if upper {
		b[0] = byte(vrt.Int(name+".0", 'A', 'Z'))
	} else {
		b[0] = byte(vrt.Int(name+".0", 'a', 'z'))
	}
	b[1] = byte(vrt.Int(name+".1", 'a', 'z'))
	return string(b)
}

// anyField is a field of any supported type and what its accessors must be.
func anyField(i int, msg string) (f *generate.FieldDescriptorProto, want []string) {
	name := anyIdent(vrt.N("name", i), false)
	num := anyNumber(vrt.N("number", i))
	label := []generate.FieldDescriptorProto_Label{optional, required, repeated}[vrt.Choose(vrt.N("label", i), 0, 2)]
	k := vrt.Choose(vrt.N("type", i), 0, nSimple)
	goName, n := camel(name), strconv.Itoa(int(num))
	if k == nSimple {
		sub := anyIdent(vrt.N("sub", i), true)
		tn := sub
		switch vrt.Choose(vrt.N("scope", i), 0, 2) {
		case 1:
			tn = "." + sub
		case 2:
			tn = ".p." + anyIdent(vrt.N("outer", i), true) + "." + sub
		}
		f = field(name, num, label, tMessage, tn)
		if label != repeated {
			vrt.Reach("message")
			return f, []string{
				"}func (m *" + msg + ") " + goName + "(x *" + sub + ") (bool, error) {buf := zeropb.GetBytes(m.buf, " + offs + ", " + n + ") if buf == nil {return false, nil} return true, x.Decode(buf)}",
				"}func (m *" + msg + ") Set" + goName + "(x " + sub + ") {buf := x.Encode() zeropb.SetBytes(&m.buf, " + offs + ", " + n + ", buf)}",
			}
		}
		vrt.Reach("repeated message")
		it := msg + sub + "Iterator"
		return f, []string{
			"func (i *" + it + ") Next(m *" + sub + ") (bool, error) {var buf []byte *i, buf = zeropb.FindNextField((*i), " + n + ") if buf == nil {return false, nil} return true, m.Decode(buf)}",
			"func (m *" + msg + ") " + goName + "() " + it + " {return " + it + "(zeropb.GetRepeatedNonPacked(m.buf, " + offs + ", " + n + "))}",
			"func (m *" + msg + ") AppendTo" + goName + "(x " + sub + ") {buf := x.Encode() zeropb.AppendBytes(&m.buf, " + offs + ", " + n + ", buf)}",
		}
	}
	s := simple[k]
	f = field(name, num, label, s.typ, "")
	if label == repeated {
		vrt.Reach("repeated simple")
		return f, nil
	}
	vrt.Reach("simple")
	return f, []string{
		"}func (m *" + msg + ") " + goName + "() " + s.goType + " {return zeropb.Get" + s.accessor + "(m.buf, " + offs + ", " + n + ")}",
		"}func (m *" + msg + ") Set" + goName + "(x " + s.goType + ") {zeropb.Set" + s.accessor + "(&m.buf, " + offs + ", " + n + ", x)}",
	}
}

// Fields: every field has the accessors of its own name, number and type. A
// field may stand before or behind another field, and its message before or
// behind another message.
func Fields() {
	msg := anyIdent("msg", true)
	f, want := anyField(0, msg)
	fs := []*generate.FieldDescriptorProto{f}
	where := vrt.Choose("where", 0, vrt.Param("where"))
	g := field("other", 16, optional, generate.FieldDescriptorProto_TYPE_FIXED64, "")
	h := field("some", 1, repeated, tMessage, ".p.Some")
	ms := make([]*generate.DescriptorProto, 0, 2)
	switch where {
	case 0:
	case 1:
		fs = []*generate.FieldDescriptorProto{f, g}
	case 2:
		fs = []*generate.FieldDescriptorProto{g, f}
	case 3:
		fs = []*generate.FieldDescriptorProto{h, f}
	case 4:
		ms = append(ms, message("Another", h, g))
	}
	ms = append(ms, message(msg, fs...))
	if where == 5 {
		ms = append(ms, message("Another", h, g))
	}
	s := squeeze(content(file("a.proto", "p", ms...)))
	for _, w := range want {
		vrt.Assert(has(s, w), "the accessors carry the field's name, type and number")
	}
	const og = "(m.buf, " + offs + ", 16)}"
	switch where {
	case 1, 2:
		vrt.Assert(has(s, "}func (m *"+msg+") Other() uint64 {return zeropb.GetFixedUint64"+og), "the other field keeps its accessors")
	case 4, 5:
		vrt.Assert(has(s, "}func (m *Another) Other() uint64 {return zeropb.GetFixedUint64"+og), "the other message keeps its accessors")
	}
	vrt.Reach("done")
}

// Tables: the position table has room for the largest field number, and
// exactly the repeated fields are registered.
func Tables() {
	k := vrt.Param("k")
	num := make([]int32, k)
	fs := make([]*generate.FieldDescriptorProto, 0, k)
	var rep []string
	var max int32
	for i := 0; i < k; i++ {
		num[i] = anyNumber(vrt.N("number", i))
		for j := 0; j < i; j++ {
			vrt.Assume(num[j] != num[i])
		}
		if num[i] > max {
			max = num[i]
		}
		label := vrt.Choose(vrt.N("label", i), 0, 2)
		typ, tn := generate.FieldDescriptorProto_TYPE_INT32, ""
		switch vrt.Choose(vrt.N("type", i), 0, 2) {
		case 1:
			typ, tn = tMessage, ".p.S"
		case 2:
			typ = generate.FieldDescriptorProto_TYPE_STRING
		}
		fs = append(fs, field("f", num[i], []generate.FieldDescriptorProto_Label{optional, required, repeated}[label], typ, tn))
		if label == 2 {
			rep = append(rep, strconv.Itoa(int(num[i]))+":struct{}{},")
		}
	}
	ms := make([]*generate.DescriptorProto, 0, 3)
	if vrt.Choose("another", 0, 1) == 1 {
		ms = append(ms, message("Another", field("f", 1000000, repeated, generate.FieldDescriptorProto_TYPE_BOOL, "")))
	}
	ms = append(ms, message("M", fs...))
	if k == 0 {
		ms = append(ms, message("Another", field("f", 1, repeated, generate.FieldDescriptorProto_TYPE_BOOL, "")))
	}
	s := squeeze(content(file("a.proto", "p", ms...)))
	vrt.Assert(has(s, "type M struct {buf []byte offsets struct {a ["+strconv.Itoa(int(max)+1)+"]uint16"), "the table has room for every field number")
	vrt.Assert(has(s, "func (m *M) Decode(buf []byte) error {m.buf = buf return zeropb.Decode(m.buf, "+offs+", repeatedFields_M)}"), "the decoder is told about the repeated fields")
	// in any order
	listed := false
	permutations(len(rep), func(p []int) {
		w := "var repeatedFields_M = zeropb.RepeatedFields{"
		for _, i := range p {
			w += rep[i]
		}
		listed = listed || has(s, w+"}")
	})
	vrt.Assert(listed, "exactly the repeated fields are listed")
	vrt.Reach("done")
}

func permutations(n int, f func(p []int)) {
	switch n {
	case 0:
		f([]int{})
	case 1:
		f([]int{0})
	case 2:
		f([]int{0, 1})
		f([]int{1, 0})
	case 3:
		for _, p := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
			f(p)
		}
	}
}

// Files: one file per requested file, in the order described, well named.
func Files() {
	k := vrt.Param("k")
	names := make([]string, k)
	fs := make([]*generate.FileDescriptorProto, 0, k)
	var req, want, pkgs []string
	for i := 0; i < k; i++ {
		n := vrt.Choose(vrt.N("len", i), 0, vrt.Param("n"))
		names[i] = vrt.Str(vrt.N(vrt.N("base", i), n), n, n) + ".proto"
		for j := 0; j < n; j++ {
			vrt.Assume(names[i][j] < 0x80)
		}
		for j := 0; j < i; j++ {
			vrt.Assume(names[j] != names[i])
		}
		pkg := anyIdent(vrt.N("pkg", i), false)
		f := file(names[i], pkg, message("M", field("f", 1, optional, generate.FieldDescriptorProto_TYPE_BOOL, "")))
		anon := vrt.Param("nil") == 1 && vrt.Choose(vrt.N("anonymous", i), 0, 1) == 1
		if anon {
			// a file need not name its package
			f.Package = nil
		}
		if vrt.Choose(vrt.N("wanted", i), 0, 1) == 1 {
			req = append(req, names[i])
			want = append(want, names[i][:n]+".zeropb.go")
			if anon {
				pkg = ""
			}
			pkgs = append(pkgs, pkg)
		}
		if vrt.Param("nil") == 1 && vrt.Choose(vrt.N("nil", i), 0, 1) == 1 {
			fs = append(fs, nil)
		}
		fs = append(fs, f)
	}
	// in any order
	switch vrt.Choose("order", 0, 2) {
	case 1:
		for i, j := 0, len(req)-1; i < j; i, j = i+1, j-1 {
			req[i], req[j] = req[j], req[i]
		}
	case 2:
		if len(req) > 0 {
			req = append(req[1:], req[0])
		}
	}
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: req, ProtoFile: fs})
	vrt.Assert(err == nil && res != nil, "generation succeeds")
	if err != nil || res == nil {
		return
	}
	vrt.Assert(len(res.File) == len(want), "one file is generated per requested file")
	vrt.Assert(res.Error == nil, "no error is reported")
	for i, f := range res.File {
		if i < len(want) {
			vrt.Assert(f.GetName() == want[i], "the file is named after its source")
			vrt.Assert(has(squeeze(f.GetContent()), "package"+pkgs[i]+"import"), "the file has its own content")
		}
	}
	vrt.Reach("done")
}
