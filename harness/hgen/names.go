//go:build go1.21

// Package hgen holds the harnesses over the code generator. They use its
// exported API only.
package hgen

import (
	"github.com/danhhz/zeropb/generate"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

func field(name string, number int32, label generate.FieldDescriptorProto_Label, typ generate.FieldDescriptorProto_Type, typeName string) *generate.FieldDescriptorProto {
	f := &generate.FieldDescriptorProto{Name: &name, Number: &number, Label: &label, Type: &typ}
	if typeName != "" {
		f.TypeName = &typeName
	}
	return f
}

func message(name string, fs ...*generate.FieldDescriptorProto) *generate.DescriptorProto {
	return &generate.DescriptorProto{Name: &name, Field: fs}
}

func file(name, pkg string, ms ...*generate.DescriptorProto) *generate.FileDescriptorProto {
	return &generate.FileDescriptorProto{Name: &name, Package: &pkg, MessageType: ms}
}

// content generates the file x and returns its text.
func content(x *generate.FileDescriptorProto) string {
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{x.GetName()}, ProtoFile: []*generate.FileDescriptorProto{x}})
	if err != nil || len(res.File) != 1 {
		vrt.Assert(false, "a file is generated")
		return ""
	}
	return res.File[0].GetContent()
}

func squeeze(s string) string { return vrt.Squeeze(s) }

// has reports that t, squeezed, occurs in s, which is squeezed.
func has(s, t string) bool { return vrt.Has(s, squeeze(t)) }

func letter(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
func digit(c byte) bool  { return '0' <= c && c <= '9' }

// camel is the Go name of a field.
func camel(s string) string {
	var b []byte
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !letter(c) && !digit(c) {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		}
		up = false
		b = append(b, c)
	}
	return string(b)
}

const offs = "zeropb.WrapOffsets(m.offsets.a[:], &m.offsets.m)"

// anyName is a field name of n characters: identifiers, and with the parameter
// "any" all names of seven-bit characters. The class of every character is
// explored separately.
func anyName(n int) string {
	b := make([]byte, n)
	hi := 3
	if vrt.Param("any") == 1 {
		hi = 7
	}
	for i := range b {
		r := [...][2]int{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {'_', '_'}, {0, '0' - 1}, {'9' + 1, 'A' - 1}, {'Z' + 1, 'a' - 1}, {'z' + 1, 127}}
		k := vrt.Choose(vrt.N("class", i), 0, hi)
		b[i] = byte(vrt.Int(vrt.N(vrt.N("char", i), k), r[k][0], r[k][1]))
	}
	return string(b)
}

// Names: the accessors of a field are named after it.
func Names() {
	n := vrt.Choose("len", 1, vrt.Param("n"))
	name := anyName(n)
	s := content(file("a.proto", "p", message("M", field(name, 1, generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_BOOL, ""))))
	want := camel(name)
	s = squeeze(s)
	vrt.Assert(has(s, "}func (m *M) "+want+"() bool {return zeropb.GetBool(m.buf,"+offs+",1)}"), "the getter is named after the field")
	vrt.Assert(has(s, "}func (m *M) Set"+want+"(x bool) {zeropb.SetBool(&m.buf,"+offs+",1,x)}"), "the setter is named after the field")
	if want != "" && !digit(want[0]) {
		vrt.Assert('A' <= want[0] && want[0] <= 'Z', "the name is exported")
	}
	vrt.Reach("done")
}
