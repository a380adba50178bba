HEAD = '''package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"testing"
	"time"

	"github.com/danhhz/zeropb"
	"github.com/danhhz/zeropb/golden/testzeropb"
)

var _ = bytes.Equal
var _ = math.Pi
var _ = time.Second
var _ = testing.AllocsPerRun
var _ zeropb.Offsets
var _ testzeropb.TestMessage

func check(ok bool, what string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAIL "+what+"\\n", args...)
		os.Exit(1)
	}
}

func main() {
'''
GHEAD = '''package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/danhhz/zeropb/generate"
)

var _ = errors.New
var _ = strings.Contains

func check(ok bool, what string, args ...interface{}) {
	if !ok {
		fmt.Printf("FAIL "+what+"\\n", args...)
		os.Exit(1)
	}
}

func field(name string, number int32, label generate.FieldDescriptorProto_Label, typ generate.FieldDescriptorProto_Type, typeName string) *generate.FieldDescriptorProto {
	return &generate.FieldDescriptorProto{Name: &name, Number: &number, Label: &label, Type: &typ, TypeName: &typeName}
}

func file(name string, fs ...*generate.FieldDescriptorProto) *generate.CodeGeneratorResponse_File {
	m, p := "M", "p"
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{name}, ProtoFile: []*generate.FileDescriptorProto{{Name: &name, Package: &p, MessageType: []*generate.DescriptorProto{{Name: &m, Field: fs}}}}})
	check(err == nil && len(res.File) == 1, "generate")
	return res.File[0]
}

'''
def S(id, prop, edits, body, needs, breaks, ghead=False, **kw):
    return dict(id=id, property=prop, edits=edits, main=(body if 'func main' in body else (GHEAD + 'func main() {\n' if ghead else HEAD) + body) + '\n\tfmt.Println("ok")\n}\n', needs=needs, what_it_breaks=breaks, **kw)
PLUGIN_DEMO = r'''#!/bin/bash
# Runs the plugin with a standard output whose reader is gone.
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
go build -o "$tmp/plugin" ./cmd/protoc-gen-zeropb || exit 3
# an empty request has an empty response: ask for a file
printf '\012\007a.proto\172\014\012\007a.proto\022\001p' > "$tmp/req"
"$tmp/plugin" < "$tmp/req" > "$tmp/res" || exit 3
[ -s "$tmp/res" ] || exit 3
if "$tmp/plugin" < "$tmp/req" > /dev/full 2> "$tmp/err"; then
  echo "FAIL: status zero though nothing was written"
  exit 1
fi
echo ok
'''
Z, O, G = 'zeropb.go', 'offsets.go', 'generate/generate.go'
SEEDS = [
S('C03-bool-one', 'C03', [(Z, 'return x > 0', 'return x == 1')],
'''	var m testzeropb.TestMessage
	check(m.Decode([]byte{0x08, 0x80, 0x01}) == nil, "decode")
	check(m.Bool(), "a bool encoded as 128 is true")''',
  'a bool field whose varint is neither 0 nor 1', 'GetBool treats only the value 1 as true'),
S('C07-shorter-in-place', 'C07', [(Z, 'if int(oldLen) == len(valLen)+len(val) {', 'if typ == proto.WireVarint && int(oldLen) >= len(val) && len(val) == 1 && oldLen > 8 || int(oldLen) == len(valLen)+len(val) {')],
'''	var m testzeropb.TestMessage
	m.SetInt32(-1)
	m.SetUint64(7)
	m.SetInt32(5)
	var n testzeropb.TestMessage
	err := n.Decode(m.Encode())
	check(m.Int32() == 5 && err == nil && n.Uint64() == 7, "the encoding decodes: %v", err)''',
  'a long varint overwritten by a one-byte one in place', 'bytes of the old value stay in the encoding', ),
S('C09-int32-five', 'C09', [(Z, '''	n := binary.PutUvarint(scratch[:], uint64(x))
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)
}

// SetInt64''', '''	n := binary.PutUvarint(scratch[:], uint64(uint32(x)))
	var valLen, val []byte = nil, scratch[:n]
	setSingle(buf, offsets, fieldID, proto.WireVarint, valLen, val)
}

// SetInt64''')],
'''	var m testzeropb.TestMessage
	m.SetInt32(-2)
	want := []byte{0x10, 0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}
	check(bytes.Equal(m.Encode(), want), "encoding % x", m.Encode())''',
  'a negative int32', 'negative int32 values are not sign-extended to ten bytes'),
S('C12-stale-map', 'C12', [(O, '''	if *o.m != nil {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}''', '''	if *o.m != nil && len(*o.m) > len(o.a) {
		for f := range *o.m {
			delete(*o.m, f)
		}
	}''')],
'''	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 70000))
	m.SetInt32(9)
	m.Reset(nil)
	m.SetString("a")
	m.SetString("abc")
	check(m.Int32() == 0, "Int32 of a message that holds only a string: %d", m.Int32())
	var n testzeropb.TestMessage
	b := append([]byte(nil), make([]byte, 0)...)
	n.SetByteArray(make([]byte, 70000))
	n.SetInt32(9)
	check(n.Decode(b) == nil, "decode")
	n.SetString("a")
	n.SetString("abc")
	check(n.Int32() == 0, "Int32 after reuse: %d", n.Int32())''',
  'a message that held more than 64 KiB, is reused, and then has a field replaced', 'positions of the former content reappear when a replacement adjusts the positions in the map'),
S('C11-empty-element', 'C11', [(Z, """	appendSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)
}

func setSingle""", """	if _, ok := offsets.Get(fieldID); !ok || len(val) > 0 {
		appendSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)
	}
}

func setSingle""")],
"""	var m, e testzeropb.TestMessage
	m.AppendToMessages(e)
	m.AppendToMessages(e)
	it, n := m.Messages(), 0
	for ok, _ := it.Next(&e); ok; ok, _ = it.Next(&e) {
		n++
	}
	check(n == 2, "%d elements", n)""",
  'an empty element appended to a repeated field that has elements', 'the empty element is dropped'),
S('C04-padded-prefix', 'C04', [(Z, """	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	data :=""", """	len, _ := binary.Uvarint(buf[offset:])
	lenSize := 1
	for l := len; l >= 0x80; l >>= 7 {
		lenSize++
	}
	offset += uint64(lenSize)
	data :=""")],
"""	var m testzeropb.TestMessage
	check(m.Decode([]byte{0x6a, 0x83, 0x00, 'a', 'b', 'c'}) == nil || true, "decode")
	var n testzeropb.TestMessage
	n.SetString("abc")
	b := n.Encode()
	p := append([]byte{}, b[:len(b)-4]...)
	p = append(p, 0x83, 0x00, 'a', 'b', 'c')
	check(m.Decode(p) == nil, "decode")
	check(m.String() == "abc", "reads %q", m.String())""",
  'a string whose length prefix is encoded with more bytes than needed', 'the string starts at the wrong byte'),
S('C08-shift-byte', 'C08', [(Z, 'offsets.a[fieldID] = offset - uint16(removedBytes)', 'offsets.a[fieldID] = offset - uint16(removedBytes&0x3fff)')],
"""	var m, n testzeropb.TestMessage
	m.SetByteArray(make([]byte, 17000))
	m.SetInt32(7)
	m.SetByteArray(make([]byte, 3))
	check(n.Decode(m.Encode()) == nil, "decode")
	check(m.Int32() == n.Int32(), "%d, and %d in a fresh decode", m.Int32(), n.Int32())""",
  'replacing a value of 16 KiB or more with a field stored behind it', 'positions of the fields behind it are moved by the wrong amount'),
S('C10-last-empty', 'C10', [(Z, """	return nil, msg
}""", """	if len(msg) == 0 {
		return nil, nil
	}
	return nil, msg
}""")],
"""	var m, e testzeropb.TestMessage
	e.SetInt32(3)
	m.AppendToMessages(e)
	m.AppendToMessages(testzeropb.TestMessage{})
	it, n := m.Messages(), 0
	for ok, _ := it.Next(&e); ok; ok, _ = it.Next(&e) {
		n++
	}
	check(n == 2, "%d elements", n)""",
  'a repeated field whose last element is empty', 'the last element is not visited'),
S('C13-sentinel', 'C13', [(O, 'offsetMaxInArray uint16 = offsetInMap - 1', 'offsetMaxInArray uint16 = offsetInMap')],
"""	a := make([]uint16, 3)
	var mp map[int]uint64
	o := zeropb.WrapOffsets(a, &mp)
	o.Set(1, 70000)
	o.Set(2, 65535)
	p, ok := o.Get(2)
	check(ok && p == 65535, "position 65535 is looked up as %d", p)""",
  'a field at position 65535 exactly', 'the position is taken for the marker of positions kept in the map'),
S('C14-clear-alloc', 'C14', [(O, """		for f := range *o.m {
			delete(*o.m, f)
		}
""", """		*o.m = make(map[int]uint64, len(o.a))
""")],
"""	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 70000))
	m.SetInt32(1)
	small := []byte{0x10, 0x01}
	n := testing.AllocsPerRun(100, func() { m.Decode(small) })
	check(n == 0, "%v allocations per decode", n)""",
  'decoding a small message into one that held more than 64 KiB before', 'every decode allocates a map'),
S('C26-tag-truncated', 'C26', [(Z, """		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt""", """		fieldID := int(uint32(tag) >> 3)
		typ := tag & 0x7
		// fmt""")],
"""	var m testzeropb.TestMessage
	m.SetInt32(7)
	b := m.Encode()
	t := uint64(b[0]) | 1<<32
	for t >= 0x80 {
		b = append(b, byte(t)|0x80)
		t >>= 7
	}
	b = append(b, byte(t), 9)
	check(m.Decode(b) == nil, "decode")
	check(m.Int32() == 7, "reads %d", m.Int32())""",
  'an unknown field whose number exceeds 2^29', 'the record is taken for one of a known field'),
S('C17-drop-first', 'C17', [(Z, """	var valLen, val []byte = scratch[:n], x
	setSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)""", """	var valLen, val []byte = scratch[:n], x
	if old := GetBytes(*buf, offsets, fieldID); len(old) > len(x) {
		setSingle(buf, offsets, fieldID, proto.WireBytes, []byte{0}, nil)
	}
	setSingle(buf, offsets, fieldID, proto.WireBytes, valLen, val)""")],
"""	var m testzeropb.TestMessage
	m.SetByteArray([]byte("abcdef"))
	m.SetInt32(5)
	m.SetByteArray(m.ByteArray()[1:4])
	check(string(m.ByteArray()) == "bcd", "reads %q", m.ByteArray())""",
  'a bytes field set to a part of its own value', 'the bytes are moved before they are copied'),
S('C15-empty-absent', 'C15', [(Z, """	len, lenSize := binary.Uvarint(buf[offset:])
	offset += uint64(lenSize)
	// Cap""", """	len, lenSize := binary.Uvarint(buf[offset:])
	if offset += uint64(lenSize); len == 0 {
		return nil
	}
	// Cap""")],
"""	var m, e testzeropb.TestMessage
	m.SetMessage(e)
	ok, err := m.Message(&e)
	check(ok && err == nil, "an empty sub-message is reported as absent")""",
  'an empty sub-message', 'it is reported as absent'),
S('C28-normalise', 'C28', [(Z, """	x, _ := binary.Uvarint(buf[offset:])
	return x > 0""", """	x, _ := binary.Uvarint(buf[offset:])
	if x > 1 && x < 0x80 {
		buf[offset] = 1
	}
	return x > 0""")],
"""	var m testzeropb.TestMessage
	b := []byte{0x08, 0x02}
	check(m.Decode(b) == nil && m.Bool() && b[1] == 2, "reading changed the message")""",
  'a bool encoded as a number above one', 'reading it changes the message'),
S('C02-short-fixed', 'C02', [(Z, """		if idx == len(buf) {
			return nil""", """		if idx == len(buf) || idx == len(buf)+1 {
			return nil""")],
"""	var m testzeropb.TestMessage
	m.SetFixed32(1)
	b := m.Encode()
	check(m.Decode(b[:len(b)-1]) != nil, "a truncated message is accepted")""",
  'a message that ends one byte too early, in a fixed-width field', 'it is accepted'),
S('C19-nested-name', 'C19', [(G, 'if idx := strings.LastIndex(typName, `.`); idx != -1 {\n\t\ttypName = typName[idx+1:]', 'if idx := strings.Index(typName[1:], `.`); idx != -1 {\n\t\ttypName = typName[idx+2:]')],
GHEAD + """func main() {
	opt, msg := generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_MESSAGE
	f := file("a.proto", field("f", 1, opt, msg, ".p.Outer.Inner"))
	check(strings.Contains(f.GetContent(), "SetF(x Inner)"), "no setter with the inner type")""", 'a field whose type is declared in a nested scope', 'the Go type carries the outer scope'),
S('C20-last-number', 'C20', [(G, """		if id := f.GetNumber(); id > largestFieldID {
			largestFieldID = id
		}""", """		if id := f.GetNumber(); id > largestFieldID || f.GetLabel() == FieldDescriptorProto_LABEL_REQUIRED {
			largestFieldID = id
		}""")],
GHEAD + """func main() {
	opt, req, typ := generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_LABEL_REQUIRED, generate.FieldDescriptorProto_TYPE_BOOL
	f := file("a.proto", field("f", 9, opt, typ, ""), field("g", 2, req, typ, ""))
	check(strings.Contains(f.GetContent(), "a [10]uint16"), "no room for field 9")""", 'a required field declared after one with a larger number', 'the table is too small for the larger number'),
S('C21-first-dot', 'C21', [(G, 'strings.TrimSuffix(req.GetName(), `.proto`)', 'strings.Split(req.GetName(), `.proto`)[0]')],
GHEAD + """func main() {
	f := file("my.proto.d/a.proto")
	check(f.GetName() == "my.proto.d/a.zeropb.go", "named %s", f.GetName())""", 'a file or directory whose name contains ".proto" before the end', 'the output is named after the part before it'),
S('C22-digit-title', 'C22', [(G, """			titleNext = false
			return unicode.ToTitle(r)
		}
		return r""", """			titleNext = unicode.IsDigit(r)
			return unicode.ToTitle(r)
		}
		return r""")],
GHEAD + """func main() {
	opt, typ := generate.FieldDescriptorProto_LABEL_OPTIONAL, generate.FieldDescriptorProto_TYPE_BOOL
	f := file("a.proto", field("grid_2d", 1, opt, typ, ""))
	check(strings.Contains(f.GetContent(), ") Grid2d() bool"), "no accessor Grid2d")""", 'a part of a field name that starts with a digit', 'the letter behind the digit is upper-cased'),
S('C23-late-error', 'C23', [('generate/stringtree.go', """		if st.err != nil {
			return
		}
		switch""", """		if st.err == io.ErrShortWrite {
			return
		}
		switch""")],
GHEAD + """var errFirst = errors.New("first")

type failing struct{ n int }

func (w *failing) Write(p []byte) (int, error) {
	if w.n++; w.n == 1 {
		return 0, errFirst
	}
	return len(p), nil
}

func main() {
	w := &failing{}
	st := generate.NewStringTree(w, " ")
	st.Write("a", "b", "c")
	check(st.Error() == errFirst && w.n == 1, "error %v after %d writes", st.Error(), w.n)""", 'a writer that fails with an error other than a short write', 'writing goes on after the error, which is overwritten'),
S('C24-unflushed', 'C24', [('cmd/protoc-gen-zeropb/main.go', """	if _, err := os.Stdout.Write(resBytes); err != nil {""", """	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	if _, err := w.Write(resBytes); err != nil {"""), ('cmd/protoc-gen-zeropb/main.go', 'import (\n', 'import (\n\t"bufio"\n')],
'', 'standard output that cannot be written', 'the plugin exits with status zero without having written its response',
  demo=PLUGIN_DEMO, nomain=True),
S('C05-nan', 'C05', [(Z, 'bits := math.Float64bits(x)', 'bits := math.Float64bits(x + 0)')],
"""	var m testzeropb.TestMessage
	x := math.Float64frombits(0x7ff0000000000001)
	m.SetDouble(x)
	check(math.Float64bits(m.Double()) == 0x7ff0000000000001, "reads %x", math.Float64bits(m.Double()))
	x = math.Copysign(0, -1)
	m.SetDouble(x)
	check(math.Float64bits(m.Double()) == 1<<63, "reads %x", math.Float64bits(m.Double()))""",
  'a signalling NaN or negative zero', 'the value changes its bits'),
S('C27-array-only', 'C27', [(Z, """	offset, ok := offsets.Get(fieldID)
	if !ok {
		return nil
	}
	return buf[offset:]""", """	offset := offsets.a[fieldID]
	if offset == offsetUnset {
		return nil
	}
	return buf[offset:]""")],
"""	var m, e testzeropb.TestMessage
	m.SetByteArray(make([]byte, 70000))
	e.SetInt32(3)
	m.AppendToMessages(e)
	it := m.Messages()
	ok, err := it.Next(&e)
	check(ok && err == nil && e.Int32() == 3, "the element is lost")""",
  'a repeated field whose first element lies beyond byte 65535', 'the marker in the array is taken for its position'),
S('C06-short-tag', 'C06', [(Z, 'uint64(offset) > fieldEnd {', 'uint64(offset) > fieldEnd+uint64(tagLen/3) {')],
"""	a := make([]uint16, 20)
	var mp map[int]uint64
	o := zeropb.WrapOffsets(a, &mp)
	var b []byte
	zeropb.SetString(&b, o, 17, "ab")
	zeropb.SetInt32(&b, o, 1, 7)
	zeropb.SetString(&b, o, 17, "abc")
	check(zeropb.GetInt32(b, o, 1) == 7, "reads %d", zeropb.GetInt32(b, o, 1))""",
  'replacing a field numbered above 15 directly followed by one numbered below', 'the position of the latter is not adjusted'),
S('C01-negative-field', 'C01', [(Z, """		fieldID := int(tag >> 3)
		typ := tag & 0x7
		// fmt""", """		fieldID := int(int32(tag >> 3))
		typ := tag & 0x7
		// fmt""")],
"""	defer func() { r := recover(); check(r == nil, "panic: %v", r) }()
	var m testzeropb.TestMessage
	m.Decode([]byte{0xf8, 0xff, 0xff, 0xff, 0x7f, 0x01})""",
  'a field number whose bit 31 is set', 'decoding panics'),

S('C27-one-in-map', 'C27', [(Z, """				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
				}""", """				if offset > fieldEnd {
					offsets.Set(fieldID, offset-removedBytes)
					if offset-removedBytes > math.MaxUint16 {
						break
					}
				}""")],
"""	for i := 0; i < 50; i++ {
		var m testzeropb.TestMessage
		m.SetInt64(1)
		m.SetString("abc")
		m.SetByteArray(make([]byte, 70000))
		m.SetInt32(5)
		m.SetUint32(6)
		m.SetString("abcd")
		check(m.Int32() == 5 && m.Uint32() == 6, "reads %d %d", m.Int32(), m.Uint32())
	}""",
  'two fields beyond byte 65535 behind a value that is replaced', 'only one of their positions is adjusted'),
S('C10-int32-number', 'C10', [(Z, """		f := int(tag >> 3)
		typ""", """		f := int(int32(tag >> 3))
		typ""")],
"""	var m, e testzeropb.TestMessage
	e.SetInt32(3)
	m.AppendToMessages(e)
	b := append([]byte(nil), m.Encode()...)
	n := len(b)
	// a record of field 2^32 + the field's number
	tag := uint64(b[0]&0x7f) | uint64(b[1])<<7
	if b[0] < 0x80 {
		tag = uint64(b[0])
	}
	tag = (tag>>3 + 1<<32) << 3
	for tag >= 0x80 {
		b = append(b, byte(tag)|0x80)
		tag >>= 7
	}
	b = append(b, byte(tag), 0)
	check(m.Decode(b) == nil, "decode")
	it := m.Messages()
	k := 0
	for k < 5 {
		ok, err := it.Next(&e)
		check(err == nil, "error")
		if !ok {
			break
		}
		k++
	}
	check(k == 1, "%d elements in %d bytes", k, n)""",
  'an unknown field whose number exceeds 2^32', 'the iterator takes its record for an element'),
S('C14-early-map', 'C14', [('offsets.go', 'offsetMaxInArray uint16 = offsetInMap - 1', 'offsetMaxInArray uint16 = 1<<15 - 1')],
"""	var m testzeropb.TestMessage
	m.SetByteArray(make([]byte, 40000))
	m.SetInt32(7)
	b := m.Encode()
	n := testing.AllocsPerRun(100, func() {
		var x testzeropb.TestMessage
		x.Decode(b)
	})
	check(n == 0, "%v allocations", n)""",
  'a message between 32 and 64 KiB', 'decoding it allocates'),
S('C16-element-room', 'C16', [(Z, 'msg := buf[lenSize : lenSize+int(msgLen) : lenSize+int(msgLen)]', 'msg := buf[lenSize : lenSize+int(msgLen)]')],
"""	var m, e testzeropb.TestMessage
	e.SetInt32(3)
	m.AppendToMessages(e)
	m.SetInt64(9)
	it := m.Messages()
	it.Next(&e)
	e.SetInt32(300)
	e.SetUint32(1)
	check(m.Int64() == 9, "reads %d", m.Int64())""",
  'a sub-message read from an iterator that grows', 'it overwrites what follows in the parent'),
S('C18-lenient-tail', 'C18', [(Z, """		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		} else if s == 0 {
			return io.ErrUnexpectedEOF
		}""", """		s, err := fieldDataSize(typ, buf[idx:])
		if err != nil {
			return err
		} else if s == 0 && fieldID >= len(offsets.a) {
			// The tail of a field nobody reads is of no interest.
			return nil
		} else if s == 0 {
			return io.ErrUnexpectedEOF
		}""")],
"""	var m, e testzeropb.TestMessage
	m.AppendToMessages(e)
	b := append(append([]byte(nil), m.Encode()...), 0x82, 0x80, 0x01, 0x85)
	if m.Decode(b) != nil {
		return
	}
	done := make(chan bool)
	go func() {
		defer func() { recover(); done <- false }()
		it := m.Messages()
		for ok := true; ok; ok, _ = it.Next(&e) {
		}
		done <- true
	}()
	select {
	case ok := <-done:
		check(ok, "panics")
	case <-time.After(3 * time.Second):
		check(false, "hangs")
	}""",
  'a message that ends within an unknown length-delimited record', 'it is accepted and iterating it hangs'),
S('C21-request-order', 'C21', [('generate/generate.go', """	for _, fileReq := range req.ProtoFile {
		if fileReq == nil {
			continue
		}
		if _, ok := filesToGenerate[fileReq.GetName()]; !ok {
			continue
		}
""", """	for _, fileReq := range req.ProtoFile {
		if fileReq == nil {
			continue
		}
		if _, ok := filesToGenerate[fileReq.GetName()]; !ok || len(files) == cap(files)-1 && fileReq.Package == nil {
			continue
		}
""")],
"""	n := "a.proto"
	res, err := generate.Generate(&generate.CodeGeneratorRequest{FileToGenerate: []string{n}, ProtoFile: []*generate.FileDescriptorProto{{Name: &n}}})
	check(err == nil && len(res.File) == 1, "%d files", len(res.File))""",
  'a last file without a package', 'no file is generated for it', ghead=True),
S('C20-repeated-message', 'C20', [('generate/generate.go', """		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED {
""", """		if f.GetLabel() == FieldDescriptorProto_LABEL_REPEATED && f.GetNumber() < 1<<20 {
""")],
"""	c := file("a.proto", field("f", 1<<20, generate.FieldDescriptorProto_LABEL_REPEATED, generate.FieldDescriptorProto_TYPE_MESSAGE, ".p.M")).GetContent()
	check(strings.Contains(c, "1048576: struct{}{}"), "not registered as repeated")""",
  'a repeated field with a very large number', 'it is not registered as repeated', ghead=True),
S('C23-indent-table', 'C23', [('generate/stringtree.go', """			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))""", """			if x > 4 {
				x = 4
			}
			_, st.err = st.w.Write([]byte(strings.Repeat(st.indent, int(x))))""")],
"""	var b strings.Builder
	st := generate.NewStringTree(&b, " ")
	st.Write(generate.StringTreeIndent(5))
	check(b.String() == "     ", "%q", b.String())""",
  'an indentation of more than four stops', 'it is cut off', ghead=True),
S('C06-far-tag', 'C06', [('zeropb.go', """			if offset != math.MaxUint16 && uint64(offset) > fieldEnd {""", """			if offset != math.MaxUint16 && uint64(offset) > fieldEnd+uint64(tagLen/3) {""")],
"""	var a [3000]uint16
	var m map[int]uint64
	off := zeropb.WrapOffsets(a[:], &m)
	var buf []byte
	zeropb.SetUint64(&buf, off, 2048, 1)
	zeropb.SetUint64(&buf, off, 2, 7)
	zeropb.SetUint64(&buf, off, 2048, 300)
	check(zeropb.GetUint64(buf, off, 2) == 7, "field 2 is %d", zeropb.GetUint64(buf, off, 2))""",
  'a field above 2047 that is replaced by a longer value in front of one below 16', 'the other field is looked for where it was'),
S('C07-three-byte-tag', 'C07', [('zeropb.go', """		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
""", """		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
		if tagLen > 2 {
			fieldBegin = offset - 2
		}
""")],
"""	a := make([]uint16, 2100)
	var m map[int]uint64
	off := zeropb.WrapOffsets(a, &m)
	var buf []byte
	zeropb.SetUint64(&buf, off, 2048, 1)
	zeropb.SetUint64(&buf, off, 2048, 300)
	check(bytes.Equal(buf, []byte{0x80, 0x80, 0x01, 0xac, 0x02}), "%x", buf)""",
  'a field above 2047 that is replaced by a value of another length', 'a byte of its tag stays in the encoding'),
]
