//go:build go1.21

// Package vproto stands in for golang/protobuf/proto under the plugins:
// parsing and encoding succeed or fail on request.
package vproto

import (
	"io"

	"github.com/golang/protobuf/proto"

	"github.com/danhhz/zeropb/zzverif/shim/vos"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

type Message = proto.Message

// What the process did.
var (
	Request []byte  // the request it should parse
	Parsed  Message // what it parsed it into
	Result  Message // what it should encode
	Wire    []byte  // the encoding of that
	Text    []byte  // the text of the parsed request
)

func Unmarshal(b []byte, m Message) error {
	if err := vos.Fail("parsing"); err != nil {
		return err
	}
	if len(b) == len(Request) {
		Parsed = m
		for i := range b {
			if b[i] != Request[i] {
				Parsed = nil
			}
		}
	}
	return nil
}

func Marshal(m Message) ([]byte, error) {
	if err := vos.Fail("encoding"); err != nil {
		return nil, err
	}
	if m != nil && m == Result {
		return append([]byte(nil), Wire...), nil
	}
	return append([]byte(nil), 'x'), nil
}

func Size(m Message) int { return len(Wire) }

func MarshalText(w io.Writer, m Message) error {
	if err := vos.Fail("formatting"); err != nil {
		return err
	}
	_, err := w.Write([]byte(MarshalTextString(m)))
	return err
}

func MarshalTextString(m Message) string {
	if m != nil && m == Parsed {
		return string(Text)
	}
	return ""
}

func CompactText(w io.Writer, m Message) error { return MarshalText(w, m) }
func CompactTextString(m Message) string       { return MarshalTextString(m) }
func String(s string) *string                  { return &s }
func Int32(v int32) *int32                     { return &v }
func Bool(v bool) *bool                        { return &v }

// Start prepares a process.
func Start() []byte {
	n := vrt.Choose("request length", 0, 3)
	Request = vrt.Bytes(vrt.N("request", n), n, n, n)
	n = vrt.Choose("response length", 1, 4)
	Wire = vrt.Bytes(vrt.N("response", n), n, n, n)
	Text = []byte("text")
	Parsed, Result = nil, nil
	return append([]byte(nil), Request...)
}
