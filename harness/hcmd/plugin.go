//go:build go1.21

// Package hcmd holds the harnesses over the plugins. The plugins' sources are
// used as they are, except that the packages through which they reach the
// outside are replaced by stand-ins (see harness/shim).
package hcmd

import (
	text "github.com/danhhz/zeropb/zzverif/cmdprotocgentext"
	gen "github.com/danhhz/zeropb/zzverif/cmdprotocgenzeropb"
	"github.com/danhhz/zeropb/zzverif/shim/vos"
	"github.com/danhhz/zeropb/zzverif/shim/vproto"
	"github.com/danhhz/zeropb/zzverif/vrt"
)

func equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Plugin: a run of protoc-gen-zeropb in which any step may fail.
func Plugin() {
	vos.Start(vproto.Start())
	panicked := vrt.Catch(gen.Main)
	code, out, _, _ := vos.Finish(panicked)
	if code != 0 {
		vrt.Reach("error status")
		return
	}
	vrt.Reach("status zero")
	vrt.Assert(!vos.Failed, "a step that failed leads to an error status")
	vrt.Assert(vproto.Result != nil, "status zero follows a generated response")
	vrt.Assert(equal(out, vproto.Wire), "status zero follows the complete response")
}

// Text: a run of protoc-gen-text in which any step may fail.
func Text() {
	vos.Start(vproto.Start())
	panicked := vrt.Catch(text.Main)
	code, out, errs, lost := vos.Finish(panicked)
	if code != 0 {
		vrt.Reach("error status")
		return
	}
	vrt.Reach("status zero")
	vrt.Assert(!vos.Failed && !lost, "a step that failed leads to an error status")
	vrt.Assert(vproto.Parsed != nil && len(errs) >= len(vproto.Text), "status zero follows the complete text")
	vrt.Assert(len(out) == 0, "the response is empty")
}
