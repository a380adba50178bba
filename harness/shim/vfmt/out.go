//go:build go1.21

package vfmt

import "github.com/danhhz/zeropb/zzverif/shim/vos"

var out = vos.Stdout
