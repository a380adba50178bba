//go:build go1.21

// Package vioutil stands in for package io/ioutil under the plugins.
package vioutil

import (
	"io"

	"github.com/danhhz/zeropb/zzverif/shim/vio"
)

var Discard = vio.Discard

func ReadAll(r io.Reader) ([]byte, error) { return vio.ReadAll(r) }
