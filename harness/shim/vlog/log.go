//go:build go1.21

// Package vlog stands in for package log under the plugins.
package vlog

import (
	"io"

	"github.com/danhhz/zeropb/zzverif/shim/vfmt"
	"github.com/danhhz/zeropb/zzverif/shim/vos"
)

const (
	LstdFlags  = 3
	Lshortfile = 16
)

var w io.Writer = vos.Stderr

type logged struct{}

func SetFlags(int)           {}
func SetPrefix(string)       {}
func SetOutput(x io.Writer)  { w = x }
func Print(a ...interface{}) { vfmt.Fprintln(w, a...) }
func Println(a ...interface{}) {
	vfmt.Fprintln(w, a...)
}
func Printf(f string, a ...interface{}) { vfmt.Fprintf(w, f, a...) }
func Fatal(a ...interface{})            { Print(a...); vos.Exit(1) }
func Fatalln(a ...interface{})          { Print(a...); vos.Exit(1) }
func Fatalf(f string, a ...interface{}) { Printf(f, a...); vos.Exit(1) }
func Panic(a ...interface{})            { Print(a...); panic(logged{}) }
func Panicf(f string, a ...interface{}) { Printf(f, a...); panic(logged{}) }
