//go:build go1.21

// Package vrt is the harness runtime. The symbolic engine intercepts every
// function here; the bodies below run natively when a counterexample or a
// witness is replayed against the compiled code.
package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"
)

type caseBytes struct {
	Len  uint64            `json:"len"`
	Cap  uint64            `json:"cap"`
	Data map[string]uint64 `json:"data"`
}

type caseFile struct {
	Harness string               `json:"harness"`
	Params  map[string]int       `json:"params"`
	Ints    map[string]string    `json:"ints"`
	Bytes   map[string]caseBytes `json:"bytes"`
	U16s    map[string]caseBytes `json:"u16s"`
}

var cur caseFile

type assumeFailed struct{}

// Main replays one case.
func Main(harnesses map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		panic(err)
	}
	h, ok := harnesses[cur.Harness]
	if !ok {
		fmt.Println("PANIC no such harness", cur.Harness)
		os.Exit(0)
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(assumeFailed); ok {
			fmt.Println("ASSUME failed")
			return
		}
		st := string(debug.Stack())
		fmt.Println("PANIC", strings.ReplaceAll(fmt.Sprint(r), "\n", " "))
		for _, l := range strings.Split(st, "\n") {
			fmt.Println("STACK", l)
		}
	}()
	h()
	fmt.Println("DONE")
}

func num(name string) uint64 {
	s, ok := cur.Ints[name]
	if !ok {
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func U64(name string) uint64 { return num(name) }
func U32(name string) uint32 { return uint32(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U8(name string) uint8   { return uint8(num(name)) }
func I64(name string) int64  { return int64(num(name)) }
func I32(name string) int32  { return int32(num(name)) }
func Bool(name string) bool  { return num(name) == 1 }

// Int is an integer between lo and hi.
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(num(name))
	if _, ok := cur.Ints[name]; !ok {
		v = lo
	}
	if v < lo || v > hi {
		panic(assumeFailed{})
	}
	return v
}

// Choose is an integer between lo and hi whose values are explored separately.
func Choose(name string, lo, hi int) int { return Int(name, lo, hi) }

// N derives a numbered input name.
func N(name string, i int) string { return name + "." + strconv.Itoa(i) }

// Param is a concrete parameter of the run.
func Param(name string) int { return cur.Params[name] }

// Bytes is a byte slice of length lo..hi; capMax > hi gives it a capacity
// between its length and capMax, otherwise the capacity equals the length.
func Bytes(name string, lo, hi, capMax int) []byte {
	cb, ok := cur.Bytes[name]
	if !ok {
		return make([]byte, lo)
	}
	b := make([]byte, cb.Cap)
	for k, v := range cb.Data {
		i, _ := strconv.ParseUint(k, 10, 64)
		if i < cb.Cap {
			b[i] = byte(v)
		}
	}
	return b[:cb.Len]
}

// U16s is a slice of n arbitrary 16-bit words.
func U16s(name string, n int) []uint16 {
	b := make([]uint16, n)
	for k, v := range cur.U16s[name].Data {
		i, _ := strconv.ParseUint(k, 10, 64)
		b[i] = uint16(v)
	}
	return b
}

// Str is a string of length lo..hi.
func Str(name string, lo, hi int) string { return string(Bytes(name, lo, hi, hi)) }

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Distinct restricts the inputs a and b considered to different values, on
// every path.
func Distinct(a, b int) { Assume(a != b) }

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		fmt.Println("FAIL", label)
	}
}

// Reach marks a point that some input must reach.
func Reach(label string) { fmt.Println("REACH", label) }

// Observe compares a value between the encoding and the real execution.
func Observe(label string, v uint64) { fmt.Println("OBS", label, v) }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Freeze forbids stores to everything allocated so far until Thaw.
func Freeze(label string) {}
func Thaw()               {}

// Allocs counts heap allocations made so far.
func Allocs() int {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int(ms.Mallocs)
}

// Symbolic reports whether the harness runs under the symbolic engine.
func Symbolic() bool { return false }

// SameBacking reports whether a and b point into the same array.
func SameBacking(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	return &a[cap(a)-1] == &b[cap(b)-1]
}

// StrInside reports whether the bytes of s lie inside b.
func StrInside(s string, b []byte) bool {
	p := uintptr(unsafe.Pointer(unsafe.StringData(s)))
	q := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return p >= q && p+uintptr(len(s)) <= q+uintptr(len(b))
}

// Squeeze drops white space and comment lines from a program text.
func Squeeze(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '/' && i+1 < len(s) && s[i+1] == '/' {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		if s[i] == ' ' || s[i] == '\n' || s[i] == '\t' {
			continue
		}
		b = append(b, s[i])
	}
	return string(b)
}

// Has reports that t occurs in s.
func Has(s, t string) bool { return strings.Contains(s, t) }
