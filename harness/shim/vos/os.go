//go:build go1.21

// Package vos stands in for package os under the plugins: a process whose
// standard streams fail on request and whose exit is recorded.
package vos

import (
	"io"

	"github.com/danhhz/zeropb/zzverif/vrt"
)

type fault string

func (f fault) Error() string { return string(f) }

// File is a standard stream.
type File struct {
	in   bool
	fd   int
	data []byte // left to read, or written so far
	n    int    // calls so far
}

// Streams.
var (
	Stdin  = &File{in: true}
	Stdout = &File{fd: 1}
	Stderr = &File{fd: 2}
	Args   = []string{"plugin"}
)

// The process.
var (
	Failed  bool // a step before the output failed
	exited  bool
	status  int
	errLost bool // part of standard error was lost
)

type exit struct{}

// Start begins a process with the given standard input.
func Start(in []byte) {
	*Stdin = File{in: true, data: in}
	*Stdout = File{fd: 1}
	*Stderr = File{fd: 2}
	Failed, exited, status, errLost = false, false, 0, false
}

// Finish ends it; panicked reports that its main function panicked.
func Finish(panicked bool) (code int, out, errs []byte, lost bool) {
	if !exited && panicked {
		status = 2
	}
	return status, Stdout.data, Stderr.data, errLost
}

// Fail decides whether a step fails.
func Fail(step string) error {
	if exited || !vrt.Bool(step+" fails") {
		return nil
	}
	Failed = true
	return fault(step + " failed")
}

// Exit ends the process: nothing that runs afterwards has an effect.
func Exit(code int) {
	if !exited {
		exited, status = true, code
	}
	panic(exit{})
}

func (f *File) Read(p []byte) (int, error) {
	if exited || !f.in {
		return 0, fault("read")
	}
	if len(p) == 0 {
		return 0, nil
	}
	f.n++
	if f.n <= 3 && vrt.Bool(vrt.N("read fails", f.n)) {
		Failed = true
		return 0, fault("read failed")
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := len(f.data)
	if n > 1 && f.n == 1 {
		n = vrt.Choose(vrt.N("first read", n), 1, n)
	}
	n = copy(p, f.data[:n])
	f.data = f.data[n:]
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if exited || f.in {
		return 0, fault("write")
	}
	f.n++
	if f.n <= 4 && vrt.Bool(vrt.N(vrt.N("write fails", f.fd), f.n)) {
		n := 0
		if len(p) > 1 && vrt.Bool(vrt.N(vrt.N("partial write", f.fd), f.n)) {
			n = len(p) - 1
		}
		f.data = append(f.data, p[:n]...)
		if f.fd == 2 {
			errLost = true
		}
		return n, fault("write failed")
	}
	f.data = append(f.data, p...)
	return len(p), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error                      { return nil }
func (f *File) Sync() error                       { return nil }
func (f *File) Name() string                      { return "stream" }

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func ReadFile(string) ([]byte, error) { return nil, fault("no such file") }
func Getpid() int                     { return 1 }
