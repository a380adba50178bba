//go:build go1.21

// Package vio stands in for package io under the plugins.
package vio

import "io"

type (
	Reader       = io.Reader
	Writer       = io.Writer
	Closer       = io.Closer
	ReadCloser   = io.ReadCloser
	WriteCloser  = io.WriteCloser
	ReadWriter   = io.ReadWriter
	StringWriter = io.StringWriter
)

var (
	EOF              = io.EOF
	ErrUnexpectedEOF = io.ErrUnexpectedEOF
	ErrShortWrite    = io.ErrShortWrite
)

type discard struct{}

func (discard) Write(p []byte) (int, error) { return len(p), nil }

var Discard Writer = discard{}

func ReadAll(r Reader) ([]byte, error) {
	var b []byte
	for {
		p := make([]byte, 16)
		n, err := r.Read(p)
		b = append(b, p[:n]...)
		if err == io.EOF {
			return b, nil
		}
		if err != nil {
			return b, err
		}
	}
}

func WriteString(w Writer, s string) (int, error) { return w.Write([]byte(s)) }

func Copy(w Writer, r Reader) (int64, error) {
	b, err := ReadAll(r)
	if len(b) > 0 {
		n, werr := w.Write(b)
		if werr != nil {
			return int64(n), werr
		}
	}
	return int64(len(b)), err
}
