//go:build go1.21

// Package vbufio stands in for package bufio under the plugins: a writer
// holds back what it was given until it is flushed.
package vbufio

import "io"

type Writer struct {
	w   io.Writer
	b   []byte
	err error
}

func NewWriter(w io.Writer) *Writer               { return &Writer{w: w} }
func NewWriterSize(w io.Writer, size int) *Writer { return &Writer{w: w} }

func (b *Writer) Write(p []byte) (int, error) {
	if b.err != nil {
		return 0, b.err
	}
	b.b = append(b.b, p...)
	return len(p), nil
}

func (b *Writer) WriteString(s string) (int, error) { return b.Write([]byte(s)) }

func (b *Writer) WriteByte(c byte) error {
	_, err := b.Write([]byte{c})
	return err
}

func (b *Writer) Buffered() int { return len(b.b) }

func (b *Writer) Flush() error {
	if b.err != nil || len(b.b) == 0 {
		return b.err
	}
	n, err := b.w.Write(b.b)
	b.b = b.b[n:]
	b.err = err
	return err
}

type Reader struct{ r io.Reader }

func NewReader(r io.Reader) *Reader               { return &Reader{r} }
func NewReaderSize(r io.Reader, size int) *Reader { return &Reader{r} }
func (b *Reader) Read(p []byte) (int, error)      { return b.r.Read(p) }
