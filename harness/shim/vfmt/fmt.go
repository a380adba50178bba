//go:build go1.21

// Package vfmt stands in for package fmt under the plugins. What it formats
// is of no concern, except that strings are written as they are.
package vfmt

import "io"

type wrapped struct{ s string }

func (w wrapped) Error() string { return w.s }

type Stringer interface{ String() string }

func text(a []interface{}) []byte {
	var b []byte
	for i := range a {
		switch x := a[i].(type) {
		case string:
			b = append(b, x...)
		case []byte:
			b = append(b, x...)
		default:
			b = append(b, '?')
		}
	}
	return b
}

func format(f string, a []interface{}) []byte {
	if f == "%s" && len(a) == 1 {
		return text(a)
	}
	return []byte(f)
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return w.Write(format(f, a)) }
func Fprint(w io.Writer, a ...interface{}) (int, error)            { return w.Write(text(a)) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write(append(text(a), '\n'))
}
func Sprintf(f string, a ...interface{}) string { return string(format(f, a)) }
func Sprint(a ...interface{}) string            { return string(text(a)) }
func Sprintln(a ...interface{}) string          { return string(append(text(a), '\n')) }
func Errorf(f string, a ...interface{}) error   { return wrapped{f} }
func Printf(f string, a ...interface{}) (int, error) {
	return out.Write(format(f, a))
}
func Print(a ...interface{}) (int, error)   { return out.Write(text(a)) }
func Println(a ...interface{}) (int, error) { return out.Write(append(text(a), '\n')) }
