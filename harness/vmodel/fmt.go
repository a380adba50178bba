//go:build go1.21

package vmodel

import (
	"fmt"
	"io"
	"strings"
)

func M_strings_Builder_Grow(b *strings.Builder, n int) {}

// sprint formats v for %v, %s and %d.
func sprint(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case error:
		return x.Error()
	case fmt.Stringer:
		return x.String()
	case string:
		return x
	case []byte:
		return string(x)
	case bool:
		if x {
			return "true"
		}
		return "false"
	case int:
		return M_strconv_FormatInt(int64(x), 10)
	case int32:
		return M_strconv_FormatInt(int64(x), 10)
	case int64:
		return M_strconv_FormatInt(x, 10)
	case uint32:
		return fmtInt(false, uint64(x))
	case uint64:
		return fmtInt(false, x)
	}
	panic("vmodel: formatting an unusual value")
}

// number formats v for %d, which ignores String methods.
func number(v interface{}) string {
	switch x := v.(type) {
	case int:
		return M_strconv_FormatInt(int64(x), 10)
	case int32:
		return M_strconv_FormatInt(int64(x), 10)
	case int64:
		return M_strconv_FormatInt(x, 10)
	case uint32:
		return fmtInt(false, uint64(x))
	case uint64:
		return fmtInt(false, x)
	}
	panic("vmodel: formatting an unusual number")
}

func M_fmt_Sprintf(f string, a ...interface{}) string {
	var b []byte
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b = append(b, f[i])
			continue
		}
		i++
		switch f[i] {
		case '%':
			b = append(b, '%')
		case 's', 'v':
			b = append(b, sprint(a[n])...)
			n++
		case 'd':
			b = append(b, number(a[n])...)
			n++
		default:
			panic("vmodel: format verb")
		}
	}
	if n != len(a) {
		panic("vmodel: format arguments")
	}
	return string(b)
}

func M_fmt_Sprint(a ...interface{}) string {
	if len(a) != 1 {
		panic("vmodel: fmt.Sprint")
	}
	return sprint(a[0])
}

func M_fmt_Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(M_fmt_Sprintf(f, a...)))
}

func M_fmt_Fprint(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(M_fmt_Sprint(a...)))
}
