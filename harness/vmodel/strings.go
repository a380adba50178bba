//go:build go1.21

// Package vmodel models standard library functions for the symbolic engine,
// where their real bodies use tables or assembly. M_strings_Map stands for
// strings.Map and so on. Text is taken to be ASCII.
package vmodel

import (
	// what the models stand for must be loaded
	_ "strings"
	_ "unicode"
)

func M_unicode_IsLetter(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
func M_unicode_IsDigit(r rune) bool  { return '0' <= r && r <= '9' }
func M_unicode_IsNumber(r rune) bool { return '0' <= r && r <= '9' }
func M_unicode_IsUpper(r rune) bool  { return 'A' <= r && r <= 'Z' }
func M_unicode_IsLower(r rune) bool  { return 'a' <= r && r <= 'z' }
func M_unicode_IsSpace(r rune) bool  { return r == ' ' || 9 <= r && r <= 13 }
func M_unicode_IsPunct(r rune) bool {
	switch r {
	case '!', '"', '#', '%', '&', '\'', '(', ')', '*', ',', '-', '.', '/', ':', ';', '?', '@', '[', '\\', ']', '_', '{', '}':
		return true
	}
	return false
}

func M_unicode_ToUpper(r rune) rune {
	if 'a' <= r && r <= 'z' {
		return r - 'a' + 'A'
	}
	return r
}
func M_unicode_ToTitle(r rune) rune { return M_unicode_ToUpper(r) }

func M_unicode_ToLower(r rune) rune {
	if 'A' <= r && r <= 'Z' {
		return r - 'A' + 'a'
	}
	return r
}

func M_strings_Map(f func(rune) rune, s string) string {
	var b []byte
	for _, r := range s {
		if t := f(r); t >= 0 {
			b = append(b, byte(t))
		}
	}
	return string(b)
}

func M_strings_ToUpper(s string) string { return M_strings_Map(M_unicode_ToUpper, s) }
func M_strings_ToLower(s string) string { return M_strings_Map(M_unicode_ToLower, s) }
func M_strings_ToTitle(s string) string { return M_strings_Map(M_unicode_ToUpper, s) }

func M_strings_Repeat(s string, n int) string {
	if n < 0 {
		panic("strings: negative Repeat count")
	}
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, s...)
	}
	return string(b)
}

func M_strings_IndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func M_strings_Index(s, t string) int {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

func M_strings_LastIndex(s, t string) int {
	for i := len(s) - len(t); i >= 0; i-- {
		if s[i:i+len(t)] == t {
			return i
		}
	}
	return -1
}

func M_strings_LastIndexByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func M_strings_Contains(s, t string) bool { return M_strings_Index(s, t) >= 0 }

func M_strings_Count(s, t string) int {
	n := 0
	for t != "" {
		i := M_strings_Index(s, t)
		if i < 0 {
			break
		}
		n++
		s = s[i+len(t):]
	}
	return n
}

func M_strings_Replace(s, old, new string, n int) string {
	if old == "" {
		panic("vmodel: strings.Replace of the empty string")
	}
	var b []byte
	for n != 0 {
		i := M_strings_Index(s, old)
		if i < 0 {
			break
		}
		b = append(append(b, s[:i]...), new...)
		s = s[i+len(old):]
		n--
	}
	return string(append(b, s...))
}

func M_strings_ReplaceAll(s, old, new string) string { return M_strings_Replace(s, old, new, -1) }

func M_strings_Split(s, sep string) []string {
	if sep == "" {
		panic("vmodel: strings.Split on the empty string")
	}
	var r []string
	for {
		i := M_strings_Index(s, sep)
		if i < 0 {
			return append(r, s)
		}
		r = append(r, s[:i])
		s = s[i+len(sep):]
	}
}

func M_strings_Join(a []string, sep string) string {
	var b []byte
	for i, s := range a {
		if i > 0 {
			b = append(b, sep...)
		}
		b = append(b, s...)
	}
	return string(b)
}

func M_strings_Fields(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		if M_unicode_IsSpace(rune(s[i])) {
			i++
			continue
		}
		j := i
		for j < len(s) && !M_unicode_IsSpace(rune(s[j])) {
			j++
		}
		r = append(r, s[i:j])
		i = j
	}
	return r
}

func M_strings_FieldsFunc(s string, f func(rune) bool) []string {
	var r []string
	for i := 0; i < len(s); {
		if f(rune(s[i])) {
			i++
			continue
		}
		j := i
		for j < len(s) && !f(rune(s[j])) {
			j++
		}
		r = append(r, s[i:j])
		i = j
	}
	return r
}

func M_strings_Title(s string) string {
	var b []byte
	prev := byte(' ')
	for i := 0; i < len(s); i++ {
		c := s[i]
		p := rune(prev)
		if !(M_unicode_IsLetter(p) || M_unicode_IsDigit(p) || p == '_' || p == '\'') {
			b = append(b, byte(M_unicode_ToUpper(rune(c))))
		} else {
			b = append(b, c)
		}
		prev = c
	}
	return string(b)
}

// fmtInt writes v in decimal.
func fmtInt(neg bool, v uint64) string {
	n, p := 1, uint64(10)
	for n < 19 && v >= p {
		n++
		p *= 10
	}
	if n == 19 && v >= 10000000000000000000 {
		n++
	}
	var b []byte
	if neg {
		b = append(b, '-')
	}
	p = 1
	for i := 1; i < n; i++ {
		p *= 10
	}
	for i := 0; i < n; i++ {
		b = append(b, '0'+byte(v/p%10))
		p /= 10
	}
	return string(b)
}

func M_strconv_Itoa(i int) string { return M_strconv_FormatInt(int64(i), 10) }

func M_strconv_FormatInt(i int64, base int) string {
	if base != 10 {
		panic("vmodel: strconv.FormatInt in another base")
	}
	if i < 0 {
		return fmtInt(true, -uint64(i))
	}
	return fmtInt(false, uint64(i))
}

func M_strconv_FormatUint(i uint64, base int) string {
	if base != 10 {
		panic("vmodel: strconv.FormatUint in another base")
	}
	return fmtInt(false, i)
}

func M_strconv_AppendInt(b []byte, i int64, base int) []byte {
	return append(b, M_strconv_FormatInt(i, base)...)
}
