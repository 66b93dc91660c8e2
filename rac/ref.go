package main

import (
	"math/big"
	"unicode/utf16"
	"unicode/utf8"
)

// Reference definition of the JSON text grammar, written from RFC 8259 and independent of the code under test.
// Ends are positions; -1: not JSON, -2: input ends (or its reader fails) before the value is complete.

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func refTok(b []byte, i int) int {
	for i < len(b) && isWS(b[i]) {
		i++
	}
	return i
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func hexVal(c byte) rune {
	switch {
	case c <= '9':
		return rune(c - '0')
	case c >= 'a':
		return rune(c-'a') + 10
	}
	return rune(c-'A') + 10
}

// refStr parses a string whose opening quote is at i; returns the end and the decoded bytes.
func refStr(b []byte, i int) (int, []byte) {
	out := []byte{}
	i++
	pending := rune(-1) // high surrogate waiting for its pair
	flush := func() {
		if pending >= 0 {
			out = append(out, "\ufffd"...)
			pending = -1
		}
	}
	for {
		if i >= len(b) {
			return -2, nil
		}
		c := b[i]
		switch {
		case c == '"':
			flush()
			return i + 1, out
		case c < 0x20:
			return -1, nil
		case c != '\\':
			flush()
			out = append(out, c)
			i++
		default:
			i++
			if i >= len(b) {
				return -2, nil
			}
			e := b[i]
			i++
			k := -1
			for j, x := range []byte(`"\/bfnrt`) {
				if x == e {
					k = j
				}
			}
			if k >= 0 {
				flush()
				out = append(out, "\"\\/\b\f\n\r\t"[k])
				continue
			}
			if e != 'u' {
				return -1, nil
			}
			var r rune
			for j := 0; j < 4; j++ {
				if i >= len(b) {
					return -2, nil
				}
				if !isHex(b[i]) {
					return -1, nil
				}
				r = r<<4 | hexVal(b[i])
				i++
			}
			if pending >= 0 {
				if d := utf16.DecodeRune(pending, r); d != 0xfffd {
					out = utf8.AppendRune(out, d)
					pending = -1
					continue
				}
				flush()
			}
			switch {
			case r >= 0xd800 && r < 0xdc00:
				pending = r
			case r >= 0xdc00 && r < 0xe000:
				out = append(out, "\ufffd"...)
			default:
				out = utf8.AppendRune(out, r)
			}
		}
	}
}

func digit(b []byte, i int) bool { return i < len(b) && b[i] >= '0' && b[i] <= '9' }

// refNum parses a number (longest match); z: the input is followed by a reader error.
func refNum(b []byte, i int, z bool) int {
	at := func(i int) int {
		if i >= len(b) && z {
			return -2
		}
		return i
	}
	if i < len(b) && b[i] == '-' {
		i++
		if i >= len(b) {
			return -2
		}
		if !digit(b, i) {
			return -1
		}
	}
	if !digit(b, i) {
		return -1
	}
	if b[i] == '0' {
		i++
	} else {
		for digit(b, i) {
			i++
		}
	}
	if i < len(b) && b[i] == '.' {
		i++
		if i >= len(b) {
			return -2
		}
		if !digit(b, i) {
			return -1
		}
		for digit(b, i) {
			i++
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		if i >= len(b) {
			return -2
		}
		if !digit(b, i) {
			return -1
		}
		for digit(b, i) {
			i++
		}
	}
	return at(i)
}

func refLit(b []byte, i int, s string) int {
	for j := 0; j < len(s); j++ {
		if i+j >= len(b) {
			return -2
		}
		if b[i+j] != s[j] {
			return -1
		}
	}
	return i + len(s)
}

// refEnd: end of the value after optional whitespace at i.
func refEnd(b []byte, i int, z bool) int {
	type fr struct{ obj bool }
	var st []fr
	// iterative, so that depth is unlimited
	expectVal := true
	for {
		if expectVal {
			i = refTok(b, i)
			if i >= len(b) {
				return -2
			}
			switch c := b[i]; {
			case c == '[':
				st = append(st, fr{false})
				i = refTok(b, i+1)
				if i >= len(b) {
					return -2
				}
				if b[i] == ']' {
					i++
					st = st[:len(st)-1]
					expectVal = false
				}
				if expectVal {
					continue
				}
			case c == '{':
				st = append(st, fr{true})
				i = refTok(b, i+1)
				if i >= len(b) {
					return -2
				}
				if b[i] == '}' {
					i++
					st = st[:len(st)-1]
					expectVal = false
				} else {
					if i = refKey(b, i); i < 0 {
						return i
					}
					continue
				}
			case c == '"':
				i, _ = refStr(b, i)
				expectVal = false
			case c == 't':
				i = refLit(b, i, "true")
				expectVal = false
			case c == 'f':
				i = refLit(b, i, "false")
				expectVal = false
			case c == 'n':
				i = refLit(b, i, "null")
				expectVal = false
			case c == '-' || c >= '0' && c <= '9':
				i = refNum(b, i, z)
				expectVal = false
			default:
				return -1
			}
			if i < 0 {
				return i
			}
		}
		if len(st) == 0 {
			return i
		}
		i = refTok(b, i)
		if i >= len(b) {
			return -2
		}
		top := st[len(st)-1]
		switch {
		case b[i] == ',':
			i++
			if top.obj {
				i = refTok(b, i)
				if i >= len(b) {
					return -2
				}
				if i = refKey(b, i); i < 0 {
					return i
				}
			}
			expectVal = true
		case b[i] == ']' && !top.obj, b[i] == '}' && top.obj:
			i++
			st = st[:len(st)-1]
		default:
			return -1
		}
	}
}

// refKey: key string and colon at i.
func refKey(b []byte, i int) int {
	if b[i] != '"' {
		return -1
	}
	i, _ = refStr(b, i)
	if i < 0 {
		return i
	}
	i = refTok(b, i)
	if i >= len(b) {
		return -2
	}
	if b[i] != ':' {
		return -1
	}
	return i + 1
}

func refValid(b []byte) bool {
	e := refEnd(b, 0, false)
	return e >= 0 && refTok(b, e) == len(b)
}

// refInt: the integer literal grammar: -?(0|[1-9][0-9]*) at i (after whitespace).
func refInt(b []byte, i int, signed bool) (end int, v *big.Int) {
	i = refTok(b, i)
	j := i
	if j >= len(b) {
		return -2, nil
	}
	if b[j] == '-' {
		if !signed {
			return -1, nil
		}
		j++
		if j >= len(b) {
			return -2, nil
		}
	}
	if !digit(b, j) {
		return -1, nil
	}
	if b[j] == '0' {
		j++
	} else {
		for digit(b, j) {
			j++
		}
	}
	v, _ = new(big.Int).SetString(string(b[i:j]), 10)
	return j, v
}
