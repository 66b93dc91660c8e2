package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
)

// ---- readers

var errReader = errors.New("reader failed")

// frag delivers data in pieces.
type frag struct {
	data  []byte
	sizes []int // size of each call (cyclic); 0: return (0, nil); <0: as much as fits
	k     int
	end   error // error at the end (io.EOF or another)
	with  bool  // deliver the end error together with the last data
	pos   int
	more  []byte // given after the end error was returned once
	fail  [2]int // reading stops at the first position; the bytes up to the second come with an error, and the reader goes on
}

func (f *frag) Read(p []byte) (int, error) {
	if f.pos >= len(f.data) {
		f.data, f.more = append(f.data[:len(f.data):len(f.data)], f.more...), nil
		return 0, f.end
	}
	n := len(p)
	if len(f.sizes) > 0 {
		n = f.sizes[f.k%len(f.sizes)]
		f.k++
		if n < 0 {
			n = len(p)
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(f.data)-f.pos {
		n = len(f.data) - f.pos
	}
	failing := false
	if f.fail[1] > 0 && f.pos == f.fail[0] {
		n, failing = f.fail[1]-f.fail[0], true
		if n > len(p) {
			n = len(p)
		}
		f.fail[1] = -(f.pos + n) // done
	} else if f.fail[1] > 0 && f.pos < f.fail[0] && n > f.fail[0]-f.pos {
		n = f.fail[0] - f.pos
	}
	copy(p, f.data[f.pos:f.pos+n])
	// scribble over the unused part: a reader may use all of p as scratch space
	for i := n; i < len(p); i++ {
		p[i] = "0\"]}1, \\"[(i+f.k)%8]
	}
	f.pos += n
	if failing {
		return n, errReader
	}
	if f.with && f.pos == len(f.data) && f.end == io.EOF && n > 0 {
		return n, f.end
	}
	return n, nil
}

func (f *frag) String() string {
	return fmt.Sprintf("reader(%s sizes=%v end=%v with=%v)", quote(f.data), f.sizes, f.end, f.with)
}

func fragPlans(r *rand.Rand) []func([]byte) *frag {
	rs := make([]int, 1+r.Intn(6))
	for i := range rs {
		rs[i] = r.Intn(5)
	}
	rs[0] = 1 + r.Intn(7)
	big := []int{511 - r.Intn(3), 1, 1, 2, 1}
	return []func([]byte) *frag{
		func(b []byte) *frag { return &frag{data: b, end: io.EOF} },
		func(b []byte) *frag { return &frag{data: b, end: io.EOF, with: true} },
		func(b []byte) *frag { return &frag{data: b, end: io.EOF, sizes: []int{1}} },
		func(b []byte) *frag { return &frag{data: b, end: io.EOF, sizes: []int{1}, with: true} },
		func(b []byte) *frag { return &frag{data: b, end: io.EOF, sizes: []int{0, 1, 0, 2}} },
		func(b []byte) *frag { return &frag{data: b, end: io.EOF, sizes: rs} },
		func(b []byte) *frag { return &frag{data: b, end: io.EOF, sizes: big} },
		func(b []byte) *frag {
			if len(b) == 0 {
				return &frag{data: b, end: io.EOF}
			}
			k := 1 + r.Intn(len(b))
			return &frag{data: b, end: io.EOF, sizes: []int{k, -1, -1, -1, -1, -1, -1, -1}}
		},
	}
}

func quote(b []byte) string {
	if len(b) > 4000 {
		return fmt.Sprintf("%q...(%d bytes)", b[:4000], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// ---- documents

var wsChoices = []string{"", "", "", "", " ", "\n", "\t", "\r", "  ", " \n\t\r "}

func ws(r *rand.Rand) string { return wsChoices[r.Intn(len(wsChoices))] }

var strPieces = []string{"a", "b", "key", "0", "é", "世", "😀", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t",
	"\\u0041", "\\u00e9", "\\u4e16", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\ud83d\\u0041", "\\ud83d\\ud83d\\ude00", "\\uD83D\\uDE00", "\\u0000", "\\u007f", "\\u07ff", "\\u0800", "\\uffff", "\\ufffd",
	"\x7f", "\xff", "\xc3", "\xe2\x80\xa8", "\u2028", "<", ">", "&", "'", "/", " ", "[", "]", "{", "}", ",", ":", "\\ud800\\n", "\\udbff\\udfff", "\\ud800\\udc00", "\\ud83dx", "\\udc00\\ud800"}

func genStrLit(r *rand.Rand) string {
	var sb strings.Builder
	sb.WriteByte('"')
	n := r.Intn(5)
	if r.Intn(12) == 0 {
		n = r.Intn(80)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			fmt.Fprintf(&sb, "\\u%04x", r.Intn(65536))
		case 1:
			sb.WriteString(strings.Repeat("x", r.Intn(20)))
		default:
			sb.WriteString(strPieces[r.Intn(len(strPieces))])
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

var numSamples = []string{"0", "-0", "1", "-1", "10", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551620", "1844674407370955162", "184467440737095516150",
	"0.1", "1.5", "-1.5e3", "1e5", "1E+5", "1e-5", "1.7976931348623157e308", "1e309", "5e-324", "4.9e-324", "2e-324", "0.000001", "123456789.123456789", "1e400", "3.4028235e38", "3.5e38", "1e-46", "16777217", "0e5", "0.0", "1e0", "1e00", "9007199254740993", "2.2250738585072011e-308", "0.1e1", "100000000000000000000000000000000000000000", "999", "1000", "1001", "999999", "1000000", "12345678901234567890"}

func genNum(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return numSamples[r.Intn(len(numSamples))]
	case 1:
		return fmt.Sprint(r.Int63()>>uint(r.Intn(63)) - int64(r.Intn(1000)))
	case 2:
		s := ""
		if r.Intn(2) == 0 {
			s = "-"
		}
		n := 1 + r.Intn(22)
		for i := 0; i < n; i++ {
			d := r.Intn(10)
			if i == 0 && d == 0 && n > 1 {
				d = 1
			}
			s += string(rune('0' + d))
		}
		if r.Intn(2) == 0 {
			s += "." + fmt.Sprint(r.Intn(1000000))
		}
		if r.Intn(2) == 0 {
			s += []string{"e", "E", "e+", "e-", "E-"}[r.Intn(5)] + fmt.Sprint(r.Intn(330))
		}
		return s
	}
	return fmt.Sprint(r.Intn(300) - 150)
}

func genVal(r *rand.Rand, depth int) string {
	k := r.Intn(10)
	if depth <= 0 && k >= 6 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return "null"
	case 1:
		return "true"
	case 2:
		return "false"
	case 3, 4:
		return genNum(r)
	case 5:
		return genStrLit(r)
	case 6, 7:
		n := r.Intn(4)
		s := "[" + ws(r)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += "," + ws(r)
			}
			s += genVal(r, depth-1) + ws(r)
		}
		return s + "]"
	}
	n := r.Intn(4)
	s := "{" + ws(r)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "," + ws(r)
		}
		k := genStrLit(r)
		if r.Intn(3) == 0 {
			k = []string{`"a"`, `"b"`, `"A"`, `""`, `"\u0061"`}[r.Intn(5)]
		}
		s += k + ws(r) + ":" + ws(r) + genVal(r, depth-1) + ws(r)
	}
	return s + "}"
}

func genDoc(r *rand.Rand) []byte { return []byte(ws(r) + genVal(r, 1+r.Intn(4)) + ws(r)) }

// bigDoc crosses the 512 byte refill boundary.
func bigDoc(r *rand.Rand) []byte {
	pad := 490 + r.Intn(30)
	if r.Intn(3) == 0 {
		pad += 512
	}
	switch r.Intn(4) {
	case 0:
		return []byte(strings.Repeat(" ", pad) + genVal(r, 3))
	case 1:
		return []byte("[" + `"` + strings.Repeat("y", pad) + `",` + genVal(r, 3) + "," + genVal(r, 2) + "]")
	case 2:
		return []byte(`{"` + strings.Repeat("k", pad) + `":` + genVal(r, 3) + `,"z":` + genVal(r, 2) + "}")
	}
	return []byte("[" + strings.Repeat("1,", pad/2) + genVal(r, 3) + "," + genVal(r, 2) + "]")
}

var tokens = []string{"[", "]", "{", "}", ",", ":", `"a"`, "1", `"a":`, ",", "]", "}", "0.5", "null", " "}

func randTokens(r *rand.Rand, n int) string {
	s := ""
	for ; n > 0; n-- {
		s += tokens[r.Intn(len(tokens))]
	}
	return s
}

var interesting = []byte("\"\\/bfnrtu0123456789abcdefABCDEF+-.eE[]{},: \t\n\r\x00\x1f\x7f\x80\xff'<>&truefalsnul")

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			return append(b, interesting[r.Intn(len(interesting))])
		}
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 5, 6: // replace a few bytes by structural tokens
			j := i + r.Intn(3)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], append([]byte(randTokens(r, 1+r.Intn(4))), b[j:]...)...)
		case 7: // repeat a byte
			b = append(b[:i:i], append([]byte(strings.Repeat(string(b[i:i+1]), 1+r.Intn(3))), b[i:]...)...)
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b[i] = interesting[r.Intn(len(interesting))]
		case 3:
			b = append(b[:i], append([]byte{interesting[r.Intn(len(interesting))]}, b[i:]...)...)
		case 4:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

// deep builds a nest of depth d with random container kinds; brk>=0: the closing bracket at that level is wrong.
func deep(r *rand.Rand, d int, kinds func(int) bool, brk int) []byte {
	var a, z []byte
	for i := 0; i < d; i++ {
		obj := kinds(i)
		sib := r.Intn(4) == 0 && d < 5000
		if obj {
			if sib {
				a = append(a, `{"s":[1,{"q":2}],"k":`...)
			} else {
				a = append(a, `{"k":`...)
			}
		} else {
			if sib {
				a = append(a, `[{"p":[]},`...)
			} else {
				a = append(a, '[')
			}
		}
		cl := byte(']')
		if obj != (i == brk) {
			cl = '}'
		}
		z = append(z, cl)
		if sib && r.Intn(2) == 0 {
			if obj {
				z = append(z, `{"u":1}:"t",`...)
				// reversed below: ,"t":{"u":1}
				z = z[:len(z)-len(`{"u":1}:"t",`)]
			}
		}
	}
	a = append(a, '1')
	for i := len(z) - 1; i >= 0; i-- {
		a = append(a, z[i])
	}
	return a
}

// shortStrings enumerates all strings over alpha up to length n.
func shortStrings(alpha string, n int, f func([]byte) bool) {
	buf := make([]byte, n)
	var rec func(k int) bool
	rec = func(k int) bool {
		if !f(buf[:k]) {
			return false
		}
		if k == n {
			return true
		}
		for i := 0; i < len(alpha); i++ {
			buf[k] = alpha[i]
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

// inputs feeds f with hinted, enumerated, generated and mutated documents until the budget is used.
func (c *ctx) inputs(f func(b []byte)) {
	for _, h := range c.hints {
		for _, p := range []string{"", "[", "{", "\"", "[[", `{"a":`, "-", "0", "1", "\"\\"} {
			f([]byte(p + h))
		}
	}
	for _, s := range numSamples {
		f([]byte(s))
		f([]byte(s + " "))
		f([]byte("[" + s + "]"))
	}
	for _, s := range strPieces {
		f([]byte(`"` + s + `"`))
		f([]byte(`"x` + s + `y"`))
		f([]byte(`"` + s + `" `))
	}
	for c.more() {
		b := genDoc(c.rng)
		if c.rng.Intn(8) == 0 {
			b = bigDoc(c.rng)
		}
		f(b)
		f(mutate(c.rng, b))
		if c.rng.Intn(2) == 0 {
			f([]byte(randTokens(c.rng, 2+c.rng.Intn(9))))
		}
		if len(b) > 0 {
			f(b[:c.rng.Intn(len(b))])
		}
	}
}
