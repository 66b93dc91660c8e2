package main

import (
	"encoding/base64"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// midText is a decimal text a hair beside the middle of two neighbouring float32 values.
func midText(r *rand.Rand) string {
	f := math.Float32frombits(r.Uint32() &^ (0xff << 23) | uint32(1+r.Intn(252))<<23)
	g := math.Nextafter32(f, float32(math.Inf(1)))
	s := strconv.FormatFloat((float64(f)+float64(g))/2, 'e', 52+r.Intn(20), 64)
	i := strings.IndexByte(s, 'e')
	switch r.Intn(3) {
	case 0:
		return s
	case 1:
		return s[:i] + "1" + s[i:]
	}
	// below the middle: decrease the last digits that are not 0
	m := []byte(s[:i])
	k := len(m) - 1
	for k > 0 && (m[k] == '0' || m[k] == '.') {
		k--
	}
	if k == 0 || m[k] < '1' || m[k] > '9' {
		return s
	}
	m[k]--
	for k++; k < len(m); k++ {
		if m[k] != '.' {
			m[k] = '9'
		}
	}
	return string(m) + strings.Repeat("9", r.Intn(20)) + s[i:]
}

// intMapKeys: keys of every magnitude and sign, as encoding/json writes them.
func intMapKeys(c *ctx, one func(string, interface{}, bool)) {
	r := c.rng
	rnd := func() uint64 {
		v := r.Uint64() >> uint(r.Intn(64))
		if r.Intn(2) == 0 {
			v = -v
		}
		return v
	}
	for n := 0; n < 3; n++ {
		v := rnd()
		one("integer keys", map[int64]int{int64(v): 1}, true)
		one("integer keys", map[int]bool{int(v): true}, true)
		one("integer keys", map[uint64]string{v: "x"}, true)
		one("integer keys", map[uint]int{uint(v): 1}, true)
		one("integer keys", map[int32]int{int32(v): 1}, true)
		one("integer keys", map[uint32]int{uint32(v): 1}, true)
		one("integer keys", map[int16]int{int16(v): 1, int16(v >> 3): 2}, true)
		one("integer keys", map[uint16]int{uint16(v): 1}, true)
		one("integer keys", map[int8]int{int8(v): 1}, true)
		one("integer keys", map[uintptr]int{uintptr(v): 1}, true)
		one("integers", []int64{int64(v), -int64(v)}, true)
		one("integers", struct {
			A int64  `json:",string"`
			B uint64 `json:",string,omitempty"`
			C int32  `json:",string"`
			D uint16 `json:"d,omitempty"`
		}{int64(v), v, int32(v), uint16(v)}, true)
	}
}

type xD3 struct{ A3, B3, C3 int }
type XD3 struct {
	A3, B3 int
	C3     *int `json:",omitempty"`
}
type XD2 struct {
	A2 int
	*XD3
	B2 string
}
type XD1 struct {
	*XD2
	A1 []int `json:",omitempty"`
	B1 int
}
type XE1 struct{ E1, F1 int }
type xTop struct {
	First int
	*XD1
	Mid string `json:"mid"`
	*XE1
	Last bool
}
type xTop2 struct {
	*XD2
	XE1
	Z int
}
type xTop3 struct {
	*XE1
	V XD1
	*XD3
}

// nilEmbedded: promoted fields behind embedded pointers, some of them nil.
func nilEmbedded(c *ctx, one func(string, interface{}, bool)) {
	r := c.rng
	d3 := func() *XD3 {
		if r.Intn(2) == 0 {
			return nil
		}
		x := &XD3{A3: r.Intn(9), B3: r.Intn(9)}
		if r.Intn(2) == 0 {
			x.C3 = &x.A3
		}
		return x
	}
	d2 := func() *XD2 {
		if r.Intn(3) == 0 {
			return nil
		}
		return &XD2{r.Intn(9), d3(), "b"}
	}
	d1 := func() *XD1 {
		if r.Intn(3) == 0 {
			return nil
		}
		return &XD1{d2(), make([]int, r.Intn(2)), 4}
	}
	e1 := func() *XE1 {
		if r.Intn(2) == 0 {
			return nil
		}
		return &XE1{1, r.Intn(5)}
	}
	for n := 0; n < 4; n++ {
		a, b, x := xTop{1, d1(), "m", e1(), true}, xTop2{d2(), XE1{2, 3}, 9}, xTop3{XE1: e1(), XD3: d3()}
		if y := d1(); y != nil {
			x.V = *y
		}
		one("embedded pointers", a, true)
		one("embedded pointers", &a, true)
		one("embedded pointers", b, true)
		one("embedded pointers", []xTop2{b, {}}, true)
		one("embedded pointers", x, true)
		one("embedded pointers", map[string]*xTop{"k": &a}, true)
	}
}

// retained: what the package returned and what it was given stay as they are while the
// iterator goes on.
func retained(c *ctx) {
	r := c.rng
	var plan []string
	c.check("retained data", func() string { return strings.Join(plan, "; ") }, func() string {
		it := jzon.NewIterator()
		defer it.Release()
		type held struct {
			what string
			b    []byte
			want string
		}
		var hs []held
		hold := func(what string, b []byte) {
			if len(b) > 0 {
				hs = append(hs, held{what, b, string(b)})
			}
		}
		test := func() string {
			for _, h := range hs {
				if string(h.b) != h.want {
					return fmt.Sprintf("%s changed from %q to %q", h.what, clip(h.want, 200), clip(string(h.b), 200))
				}
			}
			return ""
		}
		elem := func(k int) string {
			n := []int{3, 40, 300, 506, 511, 512, 513, 700, 1030, 1600, 5000}[r.Intn(11)]
			ch := string(rune('a' + k%26))
			switch r.Intn(3) {
			case 0:
				return `"` + strings.Repeat(ch, n/4*4) + `"`
			case 1:
				return "[" + strings.Repeat(fmt.Sprint(k%10)+",", n/2) + fmt.Sprint(k%10) + "]"
			}
			return `{"` + ch + `":"` + strings.Repeat(ch, n) + `"}`
		}
		for round := 0; round < 2+r.Intn(4); round++ {
			var vals []string
			for k := 0; k < 1+r.Intn(5); k++ {
				vals = append(vals, elem(round*7+k))
			}
			doc := []byte(strings.Join(vals, " "))
			if r.Intn(2) == 0 {
				plan = append(plan, "ResetBytes")
				in := append(make([]byte, 0, len(doc)+r.Intn(2000)), doc...)
				hold("the data given to ResetBytes", in)
				hold("the array behind the data given to ResetBytes", in[:cap(in)])
				it.ResetBytes(in)
			} else {
				f := fragPlans(r)[r.Intn(8)](doc)
				plan = append(plan, "Reset")
				it.Reset(f)
			}
			for _, v := range vals {
				op := r.Intn(8)
				if op == 7 && v[0] != '"' {
					op = 6
				}
				plan = append(plan, fmt.Sprintf("%s of %d bytes", []string{"ReadRaw", "AppendRaw", "ReadStringAndAppend", "Skip", "Read", "ReadRaw", "ReadVal into a RawMessage", "ReadVal into bytes"}[op], len(v)))
				switch op {
				case 0, 5:
					b, err := it.ReadRaw()
					if err != nil || string(b) != v {
						return fmt.Sprintf("ReadRaw gave %q, %v, expected %q", clip(string(b), 200), err, clip(v, 200))
					}
					hold("a value of ReadRaw", b)
				case 1:
					b, err := it.AppendRaw([]byte("<>"))
					if err != nil || string(b) != "<>"+v {
						return fmt.Sprintf("AppendRaw gave %q, %v, expected %q", clip(string(b), 200), err, clip(v, 200))
					}
					hold("a value of AppendRaw", b)
				case 2:
					if v[0] != '"' {
						it.Skip()
						break
					}
					b, err := it.ReadStringAndAppend(nil)
					if err != nil || string(b) != v[1:len(v)-1] {
						return fmt.Sprintf("ReadStringAndAppend gave %q, %v", clip(string(b), 200), err)
					}
					hold("a value of ReadStringAndAppend", b)
				case 3:
					if err := it.Skip(); err != nil {
						return err.Error()
					}
				case 6:
					var m json.RawMessage
					if err := it.ReadVal(&m); err != nil || string(m) != v {
						return fmt.Sprintf("ReadVal into a RawMessage gave %q, %v, expected %q", clip(string(m), 200), err, clip(v, 200))
					}
					hold("a raw message", m)
				case 7:
					var m []byte
					want, _ := base64.StdEncoding.DecodeString(v[1 : len(v)-1])
					if err := it.ReadVal(&m); err != nil || string(m) != string(want) {
						return fmt.Sprintf("ReadVal into []byte gave %q, %v, expected %q", clip(string(m), 200), err, clip(string(want), 200))
					}
					hold("decoded bytes", m)
				case 4:
					x, err := it.Read()
					if err != nil {
						return err.Error()
					}
					if w, _ := json.Marshal(x); string(w) != v {
						return fmt.Sprintf("Read of %q gave %q", clip(v, 200), clip(string(w), 200))
					}
				}
				if s := test(); s != "" {
					return s
				}
			}
		}
		return test()
	})
}

// locations: the text in a wrapped error is input around the point reached, never bytes left
// over in the buffer.
func locations(c *ctx) {
	r := c.rng
	base := errors.New("x")
	var in []byte
	c.check("error location", func() string { return fmt.Sprintf("%q", in) }, func() string {
		it := jzon.NewIterator()
		defer it.Release()
		if r.Intn(2) == 0 {
			it.Reset(&frag{data: bytes.Repeat([]byte("\x01"), 512), end: io.EOF})
			it.NextValueType()
			it.Skip()
		}
		in = nil
		for k := 0; k < 1+r.Intn(120); k++ {
			in = append(in, "abcdefghij"[r.Intn(10)])
		}
		in = []byte(`"` + string(in) + `" ` + fmt.Sprint(r.Intn(100000)) + ` ["` + string(in) + `"]`)
		if r.Intn(2) == 0 {
			it.ResetBytes(append(append([]byte(nil), in...), "\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01\x01"...)[:len(in)])
		} else {
			it.Reset(fragPlans(r)[r.Intn(8)](in))
		}
		for k := r.Intn(4); k > 0; k-- {
			it.Skip()
		}
		rest := string(it.Buffer())
		if !strings.Contains(string(in), rest) {
			return fmt.Sprintf("Buffer() is %q: not input", rest)
		}
		got := it.WrapError(base).Error()
		i := strings.Index(got, "near ")
		if i < 0 {
			return "no location in " + got
		}
		loc := strings.TrimSuffix(got[i+5:], ")")
		if !strings.Contains(string(in), loc) {
			return fmt.Sprintf("location %q is not input; buffer %q", loc, rest)
		}
		return ""
	})
}
