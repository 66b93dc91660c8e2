package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

func init() {
	props["C05"] = rC05
	props["C07"] = rC07
	props["C08"] = rC08
	props["C09"] = rC09
}

// emit runs f on a fresh streamer and returns the bytes it produced.
func emit(s *jzon.Streamer, f func(s *jzon.Streamer)) (string, error) {
	var w bytes.Buffer
	s.Reset(&w)
	f(s)
	if s.Error != nil {
		return "", s.Error
	}
	if err := s.Flush(); err != nil {
		return "", err
	}
	return w.String(), nil
}

func rC05(c *ctx) {
	s := jzon.NewStreamer()
	it := jzon.NewIterator()
	type wr struct {
		name   string
		bits   int
		signed bool
		w      func(s *jzon.Streamer, v uint64)
		r      func(it *jzon.Iterator) (string, error)
		val    func(v uint64) interface{}
	}
	ws := []wr{
		{"Int8", 8, true, func(s *jzon.Streamer, v uint64) { s.Int8(int8(v)) }, func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt8()) }, func(v uint64) interface{} { return int8(v) }},
		{"Int16", 16, true, func(s *jzon.Streamer, v uint64) { s.Int16(int16(v)) }, func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt16()) }, func(v uint64) interface{} { return int16(v) }},
		{"Int32", 32, true, func(s *jzon.Streamer, v uint64) { s.Int32(int32(v)) }, func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt32()) }, func(v uint64) interface{} { return int32(v) }},
		{"Int64", 64, true, func(s *jzon.Streamer, v uint64) { s.Int64(int64(v)) }, func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt64()) }, func(v uint64) interface{} { return int64(v) }},
		{"Int", 64, true, func(s *jzon.Streamer, v uint64) { s.Int(int(v)) }, func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt()) }, func(v uint64) interface{} { return int(v) }},
		{"Uint8", 8, false, func(s *jzon.Streamer, v uint64) { s.Uint8(uint8(v)) }, func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint8()) }, func(v uint64) interface{} { return uint8(v) }},
		{"Uint16", 16, false, func(s *jzon.Streamer, v uint64) { s.Uint16(uint16(v)) }, func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint16()) }, func(v uint64) interface{} { return uint16(v) }},
		{"Uint32", 32, false, func(s *jzon.Streamer, v uint64) { s.Uint32(uint32(v)) }, func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint32()) }, func(v uint64) interface{} { return uint32(v) }},
		{"Uint64", 64, false, func(s *jzon.Streamer, v uint64) { s.Uint64(v) }, func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint64()) }, func(v uint64) interface{} { return v }},
		{"Uint", 64, false, func(s *jzon.Streamer, v uint64) { s.Uint(uint(v)) }, func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint()) }, func(v uint64) interface{} { return uint(v) }},
	}
	text := func(w *wr, v uint64) string {
		if w.signed {
			sh := uint(64 - w.bits)
			return strconv.FormatInt(int64(v<<sh)>>sh, 10)
		}
		if w.bits < 64 {
			v &= 1<<uint(w.bits) - 1
		}
		return strconv.FormatUint(v, 10)
	}
	k := 0
	one := func(w *wr, v uint64) {
		k++
		want := text(w, v)
		c.check(w.name, func() string { return want }, func() string {
			exp := want
			got, err := emit(s, func(s *jzon.Streamer) {
				if k%4 == 0 {
					s.ArrayStart()
					s.Int(7)
					exp = "[7," + want + "]"
				}
				if k%8 == 5 {
					s.Value(w.val(v))
				} else {
					w.w(s, v)
				}
				if k%4 == 0 {
					s.ArrayEnd()
				}
			})
			if err != nil || got != exp {
				return fmt.Sprintf("wrote %q (%v), expected %q", got, err, exp)
			}
			it.ResetBytes([]byte(want))
			if back, err := w.r(it); err != nil || back != want {
				return fmt.Sprintf("reads back as %q, %v", back, err)
			}
			return ""
		})
	}
	for v := 0; v < 65536; v++ {
		for i := range ws {
			if ws[i].bits <= 16 || v < 1100 || v > 64400 {
				one(&ws[i], uint64(v))
				if v < 1100 {
					one(&ws[i], -uint64(v))
				}
			}
		}
	}
	for e := 0; e < 64; e++ {
		for d := -3; d <= 3; d++ {
			for i := range ws {
				one(&ws[i], uint64(1)<<uint(e)+uint64(d))
			}
		}
	}
	p := uint64(1)
	for e := 0; e < 20; e++ {
		for m := uint64(1); m <= 18; m++ {
			for d := -2; d <= 2; d++ {
				for i := range ws {
					one(&ws[i], p*m+uint64(d))
					one(&ws[i], -(p*m + uint64(d)))
				}
			}
		}
		p *= 10
	}
	for c.more() {
		for n := 0; n < 200; n++ {
			v := c.rng.Uint64() >> uint(c.rng.Intn(64))
			if c.rng.Intn(3) == 0 { // groups of thousands with zero, one, two leading zeros
				v = 0
				for g := c.rng.Intn(7); g >= 0; g-- {
					v = v*1000 + uint64([]int{0, 1, 9, 10, 99, 100, 999, c.rng.Intn(1000)}[c.rng.Intn(8)])
				}
			}
			w := &ws[c.rng.Intn(len(ws))]
			one(w, v)
			one(w, -v)
		}
	}
}

// sane replaces each invalid byte by U+FFFD.
func sane(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		sb.WriteRune(r)
		i += n
	}
	return sb.String()
}

func checkLit(in, lit string, html bool) string {
	if len(lit) == 0 || lit[0] != '"' {
		return fmt.Sprintf("output %q is not a string literal", lit)
	}
	e, v := refStr([]byte(lit), 0)
	if e != len(lit) {
		return fmt.Sprintf("output %q is not one string literal", lit)
	}
	if string(v) != sane(in) {
		return fmt.Sprintf("output %q decodes to %q, expected %q", lit, v, sane(in))
	}
	if !utf8.ValidString(lit) {
		return fmt.Sprintf("output %q is not valid UTF-8", lit)
	}
	if html && strings.ContainsAny(lit, "<>&") {
		return fmt.Sprintf("output %q contains an HTML character", lit)
	}
	if strings.Contains(lit, "\u2028") || strings.Contains(lit, "\u2029") {
		return fmt.Sprintf("output %q contains U+2028/U+2029", lit)
	}
	return ""
}

type tagStr struct {
	A string `json:",string"`
	B string
}

func rC07(c *ctx) {
	s := jzon.NewStreamer()
	cfgs := []*jzon.EncoderConfig{jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true}), jzon.NewEncoderConfig(&jzon.EncoderOption{})}
	k := 0
	one := func(in string) {
		k++
		html := k%2 == 0
		c.check("String", func() string { return fmt.Sprintf("%q html=%v", in, html) }, func() string {
			s.EscapeHTML(html)
			out, err := emit(s, func(s *jzon.Streamer) { s.String(in) })
			if err != nil {
				return err.Error()
			}
			if m := checkLit(in, out, html); m != "" {
				return m
			}
			if k%5 != 0 {
				return ""
			}
			out, err = emit(s, func(s *jzon.Streamer) { s.ObjectStart().Field(in).String(in).ObjectEnd() })
			if err != nil {
				return err.Error()
			}
			b := []byte(out)
			e, _ := refStr(b, 1)
			if e < 0 || e >= len(b) || b[0] != '{' || b[e] != ':' || b[len(b)-1] != '}' {
				return fmt.Sprintf("field output %q", out)
			}
			if m := checkLit(in, string(b[1:e]), html); m != "" {
				return "field: " + m
			}
			if m := checkLit(in, string(b[e+1:len(b)-1]), html); m != "" {
				return "value: " + m
			}
			cfg := cfgs[0]
			if !html {
				cfg = cfgs[1]
			}
			mo, err := cfg.Marshal(in)
			if err != nil {
				return err.Error()
			}
			if m := checkLit(in, string(mo), html); m != "" {
				return "Marshal: " + m
			}
			mo, err = cfg.Marshal(map[string]int{in: 1})
			if err != nil {
				return err.Error()
			}
			if e, _ := refStr(mo, 1); e < 0 || string(mo[e:]) != ":1}" {
				return fmt.Sprintf("map output %q", mo)
			} else if m := checkLit(in, string(mo[1:e]), html); m != "" {
				return "map key: " + m
			}
			mo, err = cfg.Marshal(tagStr{in, in})
			if err != nil {
				return err.Error()
			}
			e2, v := refVal(mo, 0, false, false)
			obj, _ := v.(map[string]interface{})
			if e2 != len(mo) || obj == nil || obj["B"] != sane(in) {
				return fmt.Sprintf("struct output %q", mo)
			}
			q, _ := obj["A"].(string)
			if html && strings.ContainsAny(string(mo), "<>&") {
				return fmt.Sprintf("struct output %q contains an HTML character", mo)
			}
			if e3, v3 := refStr([]byte(q), 0); e3 != len(q) || string(v3) != sane(in) {
				return fmt.Sprintf("quoted field is %q for %q", q, in)
			}
			return ""
		})
	}
	both := func(in string) { one(in); one(in) }
	for a := 0; a < 256; a++ {
		both(string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			both(string([]byte{byte(a), byte(b)}))
			one(string([]byte{'x', byte(a), 'y', byte(b)}))
		}
	}
	for r := rune(0); r < 0x11000; r++ {
		if r < 0x3000 || r%7 == 0 {
			both("a" + string(r) + "b")
		}
	}
	for _, lead := range []byte{0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xe0, 0xc0, 0xc2, 0xf8} {
		for a := 0x70; a < 256; a++ {
			for b := 0x78; b < 256; b += 3 {
				one(string([]byte{lead, byte(a), byte(b)}))
				one(string([]byte{lead, byte(a), byte(b), byte(b ^ a), '<'}))
			}
		}
	}
	pieces := []string{"a", "<", ">", "&", "\"", "\\", "/", "\n", "\r", "\t", "\b", "\f", "\x00", "\x1f", "\x7f", "é", "世", "😀", "\u2028", "\u2029", "\u2027", "\u202a", "\ufffd", "\xff", "\xe2\x80", "\xe2", "\xed\xa0\x80", "\xf0\x9f\x98", "'", "\U00012028", "\U00052029", "\u2128", "\u0128", "\u205c", "\u0422", "\U0001003c", "\U00010022", "\u013e", "\U0010ffff", "\ud7ff", "\ue000", strings.Repeat("z", 70)}
	for c.more() {
		var sb strings.Builder
		for n := c.rng.Intn(9); n >= 0; n-- {
			if c.rng.Intn(5) == 0 {
				sb.WriteByte(byte(c.rng.Intn(256)))
			} else {
				sb.WriteString(pieces[c.rng.Intn(len(pieces))])
			}
		}
		both(sb.String())
	}
}

// ---- call sequences

type failMarshal struct{}

var errMarshal = errors.New("marshal failed")

func (failMarshal) MarshalJSON() ([]byte, error) { return nil, errMarshal }

var plainStrs = []string{"", "a", "key", "x y", "0", "[", "},"}

// scalar picks one scalar call and its text.
func scalar(r *rand.Rand) (func(s *jzon.Streamer), string) {
	i := r.Int63() >> uint(r.Intn(63))
	if r.Intn(2) == 0 {
		i = -i
	}
	f := []float64{0, 1, -1.5, 1e21, 1e-7, 123456.75, 1e20, 2.5e-9, math.MaxFloat64}[r.Intn(9)]
	ft := strconv.FormatFloat(f, 'f', -1, 64)
	if a := math.Abs(f); a != 0 && (a < 1e-6 || a >= 1e21) {
		ft = strconv.FormatFloat(f, 'e', -1, 64)
		ft = strings.Replace(ft, "e-0", "e-", 1)
	}
	str := plainStrs[r.Intn(len(plainStrs))]
	switch r.Intn(24) {
	case 0:
		return func(s *jzon.Streamer) { s.Null() }, "null"
	case 1:
		return func(s *jzon.Streamer) { s.True() }, "true"
	case 2:
		return func(s *jzon.Streamer) { s.False() }, "false"
	case 3:
		return func(s *jzon.Streamer) { s.Bool(i%2 == 0) }, fmt.Sprint(i%2 == 0)
	case 4:
		return func(s *jzon.Streamer) { s.Int(int(i)) }, fmt.Sprint(i)
	case 5:
		return func(s *jzon.Streamer) { s.Int8(int8(i)) }, fmt.Sprint(int8(i))
	case 6:
		return func(s *jzon.Streamer) { s.Int16(int16(i)) }, fmt.Sprint(int16(i))
	case 7:
		return func(s *jzon.Streamer) { s.Int32(int32(i)) }, fmt.Sprint(int32(i))
	case 8:
		return func(s *jzon.Streamer) { s.Int64(i) }, fmt.Sprint(i)
	case 9:
		return func(s *jzon.Streamer) { s.Uint(uint(i)) }, fmt.Sprint(uint(i))
	case 10:
		return func(s *jzon.Streamer) { s.Uint8(uint8(i)) }, fmt.Sprint(uint8(i))
	case 11:
		return func(s *jzon.Streamer) { s.Uint16(uint16(i)) }, fmt.Sprint(uint16(i))
	case 12:
		return func(s *jzon.Streamer) { s.Uint32(uint32(i)) }, fmt.Sprint(uint32(i))
	case 13:
		return func(s *jzon.Streamer) { s.Uint64(uint64(i)) }, fmt.Sprint(uint64(i))
	case 14:
		return func(s *jzon.Streamer) { s.Float64(f) }, ft
	case 15:
		return func(s *jzon.Streamer) { s.Float32(1.5) }, "1.5"
	case 16, 17:
		return func(s *jzon.Streamer) { s.String(str) }, `"` + str + `"`
	case 18:
		return func(s *jzon.Streamer) { s.Raw([]byte(`{"r":[]}`)) }, `{"r":[]}`
	case 19:
		return func(s *jzon.Streamer) { s.RawString(`[1,2]`) }, `[1,2]`
	case 20:
		return func(s *jzon.Streamer) { s.Value([]int{1, 2, 3}) }, `[1,2,3]`
	case 21:
		return func(s *jzon.Streamer) { s.Value(nil) }, `null`
	case 22:
		return func(s *jzon.Streamer) { s.Value(struct{ A, B interface{} }{1, []string{}}) }, `{"A":1,"B":[]}`
	}
	return func(s *jzon.Streamer) { s.Value(map[string]bool{str: true}) }, `{"` + str + `":true}`
}

type call struct {
	name string
	f    func(s *jzon.Streamer)
	out  string // text after this call, given all earlier calls (prefix of the document)
}

// program generates a well-nested call sequence with the text after each call.
func program(r *rand.Rand, depth int) []call {
	var out []call
	text := ""
	add := func(n string, f func(*jzon.Streamer), t string) {
		text += t
		out = append(out, call{n, f, text})
	}
	var val func(d int)
	val = func(d int) {
		k := r.Intn(6)
		if d <= 0 && k > 3 {
			k = 0
		}
		switch k {
		case 4:
			add("ArrayStart", func(s *jzon.Streamer) { s.ArrayStart() }, "[")
			for i, n := 0, r.Intn(4); i < n; i++ {
				if i > 0 {
					text += ","
				}
				val(d - 1)
			}
			add("ArrayEnd", func(s *jzon.Streamer) { s.ArrayEnd() }, "]")
		case 5:
			add("ObjectStart", func(s *jzon.Streamer) { s.ObjectStart() }, "{")
			for i, n := 0, r.Intn(4); i < n; i++ {
				if i > 0 {
					text += ","
				}
				key := plainStrs[r.Intn(len(plainStrs))]
				if r.Intn(3) == 0 {
					add("RawField", func(s *jzon.Streamer) { s.RawField([]byte(`"` + key + `"`)) }, `"`+key+`":`)
				} else {
					add("Field", func(s *jzon.Streamer) { s.Field(key) }, `"`+key+`":`)
				}
				val(d - 1)
			}
			add("ObjectEnd", func(s *jzon.Streamer) { s.ObjectEnd() }, "}")
		default:
			f, t := scalar(r)
			add("scalar "+t, f, t)
		}
	}
	val(depth)
	return out
}

func desc(p []call) string {
	var n []string
	for _, x := range p {
		n = append(n, x.name)
	}
	return strings.Join(n, "; ")
}

func rC08(c *ctx) {
	s := jzon.NewStreamer()
	for c.more() {
		p := program(c.rng, 1+c.rng.Intn(5))
		c.check("well-nested", func() string { return desc(p) }, func() string {
			got, err := emit(s, func(s *jzon.Streamer) {
				for _, x := range p {
					x.f(s)
				}
			})
			if want := p[len(p)-1].out; err != nil || got != want {
				return fmt.Sprintf("emitted %q (%v), expected %q", got, err, want)
			}
			return ""
		})
		// an error recorded at any point freezes output and error
		cut := c.rng.Intn(len(p))
		how := c.rng.Intn(8)
		c.check("after error", func() string { return fmt.Sprintf("error kind %d after %s", how, desc(p[:cut])) }, func() string {
			var w bytes.Buffer
			s.Reset(&w)
			for _, x := range p[:cut] {
				x.f(s)
			}
			if err := s.Flush(); err != nil {
				return err.Error()
			}
			before := w.String()
			if cut > 0 && !strings.HasPrefix(p[len(p)-1].out, before) {
				return fmt.Sprintf("emitted %q", before)
			}
			var want error
			exact := true // calls that only record an error
			switch how {
			case 0:
				s.Float64(math.NaN())
				want = jzon.ErrFloatIsNan
			case 1:
				s.Float64(math.Inf(-1))
				want = jzon.ErrFloatIsInfinity
			case 2:
				s.Float32(float32(math.Inf(1)))
				want = jzon.ErrFloatIsInfinity
			case 3:
				s.Float32(float32(math.NaN()))
				want = jzon.ErrFloatIsNan
			case 4:
				s.Value(failMarshal{})
				exact = false
			case 5:
				s.Value([]interface{}{1, failMarshal{}, 2})
				exact = false
			case 6:
				s.Value(make(chan int))
				exact = false
			default:
				want = errors.New("custom")
				s.Error = want
			}
			if s.Error == nil || want != nil && s.Error != want {
				return fmt.Sprintf("recorded error %v, expected %v", s.Error, want)
			}
			err := s.Error
			for i := 0; i < 12; i++ {
				if i < 4 && cut < len(p) {
					p[cut+c.rng.Intn(len(p)-cut)].f(s)
				} else {
					f, _ := scalar(c.rng)
					f(s)
					s.Float64(math.NaN())
					s.ArrayStart().ArrayEnd().ObjectStart().Field("x").RawField([]byte(`"y"`)).ObjectEnd()
				}
				if s.Error != err {
					return fmt.Sprintf("recorded error changed from %v to %v", err, s.Error)
				}
			}
			if got := s.Flush(); got != err {
				return fmt.Sprintf("Flush returned %v, recorded error %v", got, err)
			}
			if w.String() != before {
				return fmt.Sprintf("output grew to %q after the error (was %q)", w.String(), before)
			}
			if exact {
				// the buffered bytes are those emitted before the error
				s.Error = nil
				if ferr := s.Flush(); ferr != nil {
					return ferr.Error()
				}
				if w.String() != before {
					return fmt.Sprintf("calls after the error left %q in the buffer", w.String()[len(before):])
				}
			} else {
				s.Error = nil
				mark := 0
				s.Flush()
				mark = w.Len()
				_ = mark
			}
			return ""
		})
		if how >= 4 && how <= 6 {
			// the same with the growth measured between two later calls
			c.check("frozen buffer", func() string { return fmt.Sprintf("error kind %d", how) }, func() string {
				bad := []interface{}{failMarshal{}, []interface{}{1, failMarshal{}, 2}, map[string]interface{}{"a": failMarshal{}}, struct{ A failMarshal }{}, make(chan int), []float64{1, math.NaN(), 2}}[c.rng.Intn(6)]
				run := func(extra bool) (string, string) {
					var w bytes.Buffer
					s.Reset(&w)
					s.ArrayStart().Int(1).Value(bad)
					err := fmt.Sprint(s.Error)
					if extra {
						for _, x := range p {
							x.f(s)
						}
					}
					err2 := fmt.Sprint(s.Error)
					if err != err2 || s.Error == nil {
						return "", "error changed from " + err + " to " + err2
					}
					s.Error = nil
					s.Flush()
					return w.String(), ""
				}
				a, m1 := run(false)
				b, m2 := run(true)
				if m1+m2 != "" {
					return m1 + m2
				}
				if a != b {
					return fmt.Sprintf("calls after the error changed the buffer from %q to %q", a, b)
				}
				return ""
			})
		}
	}
}

// ---- writers

var errWrite = errors.New("write failed")

type planWriter struct {
	plan []int // bytes accepted by each call; -1: all; -2: all, with an error; after the plan: all
	k    int
	got  []byte
	bad  bool // last call returned an error
	n    int
}

func (w *planWriter) Write(p []byte) (int, error) {
	w.n++
	w.bad = false
	k := -1
	if w.k < len(w.plan) {
		k = w.plan[w.k]
		w.k++
	}
	switch {
	case k == -2:
		w.got = append(w.got, p...)
		w.bad = true
		return len(p), errWrite
	case k < 0 || k > len(p):
		w.got = append(w.got, p...)
		return len(p), nil
	case k == len(p):
		w.got = append(w.got, p...)
		return k, nil
	}
	w.got = append(w.got, p[:k]...)
	w.bad = true
	return k, errWrite
}

func randPlan(r *rand.Rand) []int {
	p := make([]int, r.Intn(6))
	for i := range p {
		p[i] = []int{-1, -2, 0, 0, 1, 2, 5, 17, r.Intn(40)}[r.Intn(9)]
	}
	return p
}

func rC09(c *ctx) {
	s := jzon.NewStreamer()
	for c.more() {
		p := program(c.rng, 1+c.rng.Intn(4))
		w := &planWriter{plan: randPlan(c.rng)}
		flushAt := c.rng.Intn(4)
		c.check("Flush", func() string { return fmt.Sprintf("plan %v flushAt %d: %s", w.plan, flushAt, desc(p)) }, func() string {
			s.Reset(w)
			for i, x := range p {
				x.f(s)
				for n := 0; n < 2 && c.rng.Intn(flushAt+1) == 0; n++ {
					err := s.Flush()
					if (err != nil) != w.bad || err != nil && err != errWrite {
						return fmt.Sprintf("Flush returned %v, the writer failed: %v", err, w.bad)
					}
					if !strings.HasPrefix(x.out, string(w.got)) {
						return fmt.Sprintf("after call %d the writer has %q, emitted is %q", i, w.got, x.out)
					}
					if err == nil && string(w.got) != x.out {
						return fmt.Sprintf("successful Flush after call %d: the writer has %q, emitted is %q", i, w.got, x.out)
					}
				}
			}
			for n := 0; n < 20; n++ {
				err := s.Flush()
				if (err != nil) != w.bad {
					return fmt.Sprintf("Flush returned %v, the writer failed: %v", err, w.bad)
				}
				if !strings.HasPrefix(p[len(p)-1].out, string(w.got)) {
					return fmt.Sprintf("the writer has %q, emitted is %q", w.got, p[len(p)-1].out)
				}
				if err == nil {
					break
				}
			}
			if string(w.got) != p[len(p)-1].out {
				return fmt.Sprintf("the writer has %q, emitted is %q", w.got, p[len(p)-1].out)
			}
			return ""
		})
		c.check("no writer", func() string { return desc(p) }, func() string {
			s.Reset(nil)
			for _, x := range p {
				x.f(s)
			}
			if s.Flush() == nil {
				return "Flush without a writer returned no error"
			}
			return ""
		})
		// encoder
		ew := &planWriter{plan: randPlan(c.rng)}
		if c.rng.Intn(2) == 0 {
			for i := range ew.plan {
				ew.plan[i] = -1
			}
		}
		var vals []interface{}
		for i := 0; i < 1+c.rng.Intn(5); i++ {
			vals = append(vals, []interface{}{1, "a", nil, []int{1, 2}, map[string]int{"k": 1}, 2.5, struct{ A string }{"x"}, true}[c.rng.Intn(8)])
		}
		texts := []string{}
		for _, v := range vals {
			b, _ := jzon.Marshal(v)
			texts = append(texts, string(b))
		}
		c.check("Encoder", func() string { return fmt.Sprintf("plan %v values %v", ew.plan, texts) }, func() string {
			e := jzon.NewEncoder(ew)
			defer e.Release()
			want := ""
			var first error
			for i, v := range vals {
				n := ew.n
				err := e.Encode(v)
				if first != nil {
					if err != first {
						return fmt.Sprintf("Encode %d returned %v after the error %v", i, err, first)
					}
					if ew.n != n {
						return fmt.Sprintf("Encode %d wrote after a failed write", i)
					}
					continue
				}
				want += texts[i] + "\n"
				if (err != nil) != ew.bad {
					return fmt.Sprintf("Encode %d returned %v, the writer failed: %v", i, err, ew.bad)
				}
				if !strings.HasPrefix(want, string(ew.got)) {
					return fmt.Sprintf("the writer has %q, expected a prefix of %q", ew.got, want)
				}
				if err == nil && string(ew.got) != want {
					return fmt.Sprintf("the writer has %q, expected %q", ew.got, want)
				}
				first = err
			}
			return ""
		})
	}
	_ = io.EOF
}
