package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/zerosnake0/jzon"
)

func init() {
	props["C01"] = rC01
	props["C02"] = func(c *ctx) { opProp(c, "C02") }
	props["C03"] = rC03
	props["C04"] = rC04
	props["C06"] = rC06
	props["C10"] = rC10
	props["C16"] = rC16
	props["C17"] = rC17
}

func (c *ctx) exhaust(prefix, alpha string, n int, f func([]byte)) {
	buf := []byte(prefix)
	shortStrings(alpha, n, func(b []byte) bool {
		f(append(buf[:len(prefix)], b...))
		return c.more()
	})
}

func rC01(c *ctx) {
	it := jzon.NewIterator()
	os := opsFor("C01")
	valid := func(b []byte) {
		c.check("Valid", func() string { return quote(b) }, func() string {
			if got, want := jzon.Valid(b), refValid(b); got != want {
				return fmt.Sprintf("Valid = %v, expected %v", got, want)
			}
			return ""
		})
	}
	one := func(b []byte) {
		c.mem(it, os[0], b)
		valid(b)
	}
	// nesting
	deeps := func() {
		for d := 1; d < 300; d++ {
			for k := 0; k < 6; k++ {
				sw := c.rng.Intn(d + 1)
				kinds := []func(int) bool{
					func(int) bool { return false }, func(int) bool { return true },
					func(i int) bool { return i%2 == 0 }, func(i int) bool { return i < sw },
					func(i int) bool { return c.rng.Intn(2) == 0 }, func(i int) bool { return i >= sw },
				}[k]
				brk := -1
				if c.rng.Intn(3) == 0 {
					brk = c.rng.Intn(d)
				}
				b := deep(c.rng, d, kinds, brk)
				one(b)
				if d < 140 {
					one(append(b, ']'))
					one(b[:len(b)-1])
					c.rdr(it, os[0], &frag{data: b, end: io.EOF, sizes: []int{1, 3}})
				}
			}
		}
		for _, d := range []int{1000, 4095, 20000, 200000} {
			one(deep(c.rng, d, func(int) bool { return c.rng.Intn(2) == 0 }, -1))
			one(deep(c.rng, d, func(int) bool { return c.rng.Intn(2) == 0 }, c.rng.Intn(d)))
		}
		// deep, back to shallow, deep again: stale stack bits
		for i := 0; i < 200; i++ {
			a := deep(c.rng, 60+c.rng.Intn(80), func(int) bool { return c.rng.Intn(3) > 0 }, -1)
			bb := deep(c.rng, 60+c.rng.Intn(80), func(int) bool { return c.rng.Intn(3) == 0 }, -1)
			one([]byte("[" + string(a) + "," + string(bb) + `,{"x":` + string(a) + "}]"))
			one([]byte(`{"a":` + string(a) + `,"b":` + string(bb) + `,"c":[` + string(a) + "]}"))
			one([]byte(`[[` + string(a) + `,` + string(bb) + `}]`))
		}
	}
	deeps()
	// wrong separators everywhere in small nests
	for _, doc := range []string{`[1,2]`, `{"a":1,"b":2}`, `[[1,2],3]`, `[{"a":1,"b":2},3]`, `{"a":{"a":1,"b":2},"c":3}`, `{"a":[1,2],"c":3}`, `[[{"a":1,"b":2}],3]`, `[[[1,2]],3]`, `{"a":[{"x":1,"y":[2,3]}],"c":3}`} {
		for i := 0; i <= len(doc); i++ {
			for j := i; j <= len(doc) && j <= i+2; j++ {
				for a := -1; a < 11; a++ {
					for b := -1; b < 11; b++ {
						for d := -1; d < 11; d++ {
							m := doc[:i]
							for _, t := range []int{a, b, d} {
								if t >= 0 {
									m += tokens[t]
								}
							}
							if len(m) < 40 {
								one([]byte(m + doc[j:]))
							}
						}
					}
				}
			}
		}
	}
	c.share(0.25, func() { c.exhaust("", `[]{},:"1 `, 6, one) })
	c.share(0.15, func() { c.exhaust("", `-+.eE01,`, 6, one) })
	c.share(0.15, func() { c.exhaust(`"`, "\"\\u0dg\x1fn ", 6, one) })
	c.share(0.1, func() { c.exhaust("", "truefalsn ", 5, one) })
	for a := 0; a < 256; a++ {
		for _, t := range []string{"%s", "[%s", "[1%s", `{"a"%s`, `{"a":1%s`, `"%s"`, `"\%s"`, `"\u%s000"`, `"\u000%s"`, "1%s", "0%s", "-%s", "1.%s", "1e%s", "1.0%s", "tru%s", "nul%s", "%s1", "[%s1]", "{%s}", `{"a":%s}`, `[1,%s]`} {
			one([]byte(fmt.Sprintf(t, string([]byte{byte(a)}))))
		}
	}
	c.inputs(func(b []byte) {
		one(b)
		for _, o := range os[1:] {
			c.mem(it, o, b)
		}
		c.rdr(it, os[0], fragPlans(c.rng)[c.rng.Intn(8)](b))
	})
}

// opProp checks all operations of a property on all inputs, in memory and fragmented.
func opProp(c *ctx, prop string) {
	it := jzon.NewIterator()
	os := opsFor(prop)
	c.inputs(func(b []byte) {
		for _, o := range os {
			c.mem(it, o, b)
		}
		o := os[c.rng.Intn(len(os))]
		c.rdr(it, o, fragPlans(c.rng)[c.rng.Intn(8)](b))
	})
}

func rC03(c *ctx) {
	it := jzon.NewIterator()
	os := opsFor("C03")
	// every split point of small documents
	small := []string{`12345`, `-12`, `0`, `1.5e-7`, `"ab\n\u00e9\ud83d\ude00z"`, `"plain"`, `""`, `true`, `false`, `null`, `[1,"x",{"k":[2]}]`, `{"a":1,"b":{"c":"\t"}}`, `[]`, `{}`, ` [ 1 , 2 ] `, `"\ud83d\u0041"`, `"\ud83d`, `[1,`, `tru`, `255`, `65535`, `4294967295`, `18446744073709551615`, `-9223372036854775808`, `"\ud83d\ude00"`, `256`, `1e5`}
	for _, s := range small {
		for i := 0; i <= len(s); i++ {
			for j := i; j <= len(s); j++ {
				for _, o := range os {
					sz := []int{i, j - i, len(s) - j + 1}
					for _, w := range []bool{false, true} {
						c.rdr(it, o, &frag{data: []byte(s), sizes: sz, end: io.EOF, with: w})
					}
				}
			}
			for _, o := range os {
				c.rdr(it, o, &frag{data: []byte(s[:i]), sizes: []int{1}, end: errReader})
				c.rdr(it, o, &frag{data: []byte(s[:i]), end: errReader})
				for j := i + 1; j <= len(s); j++ {
					c.rdrFail(it, o, &frag{data: []byte(s), end: io.EOF}, i, j)
				}
			}
		}
	}
	k := 0
	c.inputs(func(b []byte) {
		ps := fragPlans(c.rng)
		for n := 0; n < 6; n++ {
			o := os[k%len(os)]
			k++
			f := ps[c.rng.Intn(len(ps))](b)
			c.rdr(it, o, f)
			if len(b) > 0 {
				f := ps[c.rng.Intn(len(ps))](b[:c.rng.Intn(len(b)+1)])
				f.end = errReader
				c.rdr(it, o, f)
				i := c.rng.Intn(len(b))
				j := i + 1 + c.rng.Intn(len(b)-i)
				if c.rng.Intn(2) == 0 {
					j = i + 1
				}
				c.rdrFail(it, o, ps[c.rng.Intn(len(ps))](b), i, j)
			}
		}
		if k%7 == 0 {
			var x interface{}
			f := ps[c.rng.Intn(len(ps))](b)
			desc := f.String()
			c.check("UnmarshalFromReader", func() string { return desc }, func() string {
				err := jzon.UnmarshalFromReader(f, &x)
				e, v := refVal(b, 0, false, false)
				ok := e >= 0 && refTok(b, e) == len(b)
				if ok != (err == nil) {
					return fmt.Sprintf("err = %v, expected success %v", err, ok)
				}
				if ok && canon(v) != canon(x) {
					return "value " + canon(x) + ", expected " + canon(v)
				}
				return ""
			})
		}
	})
}

func rC04(c *ctx) {
	it := jzon.NewIterator()
	os := opsFor("C04")
	all := func(b []byte) {
		for _, o := range os {
			c.mem(it, o, b)
		}
	}
	k := 0
	frags := func(b []byte) {
		for i := 0; i < 3; i++ {
			o := os[k%len(os)]
			k++
			c.rdr(it, o, fragPlans(c.rng)[c.rng.Intn(8)](b))
			f := fragPlans(c.rng)[c.rng.Intn(8)](b)
			f.end = errReader
			c.rdr(it, o, f)
		}
	}
	for v := -70000; v <= 70000; v++ {
		s := fmt.Sprint(v)
		for _, o := range os {
			if v >= -1200 && v <= 1200 || strings.Contains(o.name, "16") || v%97 == 0 {
				c.mem(it, o, []byte(s))
				if v >= -1200 && v <= 1200 {
					c.mem(it, o, []byte(s+",1"))
					c.mem(it, o, []byte(s+"0"))
				}
			}
		}
	}
	// every width boundary, +-3, every multiple by ten around it
	for _, n := range boundaries() {
		for _, suf := range []string{"", "0", "00", "9", ",", " ", ".5", "e1", "x", "]"} {
			for _, pre := range []string{"", "-", " ", "0", "-0", "+"} {
				b := []byte(pre + n + suf)
				all(b)
				frags(b)
			}
		}
	}
	c.share(0.3, func() { c.exhaust("", "-0129, .", 5, all) })
	for c.more() {
		b := []byte(genNum(c.rng))
		if c.rng.Intn(4) == 0 {
			b = mutate(c.rng, b)
		}
		all(b)
		frags(b)
	}
}

func boundaries() []string {
	var out []string
	for _, bits := range []int{7, 8, 15, 16, 31, 32, 63, 64} {
		v := bigPow2(bits)
		for d := int64(-12); d <= 12; d++ {
			out = append(out, addBig(v, d))
		}
		for m := int64(1); m <= 9; m++ {
			out = append(out, mulAdd(v, 10, m-5), mulAdd(v, m, 1))
		}
		out = append(out, divBig(v, 10, 0), divBig(v, 10, 1), divBig(v, 10, -1))
	}
	return out
}

func rC06(c *ctx) {
	it := jzon.NewIterator()
	os := opsFor("C06")
	all := func(b []byte) {
		for _, o := range os {
			c.mem(it, o, b)
		}
	}
	for r := 0; r < 65536; r++ {
		if r%16 == 0 || r >= 0xd000 && r < 0xe100 || r < 0x900 {
			all([]byte(fmt.Sprintf(`"\u%04X"`, r)))
		}
		c.mem(it, os[1], []byte(fmt.Sprintf(`"a\u%04x\n"`, r)))
	}
	for i := 0; i < 4000; i++ {
		hi, lo := 0xd7f0+c.rng.Intn(0x420), 0xdbf0+c.rng.Intn(0x420)
		all([]byte(fmt.Sprintf(`"x\u%04x\u%04x%s"`, hi, lo, strPieces[c.rng.Intn(len(strPieces))])))
		all([]byte(fmt.Sprintf(`"\u%04x\u%04x\u%04x"`, hi, hi, lo)))
	}
	for a := 0; a < 256; a++ {
		for _, t := range []string{`"%s"`, `"abc%sdef"`, `"\%s"`, `"\u%s041"`, `"\u0%s41"`, `"\u00%s1"`, `"\u004%s"`, `"\ud83d%s"`, `"\ud83d\%s"`, `"\ud83d\ude0%s"`, `"\n%s"`, `"\n\\x%sy"`, `"aaaa%s`, `%s"`} {
			b := []byte(fmt.Sprintf(t, string([]byte{byte(a)})))
			all(b)
			c.rdr(it, os[c.rng.Intn(len(os))], fragPlans(c.rng)[c.rng.Intn(8)](b))
		}
	}
	c.share(0.3, func() { c.exhaust(`"`, "\"\\ud8c0n", 6, func(b []byte) { c.mem(it, os[2], b); c.mem(it, os[0], b) }) })
	for c.more() {
		b := []byte(genStrLit(c.rng))
		if c.rng.Intn(3) == 0 {
			b = mutate(c.rng, b)
		}
		if c.rng.Intn(10) == 0 {
			b = append([]byte(strings.Repeat(" ", 480+c.rng.Intn(40))), b...)
		}
		all(b)
		c.rdr(it, os[c.rng.Intn(len(os))], fragPlans(c.rng)[c.rng.Intn(8)](b))
	}
	_ = io.EOF
}

func rC10(c *ctx) {
	it := jzon.NewIterator()
	numCfg := jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true})
	nit := numCfg.NewIterator()
	os := opsFor("C10")
	nop := &op{"Read/UseNumber", "", os[0].run, valRef(true)}
	nop2 := &op{"ReadVal/UseNumber", "", os[1].run, valRef(true)}
	var kept []kept
	k := 0
	c.inputs(func(b []byte) {
		k++
		for _, o := range os {
			c.mem(it, o, b)
		}
		c.mem(nit, nop, b)
		c.mem(nit, nop2, b)
		c.rdr(it, os[k%len(os)], fragPlans(c.rng)[c.rng.Intn(8)](b))
		// storage: keep values, overwrite the input, decode more, compare
		kept = keepCheck(c, it, b, kept)
	})
	// depth
	for _, d := range []int{100, 1000, 20000} {
		b := deep(c.rng, d, func(int) bool { return c.rng.Intn(2) == 0 }, -1)
		c.mem(it, os[0], b)
	}
}

type kept struct {
	v    interface{}
	want string
	src  string
}

func keepCheck(c *ctx, it *jzon.Iterator, b []byte, ks []kept) []kept {
	buf := append([]byte(nil), b...)
	var v interface{}
	useReader := c.rng.Intn(2) == 0
	if useReader {
		it.Reset(fragPlans(c.rng)[c.rng.Intn(8)](buf))
	} else {
		it.ResetBytes(buf)
	}
	v, err := it.Read()
	if err == nil {
		want := canon(v)
		for i := range buf {
			buf[i] = 'X'
		}
		ks = append(ks, kept{v, want, string(b)})
	}
	if len(ks) >= 16 {
		c.check("storage", func() string { return ks[0].src }, func() string {
			for _, k := range ks {
				if canon(k.v) != k.want {
					return fmt.Sprintf("value decoded from %q changed later: %s, was %s", k.src, canon(k.v), k.want)
				}
			}
			// writing into one value must not show in another
			for i, k := range ks {
				if m, ok := k.v.(map[string]interface{}); ok {
					m["\x00mark"] = float64(i)
				}
				if s, ok := k.v.([]interface{}); ok {
					_ = append(s, "mark")
					if len(s) > 0 {
						s[0] = "mark"
					}
				}
				for j := i + 1; j < len(ks); j++ {
					if canon(ks[j].v) != ks[j].want {
						return fmt.Sprintf("value decoded from %q shares storage with the one from %q", ks[j].src, k.src)
					}
				}
			}
			return ""
		})
		ks = ks[:0]
	}
	return ks
}

func rC17(c *ctx) {
	// stale bytes: the same iterator first fills its buffers with misleading text
	os := opsFor("C17")
	k := 0
	dirty := []string{strings.Repeat("9", 512), strings.Repeat(`"`, 512), strings.Repeat("]}", 256), strings.Repeat("1e5,", 128), strings.Repeat(" ", 512)}
	it := jzon.NewIterator()
	for n := 0; n < 60; n++ {
		stackString(c, 1+c.rng.Intn(16))
	}
	for n := 0; n < 3000; n++ {
		locations(c)
	}
	c.inputs(func(b []byte) {
		if c.rng.Intn(20) == 0 {
			locations(c)
		}
		for n := 0; n < 4; n++ {
			o := os[k%len(os)]
			k++
			it.Reset(&frag{data: []byte(dirty[k%len(dirty)]), end: io.EOF})
			it.NextValueType()
			it.Skip()
			c.rdr(it, o, fragPlans(c.rng)[c.rng.Intn(8)](b))
			f := fragPlans(c.rng)[c.rng.Intn(8)](b)
			f.end = errReader
			c.rdr(it, o, f)
			// bytes behind the slice must not be looked at
			back := append(append([]byte(nil), b...), dirty[k%len(dirty)]...)
			c.mem(it, o, back[:len(b)])
		}
	})
}

type nested []nested

// stackString decodes a string living on a small stack which has to grow meanwhile.
func stackString(c *ctx, d int) {
	c.check("string on a growing stack", func() string { return strings.Repeat("[", d) + strings.Repeat("]", d) }, func() string {
		ch := make(chan string)
		for i := 0; i < 200; i++ {
			go func() { ch <- onSmallStack(d) }()
		}
		out := ""
		for i := 0; i < 200; i++ {
			if s := <-ch; s != "" {
				out = s
			}
		}
		return out
	})
}

//go:noinline
func onSmallStack(d int) string {
	var buf [32]byte
	for i := 0; i < d; i++ {
		buf[i], buf[2*d-1-i] = '[', ']'
	}
	var v nested
	s := string(buf[:2*d])
	if err := jzon.UnmarshalFromString(s, &v); err != nil {
		return err.Error()
	}
	n := 1
	for len(v) == 1 {
		v = v[0]
		n++
	}
	if n != d {
		return fmt.Sprintf("depth %d, expected %d", n, d)
	}
	return ""
}
