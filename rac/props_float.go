package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/zerosnake0/jzon"
)

func rC16(c *ctx) {
	it := jzon.NewIterator()
	os := opsFor("C16")
	wr := func(f float64, f32 bool) {
		c.check("write", func() string { return fmt.Sprintf("%v (float32 %v)", f, f32) }, func() string {
			s := jzon.NewStreamer()
			defer s.Release()
			var want []byte
			var err error
			if f32 {
				want, err = json.Marshal(float32(f))
				s.Float32(float32(f))
			} else {
				want, err = json.Marshal(f)
				s.Float64(f)
			}
			if err != nil {
				if s.Error == nil {
					return "no error for a value JSON cannot express"
				}
				return ""
			}
			if s.Error != nil {
				return fmt.Sprint("error ", s.Error)
			}
			var w bw
			s2 := jzon.NewStreamer()
			defer s2.Release()
			s2.Reset(&w)
			if f32 {
				s2.Float32(float32(f))
			} else {
				s2.Float64(f)
			}
			if err := s2.Flush(); err != nil {
				return fmt.Sprint("flush ", err)
			}
			if string(w) != string(want) {
				return fmt.Sprintf("wrote %q, standard library %q", w, want)
			}
			bits := 64
			if f32 {
				bits = 32
			}
			g, err := strconv.ParseFloat(string(w), bits)
			if err != nil || g != f && !f32 || f32 && float32(g) != float32(f) {
				return fmt.Sprintf("%q does not parse back (%v, %v)", w, g, err)
			}
			return ""
		})
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e20, 1e21, 1e-6, 1e-7, 999999999999999900000, 9.99e20, 123456789, 1.7976931348623157e308, 5e-324, math.NaN(), math.Inf(1), math.Inf(-1), 1e22, 1e-9, 1e-10, 1e100, 3.4028234663852886e38, 1.401298464324817e-45, 1e-300} {
		wr(f, false)
		wr(-f, false)
		wr(f, true)
		wr(-f, true)
	}
	for _, m := range []float64{1, 1.5, 9.999999, 0.5} {
		for e := -330; e < 310; e++ {
			f := m * math.Pow(10, float64(e))
			wr(f, false)
			wr(f, true)
		}
	}
	c.share(0.2, func() {
		c.exhaust("", "-0.e+19 ", 6, func(b []byte) {
			for _, o := range os {
				c.mem(it, o, b)
			}
		})
	})
	for c.more() {
		wr(math.Float64frombits(c.rng.Uint64()), false)
		wr(float64(math.Float32frombits(c.rng.Uint32())), true)
		wr(float64(c.rng.Int63n(1<<53))/math.Pow(10, float64(c.rng.Intn(20))), c.rng.Intn(2) == 0)
		b := []byte(genNum(c.rng))
		if c.rng.Intn(3) == 0 {
			b = []byte(strconv.FormatFloat(math.Float64frombits(c.rng.Uint64()&^(0x7ff<<52)|uint64(c.rng.Intn(2046))<<52), 'e', c.rng.Intn(20), 64))
		}
		if c.rng.Intn(3) == 0 {
			b = []byte(midText(c.rng))
		}
		if c.rng.Intn(4) == 0 {
			b = mutate(c.rng, b)
		}
		for _, o := range os {
			c.mem(it, o, b)
		}
		c.rdr(it, os[c.rng.Intn(len(os))], fragPlans(c.rng)[c.rng.Intn(8)](b))
	}
}

type bw []byte

func (b *bw) Write(p []byte) (int, error) { *b = append(*b, p...); return len(p), nil }
