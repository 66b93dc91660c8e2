package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

func init() {
	props["C15"] = rC15
	props["C18"] = rC18
	props["C19"] = rC19
}

type errMar struct{}

func (errMar) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

type selfDec struct{ S string }

// UnmarshalJSON decodes with the package itself while the outer decode is under way.
func (s *selfDec) UnmarshalJSON(b []byte) error {
	var x interface{}
	if err := jzon.Unmarshal(b, &x); err != nil {
		return err
	}
	s.S = canon(x)
	return nil
}
func (s selfDec) MarshalJSON() ([]byte, error) { return jzon.Marshal(map[string]string{"s": s.S}) }

type keep struct {
	what string
	b    []byte
	s    string
	want string
}

func rC15(c *ctx) {
	r := c.rng
	type dcfg struct {
		c               *jzon.DecoderConfig
		num, dis, case_ bool
	}
	dcs := []dcfg{{jzon.DefaultDecoderConfig, false, false, false}}
	for i := 0; i < 8; i++ {
		o := &jzon.DecoderOption{UseNumber: i&1 > 0, DisallowUnknownFields: i&2 > 0, CaseSensitive: i&4 > 0}
		dcs = append(dcs, dcfg{jzon.NewDecoderConfig(o), i&1 > 0, i&2 > 0, i&4 > 0})
	}
	type ecfg struct {
		c    *jzon.EncoderConfig
		html bool
	}
	ecs := []ecfg{{jzon.DefaultEncoderConfig, true}, {jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true}), true}, {jzon.NewEncoderConfig(&jzon.EncoderOption{}), false}}
	var hist []string
	say := func(f string, a ...interface{}) {
		hist = append(hist, fmt.Sprintf(f, a...))
		if len(hist) > 40 {
			hist = hist[len(hist)-40:]
		}
	}
	input := func() string { return strings.Join(hist, "; ") }
	var kept []keep
	add := func(what string, b []byte, s string) {
		if b != nil {
			kept = append(kept, keep{what, b, "", string(b)})
		} else {
			// string contents are copied through the bytes: the copy must not share storage
			kept = append(kept, keep{what, nil, s, string(append([]byte(nil), s...))})
		}
		if len(kept) > 40 {
			kept = kept[20:]
		}
	}
	doc := func() []byte {
		b := genDoc(r)
		switch r.Intn(5) {
		case 0:
			b = mutate(r, b)
		case 1:
			b = bigDoc(r)
		case 2:
			b = b[:r.Intn(len(b)+1)]
		}
		return b
	}
	for n := 0; n < 300; n++ {
		retained(c)
	}
	for c.more() {
		if r.Intn(60) == 0 {
			retained(c)
		}
		// the user before: anything, then Release
		switch r.Intn(6) {
		case 0, 1, 2:
			d := dcs[r.Intn(len(dcs))]
			it := d.c.NewIterator()
			say("iterator of %v/%v", d.num, d.dis)
			for n := 1 + r.Intn(4); n > 0; n-- {
				b := doc()
				if r.Intn(2) == 0 {
					f := fragPlans(r)[r.Intn(8)](b)
					if r.Intn(3) == 0 {
						f.end = errReader
					}
					it.Reset(f)
				} else {
					it.ResetBytes(b)
				}
				o := ops[r.Intn(len(ops))]
				say("%s on %s", o.name, quote(b))
				o.run(it)
				if r.Intn(3) == 0 {
					it.Context = b
				}
			}
			it.Release()
		case 3:
			d := dcs[r.Intn(len(dcs))]
			b := doc()
			dec := d.c.NewDecoder(fragPlans(r)[r.Intn(8)](b))
			if r.Intn(2) == 0 {
				dec.UseNumber()
			}
			if r.Intn(2) == 0 {
				dec.DisallowUnknownFields()
			}
			var x interface{}
			dec.Decode(&x)
			var y struct{ A int }
			dec.Decode(&y)
			say("decoder of %v/%v on %s", d.num, d.dis, quote(b))
			dec.Release()
		default:
			e := ecs[r.Intn(len(ecs))]
			s := e.c.NewStreamer()
			w := &planWriter{plan: randPlan(r)}
			s.Reset(w)
			say("streamer html=%v", e.html)
			for n := r.Intn(6); n > 0; n-- {
				switch r.Intn(8) {
				case 0:
					s.EscapeHTML(r.Intn(2) == 0)
				case 1:
					s.Value(errMar{})
				case 2:
					s.ArrayStart()
				case 3:
					s.ObjectStart().Field("x<")
				case 4:
					s.Value([]interface{}{1, "<a>", nil, selfDec{"q"}})
				case 5:
					s.Flush()
				case 6:
					s.Context = s
				case 7:
					s.String(strings.Repeat("<", r.Intn(300)))
				}
			}
			s.Release()
		}
		if r.Intn(2000) == 0 {
			runtime.GC()
		}
		// the user after: everything like new
		if r.Intn(2) == 0 {
			d := dcs[r.Intn(len(dcs))]
			b := genDoc(r)
			c.check("iterator", input, func() string {
				it := d.c.NewIterator()
				defer it.Release()
				if it.Context != nil || len(it.Buffer()) != 0 {
					return fmt.Sprintf("fresh iterator has context %v, buffer %q", it.Context, it.Buffer())
				}
				if it.Skip() == nil {
					return "an iterator without input accepted a value"
				}
				end, want := valRef(d.num)(b, false)
				if r.Intn(2) == 0 {
					it.ResetBytes(b)
				} else {
					it.Reset(fragPlans(r)[r.Intn(8)](b))
				}
				v, err := it.Read()
				if (err == nil) != (end >= 0) || err == nil && canon(v) != want {
					return fmt.Sprintf("UseNumber %v: %s decoded as %s (%v), expected %s", d.num, quote(b), canon(v), err, want)
				}
				it.ResetBytes([]byte(`{"a":1,"B":2}`))
				var st struct{ A, C int }
				err = it.ReadVal(&st)
				want1 := 1
				if d.case_ {
					want1 = 0
				}
				if (err != nil) != d.dis || err == nil && st.A != want1 {
					return fmt.Sprintf("DisallowUnknownFields %v CaseSensitive %v: %v %v", d.dis, d.case_, st, err)
				}
				o := ops[r.Intn(len(ops))]
				it.ResetBytes(b)
				if strings.HasPrefix(o.name, "Read") && !strings.Contains(o.name, "AsSlice") {
					if got, err := o.run(it); err == nil {
						add(o.name+" of "+string(b), nil, got)
					}
				}
				it.ResetBytes(append([]byte(nil), b...))
				if raw, err := it.ReadRaw(); err == nil {
					add("ReadRaw of "+string(b), raw, "")
				}
				return ""
			})
			c.check("unmarshal", input, func() string {
				var x struct{ V selfDec }
				in := fmt.Sprintf(`{"V":%s}`, b)
				e2 := d.c.UnmarshalFromString(in, &x)
				end, want := valRef(false)(b, false)
				if (end >= 0) != (e2 == nil) {
					return fmt.Sprintf("%s: error %v", in, e2)
				}
				if e2 == nil && x.V.S != want {
					return fmt.Sprintf("%s: nested decode gave %s, expected %s", in, x.V.S, want)
				}
				if e2 != nil {
					add("error for "+in, nil, e2.Error())
				}
				return ""
			})
		} else {
			e := ecs[r.Intn(len(ecs))]
			c.check("streamer", input, func() string {
				s := e.c.NewStreamer()
				if s.Context != nil || s.Error != nil {
					return fmt.Sprintf("fresh streamer has context %v, error %v", s.Context, s.Error)
				}
				var out bytes.Buffer
				s.Reset(&out)
				s.Value("<a>")
				if err := s.Flush(); err != nil {
					return err.Error()
				}
				want := `"<a>"`
				if e.html {
					want = `"\u003ca\u003e"`
				}
				if out.String() != want {
					return fmt.Sprintf("html=%v: output %q", e.html, out.String())
				}
				s.Release()
				x := genStrLit(r)
				v := []interface{}{x, 1, selfDec{x}, map[string]interface{}{"<": x}}
				got, err := e.c.Marshal(v)
				if err != nil {
					return err.Error()
				}
				var w2 bytes.Buffer
				en := e.c.NewEncoder(&w2)
				if err := en.Encode(v); err != nil {
					return err.Error()
				}
				en.Release()
				if w2.String() != string(got)+"\n" {
					return fmt.Sprintf("Encode wrote %q, Marshal gave %q", w2.String(), got)
				}
				var st bytes.Buffer
				se := json.NewEncoder(&st)
				se.SetEscapeHTML(e.html)
				inner, _ := jzon.Marshal(map[string]string{"s": x})
				se.Encode([]interface{}{x, 1, json.RawMessage(inner), map[string]interface{}{"<": x}})
				if normal(bytes.TrimSpace(st.Bytes()), true) != normal(got, true) && refUTF8([]byte(x)) {
					return fmt.Sprintf("output %q, expected %q", got, st.String())
				}
				add("Marshal of "+x, got, "")
				return ""
			})
		}
		c.check("earlier results", input, func() string {
			for _, k := range kept {
				if k.b != nil && string(k.b) != k.want || k.b == nil && k.s != k.want {
					return fmt.Sprintf("%s was %q and became %q %q", k.what, k.want, k.b, k.s)
				}
			}
			return ""
		})
	}
}

// ---- streams

func rC18(c *ctx) {
	r := c.rng
	for c.more() {
		var vals []string
		var ends []int
		data := ws(r)
		n := r.Intn(7)
		for i := 0; i < n; i++ {
			v := genValid(r, r.Intn(3))
			if r.Intn(15) == 0 {
				v = string(bytes.TrimSpace(bigDoc(r)))
				if e, _ := valRef(false)([]byte(v), false); e != len(v) {
					v = "[]"
				}
			}
			data += v
			vals = append(vals, v)
			ends = append(ends, len(data))
			sep := wsChoices[4+r.Intn(len(wsChoices)-4)]
			if last := v[len(v)-1]; r.Intn(4) == 0 && (last == '}' || last == ']' || last == '"') {
				sep = ""
			}
			if r.Intn(20) == 0 {
				sep += strings.Repeat(" ", 60+r.Intn(600))
			}
			if i < n-1 || r.Intn(2) == 0 {
				data += sep
			}
		}
		brk := ""
		if r.Intn(3) == 0 {
			brk = []string{"]", "}", `"ab`, "[1,", "x", "nul", `{"a":`, "-", "1.", "[1}", ","}[r.Intn(11)]
			if n > 0 && ends[n-1] == len(data) {
				data += "\n"
			}
			data += brk
		}
		f := fragPlans(r)[r.Intn(8)]([]byte(data))
		rdErr := false
		if brk == "" && r.Intn(4) == 0 && len(data) > 0 && isWS(data[len(data)-1]) {
			f.end = errReader
			rdErr = true
		}
		num := r.Intn(2) == 0
		useMem := r.Intn(6) == 0 && !rdErr
		moreEach := r.Intn(3)
		if brk == "" && r.Intn(2) == 0 && len(data) > 0 && isWS(data[len(data)-1]) {
			// the reader goes on after its end (seen by Decode), the decoder does not
			f.more = []byte("7 8 9 ")
		}
		goesOn := len(f.more) > 0 && !useMem
		c.check("stream", f.String, func() string {
			var rd io.Reader = f
			if useMem {
				rd = bytes.NewBufferString(data)
			}
			d := jzon.NewDecoder(rd)
			defer d.Release()
			if num {
				d.UseNumber()
			}
			where := func(i, end int) string {
				if d.InputOffset() != int64(end) {
					return fmt.Sprintf("after value %d the offset is %d, expected %d", i, d.InputOffset(), end)
				}
				got, _ := io.ReadAll(d.Buffered())
				want := data[end:]
				if !useMem {
					want = string(f.data[end:f.pos])
				}
				if string(got) != want {
					return fmt.Sprintf("after value %d %q is buffered, expected %q", i, got, want)
				}
				return ""
			}
			for i := range vals {
				if moreEach > 0 && !d.More() {
					return fmt.Sprintf("More is false before value %d", i)
				}
				if moreEach == 2 {
					d.More()
				}
				var x interface{}
				err := d.Decode(&x)
				_, want := valRef(num)([]byte(vals[i]), false)
				if err != nil {
					return fmt.Sprintf("value %d: %v", i, err)
				}
				if canon(x) != want {
					return fmt.Sprintf("value %d is %s, expected %s", i, canon(x), want)
				}
				if s := where(i, ends[i]); s != "" {
					return s
				}
			}
			if goesOn {
			} else if m := d.More(); m != (brk != "") {
				return fmt.Sprintf("More is %v at the end", m)
			}
			var x interface{}
			e1 := d.Decode(&x)
			if e1 == nil {
				return "no error at the end"
			}
			if brk == "" && !rdErr && e1 != io.EOF {
				return fmt.Sprintf("error %v at the end, expected io.EOF", e1)
			}
			if rdErr && e1 != errReader {
				return fmt.Sprintf("error %v at the end, expected the reader's", e1)
			}
			if !goesOn && d.More() {
				return "More after an error"
			}
			for k := 0; k < 2; k++ {
				var y interface{}
				if e2 := d.Decode(&y); e2 != e1 && !reflect.DeepEqual(e2, e1) {
					return fmt.Sprintf("error %v after error %v", e2, e1)
				}
				if y != nil {
					return "a value was stored after an error"
				}
			}
			return ""
		})
	}
}

// ---- interface loops

type loopT struct {
	V interface{}
	P *interface{}
}

func rC19(c *ctx) {
	r := c.rng
	lens := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 1000}
	for c.more() {
		n := lens[r.Intn(len(lens))]
		if r.Intn(30) > 0 && n > 64 {
			n = 1 + r.Intn(40)
		}
		cells := make([]interface{}, n)
		hops := make([]int, n)
		// cell i points to cell i+1 through some pointer levels; the last one loops or ends
		link := func(i, j int) {
			p := &cells[j]
			switch hops[i] = r.Intn(4); hops[i] {
			case 0, 1:
				cells[i] = p
			case 2:
				cells[i] = &p
			case 3:
				q := &p
				cells[i] = &q
			}
		}
		for i := 0; i+1 < n; i++ {
			link(i, i+1)
		}
		back := -1
		var target int
		if r.Intn(2) == 0 {
			back = r.Intn(n)
			link(n-1, back)
		} else {
			switch r.Intn(3) {
			case 0:
				cells[n-1] = nil
			case 1:
				cells[n-1] = "old"
			case 2:
				cells[n-1] = &target
			}
		}
		last := cells[n-1]
		txt := []string{"5", " 5", "\n\t5 ", "12"}[r.Intn(4)]
		val := 5.0
		if txt == "12" {
			val = 12
		}
		mode := r.Intn(4)
		if mode == 3 && back < 0 && n < 2 {
			mode = 0
		}
		frg := r.Intn(3) == 0
		c.check("interface graph", func() string {
			return fmt.Sprintf("%d cells hops %v back to %d, text %q mode %d", n, hops, back, txt, mode)
		}, func() string {
			var err error
			dec := func(s string, o interface{}) error {
				if frg {
					return jzon.UnmarshalFromReader(&frag{data: []byte(s), end: io.EOF, sizes: []int{1}}, o)
				}
				return jzon.UnmarshalFromString(s, o)
			}
			switch mode {
			case 0:
				err = dec(txt, &cells[0])
			case 1: // at a later position, after another interface was decoded
				o := []interface{}{1, 2}
				_ = o
				var w struct{ A, B interface{} }
				w.B = &cells[0]
				err = dec(`{"A":[1],"B":`+txt+`}`, &w)
			case 2:
				w := loopT{P: &cells[0]}
				err = dec(`{"V":1,"P":`+txt+`}`, &w)
			case 3: // an iterator used before, stopped inside the very same chain
				it := jzon.NewIterator()
				defer it.Release()
				for k := 0; k < 1+n%3; k++ {
					it.ResetBytes([]byte([]string{"", "]", "tru", " ", "-"}[(n+k)%5]))
					if it.ReadVal(&cells[0]) == nil {
						return "no error for broken text"
					}
				}
				if frg {
					it.Reset(&frag{data: []byte(txt), end: io.EOF, sizes: []int{1}})
				} else {
					it.ResetBytes([]byte(txt))
				}
				err = it.ReadVal(&cells[0])
			}
			if back >= 0 {
				if err == nil {
					return "no error for a loop"
				}
				return ""
			}
			if err != nil {
				return fmt.Sprintf("error %v without a loop", err)
			}
			if _, ok := last.(*int); ok {
				if float64(target) != val {
					return fmt.Sprintf("target is %v", target)
				}
			} else if cells[n-1] != val {
				return fmt.Sprintf("last interface holds %v, expected %v", cells[n-1], val)
			}
			return ""
		})
	}
}
