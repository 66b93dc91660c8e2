package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

func init() {
	props["C12"] = rC12
	props["C14"] = rC14
}

// types with methods
type tText struct{ S string }

func (t *tText) UnmarshalText(b []byte) error {
	if bytes.HasPrefix(b, []byte("bad")) {
		return fmt.Errorf("bad text")
	}
	t.S = "T:" + string(b)
	return nil
}
func (t tText) MarshalText() ([]byte, error) {
	if strings.HasPrefix(t.S, "bad") {
		return nil, fmt.Errorf("bad text")
	}
	return []byte("<" + t.S + ">"), nil
}

type tJSON struct{ Raw string }

func (t *tJSON) UnmarshalJSON(b []byte) error {
	t.Raw = string(b)
	if t.Raw == "666" {
		return fmt.Errorf("bad value")
	}
	return nil
}
func (t tJSON) MarshalJSON() ([]byte, error) {
	if t.Raw == "bad" {
		return nil, fmt.Errorf("bad value")
	}
	return []byte(strconv.Quote("J" + strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || strings.ContainsRune(`"\<>&`, r) {
			return 'x'
		}
		return r
	}, t.Raw))), nil
}

type tPtrJSON struct{ N int }

func (t *tPtrJSON) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"p":%d}`, t.N)), nil }

type tPtrText struct{ N int }

func (t *tPtrText) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("pt%d", t.N)), nil }

type tIntText int

func (t tIntText) MarshalText() ([]byte, error)  { return []byte(fmt.Sprintf("it%d", int(t))), nil }
func (t *tIntText) UnmarshalText(b []byte) error { *t = tIntText(len(b)); return nil }

type tMapJSON map[string]int

func (t tMapJSON) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("%d", len(t))), nil }

type nBytes []byte
type nByte byte

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(nString("")), reflect.TypeOf(nInt8(0)), reflect.TypeOf(nUint16(0)), reflect.TypeOf(nBool(false)), reflect.TypeOf(nFloat(0)), reflect.TypeOf(uintptr(0)),
}

var efaceType = reflect.TypeOf((*interface{})(nil)).Elem()

type typeGen struct {
	r       *rand.Rand
	method  bool // types with methods
	enc     bool // for encoding
	nomap   bool
	nobyte  bool
	noIface bool
}

func (g *typeGen) gen(d int) reflect.Type {
	r := g.r
	k := r.Intn(12)
	if d <= 0 {
		k = r.Intn(4)
	}
	switch k {
	case 0, 1, 2:
		return scalarTypes[r.Intn(len(scalarTypes))]
	case 3:
		if g.method && r.Intn(2) == 0 {
			ts := []interface{}{tText{}, tJSON{}, tIntText(0)}
			if g.enc {
				ts = append(ts, []tPtrJSON(nil), []tPtrText(nil), tMapJSON{}, (*tPtrJSON)(nil), (*tPtrText)(nil), (*tText)(nil), (*tJSON)(nil))
			}
			return reflect.TypeOf(ts[r.Intn(len(ts))])
		}
		if g.noIface {
			return scalarTypes[0]
		}
		return efaceType
	case 4, 5:
		e := g.gen(d - 1)
		return reflect.SliceOf(e)
	case 6:
		return reflect.ArrayOf(r.Intn(4), g.gen(d-1))
	case 7:
		return reflect.PtrTo(g.gen(d - 1))
	case 8:
		if g.nomap {
			return reflect.SliceOf(g.gen(d - 1))
		}
		var kt reflect.Type
		switch r.Intn(3) {
		case 0:
			kt = reflect.TypeOf("")
		case 1:
			kt = scalarTypes[2+r.Intn(10)]
		default:
			kt = reflect.TypeOf(nString(""))
			if g.method && !g.enc && r.Intn(2) == 0 {
				kt = reflect.TypeOf(tText{})
			}
		}
		return reflect.MapOf(kt, g.gen(d-1))
	case 9:
		ts := []interface{}{[]byte(nil), nBytes(nil), [2]byte{}}
		return reflect.TypeOf(ts[r.Intn(len(ts))])
	}
	return g.structType(d)
}

func (g *typeGen) structType(d int) reflect.Type {
	r := g.r
	n := []int{0, 1, 1, 2, 3, 5, 10, 11, 13}[r.Intn(9)]
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		ft := g.gen(d - 1)
		tag := ""
		switch r.Intn(5) {
		case 0:
			tag = fmt.Sprintf(`json:"n%d"`, i)
		case 1:
			tag = `json:",omitempty"`
		case 2:
			if k := ft.Kind(); k == reflect.Bool && g.enc || k == reflect.String && ft.NumMethod() == 0 || isInt(ft) && ft.NumMethod() == 0 && reflect.PtrTo(ft).NumMethod() == 0 {
				tag = fmt.Sprintf(`json:"q%d,string"`, i)
				if r.Intn(2) == 0 {
					tag = fmt.Sprintf(`json:"q%d,omitempty,string"`, i)
				}
			}
		case 3:
			if r.Intn(4) == 0 {
				tag = `json:"-"`
			}
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(fs)
}

func hasKind(t reflect.Type, f func(reflect.Type) bool) bool {
	seen := map[reflect.Type]bool{}
	var rec func(t reflect.Type) bool
	rec = func(t reflect.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Array:
			return rec(t.Elem())
		case reflect.Map:
			return rec(t.Key()) || rec(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if rec(t.Field(i).Type) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

var okStr = []string{"", "a", "hello", "é世", "q\"q", "back\\", "line\n", "<&>", "😀", "bad", "0", "null", "true"}

func jstr(r *rand.Rand) string {
	s := okStr[r.Intn(len(okStr))]
	b, _ := json.Marshal(s)
	if r.Intn(3) == 0 && s != "" {
		// escape everything
		out := `"`
		for _, x := range s {
			if x > 0xffff {
				x -= 0x10000
				out += fmt.Sprintf("\\u%04x\\u%04x", 0xd800+x>>10, 0xdc00+x&0x3ff)
			} else {
				out += fmt.Sprintf("\\u%04x", x)
			}
		}
		return out + `"`
	}
	return string(b)
}

// text generates a document fitting the type, most of the time.
func text(r *rand.Rand, t reflect.Type, quoted bool, d int) string {
	if r.Intn(40) == 0 {
		return genVal(r, 1)
	}
	if r.Intn(12) == 0 {
		return "null"
	}
	q := func(s string) string {
		if quoted {
			return `"` + s + `"`
		}
		return s
	}
	if t == reflect.TypeOf(tText{}) || t == reflect.TypeOf(tIntText(0)) {
		return jstr(r)
	}
	if t == reflect.TypeOf(tJSON{}) {
		if r.Intn(20) == 0 {
			return "666"
		}
		return genVal(r, 2)
	}
	switch t.Kind() {
	case reflect.Bool:
		return q([]string{"true", "false"}[r.Intn(2)])
	case reflect.String:
		s := jstr(r)
		if quoted {
			b, _ := json.Marshal(s)
			return string(b)
		}
		return s
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v := r.Int63() >> uint(r.Intn(63))
		if r.Intn(30) > 0 && t.Bits() < 64 {
			v &= 1<<uint(t.Bits()-1) - 1
		}
		if r.Intn(2) == 0 {
			v = -v
		}
		return q(fmt.Sprint(v))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v := r.Uint64() >> uint(r.Intn(64))
		if r.Intn(30) > 0 && t.Bits() < 64 {
			v &= 1<<uint(t.Bits()) - 1
		}
		return q(fmt.Sprint(v))
	case reflect.Float32, reflect.Float64:
		return []string{"0", "1.5", "-2e3", "1e-5", "12345678", "0.1", "3.25E+2", "-0.0"}[r.Intn(8)]
	case reflect.Interface:
		return genValid(r, 2)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && r.Intn(4) > 0 {
			b := make([]byte, r.Intn(12))
			r.Read(b)
			s := base64.StdEncoding.EncodeToString(b)
			switch r.Intn(6) {
			case 0:
				s = strings.Replace(s, "/", `\/`, -1)
			case 1:
				if len(s) > 0 {
					s = fmt.Sprintf(`\u%04x`, s[0]) + s[1:]
				}
			case 2:
				if len(s) > 4 {
					s = s[:4] + `\n` + s[4:]
				}
			case 3:
				if r.Intn(4) == 0 {
					s += "!"
				}
			}
			return `"` + s + `"`
		}
		n := r.Intn(5)
		if t.Kind() == reflect.Array && r.Intn(3) > 0 {
			n = t.Len()
		}
		if r.Intn(25) == 0 {
			n = 5 + r.Intn(40)
		}
		s := "[" + ws(r)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += "," + ws(r)
			}
			s += text(r, t.Elem(), false, d-1) + ws(r)
		}
		return s + "]"
	case reflect.Ptr:
		return text(r, t.Elem(), quoted, d)
	case reflect.Map:
		n := r.Intn(4)
		s := "{" + ws(r)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += "," + ws(r)
			}
			k := jstr(r)
			if isInt(t.Key()) && t.Key() != reflect.TypeOf(tText{}) {
				v := r.Intn(128)
				k = fmt.Sprintf(`"%d"`, v)
				if r.Intn(40) == 0 {
					k = `"x"`
				}
				if r.Intn(60) == 0 {
					k = `"99999999999999999999"`
				}
			}
			s += k + ws(r) + ":" + ws(r) + text(r, t.Elem(), false, d-1) + ws(r)
		}
		return s + "}"
	case reflect.Struct:
		s := "{" + ws(r)
		n := 0
		put := func(k, v string) {
			if n > 0 {
				s += "," + ws(r)
			}
			n++
			s += k + ws(r) + ":" + ws(r) + v + ws(r)
		}
		for i := 0; i < t.NumField(); i++ {
			if r.Intn(6) == 0 {
				put(jstr(r), genValid(r, 2))
			}
			if r.Intn(4) == 0 {
				continue
			}
			f := t.Field(i)
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if name == "" || name == "-" {
				name = f.Name
			}
			if r.Intn(5) == 0 {
				name = strings.ToLower(name)
			}
			put(strconv.Quote(name), text(r, f.Type, strings.Contains(f.Tag.Get("json"), ",string") || strings.HasSuffix(f.Tag.Get("json"), "string"), d-1))
		}
		if r.Intn(4) == 0 {
			put(jstr(r), genValid(r, 2))
		}
		return s + "}"
	}
	return "null"
}

// genValid is genVal with valid UTF-8, in-range numbers and no lone surrogates
func genValid(r *rand.Rand, d int) string {
	for {
		s := genVal(r, d)
		var x interface{}
		if json.Unmarshal([]byte(s), &x) == nil && !strings.ContainsRune(fmt.Sprint(x), 0xfffd) {
			return s
		}
	}
}

// preset fills scalars, maps, pointers and arrays (slices stay nil: a null element of a reused slice
// keeps the old element in the standard library; replacement is checked by sliceStorage).
func preset(r *rand.Rand, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(okStr[r.Intn(len(okStr))])
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(100)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.Intn(100)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(100)) / 4)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			preset(r, v.Index(i), d-1)
		}
	case reflect.Ptr:
		if d > 0 && r.Intn(3) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			preset(r, v.Elem(), d-1)
		}
	case reflect.Map:
		if d > 0 && r.Intn(3) > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			for n := r.Intn(4); n > 0; n-- {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				preset(r, k, d-1)
				preset(r, e, d-1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			preset(r, v.Field(i), d-1)
		}
	}
}

// clone copies deeply what preset builds.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		reflect.Copy(s, v)
		return s
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(clone(v.Elem()))
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, clone(v.MapIndex(k)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out.Field(i).Set(clone(v.Field(i)))
		}
	default:
		out.Set(v)
	}
	return out
}

// agree decodes the same text with the standard library and with jzon into equal targets.
func agree(c *ctx, name string, t reflect.Type, b []byte, pre reflect.Value, dec func(b []byte, p interface{}) error, lenient bool) {
	c.check(name, func() string { return fmt.Sprintf("%v <- %s (preset %+v)", t, quote(b), pre.Interface()) }, func() string {
		x, y := reflect.New(t), reflect.New(t)
		x.Elem().Set(clone(pre))
		y.Elem().Set(clone(pre))
		e1 := json.Unmarshal(b, x.Interface())
		e2 := dec(b, y.Interface())
		if lenient && e2 != nil {
			return ""
		}
		if (e1 == nil) != (e2 == nil) {
			return fmt.Sprintf("error %v, expected %v", e2, e1)
		}
		if e1 == nil && !reflect.DeepEqual(x.Interface(), y.Interface()) {
			return fmt.Sprintf("got %s, expected %s", dump(y), dump(x))
		}
		return ""
	})
}

func dump(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	return fmt.Sprintf("%s (%v; %+v)", b, err, v.Elem().Interface())
}

func rC12(c *ctx) {
	g := &typeGen{r: c.rng, method: true}
	it := jzon.NewIterator()
	var pool []reflect.Type
	for c.more() {
		t := g.gen(1 + c.rng.Intn(3))
		if len(pool) > 400 {
			t = pool[c.rng.Intn(len(pool))]
		} else {
			pool = append(pool, t)
		}
		// the standard library accepts leading zeros and the like in quoted integers
		intKey := hasKind(t, func(t reflect.Type) bool {
			if t.Kind() == reflect.Struct {
				for i := 0; i < t.NumField(); i++ {
					if strings.Contains(string(t.Field(i).Tag), ",string") {
						return true
					}
				}
			}
			return t.Kind() == reflect.Map && isInt(t.Key())
		})
		for n := 0; n < 6; n++ {
			b := []byte(ws(c.rng) + text(c.rng, t, false, 4) + ws(c.rng))
			mut := false
			if n == 5 {
				b = mutate(c.rng, b)
				mut = true
			}
			if !refUTF8(b) {
				continue
			}
			pre := reflect.New(t).Elem()
			if c.rng.Intn(2) == 0 {
				preset(c.rng, pre, 3)
			}
			dec := func(b []byte, p interface{}) error {
				if c.rng.Intn(4) == 0 {
					return it.UnmarshalFromReader(fragPlans(c.rng)[c.rng.Intn(8)](b), p)
				}
				return it.Unmarshal(b, p)
			}
			agree(c, "typed", t, b, pre, dec, mut && intKey)
		}
		// an element error must surface, and elements must not share storage
		if c.rng.Intn(4) == 0 {
			sliceStorage(c, it)
		}
		if c.rng.Intn(600) == 0 {
			b := []byte(text(c.rng, t, false, 4))
			if len(b) < 400 && refUTF8(b) {
				dec := func(b []byte, p interface{}) error {
					return it.UnmarshalFromReader(&gcReader{data: b, step: 1 + len(b)/12}, p)
				}
				agree(c, "typed, collecting garbage", t, b, reflect.New(t).Elem(), dec, false)
			}
		}
	}
}

// gcReader collects garbage and reuses freed memory between the pieces it delivers.
type gcReader struct {
	data []byte
	step int
}

var gcJunk [][]*string
var gcText [][]byte

func (g *gcReader) Read(p []byte) (int, error) {
	runtime.GC()
	gcJunk, gcText = gcJunk[:0], gcText[:0]
	junk := "junk"
	for i := 0; i < 64; i++ {
		x := make([]*string, 1+i%16)
		for j := range x {
			x[j] = &junk
		}
		gcJunk = append(gcJunk, x)
		gcText = append(gcText, bytes.Repeat([]byte{0xaa}, 1+i%70))
	}
	if len(g.data) == 0 {
		return 0, io.EOF
	}
	n := g.step
	if n > len(g.data) {
		n = len(g.data)
	}
	n = copy(p, g.data[:n])
	g.data = g.data[n:]
	return n, nil
}

// refUTF8: the standard library replaces invalid UTF-8 and lone surrogates; those inputs are C06's.
func refUTF8(b []byte) bool {
	return bytes.Equal([]byte(strings.ToValidUTF8(string(b), "")), b) && !bytes.Contains(bytes.ToLower(b), []byte(`\ud`))
}

func sliceStorage(c *ctx, it *jzon.Iterator) {
	n := 1 + c.rng.Intn(70)
	txt := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			txt += ","
		}
		txt += fmt.Sprintf(`{"A":%d,"B":["b%d"],"C":"c%d"}`, i, i, i)
	}
	txt += "]"
	type el struct {
		A int
		B []string
		C *string
	}
	c.check("slice with storage", func() string { return txt }, func() string {
		old := make([]el, 1+c.rng.Intn(80))
		was := make([]el, len(old))
		str := "old"
		for i := range old {
			old[i] = el{A: -1 - i, B: []string{"old"}, C: &str}
		}
		copy(was, old)
		x := old[:c.rng.Intn(len(old)+1)]
		part := "["
		for i := 0; i < n; i++ {
			part += []string{"{}", `{"A":7}`, `{"B":[]}`, `{"C":null}`, "{}"}[i%5] + ","
		}
		part = part[:len(part)-1] + "]"
		if err := it.Unmarshal([]byte(part), &x); err != nil {
			return err.Error()
		}
		if !reflect.DeepEqual(old, was) {
			return "the old elements changed"
		}
		for i, e := range x {
			w := el{}
			if i%5 == 1 {
				w.A = 7
			} else if i%5 == 2 {
				w.B = []string{}
			}
			if !reflect.DeepEqual(e, w) {
				return fmt.Sprintf("element %d of %q is %+v, expected %+v", i, part, e, w)
			}
		}
		return ""
	})
	c.check("slice elements", func() string { return txt }, func() string {
		old := []el{{A: -1, B: []string{"old"}}, {A: -2}}
		x := old
		if err := it.Unmarshal([]byte(txt), &x); err != nil {
			return err.Error()
		}
		if len(x) != n {
			return fmt.Sprintf("%d elements, expected %d", len(x), n)
		}
		for i, e := range x {
			if e.A != i || len(e.B) != 1 || e.B[0] != fmt.Sprint("b", i) || *e.C != fmt.Sprint("c", i) {
				return fmt.Sprintf("element %d is %+v", i, e)
			}
		}
		return ""
	})
}

// ---- encoding

func fill(r *rand.Rand, v reflect.Value, d int) {
	t := v.Type()
	if t == reflect.TypeOf(tText{}) || t == reflect.TypeOf(tJSON{}) {
		v.Field(0).SetString([]string{"", "a", "x y", "bad", "é"}[r.Intn(5)])
		if r.Intn(10) > 0 && v.Field(0).String() == "bad" {
			v.Field(0).SetString("ok")
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(append(okStr, "\xff", "\u2028", "\x01\x7f")[r.Intn(len(okStr)+3)])
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Intn(3) > 0 {
			v.SetInt(r.Int63()>>uint(r.Intn(63)) - 5)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if r.Intn(3) > 0 {
			v.SetUint(r.Uint64() >> uint(r.Intn(64)))
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -2.5, 1e21, 1e-7, 123456789, 0.1, math.Copysign(0, -1)}[r.Intn(8)])
		if r.Intn(60) == 0 {
			v.SetFloat(math.NaN())
		}
	case reflect.Slice:
		if r.Intn(4) == 0 {
			return
		}
		n := r.Intn(4)
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), d-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), d-1)
		}
	case reflect.Ptr:
		if r.Intn(4) > 0 {
			v.Set(reflect.New(t.Elem()))
			fill(r, v.Elem(), d-1)
		}
	case reflect.Map:
		if r.Intn(4) == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		for n := r.Intn(4); n > 0; n-- {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			fill(r, k, d-1)
			fill(r, e, d-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && r.Intn(5) > 0 {
				fill(r, v.Field(i), d-1)
			}
		}
	case reflect.Interface:
		if t.NumMethod() > 0 || r.Intn(4) == 0 || d < -2 {
			return
		}
		g := &typeGen{r: r, method: true, enc: true}
		e := reflect.New(g.gen(1)).Elem()
		fill(r, e, d-1)
		v.Set(e)
	}
}

// normal renders JSON text for comparison: ordered, or with sorted keys when maps are involved.
func normal(b []byte, sorted bool) string {
	if !sorted {
		e, s := walkRef(b, false)
		if e != len(b) {
			return "not one JSON value: " + string(b)
		}
		return s
	}
	e, v := refVal(b, 0, false, true)
	if e != len(b) {
		return "not one JSON value: " + string(b)
	}
	return canon(v)
}

func rC14(c *ctx) {
	g := &typeGen{r: c.rng, method: true, enc: true}
	var pool []reflect.Type
	off := jzon.NewEncoderConfig(&jzon.EncoderOption{})
	one := func(name string, v interface{}, sorted bool) {
		c.check(name, func() string { return fmt.Sprintf("%T %+v", v, v) }, func() string {
			want, e1 := json.Marshal(v)
			got, e2 := jzon.Marshal(v)
			if (e1 == nil) != (e2 == nil) {
				return fmt.Sprintf("error %v, expected %v (output %q)", e2, e1, got)
			}
			if e1 != nil {
				return ""
			}
			if a, b := normal(got, sorted), normal(want, sorted); a != b {
				return fmt.Sprintf("output %s, expected %s", got, want)
			}
			got2, e3 := off.Marshal(v)
			if e3 != nil {
				return fmt.Sprintf("without HTML escaping: %v", e3)
			}
			var buf bytes.Buffer
			enc := json.NewEncoder(&buf)
			enc.SetEscapeHTML(false)
			if err := enc.Encode(v); err != nil {
				return ""
			}
			want = bytes.TrimRight(buf.Bytes(), "\n")
			if a, b := normal(got2, sorted), normal(want, sorted); a != b {
				return fmt.Sprintf("without HTML escaping: output %s, expected %s", got2, want)
			}
			return ""
		})
	}
	isMap := func(t reflect.Type) bool { return t.Kind() == reflect.Map || t.Kind() == reflect.Interface }
	fixedEnc(c, one)
	for n := 0; n < 300; n++ {
		intMapKeys(c, one)
		nilEmbedded(c, one)
	}
	for c.more() {
		if c.rng.Intn(20) == 0 {
			intMapKeys(c, one)
			nilEmbedded(c, one)
		}
		t := g.gen(1 + c.rng.Intn(3))
		if len(pool) > 600 {
			t = pool[c.rng.Intn(len(pool))]
		} else {
			pool = append(pool, t)
		}
		sorted := hasKind(t, isMap)
		for n := 0; n < 4; n++ {
			v := reflect.New(t)
			fill(c.rng, v.Elem(), 3)
			one("by value", v.Elem().Interface(), sorted)
			one("by pointer", v.Interface(), sorted)
			if c.rng.Intn(4) == 0 {
				one("in interface", []interface{}{v.Elem().Interface(), nil, v.Interface()}, sorted)
			}
		}
	}
}

type ifaceM interface{ MarshalJSON() ([]byte, error) }
type ifaceT interface{ MarshalText() ([]byte, error) }
type ifaceS interface{ String() string }
type strer int

func (s strer) String() string { return "s" }

type oneP struct{ P *int }
type oneM struct{ M map[string]int }
type oneA [1]*int
type recur struct {
	N    int
	Next *recur            `json:",omitempty"`
	L    []recur           `json:",omitempty"`
	M    map[string]*recur `json:",omitempty"`
}

func fixedEnc(c *ctx, one func(string, interface{}, bool)) {
	// values JSON cannot express are an error, also when the field may be omitted
	one("unsupported kinds", struct {
		C chan int `json:",omitempty"`
	}{}, false)
	one("unsupported kinds", struct {
		F func() `json:",omitempty"`
	}{}, false)
	one("unsupported kinds", struct {
		X complex64 `json:",omitempty"`
	}{}, false)
	one("unsupported kinds", struct {
		X complex128 `json:",omitempty"`
	}{}, false)
	one("unsupported kinds", struct {
		X unsafe.Pointer `json:",omitempty"`
	}{}, false)
	one("unsupported kinds", []chan int{nil}, false)
	one("unsupported kinds", map[string]func(){"a": nil}, true)
	i := 5
	var np *int
	var ej ifaceM
	var et ifaceT
	vals := []interface{}{nil, np, &np, &i, oneP{}, oneP{&i}, &oneP{&i}, oneM{}, oneM{map[string]int{"a": 1}}, oneA{}, oneA{&i}, &oneA{&i}, [1]map[string]int{{"a": 1}}, [1]oneP{{&i}},
		struct{ I ifaceM }{}, struct{ I ifaceM }{tJSON{"x"}}, struct{ I ifaceM }{&tPtrJSON{3}}, struct{ I ifaceT }{}, struct{ I ifaceT }{tText{"x"}}, struct{ I ifaceT }{&tPtrText{4}}, struct{ S ifaceS }{strer(4)},
		&ej, &et, []ifaceM{nil, tJSON{"y"}}, []ifaceT{nil, tText{"y"}}, map[string]ifaceM{"a": nil}, [2]ifaceS{nil, strer(2)},
		(*tPtrJSON)(nil), (*tPtrText)(nil), (*tText)(nil), (*tJSON)(nil), &tPtrJSON{1}, &tPtrText{1}, []tPtrJSON{{1}, {2}}, []*tPtrJSON{nil, {2}}, &[1]tPtrJSON{{1}},
		&struct{ A tPtrJSON }{tPtrJSON{4}}, struct{ A *tPtrJSON }{}, struct{ A *tPtrText }{}, struct {
			A *tPtrJSON `json:",omitempty"`
			B *tPtrText `json:",omitempty"`
			C tMapJSON  `json:",omitempty"`
			D ifaceM    `json:",omitempty"`
		}{}, tMapJSON(nil), tMapJSON{"a": 1}, &tMapJSON{}, struct{ M tMapJSON }{},
		[]byte(nil), []byte{}, []byte{1, 2, 255}, nBytes{1}, [3]byte{1, 2, 3}, []nByte{1, 2}, &[]byte{7}, struct {
			B []byte `json:",omitempty"`
			C []byte
		}{}, struct {
			B []byte `json:",omitempty"`
			C *[]byte
		}{B: []byte{}},
		map[int]string{-1: "a", 5: "b"}, map[uint8]int{255: 1}, map[string]interface{}(nil), map[string]interface{}{}, map[nString]int{"k": 1}, map[tIntText]int{4: 1},
		json.RawMessage(`{"a":[1,2]}`), json.RawMessage(nil), struct{ R json.RawMessage }{}, struct {
			R json.RawMessage `json:",omitempty"`
			S *json.RawMessage
		}{}, json.Number("12.5"), struct{ N json.Number }{"7"}, struct {
			N json.Number `json:",omitempty"`
		}{},
		recur{N: 1, Next: &recur{N: 2, L: []recur{{N: 3}, {N: 4, Next: &recur{}}}}}, &recur{M: map[string]*recur{"k": {N: 9}}}, []*recur{nil, {N: 1}},
		struct {
			A bool    `json:",string"`
			B string  `json:",string"`
			C int8    `json:",string,omitempty"`
			D uint64  `json:",string"`
			E *int    `json:",string"`
			F *string `json:",string"`
			G *bool   `json:",omitempty,string"`
		}{true, "a<b\"c", 0, math.MaxUint64, &i, nil, nil},
		struct {
			A int            `json:",omitempty"`
			B string         `json:",omitempty"`
			C []int          `json:",omitempty"`
			D map[string]int `json:",omitempty"`
			E *int           `json:",omitempty"`
			F interface{}    `json:",omitempty"`
			G bool           `json:",omitempty"`
			H float64        `json:",omitempty"`
			I [0]int         `json:",omitempty"`
			J [1]int         `json:",omitempty"`
			K struct{}       `json:",omitempty"`
			L uint8          `json:",omitempty"`
			M uintptr        `json:",omitempty"`
			N float32        `json:",omitempty"`
		}{C: []int{}, D: map[string]int{}},
		struct {
			A int            `json:",omitempty"`
			C []int          `json:",omitempty"`
			D map[string]int `json:",omitempty"`
			F interface{}    `json:",omitempty"`
			N float32        `json:",omitempty"`
		}{1, []int{0}, map[string]int{"": 0}, 0, 0.5},
		make(chan int), func() {}, complex(1, 2), map[bool]int{true: 1}, struct{ C chan int }{}, []interface{}{make(chan int)}, map[string]interface{}{"a": func() {}}, struct {
			C chan int `json:"-"`
		}{},
		math.NaN(), []float64{math.Inf(1)}, float32(3.4e38), struct{ X interface{} }{tJSON{"bad"}}, []interface{}{tText{"bad"}, 1},
		[][]interface{}{{1, "a", nil}, {}, nil}, [2][]int{{1}, nil}, map[string][]map[string]int{"a": {{"b": 1}, nil}},
	}
	for _, v := range vals {
		one("fixed", v, true)
		one("fixed", v, true)
		one("fixed", []interface{}{v}, true)
		if v != nil {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			one("fixed pointer", p.Interface(), true)
		}
	}
}
