package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

func init() { props["C11"] = rC11 }

type (
	nBool   bool
	nString string
	nInt8   int8
	nInt64  int64
	nUint16 uint16
	nFloat  float64
)

type scal struct {
	typ  reflect.Type
	pre  interface{}
	ref  func(b []byte, z bool) (int, string)
	show func(v reflect.Value) string
}

func showInt(v reflect.Value) string   { return strconv.FormatInt(v.Int(), 10) }
func showUint(v reflect.Value) string  { return strconv.FormatUint(v.Uint(), 10) }
func showFloat(v reflect.Value) string { return fstr(v.Float()) }
func showStr(v reflect.Value) string   { return v.String() }
func showBool(v reflect.Value) string  { return fmt.Sprint(v.Bool()) }

func boolRef(b []byte, z bool) (int, string) {
	e, _ := only("tf")(b, z)
	_, c := first(b)
	return e, fmt.Sprint(c == 't')
}

func jnumRef(b []byte, z bool) (int, string) {
	i, c := first(b)
	if i < len(b) && c == '"' {
		if i+1 >= len(b) {
			return -2, ""
		}
		if d := b[i+1]; d != '-' && (d < '0' || d > '9') {
			return -1, ""
		}
		e := refNum(b, i+1, true)
		if e < 0 {
			return e, ""
		}
		if e >= len(b) {
			return -2, ""
		}
		if b[e] != '"' {
			return -1, ""
		}
		return e + 1, string(b[i+1 : e])
	}
	return numRef(b, z)
}

// quotedInt: the integer literal directly inside a JSON string
func quotedInt(ref func([]byte, bool) (int, string)) func([]byte, bool) (int, string) {
	return func(b []byte, z bool) (int, string) {
		i, c := first(b)
		if i >= len(b) {
			return -2, ""
		}
		if c != '"' {
			return -1, ""
		}
		if i+1 >= len(b) {
			return -2, ""
		}
		if d := b[i+1]; d != '-' && (d < '0' || d > '9') {
			return -1, ""
		}
		e, s := ref(b[i+1:], true)
		if e < 0 {
			return e, ""
		}
		e += i + 1
		if e >= len(b) {
			return -2, ""
		}
		if b[e] != '"' {
			return -1, ""
		}
		return e + 1, s
	}
}

func quotedStr(b []byte, z bool) (int, string, bool) { // end, value, null
	e, s := strRef(b, z)
	if e < 0 {
		return e, "", false
	}
	if s == "null" {
		return e, "", true
	}
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return -1, "", false
	}
	e2, s2 := refStr([]byte(s), 0)
	if e2 != len(s) {
		return -1, "", false
	}
	return e, string(s2), false
}

var scals = []scal{
	{reflect.TypeOf(false), true, boolRef, showBool},
	{reflect.TypeOf(false), false, boolRef, showBool},
	{reflect.TypeOf(nBool(false)), nBool(true), boolRef, showBool},
	{reflect.TypeOf(""), "preset", strRef, showStr},
	{reflect.TypeOf(nString("")), nString("p"), strRef, showStr},
	{reflect.TypeOf(int(0)), int(77), intRef(64, true), showInt},
	{reflect.TypeOf(int8(0)), int8(77), intRef(8, true), showInt},
	{reflect.TypeOf(int16(0)), int16(77), intRef(16, true), showInt},
	{reflect.TypeOf(int32(0)), int32(77), intRef(32, true), showInt},
	{reflect.TypeOf(int64(0)), int64(77), intRef(64, true), showInt},
	{reflect.TypeOf(uint(0)), uint(77), intRef(64, false), showUint},
	{reflect.TypeOf(uint8(0)), uint8(77), intRef(8, false), showUint},
	{reflect.TypeOf(uint16(0)), uint16(77), intRef(16, false), showUint},
	{reflect.TypeOf(uint32(0)), uint32(77), intRef(32, false), showUint},
	{reflect.TypeOf(uint64(0)), uint64(77), intRef(64, false), showUint},
	{reflect.TypeOf(uintptr(0)), uintptr(77), intRef(64, false), showUint},
	{reflect.TypeOf(nInt8(0)), nInt8(77), intRef(8, true), showInt},
	{reflect.TypeOf(nInt64(0)), nInt64(77), intRef(64, true), showInt},
	{reflect.TypeOf(nUint16(0)), nUint16(77), intRef(16, false), showUint},
	{reflect.TypeOf(float32(0)), float32(7.5), floatRef(32), showFloat},
	{reflect.TypeOf(float64(0)), float64(7.5), floatRef(64), showFloat},
	{reflect.TypeOf(nFloat(0)), nFloat(7.5), floatRef(64), showFloat},
	{reflect.TypeOf(jzon.Number("")), jzon.Number("7"), jnumRef, showStr},
}

func isInt(t reflect.Type) bool { return t.Kind() >= reflect.Int && t.Kind() <= reflect.Uintptr }

func rC11(c *ctx) {
	it := jzon.NewIterator()
	k := 0
	structs := map[reflect.Type]reflect.Type{}
	one := func(b []byte) {
		for si := range scals {
			sc := &scals[si]
			k++
			useReader := k%9 == 0
			c.check("ReadVal(*"+sc.typ.String()+")", func() string { return quote(b) }, func() string {
				end, want := sc.ref(b, false)
				if i, ch := first(b); i < len(b) && ch == 'n' {
					end, want = refLit(b, i, "null"), sc.show(reflect.ValueOf(sc.pre))
				}
				p := reflect.New(sc.typ)
				p.Elem().Set(reflect.ValueOf(sc.pre))
				if useReader {
					it.Reset(fragPlans(c.rng)[k%8](b))
				} else {
					it.ResetBytes(b)
				}
				err := it.ReadVal(p.Interface())
				got := sc.show(p.Elem())
				if end < 0 && got != sc.show(reflect.ValueOf(sc.pre)) {
					return fmt.Sprintf("failed decode changed the target to %s", got)
				}
				if useReader {
					if end < 0 != (err != nil) || end >= 0 && got != want {
						return fmt.Sprintf("got %s, %v; expected %s (end %d)", got, err, want, end)
					}
					return ""
				}
				return same(nil, end, want, got, err, len(b)-len(it.Buffer()), len(b))
			})
			if sc.typ.Kind() == reflect.Float32 || sc.typ.Kind() == reflect.Float64 || sc.typ == reflect.TypeOf(jzon.Number("")) {
				continue
			}
			if sc.typ.Kind() == reflect.Bool {
				continue
			}
			// with the string option
			st := structs[sc.typ]
			if st == nil {
				st = reflect.StructOf([]reflect.StructField{{Name: "F", Type: sc.typ, Tag: `json:"F,string"`}, {Name: "P", Type: reflect.PtrTo(sc.typ), Tag: `json:"P,string"`}})
				structs[sc.typ] = st
			}
			fld := []string{"F", "P"}[k%2]
			c.check("string option "+sc.typ.String(), func() string { return fmt.Sprintf(`{"%s":%s}`, fld, b) }, func() string {
				var end int
				var want string
				pre := sc.show(reflect.ValueOf(sc.pre))
				null := false
				if i, ch := first(b); i < len(b) && ch == 'n' {
					end, want, null = refLit(b, i, "null"), pre, true
				} else if sc.typ.Kind() == reflect.String {
					var n bool
					end, want, n = quotedStr(b, true)
					if n {
						want = pre
					}
				} else {
					end, want = quotedInt(sc.ref)(b, true)
				}
				doc := append(append([]byte(`{"`+fld+`":`), b...), '}')
				if end >= 0 {
					i := refTok(b, end)
					if i < len(b) {
						return "" // trailing bytes: not this contract
					}
				} else if end == -2 {
					return "" // the closing brace would take part
				}
				p := reflect.New(st)
				f := p.Elem().FieldByName(fld)
				if fld == "P" {
					f.Set(reflect.New(sc.typ))
					f = f.Elem()
				}
				f.Set(reflect.ValueOf(sc.pre))
				err := jzon.Unmarshal(doc, p.Interface())
				if (end >= 0) != (err == nil) {
					return fmt.Sprintf("error %v, expected end %d value %s", err, end, want)
				}
				if end < 0 {
					want = pre
				}
				if fld == "P" && null {
					if end >= 0 && !p.Elem().FieldByName("P").IsNil() {
						return "null did not set the pointer to nil"
					}
					return ""
				}
				if got := sc.show(f); got != want {
					return fmt.Sprintf("target is %s, expected %s (error %v)", got, want, err)
				}
				return ""
			})
			if !isInt(sc.typ) {
				continue
			}
			// as map key
			c.check("map key "+sc.typ.String(), func() string { return fmt.Sprintf(`{%s:true}`, b) }, func() string {
				if i, ch := first(b); i >= len(b) || ch != '"' {
					return ""
				}
				end, want := quotedInt(sc.ref)(b, true)
				if end == -2 || end >= 0 && refTok(b, end) < len(b) {
					return ""
				}
				m := reflect.New(reflect.MapOf(sc.typ, reflect.TypeOf(true)))
				err := jzon.Unmarshal(append(append([]byte(`{`), b...), ":true}"...), m.Interface())
				if (end >= 0) != (err == nil) {
					return fmt.Sprintf("error %v, expected end %d value %s", err, end, want)
				}
				if end >= 0 {
					if m.Elem().Len() != 1 || sc.show(m.Elem().MapKeys()[0]) != want {
						return fmt.Sprintf("map is %v, expected the key %s", m.Elem(), want)
					}
				}
				return ""
			})
		}
	}
	// quoted booleans
	type qb struct {
		B bool `json:",string"`
	}
	for _, t := range []struct {
		s  string
		ok bool
		v  [2]bool
	}{{`"true"`, true, [2]bool{true, true}}, {`"false"`, true, [2]bool{false, false}}, {`"null"`, true, [2]bool{false, true}}, {`null`, true, [2]bool{false, true}}, {`"tru"`, false, [2]bool{false, true}}, {`"x"`, false, [2]bool{false, true}}, {`""`, false, [2]bool{false, true}}, {`"truee"`, false, [2]bool{false, true}}, {`"falsey"`, false, [2]bool{false, true}}, {`1`, false, [2]bool{false, true}}} {
		for i, pre := range []bool{false, true} {
			c.check("string option bool", func() string { return t.s }, func() string {
				x := qb{pre}
				err := jzon.Unmarshal([]byte(`{"B":`+t.s+`}`), &x)
				if (err == nil) != t.ok || x.B != t.v[i] {
					return fmt.Sprintf("got %v, %v from %v", x.B, err, pre)
				}
				return ""
			})
		}
	}
	for _, n := range boundaries() {
		for _, f := range []string{"%s", "-%s", `"%s"`, `"-%s"`, `"%s`, `" %s"`, `"%s "`, `"%s0"`, `"0%s"`, `%s `, `"%s.0"`, `"\"%s\""`} {
			one([]byte(fmt.Sprintf(f, n)))
		}
	}
	for _, s := range []string{"null", "nul", "nulx", "true", "false", "tru", "falsx", `""`, `"\"\""`, `"\"a\""`, `"\"a\\n\""`, `"\"a\"b\""`, `"\"a"`, `"null"`, `"nul"`, `"\"\\u0041\""`, ` "x" `, ` null`, ` true `, "[]", "{}", `"\"a\" "`, `"\"`} {
		one([]byte(s))
	}
	for c.more() {
		var b []byte
		switch c.rng.Intn(5) {
		case 0:
			b = genDoc(c.rng)
		case 1:
			b = []byte(genNum(c.rng))
		case 2:
			b = []byte(`"` + genNum(c.rng) + `"`)
		case 3:
			b = []byte(genStrLit(c.rng))
			if c.rng.Intn(2) == 0 {
				b = []byte(strconv.Quote(strings.ToValidUTF8(string(b), "?")))
				if e, _ := refStr(b, 0); e != len(b) {
					b = []byte(`"\"q\""`)
				}
			}
		case 4:
			b = []byte([]string{"null", "true", "false"}[c.rng.Intn(3)])
		}
		if c.rng.Intn(3) == 0 {
			b = mutate(c.rng, b)
		}
		one(b)
	}
}
