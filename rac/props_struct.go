package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unicode"

	"github.com/zerosnake0/jzon"
)

func init() { props["C13"] = rC13 }

// atoms of field names: letters with one-to-one and with irregular case folding, and non-letters
var nameAtoms = []string{"a", "B", "k", "K", "\u212a", "s", "S", "\u017f", "é", "É", "σ", "ς", "Σ", "ß", "ẞ", "i", "I", "İ", "ı", "µ", "μ", "ǅ", "ǆ", "_", "-", "1", "x", "Z", "я", "Θ", "ϑ", "𐐀", "𐐨", "世"}

func fieldName(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	if r.Intn(8) == 0 {
		n = 4 + r.Intn(30)
	}
	s := ""
	for i := 0; i < n; i++ {
		s += nameAtoms[r.Intn(len(nameAtoms))]
	}
	return s
}

// foldSame is Unicode simple case folding, computed from the orbits and not from EqualFold.
func foldSame(a, b string) bool {
	x, y := []rune(a), []rune(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		ok := false
		for f := unicode.SimpleFold(x[i]); f != x[i]; f = unicode.SimpleFold(f) {
			ok = ok || f == y[i]
		}
		if !ok {
			return false
		}
	}
	return true
}

func refold(r *rand.Rand, s string) string {
	out := []rune(s)
	for i := range out {
		for k := r.Intn(4); k > 0; k-- {
			out[i] = unicode.SimpleFold(out[i])
		}
	}
	return string(out)
}

func keyLit(r *rand.Rand, s string) string {
	out := `"`
	all := r.Intn(4) == 0
	for _, x := range s {
		switch {
		case all || r.Intn(12) == 0:
			if x > 0xffff {
				x -= 0x10000
				out += fmt.Sprintf("\\u%04x\\u%04X", 0xd800+x>>10, 0xdc00+x&0x3ff)
			} else {
				out += fmt.Sprintf("\\u%04x", x)
			}
		case x == '"' || x == '\\':
			out += "\\" + string(x)
		case x < 32:
			out += fmt.Sprintf("\\u%04x", x)
		default:
			out += string(x)
		}
	}
	return out + `"`
}

type sInner struct {
	Deep int
	Also string
}
type sMid struct{ *sInner2 }
type SMid2 struct{ *SInner2 }
type sInner2 struct{ Deep2 int }
type SInner2 struct{ Deep3 int }
type sPtrs struct {
	*SMid2
	sInner
	Top int
}
type sBad struct {
	sMid
	Top int
}

func rC13(c *ctx) {
	r := c.rng
	decs := map[string]*jzon.DecoderConfig{
		"default": jzon.NewDecoderConfig(&jzon.DecoderOption{}),
		"case":    jzon.NewDecoderConfig(&jzon.DecoderOption{CaseSensitive: true}),
		"strict":  jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true}),
		"both":    jzon.NewDecoderConfig(&jzon.DecoderOption{CaseSensitive: true, DisallowUnknownFields: true}),
	}
	order := []string{"default", "case", "strict", "both"}
	sizes := []int{0, 1, 1, 2, 3, 5, 9, 10, 11, 12, 14, 25}
	type stT struct {
		t     reflect.Type
		names []string
	}
	var pool []stT
	for c.more() {
		embedded(c, decs["default"])
		var st stT
		if len(pool) < 600 {
			n := sizes[r.Intn(len(sizes))]
			var fs []reflect.StructField
			used := map[string]bool{}
			for len(fs) < n {
				name := fieldName(r)
				if len(st.names) > 0 && r.Intn(5) == 0 {
					name = refold(r, st.names[r.Intn(len(st.names))]) // equal under folding to another field
				}
				if name == "-" || used[name] || strings.HasPrefix(name, "F") || strings.HasPrefix(name, "f") {
					continue
				}
				used[name] = true
				f := reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: reflect.TypeOf(int(0)), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, name))}
				if !plainName(name) || r.Intn(8) == 0 {
					f.Tag, name = "", f.Name
				}
				st.names = append(st.names, name)
				fs = append(fs, f)
			}
			st.t = reflect.StructOf(fs)
			pool = append(pool, st)
		} else {
			st = pool[r.Intn(len(pool))]
		}
		for rep := 0; rep < 6; rep++ {
			oname := order[r.Intn(len(order))]
			d := decs[oname]
			cs, strict := oname == "case" || oname == "both", oname == "strict" || oname == "both"
			pre := make([]int, len(st.names))
			for i := range pre {
				pre[i] = r.Intn(1000)
			}
			want := append([]int(nil), pre...)
			bad := false
			txt := ws(r) + "{" + ws(r)
			for m, nm := 0, r.Intn(6); m < nm; m++ {
				if m > 0 {
					txt += "," + ws(r)
				}
				key := fieldName(r)
				if len(st.names) > 0 && r.Intn(4) > 0 {
					key = st.names[r.Intn(len(st.names))]
					switch r.Intn(4) {
					case 0, 1:
						key = refold(r, key)
					case 2:
						if r.Intn(2) == 0 {
							key += "x"
						} else {
							key = key[:len(key)-1]
						}
						key = strings.ToValidUTF8(key, "")
					}
				}
				hit := -1
				for i, n := range st.names {
					if n == key {
						hit = i
					}
				}
				if hit < 0 && !cs {
					for i, n := range st.names {
						if foldSame(n, key) {
							hit = i
							break
						}
					}
				}
				val := fmt.Sprint(1000 + r.Intn(100000))
				if hit >= 0 {
					if r.Intn(10) == 0 {
						val = "null"
					} else if !bad {
						fmt.Sscan(val, &want[hit])
					}
				} else {
					val = genVal(r, 2)
					bad = bad || strict
				}
				txt += keyLit(r, key) + ws(r) + ":" + ws(r) + val + ws(r)
			}
			txt += "}"
			read := r.Intn(3) == 0
			plan := fragPlans(r)[r.Intn(8)]
			viaDec := r.Intn(3) == 0 // a Decoder, strict by its own setting
			if viaDec {
				d = decs["default"]
				if cs {
					d = decs["case"]
				}
			}
			c.check("members "+oname, func() string {
				return fmt.Sprintf("fields %q (reader %v) preset %v <- %s", st.names, read, pre, txt)
			}, func() string {
				v := reflect.New(st.t)
				for i := range pre {
					v.Elem().Field(i).SetInt(int64(pre[i]))
				}
				var err error
				if viaDec {
					dd := d.NewDecoder(plan([]byte(txt)))
					if strict {
						dd.DisallowUnknownFields()
					}
					err = dd.Decode(v.Interface())
					dd.Release()
				} else if read {
					err = d.UnmarshalFromReader(plan([]byte(txt)), v.Interface())
				} else {
					err = d.Unmarshal([]byte(txt), v.Interface())
				}
				if (err != nil) != bad {
					return fmt.Sprintf("error %v, expected error: %v", err, bad)
				}
				if bad {
					return ""
				}
				for i := range want {
					if g := int(v.Elem().Field(i).Int()); g != want[i] {
						return fmt.Sprintf("field %q is %d, expected %d", st.names[i], g, want[i])
					}
				}
				return ""
			})
		}
	}
}

// plainName: usable in a struct tag as it stands
func plainName(s string) bool {
	for _, x := range s {
		if !unicode.IsLetter(x) && !unicode.IsDigit(x) && x != '_' && x != '-' {
			return false
		}
	}
	return true
}

func embedded(c *ctx, d *jzon.DecoderConfig) {
	r := c.rng
	n := r.Intn(1000)
	k := refold(r, "Deep3")
	c.check("embedded pointers", func() string { return fmt.Sprintf("{%q:%d}", k, n) }, func() string {
		var v sPtrs
		txt := fmt.Sprintf(`{"Top":1,%s:%d,"deep":2,"ALSO":"z"}`, keyLit(r, k), n)
		if err := d.Unmarshal([]byte(txt), &v); err != nil {
			return err.Error()
		}
		if v.SMid2 == nil || v.SMid2.SInner2 == nil || v.Deep3 != n || v.Top != 1 || v.Deep != 2 || v.Also != "z" {
			b, _ := json.Marshal(v)
			return "got " + string(b)
		}
		p := v.SMid2
		q := p.SInner2
		if err := d.Unmarshal([]byte(fmt.Sprintf(`{%s:%d}`, keyLit(r, k), n+1)), &v); err != nil {
			return err.Error()
		}
		if v.SMid2 != p || p.SInner2 != q || v.Deep3 != n+1 || v.Top != 1 {
			return "a set embedded pointer was replaced"
		}
		var w sPtrs
		if err := d.Unmarshal([]byte(`{"Top":3}`), &w); err != nil || w.SMid2 != nil || w.Top != 3 {
			return fmt.Sprintf("pointer allocated without a member: %v %v", err, w.SMid2)
		}
		var b sBad
		if err := d.Unmarshal([]byte(`{"Top":1,"Deep2":2}`), &b); err == nil {
			return "no error for an embedded pointer to an unexported struct"
		}
		b.sInner2 = &sInner2{}
		if err := d.Unmarshal([]byte(`{"deep2":4}`), &b); err != nil || b.Deep2 != 4 {
			return fmt.Sprintf("set embedded pointer: %v %d", err, b.Deep2)
		}
		return ""
	})
}
