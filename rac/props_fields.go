package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

func init() { props["C20"] = rC20 }

// fillAll sets every field, also unexported ones, and allocates embedded pointers most of the time.
func fillAll(r *rand.Rand, v reflect.Value, zero int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if v.Kind() != reflect.Struct && r.Intn(100) < zero {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString([]string{"s", "7", "t<t", `q"q`}[r.Intn(4)])
	case reflect.Int:
		v.SetInt(int64(1 + r.Intn(99)))
	case reflect.Uint8:
		v.SetUint(uint64(1 + r.Intn(99)))
	case reflect.Slice:
		v.Set(reflect.ValueOf([]int{r.Intn(9)}[:r.Intn(2)]))
	case reflect.Interface:
		v.Set(reflect.ValueOf(fmt.Sprint("i", r.Intn(9))))
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		fillAll(r, p.Elem(), zero)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fillAll(r, v.Field(i), zero)
		}
	}
}

var candNames = []string{"A", "B", "C", "x", "y", "AB", "Å", "é", "a", "ab", "Ab", "aB", "b", "c", "X", "k1", "K1", "\u212a1", "a b", "a/b", "A!#$%&()*+-./:<=>?@[]^_{|}~", `a\b`, "a'b", "1", "世界", "-", "", "emb", "EMB", "zz", "q",
	"myInt0", "MyInt0", "myInt1", "MyInt1", "MyInt2", "å", "É", "omitempty", "string"}

func rC20(c *ctx) {
	r := c.rng
	vals := []string{"7", `"7"`, `"s"`, `"\"s\""`, "null", "[1]", `"true"`, "{}", `{"A":1,"B":"b"}`}
	enc := func(name string, v interface{}) {
		c.check(name, func() string { return fmt.Sprintf("%T %s", v, std(v)) }, func() string {
			want, e1 := json.Marshal(v)
			got, e2 := jzon.Marshal(v)
			if (e1 == nil) != (e2 == nil) {
				return fmt.Sprintf("error %v, expected %v", e2, e1)
			}
			if e1 == nil && normal(got, false) != normal(want, false) {
				return fmt.Sprintf("output %s, expected %s", got, want)
			}
			return ""
		})
	}
	tagOpts(c)
	for c.more() {
		t := structTypes[r.Intn(len(structTypes))]
		v := reflect.New(t)
		fillAll(r, v.Elem(), []int{0, 10, 50, 100}[r.Intn(4)])
		enc("encode", v.Interface())
		if r.Intn(3) == 0 {
			enc("encode by value", v.Elem().Interface())
		}
		for n := 0; n < 6; n++ {
			key := candNames[r.Intn(len(candNames))]
			if r.Intn(6) == 0 {
				key = structTypes[r.Intn(len(structTypes))].Name()
			}
			txt := fmt.Sprintf(`{%s:%s}`, keyLit(r, key), vals[r.Intn(len(vals))])
			seed := r.Int63()
			z := []int{0, 50, 100}[r.Intn(3)]
			c.check("decode", func() string { return fmt.Sprintf("%v <- %s", t, txt) }, func() string {
				x, y := reflect.New(t), reflect.New(t)
				fillAll(rand.New(rand.NewSource(seed)), x.Elem(), z)
				fillAll(rand.New(rand.NewSource(seed)), y.Elem(), z)
				e1, crash := stdUnmarshal([]byte(txt), x.Interface())
				if crash {
					return "" // the standard library panics on tagged embedded pointers to unexported structs
				}
				e2 := jzon.Unmarshal([]byte(txt), y.Interface())
				if (e1 == nil) != (e2 == nil) {
					return fmt.Sprintf("error %v, expected %v", e2, e1)
				}
				if e1 == nil && !reflect.DeepEqual(x.Interface(), y.Interface()) {
					return fmt.Sprintf("got %s, expected %s", std(y.Interface()), std(x.Interface()))
				}
				return ""
			})
		}
	}
}

func std(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

type tagIn struct {
	D int `db:"dee" json:"jd"`
	E int
}
type tagTop struct {
	A int    `db:"aa" json:"ja"`
	B int    `json:"jb"`
	C string `db:",omitempty"`
	F int    `db:"-"`
	G int    `db:"gg,string"`
	tagIn
	h int `db:"hh"`
}

// tagOpts: the tag name and OnlyTaggedField options of the configurations.
func tagOpts(c *ctx) {
	v := tagTop{A: 1, B: 2, C: "c", F: 4, G: 5, tagIn: tagIn{6, 7}, h: 8}
	for _, x := range []struct {
		tag  string
		only bool
		want string
	}{
		{"", false, `{"ja":1,"jb":2,"C":"c","F":4,"G":5,"jd":6,"E":7}`},
		{"db", false, `{"aa":1,"B":2,"C":"c","gg":"5","dee":6,"E":7}`},
		{"json", true, `{"ja":1,"jb":2,"jd":6}`},
		{"db", true, `{"aa":1,"C":"c","gg":"5","dee":6}`},
		{"none", false, `{"A":1,"B":2,"C":"c","F":4,"G":5,"D":6,"E":7}`},
		{"none", true, `{}`},
	} {
		x := x
		c.check("tag options", func() string { return fmt.Sprintf("Tag %q OnlyTaggedField %v", x.tag, x.only) }, func() string {
			e := jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: x.tag, OnlyTaggedField: x.only, EscapeHTML: true})
			got, err := e.Marshal(v)
			if err != nil {
				return err.Error()
			}
			if x.only {
				// an untagged embedded struct is itself an untagged field
				alt := strings.NewReplacer(`,"jd":6`, "", `,"dee":6`, "").Replace(x.want)
				if string(got) == alt {
					x.want = alt
				}
			}
			if string(got) != x.want {
				return fmt.Sprintf("output %s, expected %s", got, x.want)
			}
			d := jzon.NewDecoderConfig(&jzon.DecoderOption{Tag: x.tag, OnlyTaggedField: x.only, DisallowUnknownFields: true})
			var w tagTop
			if err := d.Unmarshal(got, &w); err != nil {
				return fmt.Sprintf("decoding %s: %v", got, err)
			}
			back, _ := e.Marshal(w)
			if !bytes.Equal(back, got) {
				return fmt.Sprintf("decoding %s gives %+v", got, w)
			}
			return ""
		})
	}
}

func stdUnmarshal(b []byte, x interface{}) (err error, crash bool) {
	defer func() {
		if recover() != nil {
			crash = true
		}
	}()
	return json.Unmarshal(b, x), false
}
