package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/zerosnake0/jzon"
)

func init() { props["C21"] = rC21 }

type cNode struct {
	N    int
	S    string
	Kids []*cNode
	M    map[string]cNode
	P    *cNode
	I    interface{}
}
type cA struct {
	B *cB
	L []cB
}
type cB struct {
	A *cA
	M map[string]*cA
	X int8 `json:"x,string"`
}

type cBig struct {
	Alpha, Beta, Gamma, Delta, Epsilon, Zeta, Eta, Theta, Iota, Kappa, Lambda, Mu, Nu, Xi int
	Straße, Ωmega                                                                         string
	Next                                                                                  *cBig
}
type cFew struct{ Alpha, Beta, Gamma int }
type cOne struct{ Omicron string }

type job struct {
	what string
	t    reflect.Type
	run  func(e *jzon.EncoderConfig, d *jzon.DecoderConfig) (string, interface{})
}

// C21: many goroutines on one pair of configurations get what one goroutine gets; built with the race
// detector, which ends the process at the first unordered access it sees.
func rC21(c *ctx) {
	g := &typeGen{r: c.rng, method: true, enc: true}
	isMap := func(t reflect.Type) bool { return t.Kind() == reflect.Map || t.Kind() == reflect.Interface }
	static := []interface{}{
		&cNode{N: 1, S: "<a>", Kids: []*cNode{{N: 2}, nil, {M: map[string]cNode{"k": {S: "x"}}}}, I: []interface{}{1, "x"}},
		cA{B: &cB{X: 3}, L: []cB{{M: map[string]*cA{"q": nil}}}}, &cB{A: &cA{}},
		[]interface{}{map[string]interface{}{"a": 1.5}, []int{1, 2}, &cNode{}}, map[int]cA{1: {}, 2: {}}, [3]*cB{nil, {X: 1}, nil},
	}
	for c.more() {
		n := 3 + c.rng.Intn(8)
		var jobs []job
		var types []reflect.Type
		addEnc := func(v interface{}) {
			sorted := v == nil || hasKind2(reflect.TypeOf(v), isMap)
			jobs = append(jobs, job{what: "Marshal", t: reflect.TypeOf(v), run: func(e *jzon.EncoderConfig, _ *jzon.DecoderConfig) (string, interface{}) {
				b, err := e.Marshal(v)
				if err != nil {
					return "error", nil
				}
				return normal(b, sorted), nil
			}})
		}
		addDec := func(t reflect.Type, b []byte) {
			jobs = append(jobs, job{what: "Unmarshal " + clip(string(b), 60), t: t, run: func(_ *jzon.EncoderConfig, d *jzon.DecoderConfig) (string, interface{}) {
				p := reflect.New(t)
				err := d.Unmarshal(append([]byte(nil), b...), p.Interface())
				if err != nil {
					return "error", nil
				}
				return "", p.Interface()
			}})
		}
		for i := 0; i < n; i++ {
			t := g.gen(1 + c.rng.Intn(3))
			if len(types) > 0 && c.rng.Intn(2) == 0 {
				u := types[c.rng.Intn(len(types))]
				switch c.rng.Intn(4) {
				case 0:
					t = reflect.PtrTo(u)
				case 1:
					t = reflect.SliceOf(u)
				case 2:
					t = reflect.MapOf(reflect.TypeOf(""), u)
				case 3:
					t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: u}, {Name: "G", Type: t, Tag: `json:"g,omitempty"`}})
				}
			}
			types = append(types, t)
			v := reflect.New(t)
			fill(c.rng, v.Elem(), 3)
			if c.rng.Intn(2) == 0 {
				addEnc(v.Interface())
			} else {
				addEnc(v.Elem().Interface())
			}
			addDec(t, []byte(text(c.rng, t, false, 4)))
		}
		for _, v := range static {
			if c.rng.Intn(2) == 0 {
				addEnc(v)
			}
		}
		addDec(reflect.TypeOf(cNode{}), []byte(`{"N":1,"S":"x","kids":[{"n":2},null,{"M":{"a":{"N":3}}}],"P":{"P":null},"i":[1,{"a":"b"}]}`))
		addDec(reflect.TypeOf(cA{}), []byte(`{"b":{"x":"3","m":{"k":{"l":[{}]}}}}`))
		addDec(reflect.TypeOf(cBig{}), []byte(`{"ALPHA":1,"beta":2,"gAMMA":3,"kappa":4,"\u212aAPPA":5,"nU":6,"XI":7,"ωMEGA":"o","next":{"lambda":8,"ThEtA":9,"straßE":"s"}}`))
		addDec(reflect.TypeOf(cBig{}), []byte(`{"iota":1,"eta":2,"zeta":3,"EPSILON":4,"delta":5,"MU":6,"nope":7,"NEXT":{"next":{"BETA":1}}}`))
		addDec(reflect.TypeOf(cFew{}), []byte(`{"ALPHA":1,"beta":2,"gAMMA":3}`))
		addDec(reflect.TypeOf(cOne{}), []byte(`{"OMICRON":"x","omicroN":"y"}`))
		raw := []byte(ws(c.rng) + genVal(c.rng, 3))
		jobs = append(jobs, job{what: "Valid and ReadAll " + string(raw), run: func(_ *jzon.EncoderConfig, d *jzon.DecoderConfig) (string, interface{}) {
			var x interface{}
			err := d.Unmarshal(raw, &x)
			dec := d.NewDecoder(strings.NewReader(string(raw) + " 1"))
			var y interface{}
			err2 := dec.Decode(&y)
			dec.Release()
			return fmt.Sprint(jzon.Valid(raw), err == nil, err2 == nil), []interface{}{x, y}
		}})
		html := c.rng.Intn(2) == 0
		do := &jzon.DecoderOption{UseNumber: c.rng.Intn(2) == 0, CaseSensitive: c.rng.Intn(2) == 0}
		c.check("first uses from many goroutines", func() string {
			s := ""
			for _, j := range jobs {
				s += j.what + " " + clip(fmt.Sprint(j.t), 300) + "\n"
			}
			return s
		}, func() string {
			mk := func() (*jzon.EncoderConfig, *jzon.DecoderConfig) {
				return jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: html}), jzon.NewDecoderConfig(do)
			}
			type res struct {
				s string
				v interface{}
			}
			e, d := mk()
			want := make([]res, len(jobs))
			for i, j := range jobs {
				want[i].s, want[i].v = j.run(e, d)
			}
			e, d = mk()
			const G = 8
			var wg sync.WaitGroup
			start := make(chan bool)
			bad := make([]string, G)
			for k := 0; k < G; k++ {
				wg.Add(1)
				r := rand.New(rand.NewSource(c.rng.Int63()))
				go func(k int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							bad[k] = fmt.Sprintf("panic: %v\n%s", p, clip(string(debug.Stack()), 1200))
						}
					}()
					order := r.Perm(len(jobs))
					<-start
					for rep := 0; rep < 2; rep++ {
						for _, i := range order {
							s, v := jobs[i].run(e, d)
							if s != want[i].s {
								bad[k] = fmt.Sprintf("%s (%v): %q, sequentially %q", jobs[i].what, jobs[i].t, s, want[i].s)
								return
							}
							if !reflect.DeepEqual(v, want[i].v) && fmt.Sprintf("%#v", v) != fmt.Sprintf("%#v", want[i].v) {
								bad[k] = fmt.Sprintf("%s (%v): %+v, sequentially %+v", jobs[i].what, jobs[i].t, v, want[i].v)
								return
							}
						}
					}
				}(k)
			}
			close(start)
			wg.Wait()
			for _, s := range bad {
				if s != "" {
					return s
				}
			}
			return ""
		})
	}
}

func hasKind2(t reflect.Type, f func(reflect.Type) bool) bool {
	return hasKind(t, f) || strings.Contains(fmt.Sprint(t), "interface {}") || strings.Contains(fmt.Sprint(t), "map[") || strings.Contains(fmt.Sprint(t), "cNode") || strings.Contains(fmt.Sprint(t), "cA") || strings.Contains(fmt.Sprint(t), "cB")
}
