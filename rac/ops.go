package main

import (
	"fmt"
	"io"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// op is one iterator operation with its contract.
type op struct {
	name  string
	props string
	run   func(it *jzon.Iterator) (string, error)
	// ref: end position (-1 error, -2 incomplete) and the expected rendering of the result
	ref func(b []byte, z bool) (int, string)
}

func first(b []byte) (int, byte) {
	i := refTok(b, 0)
	if i >= len(b) {
		return i, 0
	}
	return i, b[i]
}

func only(chars string) func(b []byte, z bool) (int, string) {
	return func(b []byte, z bool) (int, string) {
		i, c := first(b)
		if i >= len(b) {
			return -2, ""
		}
		if strings.IndexByte(chars, c) < 0 {
			return -1, ""
		}
		return refEnd(b, 0, z), ""
	}
}

func rawRef(b []byte, z bool) (int, string) {
	e := refEnd(b, 0, z)
	if e < 0 {
		return e, ""
	}
	return e, string(b[refTok(b, 0):e])
}

func strRef(b []byte, z bool) (int, string) {
	i, c := first(b)
	if i >= len(b) {
		return -2, ""
	}
	if c != '"' {
		return -1, ""
	}
	e, s := refStr(b, i)
	return e, string(s)
}

func intRef(bits int, signed bool) func(b []byte, z bool) (int, string) {
	return func(b []byte, z bool) (int, string) {
		e, v := refInt(b, 0, signed)
		if e < 0 {
			return e, ""
		}
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
		if signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		hi.Sub(hi, big.NewInt(1))
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
			return -1, ""
		}
		if z && e == len(b) && v.Sign() != 0 {
			return -2, ""
		}
		return e, v.String()
	}
}

func numRef(b []byte, z bool) (int, string) {
	i, c := first(b)
	if i >= len(b) {
		return -2, ""
	}
	if c != '-' && (c < '0' || c > '9') {
		return -1, ""
	}
	e := refNum(b, i, z)
	if e < 0 {
		return e, ""
	}
	return e, string(b[i:e])
}

func floatRef(bits int) func(b []byte, z bool) (int, string) {
	return func(b []byte, z bool) (int, string) {
		e, s := numRef(b, z)
		if e < 0 {
			return e, ""
		}
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			return -1, ""
		}
		return e, fstr(f)
	}
}

func fstr(f float64) string { return strconv.FormatFloat(f, 'x', -1, 64) }

// canon renders an untyped value unambiguously.
func canon(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint("b:", x)
	case string:
		return fmt.Sprintf("s:%q", x)
	case float64:
		return "f:" + fstr(x)
	case jzon.Number:
		return "n:" + string(x)
	case []interface{}:
		var sb strings.Builder
		sb.WriteString("[")
		for _, e := range x {
			sb.WriteString(canon(e))
			sb.WriteByte(',')
		}
		return sb.String() + "]"
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		sb.WriteString("{")
		for _, k := range ks {
			fmt.Fprintf(&sb, "%q:%s,", k, canon(x[k]))
		}
		return sb.String() + "}"
	}
	return fmt.Sprintf("?%T %v", v, v)
}

// refVal builds the value the text denotes.
func refVal(b []byte, i int, z, num bool) (int, interface{}) {
	i = refTok(b, i)
	if i >= len(b) {
		return -2, nil
	}
	switch c := b[i]; {
	case c == 'n':
		return refLit(b, i, "null"), nil
	case c == 't':
		return refLit(b, i, "true"), true
	case c == 'f':
		return refLit(b, i, "false"), false
	case c == '"':
		e, s := refStr(b, i)
		return e, string(s)
	case c == '-' || c >= '0' && c <= '9':
		e := refNum(b, i, z)
		if e < 0 {
			return e, nil
		}
		if num {
			return e, jzon.Number(string(b[i:e]))
		}
		f, err := strconv.ParseFloat(string(b[i:e]), 64)
		if err != nil {
			return -1, nil
		}
		return e, f
	case c == '[':
		out := []interface{}{}
		i = refTok(b, i+1)
		if i >= len(b) {
			return -2, nil
		}
		if b[i] == ']' {
			return i + 1, out
		}
		for {
			e, v := refVal(b, i, z, num)
			if e < 0 {
				return e, nil
			}
			out = append(out, v)
			i = refTok(b, e)
			if i >= len(b) {
				return -2, nil
			}
			if b[i] == ']' {
				return i + 1, out
			}
			if b[i] != ',' {
				return -1, nil
			}
			i++
		}
	case c == '{':
		out := map[string]interface{}{}
		i = refTok(b, i+1)
		if i >= len(b) {
			return -2, nil
		}
		if b[i] == '}' {
			return i + 1, out
		}
		for {
			i = refTok(b, i)
			if i >= len(b) {
				return -2, nil
			}
			if b[i] != '"' {
				return -1, nil
			}
			e, k := refStr(b, i)
			if e < 0 {
				return e, nil
			}
			i = refTok(b, e)
			if i >= len(b) {
				return -2, nil
			}
			if b[i] != ':' {
				return -1, nil
			}
			e, v := refVal(b, i+1, z, num)
			if e < 0 {
				return e, nil
			}
			out[string(k)] = v
			i = refTok(b, e)
			if i >= len(b) {
				return -2, nil
			}
			if b[i] == '}' {
				return i + 1, out
			}
			if b[i] != ',' {
				return -1, nil
			}
			i++
		}
	}
	return -1, nil
}

func valRef(num bool) func(b []byte, z bool) (int, string) {
	return func(b []byte, z bool) (int, string) {
		e, v := refVal(b, 0, z, num)
		if e < 0 {
			return e, ""
		}
		return e, canon(v)
	}
}

func istr[T int | int8 | int16 | int32 | int64](v T, err error) (string, error) {
	return strconv.FormatInt(int64(v), 10), err
}
func ustr[T uint | uint8 | uint16 | uint32 | uint64](v T, err error) (string, error) {
	return strconv.FormatUint(uint64(v), 10), err
}

func walk(it *jzon.Iterator) (string, error) {
	t, err := it.NextValueType()
	if err != nil {
		return "", err
	}
	switch t {
	case jzon.ArrayValue:
		s := "["
		more, err := it.ReadArrayBegin()
		for ; more && err == nil; more, err = it.ReadArrayMore() {
			x, err := walk(it)
			if err != nil {
				return "", err
			}
			s += x + ","
		}
		return s + "]", err
	case jzon.ObjectValue:
		s := "{"
		more, f, err := it.ReadObjectBegin()
		for ; more && err == nil; more, f, err = it.ReadObjectMore() {
			x, err := walk(it)
			if err != nil {
				return "", err
			}
			s += fmt.Sprintf("%q:%s,", f, x)
		}
		return s + "}", err
	}
	v, err := it.Read()
	return canon(v), err
}

func walkCB(it *jzon.Iterator) (string, error) {
	t, err := it.NextValueType()
	if err != nil {
		return "", err
	}
	switch t {
	case jzon.ArrayValue:
		s := "["
		err := it.ReadArrayCB(func(it *jzon.Iterator) error {
			x, err := walkCB(it)
			s += x + ","
			return err
		})
		return s + "]", err
	case jzon.ObjectValue:
		s := "{"
		err := it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			x, err := walkCB(it)
			s += fmt.Sprintf("%q:%s,", f, x)
			return err
		})
		return s + "}", err
	}
	v, err := it.Read()
	return canon(v), err
}

// walkRef renders the text in order, duplicates included.
func walkRef(b []byte, z bool) (int, string) {
	e, _ := refVal(b, 0, z, false)
	if e < 0 {
		return e, ""
	}
	bad := false
	var f func(i int) (int, string)
	f = func(i int) (int, string) {
		i = refTok(b, i)
		switch b[i] {
		case '[':
			s := "["
			i = refTok(b, i+1)
			for b[i] != ']' {
				var x string
				i, x = f(i)
				s += x + ","
				i = refTok(b, i)
				if b[i] == ',' {
					i++
				}
			}
			return i + 1, s + "]"
		case '{':
			s := "{"
			i = refTok(b, i+1)
			for b[i] != '}' {
				e, k := refStr(b, refTok(b, i))
				i = refTok(b, e) + 1
				var x string
				i, x = f(i)
				s += fmt.Sprintf("%q:%s,", k, x)
				i = refTok(b, i)
				if b[i] == ',' {
					i++
				}
			}
			return i + 1, s + "}"
		}
		e, v := refVal(b, i, z, false)
		if e < 0 {
			bad = true
			return refEnd(b, i, z), ""
		}
		return e, canon(v)
	}
	_, s := f(0)
	if bad {
		return -1, ""
	}
	return e, s
}

func none(err error) (string, error) { return "", err }

var ops = []*op{
	{"Skip", "C01 C02 C03 C17", func(it *jzon.Iterator) (string, error) { return none(it.Skip()) }, func(b []byte, z bool) (int, string) { return refEnd(b, 0, z), "" }},
	{"SkipString", "C01 C02 C03 C06 C17", func(it *jzon.Iterator) (string, error) { return none(it.SkipString()) }, only(`"`)},
	{"SkipNumber", "C01 C02 C03 C17", func(it *jzon.Iterator) (string, error) { return none(it.SkipNumber()) }, only("-0123456789")},
	{"SkipArray", "C01 C02 C03 C17", func(it *jzon.Iterator) (string, error) { return none(it.SkipArray()) }, only("[")},
	{"SkipObject", "C01 C02 C03 C17", func(it *jzon.Iterator) (string, error) { return none(it.SkipObject()) }, only("{")},
	{"ReadNull", "C01 C02 C03 C17", func(it *jzon.Iterator) (string, error) { return none(it.ReadNull()) }, only("n")},
	{"ReadBool", "C02 C03 C11 C17", func(it *jzon.Iterator) (string, error) {
		v, err := it.ReadBool()
		return fmt.Sprint(v), err
	}, func(b []byte, z bool) (int, string) {
		e, _ := only("tf")(b, z)
		_, c := first(b)
		return e, fmt.Sprint(c == 't')
	}},
	{"SkipRaw", "C02 C03 C17", func(it *jzon.Iterator) (string, error) { v, err := it.SkipRaw(); return string(v), err }, rawRef},
	{"ReadRaw", "C02 C03 C17", func(it *jzon.Iterator) (string, error) { v, err := it.ReadRaw(); return string(v), err }, rawRef},
	{"AppendRaw", "C02 C03 C17", func(it *jzon.Iterator) (string, error) {
		v, err := it.AppendRaw([]byte("<p>"))
		if err == nil && !strings.HasPrefix(string(v), "<p>") {
			return "prefix lost: " + string(v), nil
		}
		return strings.TrimPrefix(string(v), "<p>"), err
	}, rawRef},
	{"ReadNumber", "C02 C03 C16 C17", func(it *jzon.Iterator) (string, error) { v, err := it.ReadNumber(); return string(v), err }, numRef},
	{"ReadString", "C02 C03 C06 C17", func(it *jzon.Iterator) (string, error) { return it.ReadString() }, strRef},
	{"ReadStringAsSlice", "C02 C03 C06 C17", func(it *jzon.Iterator) (string, error) { v, err := it.ReadStringAsSlice(); return string(v), err }, strRef},
	{"ReadStringAndAppend", "C02 C03 C06 C17", func(it *jzon.Iterator) (string, error) {
		v, err := it.ReadStringAndAppend([]byte("<p>"))
		if err == nil && !strings.HasPrefix(string(v), "<p>") {
			return "prefix lost: " + string(v), nil
		}
		return strings.TrimPrefix(string(v), "<p>"), err
	}, strRef},
	{"ReadInt", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt()) }, intRef(64, true)},
	{"ReadInt8", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt8()) }, intRef(8, true)},
	{"ReadInt16", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt16()) }, intRef(16, true)},
	{"ReadInt32", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt32()) }, intRef(32, true)},
	{"ReadInt64", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return istr(it.ReadInt64()) }, intRef(64, true)},
	{"ReadUint", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint()) }, intRef(64, false)},
	{"ReadUint8", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint8()) }, intRef(8, false)},
	{"ReadUint16", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint16()) }, intRef(16, false)},
	{"ReadUint32", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint32()) }, intRef(32, false)},
	{"ReadUint64", "C02 C03 C04 C17", func(it *jzon.Iterator) (string, error) { return ustr(it.ReadUint64()) }, intRef(64, false)},
	{"ReadFloat64", "C02 C03 C16 C17", func(it *jzon.Iterator) (string, error) { v, err := it.ReadFloat64(); return fstr(v), err }, floatRef(64)},
	{"ReadFloat32", "C02 C03 C16 C17", func(it *jzon.Iterator) (string, error) { v, err := it.ReadFloat32(); return fstr(float64(v)), err }, floatRef(32)},
	{"Read", "C02 C03 C10 C17", func(it *jzon.Iterator) (string, error) { v, err := it.Read(); return canon(v), err }, valRef(false)},
	{"ReadVal(interface)", "C02 C03 C10 C17", func(it *jzon.Iterator) (string, error) {
		var v interface{}
		err := it.ReadVal(&v)
		return canon(v), err
	}, valRef(false)},
	{"walk", "C02 C03 C10 C17", walk, walkRef},
	{"walkCB", "C02 C03 C10 C17", walkCB, walkRef},
}

func opsFor(prop string) []*op {
	var r []*op
	for _, o := range ops {
		if strings.Contains(o.props, prop) {
			r = append(r, o)
		}
	}
	return r
}

func same(o *op, end int, want string, got string, err error, consumed int, total int) string {
	if end < 0 {
		if err == nil {
			return fmt.Sprintf("accepted: result %q, consumed %d of %d; an error is required", got, consumed, total)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("error %v; expected success %q consuming %d of %d", err, want, end, total)
	}
	if got != want {
		return fmt.Sprintf("result %s; expected %s", clip(got, 400), clip(want, 400))
	}
	if consumed != end {
		return fmt.Sprintf("consumed %d of %d bytes; expected %d", consumed, total, end)
	}
	return ""
}

// mem checks an operation on bytes in memory.
func (c *ctx) mem(it *jzon.Iterator, o *op, b []byte) {
	c.check(o.name, func() string { return quote(b) }, func() string {
		end, want := o.ref(b, false)
		it.ResetBytes(b)
		got, err := o.run(it)
		return same(o, end, want, got, err, len(b)-len(it.Buffer()), len(b))
	})
}

// rdr checks an operation on a fragmenting reader.
func (c *ctx) rdr(it *jzon.Iterator, o *op, f *frag) {
	desc := f.String()
	total := len(f.data)
	c.check(o.name+"/reader", func() string { return desc }, func() string {
		end, want := o.ref(f.data, f.end != io.EOF)
		it.Reset(f)
		got, err := o.run(it)
		if end == -2 && err != nil && f.end != io.EOF && err != f.end {
			return fmt.Sprintf("error %v; the reader failed with %v before the value was complete", err, f.end)
		}
		return same(o, end, want, got, err, f.pos-len(it.Buffer()), total)
	})
}

// rdrFail: b comes in pieces, the bytes from i to j together with an error (the reader goes on after it). The result
// is the one of a reader that fails after i bytes, or after j bytes.
func (c *ctx) rdrFail(it *jzon.Iterator, o *op, f *frag, i, j int) {
	b := f.data
	f.fail = [2]int{i, j}
	c.check(o.name+"/failing reader", func() string { return fmt.Sprintf("%v, bytes %d to %d come with an error", f, i, j) }, func() string {
		it.Reset(f)
		got, err := o.run(it)
		msg := ""
		if f.fail[1] < 0 {
			j = -f.fail[1]
		}
		for _, n := range []int{i, j} {
			end, want := o.ref(b[:n], true)
			if end == -2 {
				if err == errReader {
					return ""
				}
				msg = fmt.Sprintf("error %v (result %s); the reader failed before the value was complete", err, got)
			} else if msg = same(o, end, want, got, err, f.pos-len(it.Buffer()), n); msg == "" {
				return ""
			}
		}
		return msg
	})
}
