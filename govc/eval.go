package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"strings"
)

// Eval evaluates specification expressions.
type Eval struct {
	x    *Ex
	env  map[string]Value
	st   *State
	old  *Eval // environment of old(...)
	in   *Eval // environment of in(...)
	nest int
}

func (ev *Eval) with(name string, v Value) *Eval {
	e2 := *ev
	e2.env = make(map[string]Value, len(ev.env)+1)
	for k, x := range ev.env {
		e2.env[k] = x
	}
	e2.env[name] = v
	return &e2
}

func (ev *Eval) T(e *Expr) *Term {
	v := ev.V(e)
	return ev.toTerm(v, e)
}

func (ev *Eval) toTerm(v Value, e *Expr) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *OpaqueV:
		return x.t
	case *IfaceV:
		return x.t
	case *BytesV:
		return ev.x.whole(x)
	case *PtrV:
		if x.adr != nil {
			return x.adr
		}
		return ev.x.ptrTerm(x)
	case *SliceV:
		return ev.x.sliceTerm(ev.st, x)
	case *RSliceV:
		if !x.off.isInt() || x.off.k.Sign() != 0 {
			unsup("part of a read-only slice as a term")
		}
		return x.id
	case *MapV:
		t := ev.x.mapTerm(ev.st, x)
		if t.sort != "JM" && !x.nilc.isFalse() {
			t = ev.x.tb.Ite(x.nilc, emptyMap(ev.x.tb, t.sort), t)
		}
		return t
	}
	panic(unsupported{fmt.Sprintf("spec expression %s is not a term (%T)", exprStr(e), v)})
}

func exprStr(e *Expr) string {
	if e.src != "" {
		return e.src
	}
	switch e.op {
	case "num":
		return e.num.String()
	case "name":
		return e.name
	case "str":
		return `"` + e.name + `"`
	case "field":
		return exprStr(e.args[0]) + "." + e.name
	case "call":
		var s []string
		for _, a := range e.args {
			s = append(s, exprStr(a))
		}
		return e.name + "(" + strings.Join(s, ", ") + ")"
	case "?:":
		return "(" + exprStr(e.args[0]) + " ? " + exprStr(e.args[1]) + " : " + exprStr(e.args[2]) + ")"
	}
	if len(e.args) == 2 {
		return "(" + exprStr(e.args[0]) + " " + e.op + " " + exprStr(e.args[1]) + ")"
	}
	if len(e.args) == 1 {
		return e.op + exprStr(e.args[0])
	}
	return e.op
}

func (ev *Eval) V(e *Expr) Value {
	tb := ev.x.tb
	switch e.op {
	case "num":
		return tb.Big(e.num)
	case "str":
		return ev.x.strLit(e.name)
	case "name":
		if v, ok := ev.env[e.name]; ok {
			return v
		}
		switch e.name {
		case "true":
			return tb.Bool(true)
		case "false":
			return tb.Bool(false)
		case "nil":
			return tb.Int(0)
		case "EOF":
			return tb.Int(1)
		}
		if d := ev.x.spec.Fns[e.name]; d != nil && len(d.Params) == 0 {
			return ev.call(e)
		}
		if bs, ok := builtinSig[e.name]; ok && len(bs.args) == 0 {
			return tb.App(e.name, bs.ret)
		}
		if g, ok := ev.x.prog.ssaPkg.Members[e.name].(*ssa.Global); ok {
			return ev.x.load(ev.st, ev.x.globalPtr(ev.st, g).(*PtrV), nil, false)
		}
		panic(unsupported{"unknown name " + e.name + " in specification"})
	case "field":
		return ev.field(e)
	case "index":
		b := ev.V(e.args[0])
		i := ev.T(e.args[1])
		switch x := b.(type) {
		case *BytesV:
			return ev.x.bat(x.src, tb.Add(x.lo, i))
		case *Term:
			if strings.HasPrefix(string(x.sort), "(Array Int ") {
				es := Sort(strings.TrimSuffix(strings.TrimPrefix(string(x.sort), "(Array Int "), ")"))
				return tb.App("select", es, x, i)
			}
		}
		panic(unsupported{"index in specification"})
	case "u!":
		return tb.Not(ev.T(e.args[0]))
	case "u-":
		return tb.Neg(ev.T(e.args[0]))
	case "&&":
		a := ev.T(e.args[0])
		if a.isFalse() {
			return a
		}
		return tb.And(a, ev.T(e.args[1]))
	case "||":
		a := ev.T(e.args[0])
		if a.isTrue() {
			return a
		}
		return tb.Or(a, ev.T(e.args[1]))
	case "==>":
		a := ev.T(e.args[0])
		if a.isFalse() {
			return tb.Bool(true)
		}
		return tb.Implies(a, ev.T(e.args[1]))
	case "?:":
		c := ev.T(e.args[0])
		if c.isTrue() {
			return ev.V(e.args[1])
		}
		if c.isFalse() {
			return ev.V(e.args[2])
		}
		return tb.Ite(c, ev.T(e.args[1]), ev.T(e.args[2]))
	case "+":
		return tb.Add(ev.T(e.args[0]), ev.T(e.args[1]))
	case "-":
		return tb.Sub(ev.T(e.args[0]), ev.T(e.args[1]))
	case "*":
		return tb.Mul(ev.T(e.args[0]), ev.T(e.args[1]))
	case "/":
		d := ev.T(e.args[1])
		if !d.isInt() {
			panic(unsupported{"division by non constant in specification"})
		}
		return tb.Div(ev.T(e.args[0]), d.k)
	case "%":
		d := ev.T(e.args[1])
		if !d.isInt() {
			panic(unsupported{"modulo non constant in specification"})
		}
		return tb.Mod(ev.T(e.args[0]), d.k)
	case "==":
		return ev.eq(e)
	case "!=":
		return tb.Not(ev.eq(e))
	case "<":
		return tb.Lt(ev.T(e.args[0]), ev.T(e.args[1]))
	case "<=":
		return tb.Le(ev.T(e.args[0]), ev.T(e.args[1]))
	case ">":
		return tb.Lt(ev.T(e.args[1]), ev.T(e.args[0]))
	case ">=":
		return tb.Le(ev.T(e.args[1]), ev.T(e.args[0]))
	case "let":
		return ev.with(e.name, ev.V(e.args[0])).V(e.args[1])
	case "forall":
		e2 := ev
		var bs []*Term
		for _, b := range e.bind {
			ev.x.bvN++
			bv := tb.BVar(fmt.Sprintf("%s?%d", b.Name, ev.x.bvN), Sort(b.Sort))
			bs = append(bs, bv)
			e2 = e2.with(b.Name, bv)
		}
		return tb.Forall(bs, e2.T(e.args[0]))
	case "call":
		return ev.call(e)
	}
	panic(unsupported{"spec op " + e.op})
}

func (ev *Eval) eq(e *Expr) *Term {
	a, b := ev.V(e.args[0]), ev.V(e.args[1])
	tb := ev.x.tb
	// nil comparison of slices and pointers
	if t, ok := b.(*Term); ok && t.isInt() && t.k.Sign() == 0 {
		switch x := a.(type) {
		case *BytesV:
			return x.nilc
		case *SliceV:
			return x.nilc
		case *RSliceV:
			return tb.Eq(x.id, tb.Int(0))
		case *PtrV:
			if x.adr == nil {
				return x.nilc
			}
		case *MapV:
			return x.nilc
		case *Term:
			if x.sort == "JV" {
				return tb.Eq(x, ev.x.jnil())
			}
		case *OpaqueV:
			if x.t.sort == "JV" {
				return tb.Eq(x.t, ev.x.jnil())
			}
		case *IfaceV:
			if x.t.sort == "JV" {
				return tb.Eq(x.t, ev.x.jnil())
			}
		}
	}
	if pa, ok := a.(*PtrV); ok {
		if pb, ok := b.(*PtrV); ok && pa.adr == nil && pb.adr == nil {
			return tb.Bool(pa.obj == pb.obj && pa.path == pb.path)
		}
	}
	return tb.Eq(ev.toTerm(a, e.args[0]), ev.toTerm(b, e.args[1]))
}

func (ev *Eval) field(e *Expr) Value {
	b := ev.V(e.args[0])
	switch x := b.(type) {
	case *PtrV:
		return ev.x.load(ev.st, ev.x.fieldPtr(x, e.name), nil, false)
	case *StructV:
		st := x.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.name {
				return x.fs[i]
			}
		}
	}
	panic(unsupported{fmt.Sprintf("field %s of %T in specification", e.name, b)})
}

// fieldPtr resolves promoted and ghost fields.
func (x *Ex) fieldPtr(p *PtrV, name string) *PtrV {
	t := p.typ
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if g := x.spec.Ghosts[n.Obj().Name()]; g != nil {
			if s, ok := g[name]; ok {
				return &PtrV{obj: p.obj, path: joinPath(p.path, name), typ: ghostType(s), nilc: x.tb.Bool(false), arr: p.arr, idx: p.idx, adr: p.adr}
			}
		}
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, x.prog.pkg.Types, name)
	if o == nil {
		panic(unsupported{fmt.Sprintf("no field %s in %s", name, t)})
	}
	cur := t
	q := &PtrV{obj: p.obj, path: p.path, nilc: x.tb.Bool(false), arr: p.arr, idx: p.idx, adr: p.adr, rs: p.rs}
	for _, i := range idx {
		st := cur.Underlying().(*types.Struct)
		q.path = joinPath(q.path, st.Field(i).Name())
		cur = st.Field(i).Type()
	}
	q.typ = cur
	return q
}

type ghostT struct {
	types.Type
	s Sort
}

func ghostType(s Sort) types.Type { return ghostT{types.Typ[types.Int], s} }

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func (ev *Eval) call(e *Expr) Value {
	tb := ev.x.tb
	switch e.name {
	case "old":
		if ev.old == nil {
			panic(unsupported{"old() not available here"})
		}
		o := *ev.old
		// results and lets stay visible
		o.env = map[string]Value{}
		for k, v := range ev.env {
			o.env[k] = v
		}
		for k, v := range ev.old.env {
			o.env[k] = v
		}
		return o.V(e.args[0])
	case "in":
		if ev.in == nil {
			panic(unsupported{"in() not available here"})
		}
		o := *ev.in
		o.env = map[string]Value{}
		for k, v := range ev.env {
			o.env[k] = v
		}
		for k, v := range ev.in.env {
			o.env[k] = v
		}
		return o.V(e.args[0])
	case "mem":
		return ev.x.mem(ev.st)
	case "st_i8", "st_i16", "st_i32", "st_i64", "st_u8", "st_u16", "st_u32", "st_u64", "st_bool", "st_str", "st_f32", "st_f64", "st_eface", "st_ptr", "st_iface", "st_bytes":
		return tb.App(e.name, "Mem", ev.T(e.args[0]), ev.T(e.args[1]), ev.T(e.args[2]))
	case "ld_i8", "ld_i16", "ld_i32", "ld_i64", "ld_u8", "ld_u16", "ld_u32", "ld_u64", "ld_ptr", "ld_iface":
		return mkLd(tb, e.name[3:], SInt, ev.T(e.args[0]), ev.T(e.args[1]))
	case "ld_bool":
		return mkLd(tb, e.name[3:], SBool, ev.T(e.args[0]), ev.T(e.args[1]))
	case "ld_str", "ld_bytes":
		return mkLd(tb, e.name[3:], SBs, ev.T(e.args[0]), ev.T(e.args[1]))
	case "ld_f32":
		return mkLd(tb, e.name[3:], "F32", ev.T(e.args[0]), ev.T(e.args[1]))
	case "ld_f64":
		return mkLd(tb, e.name[3:], "F64", ev.T(e.args[0]), ev.T(e.args[1]))
	case "ld_eface":
		return mkLd(tb, e.name[3:], "JV", ev.T(e.args[0]), ev.T(e.args[1]))
	case "bytes":
		v := ev.V(e.args[0])
		if b, ok := v.(*BytesV); ok {
			return ev.x.whole(b)
		}
		return ev.toTerm(v, e)
	case "len":
		switch b := ev.V(e.args[0]).(type) {
		case *BytesV:
			return tb.Sub(b.hi, b.lo)
		case *SliceV:
			return b.len
		case *RSliceV:
			return b.len
		}
	case "cap":
		switch b := ev.V(e.args[0]).(type) {
		case *BytesV:
			if b.capT != nil {
				return b.capT
			}
			return tb.Sub(b.hi, b.lo)
		case *SliceV:
			return b.cap
		}
	case "col":
		if s, ok := ev.V(e.args[0]).(*SliceV); ok && s.home == nil && s.off.isInt() && s.off.k.Sign() == 0 {
			if u, ok := s.et.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == e.args[1].name {
						return ev.x.arrTerm(ev.st, s.obj, u.Field(i).Name(), u.Field(i).Type())
					}
				}
			}
		}
		unsup("col of %s", exprStr(e.args[0]))
	case "listOf", "indexOf":
		if p, ok := ev.V(e.args[0]).(*PtrV); ok && p.rs != nil {
			if e.name == "listOf" {
				return p.rs.id
			}
			return tb.Add(p.rs.off, p.idx)
		}
		if r, ok := ev.V(e.args[0]).(*RSliceV); ok {
			if e.name == "listOf" {
				return r.id
			}
			return r.off
		}
		unsup("%s of %s", e.name, exprStr(e.args[0]))
	case "deref":
		if p, ok := ev.V(e.args[0]).(*PtrV); ok {
			return ev.toTerm(ev.x.load(ev.st, p, nil, false), e)
		}
		unsup("deref of %s", exprStr(e.args[0]))
	case "owned":
		switch b := ev.V(e.args[0]).(type) {
		case *BytesV:
			return tb.Bool(b.alias == "" && b.win == nil)
		case *IfaceV:
			return tb.Bool(ev.x.ownedVal(b.dyn))
		}
		return tb.Bool(true)
	case "src":
		if b, ok := ev.V(e.args[0]).(*BytesV); ok {
			return b.src
		}
	case "lo":
		if b, ok := ev.V(e.args[0]).(*BytesV); ok {
			return b.lo
		}
	case "hi":
		if b, ok := ev.V(e.args[0]).(*BytesV); ok {
			return b.hi
		}
	case "blen":
		return ev.x.blen(ev.T(e.args[0]))
	case "bat":
		return ev.x.bat(ev.T(e.args[0]), ev.T(e.args[1]))
	case "snoc":
		return ev.x.snoc(ev.T(e.args[0]), ev.T(e.args[1]))
	case "appR":
		return ev.x.appR(ev.T(e.args[0]), ev.T(e.args[1]), ev.T(e.args[2]), ev.T(e.args[3]))
	case "store":
		a := ev.T(e.args[0])
		return tb.App("store", a.sort, a, ev.T(e.args[1]), ev.T(e.args[2]))
	case "pow2":
		a := ev.T(e.args[0])
		if a.isInt() {
			return tb.Big(new(big.Int).Lsh(big1, uint(a.k.Int64())))
		}
	case "errtype":
		// errtype(err, "TypeName")
		return ev.x.isErrType(ev.T(e.args[0]), e.args[1].name)
	case "runeIn":
		// runeIn(s, r): the rune r occurs in s, a string known in full
		b, ok := ev.V(e.args[0]).(*BytesV)
		r := ev.T(e.args[1])
		n := (*Term)(nil)
		if ok {
			n = tb.Sub(b.hi, b.lo)
		}
		if n == nil || !n.isInt() || n.k.Int64() > 256 {
			panic(unsupported{"runeIn of a string that is not known"})
		}
		var lit []byte
		for k := int64(0); k < n.k.Int64(); k++ {
			c := mkBat(tb, b.src, tb.Add(b.lo, tb.Int(k)))
			if !c.isInt() {
				panic(unsupported{"runeIn of a string that is not known"})
			}
			lit = append(lit, byte(c.k.Int64()))
		}
		res := tb.Bool(false)
		for _, c := range string(lit) {
			res = tb.Or(res, tb.Eq(r, tb.Int(int64(c))))
		}
		return res
	case "isfn":
		// isfn(f, "pkg.Name"): f is that very function
		if f, ok := ev.V(e.args[0]).(*FuncV); ok && f.fn != nil {
			n := f.fn.Name()
			if f.fn.Pkg != nil && f.fn.Pkg != ev.x.prog.ssaPkg {
				n = f.fn.Pkg.Pkg.Path() + "." + n
			}
			return tb.Bool(len(f.binds) == 0 && f.recv == nil && n == e.args[1].name)
		}
		panic(unsupported{"isfn of a function value that is not known"})
	case "isdyn":
		// isdyn(v, T): the dynamic type of v is known to be T
		i, ok := ev.V(e.args[0]).(*IfaceV)
		return tb.Bool(ok && shortType(i.dt) == exprStr(e.args[1]))
	case "isnilptr":
		// isnilptr(v, T): v is the nil *T
		return tb.Eq(ev.T(e.args[0]), typedNil(tb, "*"+exprStr(e.args[1])))
	case "dyn":
		if i, ok := ev.V(e.args[0]).(*IfaceV); ok {
			return i.dyn
		}
	case "pre":
		// pre(x): syntactic marker, same as x
		return ev.V(e.args[0])
	}
	d := ev.x.spec.Fns[e.name]
	if bs, ok := builtinSig[e.name]; ok && d == nil {
		if len(bs.args) != len(e.args) {
			panic(unsupported{"wrong number of arguments for " + e.name})
		}
		var as []*Term
		for _, a := range e.args {
			as = append(as, ev.T(a))
		}
		if f, ok := smartCtor[e.name]; ok {
			return f(tb, as)
		}
		return tb.App(e.name, bs.ret, as...)
	}
	if d == nil {
		panic(unsupported{"unknown spec function " + e.name})
	}
	if len(d.Params) != len(e.args) {
		panic(unsupported{"wrong number of arguments for " + e.name})
	}
	if d.Macro {
		if ev.nest > 60 {
			panic(unsupported{"macro recursion " + e.name})
		}
		e2 := &Eval{x: ev.x, env: map[string]Value{}, st: ev.st, old: ev.old, in: ev.in, nest: ev.nest + 1}
		for i, p := range d.Params {
			e2.env[p.Name] = ev.V(e.args[i])
		}
		// old()/in() inside macros refer to arguments evaluated there: forbid by construction
		return e2.V(d.Body)
	}
	args := make([]*Term, len(e.args))
	for i, a := range e.args {
		args[i] = ev.T(a)
		if want := Sort(d.Params[i].Sort); args[i].sort != want {
			panic(unsupported{fmt.Sprintf("argument %d of %s has sort %s, want %s (in %s)", i, e.name, args[i].sort, want, exprStr(e))})
		}
	}
	if f, ok := smartCtor[d.Name]; ok {
		return f(tb, args)
	}
	return tb.App(d.Name, d.Ret, args...)
}
