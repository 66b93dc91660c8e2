package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Ex) wrap(st *State, t *Term, typ types.Type) *Term {
	bits, signed, ok := intInfo(typ)
	if !ok {
		unsup("wrap to %s", typ)
	}
	lo, hi := typeRange(bits, signed)
	if t.op == "ite" && constIte(t) {
		return x.tb.mapIte(t, func(l *Term) *Term { return x.wrap(st, l, typ) })
	}
	l, h := x.tb.Range(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if !t.isInt() {
		var need []*Term
		if l == nil || l.Cmp(lo) < 0 {
			need = append(need, x.tb.Le(x.tb.Big(lo), t))
		}
		if h == nil || h.Cmp(hi) > 0 {
			need = append(need, x.tb.Le(t, x.tb.Big(hi)))
		}
		if x.sol.Valid(x.tb.And(need...)) {
			return t
		}
	}
	m := new(big.Int).Lsh(big1, uint(bits))
	if !signed {
		return x.tb.Mod(t, m)
	}
	half := x.tb.Big(new(big.Int).Lsh(big1, uint(bits-1)))
	return x.tb.Sub(x.tb.Mod(x.tb.Add(t, half), m), half)
}

// maskAnd computes t & c for a constant c >= 0 (t any integer, two's complement).
func (x *Ex) maskAnd(t *Term, c *big.Int) *Term {
	res := x.tb.Int(0)
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		part := x.tb.Mod(x.tb.Div(t, new(big.Int).Lsh(big1, uint(i))), new(big.Int).Lsh(big1, uint(j-i)))
		res = x.tb.Add(res, x.tb.MulC(part, new(big.Int).Lsh(big1, uint(i))))
		i = j
	}
	return res
}

func toUnsigned(c *big.Int, bits int) *big.Int {
	m := new(big.Int).Lsh(big1, uint(bits))
	return new(big.Int).Mod(c, m)
}

func (x *Ex) binop(st *State, op token.Token, a, b Value, at, bt, rt types.Type, pos token.Pos) Value {
	tb := x.tb
	switch op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b, at)
		if op == token.NEQ {
			r = tb.Not(r)
		}
		return r
	}
	if isString(at) {
		x1, y1 := a.(*BytesV), b.(*BytesV)
		if op == token.ADD {
			src := x.appR(x.whole(x1), y1.src, y1.lo, y1.hi)
			return &BytesV{src: src, lo: tb.Int(0), hi: x.blen(src), nilc: tb.Bool(false)}
		}
		return tb.App("strlt_"+sanitizeOp(op), SBool, x.whole(x1), x.whole(y1))
	}
	if isFloatT(at) {
		s := a.(*Term).sort
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fcmp(tb, op, a.(*Term), b.(*Term))
		}
		return tb.App("f"+sanitizeOp(op)+string(s[1:]), s, a.(*Term), b.(*Term))
	}
	if isBoolT(at) {
		switch op {
		case token.AND:
			return tb.And(a.(*Term), b.(*Term))
		case token.OR:
			return tb.Or(a.(*Term), b.(*Term))
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T, %T", op, a, b)
	}
	bits, signed, ok := intInfo(at)
	if !ok {
		unsup("binop %s on %s", op, at)
	}
	switch op {
	case token.LSS:
		return tb.Lt(p, q)
	case token.LEQ:
		return tb.Le(p, q)
	case token.GTR:
		return tb.Lt(q, p)
	case token.GEQ:
		return tb.Le(q, p)
	case token.ADD:
		return x.wrap(st, tb.Add(p, q), rt)
	case token.SUB:
		return x.wrap(st, tb.Sub(p, q), rt)
	case token.MUL:
		return x.wrap(st, tb.Mul(p, q), rt)
	case token.QUO, token.REM:
		if !q.isInt() || q.k.Sign() <= 0 {
			if q.isInt() && q.k.Sign() < 0 || !q.isInt() {
				unsup("division by non constant")
			}
			x.require(st, tb.Bool(false), "no division by zero", pos)
		}
		lo, _ := tb.Range(p)
		nonneg := !signed || lo != nil && lo.Sign() >= 0 || x.sol.Valid(tb.Le(tb.Int(0), p))
		var d *Term
		if nonneg {
			d = tb.Div(p, q.k)
		} else {
			d = tb.Ite(tb.Le(tb.Int(0), p), tb.Div(p, q.k), tb.Neg(tb.Div(tb.Neg(p), q.k)))
		}
		if op == token.QUO {
			return d
		}
		if nonneg {
			return tb.Mod(p, q.k)
		}
		return tb.Sub(p, tb.MulC(d, q.k))
	case token.SHL:
		if q.isInt() {
			n := q.k.Int64()
			if n >= int64(bits) {
				return tb.Int(0)
			}
			return x.wrap(st, tb.MulC(p, new(big.Int).Lsh(big1, uint(n))), rt)
		}
		if bits == 64 && !signed {
			return x.bv64("shl64", p, q)
		}
	case token.SHR:
		if q.isInt() {
			n := q.k.Int64()
			return tb.Div(p, new(big.Int).Lsh(big1, uint(n)))
		}
		if bits == 64 && !signed {
			return x.bv64("shr64", p, q)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.isInt() && !q.isInt() && op != token.AND_NOT {
			p, q = q, p
		}
		if p.isInt() && q.isInt() {
			u, v := toUnsigned(p.k, bits), toUnsigned(q.k, bits)
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(u, v)
			case token.OR:
				r.Or(u, v)
			case token.XOR:
				r.Xor(u, v)
			case token.AND_NOT:
				r.AndNot(u, v)
			}
			return x.wrap(st, tb.Big(r), rt)
		}
		if q.isInt() {
			c := toUnsigned(q.k, bits)
			if c.Sign() == 0 && op != token.AND {
				return p
			}
			switch op {
			case token.AND:
				return x.wrap(st, x.maskAnd(p, c), rt)
			case token.OR:
				// t|c = (t & ~c) + c
				full := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
				return x.wrap(st, tb.Add(x.maskAnd(p, new(big.Int).AndNot(full, c)), tb.Big(c)), rt)
			case token.XOR:
				full := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
				return x.wrap(st, tb.Add(x.maskAnd(p, new(big.Int).AndNot(full, c)), tb.Sub(tb.Big(c), x.maskAnd(p, c))), rt)
			case token.AND_NOT:
				full := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
				return x.wrap(st, x.maskAnd(p, new(big.Int).AndNot(full, c)), rt)
			}
		}
		// disjoint bits: x*2^k | y with y < 2^k
		if op == token.OR {
			if r := x.disjointOr(p, q); r != nil {
				return r
			}
		}
		if !signed {
			if bits == 64 {
				switch op {
				case token.AND:
					return x.bv64("and64", p, q)
				case token.OR:
					return x.bv64("or64", p, q)
				case token.AND_NOT:
					return x.bv64("andn64", p, q)
				}
			}
		}
	}
	unsup("binop %s on %s", op, at)
	return nil
}

// disjointOr: p|q is p+q when p is a multiple of 2^k and 0 <= q < 2^k (or the other way round).
func (x *Ex) disjointOr(p, q *Term) *Term {
	for i := 0; i < 2; i++ {
		for _, k := range []uint{4, 6, 8, 12, 16, 32} {
			m := new(big.Int).Lsh(big1, k)
			if z := x.tb.Mod(p, m); !z.isInt() || z.k.Sign() != 0 {
				continue
			}
			if x.sol.Valid(x.tb.Le(x.tb.Int(0), q)) && x.sol.Valid(x.tb.Lt(q, x.tb.Big(m))) {
				return x.tb.Add(p, q)
			}
		}
		p, q = q, p
	}
	return nil
}

func (x *Ex) bv64(op string, p, q *Term) *Term {
	if x.spec.Fns[op] == nil {
		unsup("bit operation %s", op)
	}
	return x.tb.App(op, SInt, p, q)
}

func sanitizeOp(op token.Token) string {
	switch op {
	case token.LSS:
		return "lt"
	case token.LEQ:
		return "le"
	case token.GTR:
		return "gt"
	case token.GEQ:
		return "ge"
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	}
	return "op"
}

func (x *Ex) equal(st *State, a, b Value, t types.Type) *Term {
	tb := x.tb
	if pa, ok := a.(*PtrV); ok {
		pb, ok := b.(*PtrV)
		if !ok {
			unsup("pointer comparison")
		}
		if pa.adr == nil && pb.adr == nil {
			if pb.nilc.isTrue() {
				return pa.nilc
			}
			if pa.nilc.isTrue() {
				return pb.nilc
			}
			if pa.obj == pb.obj && pa.path == pb.path {
				return tb.Bool(true)
			}
			return tb.And(pa.nilc, pb.nilc)
		}
		return tb.Eq(x.ptrTerm(pa), x.ptrTerm(pb))
	}
	if ba, ok := a.(*BytesV); ok {
		bb := b.(*BytesV)
		if isString(t) {
			// comparison with a constant string: expand
			if bb.src.op == "bempty" || bb.hi == bb.lo {
				return tb.Eq(ba.hi, ba.lo)
			}
			if ba.hi == ba.lo {
				return tb.Eq(bb.hi, bb.lo)
			}
			return tb.Eq(x.whole(ba), x.whole(bb))
		}
		if bb.nilc.isTrue() {
			return ba.nilc
		}
		return bb.nilc
	}
	if sa, ok := a.(*SliceV); ok {
		if sb := b.(*SliceV); sb.nilc.isTrue() {
			return sa.nilc
		} else {
			return sb.nilc
		}
	}
	if ma, ok := a.(*MapV); ok {
		if mb := b.(*MapV); mb.nilc.isTrue() {
			return ma.nilc
		} else {
			return mb.nilc
		}
	}
	if _, ok := a.(*FuncV); ok {
		return tb.Bool(false)
	}
	if _, ok := b.(*FuncV); ok {
		return tb.Bool(false)
	}
	if isFloatT(t) {
		return fcmp(tb, token.EQL, a.(*Term), b.(*Term))
	}
	ta, tt := x.scalar(st, a), x.scalar(st, b)
	if ta.sort != tt.sort {
		// interface compared with a concrete error value
		unsup("comparison of sorts %s/%s", ta.sort, tt.sort)
	}
	return tb.Eq(ta, tt)
}

func (x *Ex) scalar(st *State, v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case *OpaqueV:
		return t.t
	case *IfaceV:
		return t.t
	case *PtrV:
		return x.ptrTerm(t)
	}
	unsup("scalar of %T", v)
	return nil
}

// instr evaluates a value instruction; alive=false: path ended or handled.
func (x *Ex) instr(st *State, v ssa.Value) (Value, bool) {
	tb := x.tb
	switch i := v.(type) {
	case *ssa.Phi:
		panic("phi")
	case *ssa.BinOp:
		return x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Y.Type(), i.Type(), i.Pos()), true
	case *ssa.UnOp:
		a := x.val(st, i.X)
		switch i.Op {
		case token.MUL:
			p, ok := a.(*PtrV)
			if !ok {
				unsup("load through %T", a)
			}
			pos := i.Pos()
			q := *p
			if q.typ == nil || q.tab == nil && q.byt == nil {
				q.typ = i.Type()
			}
			r := x.load(st, &q, &pos, true)
			if b, ok := r.(*BytesV); ok && q.obj != nil && x.isWindowLoc(q.obj, q.path) {
				r = x.wholeWindow(st, b, i)
			}
			return r, true
		case token.NOT:
			return tb.Not(a.(*Term)), true
		case token.SUB:
			if isFloatT(i.Type()) {
				return tb.App("fneg"+string(a.(*Term).sort[1:]), a.(*Term).sort, a.(*Term)), true
			}
			return x.wrap(st, tb.Neg(a.(*Term)), i.Type()), true
		case token.XOR:
			return x.wrap(st, tb.Sub(tb.Int(-1), a.(*Term)), i.Type()), true
		}
		unsup("unop %s", i.Op)
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		o := x.newObj("alloc_"+sanitize(i.Comment), t, false)
		st.top().allocN++
		p := &PtrV{obj: o, typ: t, nilc: tb.Bool(false)}
		if at, ok := t.Underlying().(*types.Array); ok {
			if bits, _, ok := intInfo(at.Elem()); ok && bits == 8 {
				var src *Term
				if at.Len() <= 16 {
					src = x.bempty()
					for k := int64(0); k < at.Len(); k++ {
						src = x.snoc(src, tb.Int(0))
					}
				} else {
					src = tb.Fresh("zeros", SBs)
					x.assume(st, tb.Eq(x.blen(src), tb.Int(at.Len())))
				}
				st.heap[o.name+"."] = &BytesV{src: src, lo: tb.Int(0), hi: tb.Int(at.Len()), nilc: tb.Bool(false), loc: o.name + "."}
			}
		}
		return p, true
	case *ssa.FieldAddr:
		p, ok := x.val(st, i.X).(*PtrV)
		if !ok {
			unsup("field address of %T", x.val(st, i.X))
		}
		x.checkNil(st, p, i.Pos())
		s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := s.Field(i.Field)
		if p.adr != nil {
			var fs []*types.Var
			for k := 0; k < s.NumFields(); k++ {
				fs = append(fs, s.Field(k))
			}
			off := x.prog.sizes.Offsetsof(fs)[i.Field]
			return &PtrV{adr: tb.Add(p.adr, tb.Int(off)), typ: f.Type(), nilc: tb.Bool(false)}, true
		}
		if p.pun == "str" {
			return &PtrV{obj: p.obj, path: p.path, typ: f.Type(), nilc: tb.Bool(false), pun: []string{"str.data", "str.len"}[i.Field]}, true
		}
		if p.pun == "eface" {
			return &PtrV{obj: p.obj, path: p.path, typ: f.Type(), nilc: tb.Bool(false), pun: []string{"eface.rtype", "eface.data"}[i.Field]}, true
		}
		if p.pun != "" {
			unsup("field of a reinterpreted pointer")
		}
		return &PtrV{obj: p.obj, path: joinPath(p.path, f.Name()), typ: f.Type(), nilc: tb.Bool(false), arr: p.arr, idx: p.idx, rs: p.rs}, true
	case *ssa.Field:
		s, ok := x.val(st, i.X).(*StructV)
		if !ok {
			unsup("field of %T", x.val(st, i.X))
		}
		return s.fs[i.Field], true
	case *ssa.IndexAddr:
		return x.indexAddr(st, i), true
	case *ssa.Index:
		switch b := x.val(st, i.X).(type) {
		case *BytesV:
			idx := x.val(st, i.Index).(*Term)
			x.checkIdx(st, b, idx, i.Pos())
			return x.bat(b.src, tb.Add(b.lo, idx)), true
		}
		unsup("index of %T", x.val(st, i.X))
	case *ssa.Lookup:
		switch b := x.val(st, i.X).(type) {
		case *BytesV:
			idx := x.val(st, i.Index).(*Term)
			x.checkIdx(st, b, idx, i.Pos())
			return x.bat(b.src, tb.Add(b.lo, idx)), true
		case *MapV:
			return x.mapLookup(st, i, b), true
		case *OpaqueV:
			// read-only map
			mt, ok := b.typ.Underlying().(*types.Map)
			if !ok || !x.readonly(b.typ) {
				break
			}
			if _, _, ok := intInfo(mt.Elem()); !ok {
				break
			}
			k := x.valueToTerm(st, x.val(st, i.Index))
			if x.spec.Fns["rmHas"] == nil || x.spec.Fns["rmGet"] == nil || k.sort != SBs {
				break
			}
			has := tb.And(tb.Not(tb.Eq(b.t, tb.Int(0))), tb.App("rmHas", SBool, b.t, k))
			v := tb.Ite(has, tb.App("rmGet", SInt, b.t, k), tb.Int(0))
			if i.CommaOk {
				return TupleV{v, has}, true
			}
			return v, true
		}
		unsup("lookup in %T", x.val(st, i.X))
	case *ssa.Slice:
		return x.slice(st, i), true
	case *ssa.Extract:
		t, ok := x.val(st, i.Tuple).(TupleV)
		if !ok {
			unsup("extract from %T", x.val(st, i.Tuple))
		}
		return t[i.Index], true
	case *ssa.Convert:
		return x.convert(st, x.val(st, i.X), i.X.Type(), i.Type(), i.Pos()), true
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if s, ok := v.(*StructV); ok {
			return &StructV{typ: i.Type(), fs: s.fs}, true
		}
		if p, ok := v.(*PtrV); ok {
			if pt, ok := i.Type().Underlying().(*types.Pointer); ok {
				q := *p
				q.typ = pt.Elem()
				return &q, true
			}
		}
		return v, true
	case *ssa.ChangeInterface:
		v := x.val(st, i.X)
		if isErrorT(i.Type()) {
			return x.scalar(st, v), true
		}
		if t, ok := v.(*Term); ok {
			if isEfaceT(i.Type()) && t.sort != "JV" {
				return &OpaqueV{t: tb.App("jopq", "JV", t), typ: i.Type()}, true
			}
			return &OpaqueV{t: t, typ: i.Type()}, true
		}
		if isEfaceT(i.Type()) {
			if o, ok := v.(*OpaqueV); ok && o.t.sort != "JV" {
				return &OpaqueV{t: tb.App("jopq", "JV", o.t), typ: i.Type()}, true
			}
		}
		return v, true
	case *ssa.MakeInterface:
		return x.makeIface(st, x.val(st, i.X), i.X.Type(), i.Type()), true
	case *ssa.TypeAssert:
		return x.typeAssert(st, i), true
	case *ssa.MakeSlice:
		l := x.val(st, i.Len).(*Term)
		c := x.val(st, i.Cap).(*Term)
		x.require(st, tb.And(tb.Le(tb.Int(0), l), tb.Le(l, c)), "make: length in range", i.Pos())
		if isByteSlice(i.Type()) {
			src := tb.Fresh("mk", SBs)
			x.assume(st, tb.Eq(x.blen(src), l))
			o := x.newObj("mkbytes", i.Type(), false)
			b := &BytesV{src: src, lo: tb.Int(0), hi: l, nilc: tb.Bool(false), capT: c, loc: o.name + "."}
			if l.isInt() && l.k.Sign() == 0 {
				b.src = x.bempty()
				b.hi = tb.Int(0)
			}
			st.heap[o.name+"."] = b
			return b, true
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		o := x.newObj("mk", i.Type(), false)
		if isEfaceT(et) {
			if !(l.isInt() && l.k.Sign() == 0) {
				unsup("make([]interface{}, n)")
			}
			st.heap[o.name+".js"] = tb.App("jsempty", "JS")
		} else if s, ok := sortOfType(x, et); ok && s == SInt {
			st.heap[o.name+".[]"] = tb.App("zarr", arrSort(SInt))
		}
		return &SliceV{obj: o, off: tb.Int(0), len: l, cap: c, nilc: tb.Bool(false), et: et}, true
	case *ssa.MakeMap:
		o := x.newObj("mkmap", i.Type(), false)
		st.heap[o.name+".jm"] = emptyMap(tb, mapSort(i.Type()))
		return &MapV{obj: o, nilc: tb.Bool(false)}, true
	case *ssa.Range:
		if m, ok := x.val(st, i.X).(*MapV); ok && m.home == nil && mapSort(m.obj.typ) != "JM" {
			// a map: some of its entries, in some order
			o := x.newObj("iter", iterType, false)
			if x.iterMaps == nil {
				x.iterMaps = map[string]*MapV{}
			}
			x.iterMaps[o.name] = m
			return &PtrV{obj: o, typ: iterType, nilc: tb.Bool(false)}, true
		}
		b, ok := x.val(st, i.X).(*BytesV)
		if !ok || !isString(i.X.Type()) {
			unsup("range over %s", i.X.Type())
		}
		o := x.newObj("iter", iterType, false)
		st.heap[o.name+".Pos"] = tb.Int(0)
		if x.iters == nil {
			x.iters = map[string]*BytesV{}
		}
		x.iters[o.name] = b
		return &PtrV{obj: o, typ: iterType, nilc: tb.Bool(false)}, true
	case *ssa.Next:
		p, ok := x.val(st, i.Iter).(*PtrV)
		if ok && p.obj != nil && x.iterMaps[p.obj.name] != nil {
			m := x.iterMaps[p.obj.name]
			cur := x.mapTerm(st, m)
			mt := m.obj.typ.Underlying().(*types.Map)
			more := tb.Fresh("more", SBool)
			k := x.mkValue("mapkey", mt.Key(), true, "")
			has := mapHas(tb, cur, x.valueToTerm(st, k))
			x.assume(st, tb.Implies(more, tb.And(tb.Not(m.nilc), has)))
			var v Value
			if cur.sort == "UM" {
				v = x.mkValue("mapval", mt.Elem(), true, "")
			} else {
				v = mapVal(mapGet(tb, cur, x.valueToTerm(st, k)), mt.Elem())
			}
			x.fromMap(st, v, x.valueToTerm(st, k))
			if o, ok := v.(*OpaqueV); ok && neverNilMap(i.Iter) {
				x.assume(st, tb.Implies(more, tb.Not(tb.Eq(o.t, tb.Int(0)))))
			}
			return TupleV{more, k, v}, true
		}
		if !ok || p.obj == nil || x.iters[p.obj.name] == nil {
			unsup("next on %T", x.val(st, i.Iter))
		}
		b := x.iters[p.obj.name]
		pos := x.load(st, x.fieldPtr(p, "Pos"), nil, false).(*Term)
		at := tb.Add(b.lo, pos)
		more := tb.Lt(at, b.hi)
		r := tb.App("uval8", SInt, b.src, at, b.hi)
		x.assume(st, tb.Or(tb.Not(more), tb.And(tb.Le(tb.Int(0), r), tb.Le(r, tb.Int(0x10ffff)))))
		st.heap[p.obj.name+".Pos"] = tb.Ite(more, tb.Add(pos, tb.App("ulen", SInt, b.src, at, b.hi)), pos)
		return TupleV{more, pos, r}, true
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range i.Bindings {
			bs = append(bs, x.val(st, b))
		}
		return &FuncV{fn: i.Fn.(*ssa.Function), binds: bs}, true
	}
	unsup("instruction %T %s", v, v)
	return nil, false
}

func (x *Ex) checkIdx(st *State, b *BytesV, idx *Term, pos token.Pos) {
	x.checkView(st, b, pos)
	x.require(st, x.tb.And(x.tb.Le(x.tb.Int(0), idx), x.tb.Lt(x.tb.Add(b.lo, idx), b.hi)), "index in bounds", pos)
}

func (x *Ex) indexAddr(st *State, i *ssa.IndexAddr) Value {
	tb := x.tb
	idx := x.val(st, i.Index).(*Term)
	switch b := x.val(st, i.X).(type) {
	case *BytesV:
		x.checkIdx(st, b, idx, i.Pos())
		return &PtrV{byt: b, idx: idx, typ: types.Typ[types.Uint8], nilc: tb.Bool(false)}
	case *OpaqueV:
		if sl, ok := b.typ.Underlying().(*types.Slice); ok && isString(sl.Elem()) {
			n := tb.App("strtablen", SInt, b.t)
			for k, t := range x.spec.StrTabs {
				n = tb.Ite(tb.Eq(b.t, tb.Int(int64(k+1))), tb.Int(int64(len(t))), n)
			}
			x.require(st, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, n)), "index in bounds", i.Pos())
			return &PtrV{stab: b.t, idx: idx, typ: types.Typ[types.String], nilc: tb.Bool(false)}
		}
	case *RSliceV:
		x.require(st, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, b.len)), "index in bounds", i.Pos())
		return &PtrV{rs: b, idx: idx, typ: b.et, nilc: tb.Bool(false)}
	case *SliceV:
		x.require(st, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, b.len)), "index in bounds", i.Pos())
		return &PtrV{obj: b.obj, arr: b, idx: idx, typ: b.et, nilc: tb.Bool(false)}
	case *PtrV:
		at, ok := b.typ.Underlying().(*types.Array)
		if !ok {
			break
		}
		if b.tab != nil {
			x.require(st, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Int(at.Len()))), "index in bounds", i.Pos())
			return &PtrV{tab: b.tab, idx: idx, typ: at.Elem(), nilc: tb.Bool(false)}
		}
		if bv, ok := st.heap[x.locOf(b)].(*BytesV); ok {
			x.checkIdx(st, bv, idx, i.Pos())
			return &PtrV{byt: bv, idx: idx, typ: types.Typ[types.Uint8], nilc: tb.Bool(false)}
		}
		// array with constant index: element path
		x.require(st, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Int(at.Len()))), "index in bounds", i.Pos())
		if idx.isInt() {
			return &PtrV{obj: b.obj, path: joinPath(b.path, fmt.Sprintf("[%s]", idx.k)), typ: at.Elem(), nilc: tb.Bool(false)}
		}
	}
	unsup("index address of %T", x.val(st, i.X))
	return nil
}

func (x *Ex) slice(st *State, i *ssa.Slice) Value {
	tb := x.tb
	var lo, hi *Term
	if i.Low != nil {
		lo = x.val(st, i.Low).(*Term)
	} else {
		lo = tb.Int(0)
	}
	if i.High != nil {
		hi = x.val(st, i.High).(*Term)
	}
	v := x.val(st, i.X)
	if p, ok := v.(*PtrV); ok {
		at, ok := p.typ.Underlying().(*types.Array)
		if !ok {
			unsup("slice of pointer")
		}
		if p.tab != nil {
			return &OpaqueV{t: x.strTabID(p.tab), typ: i.Type()}
		}
		if bv, ok := st.heap[x.locOf(p)].(*BytesV); ok {
			if x.concrete {
				c := *bv
				c.capT = tb.Int(at.Len())
				bv = &c
			}
			v = bv
		} else {
			// variadic argument arrays
			if (hi == nil || hi.isInt() && hi.k.Int64() == at.Len()) && lo.isInt() && lo.k.Sign() == 0 {
				o := x.newObj("varargs", i.Type(), false)
				et := at.Elem()
				n := at.Len()
				sv := &SliceV{obj: o, off: tb.Int(0), len: tb.Int(n), cap: tb.Int(n), nilc: tb.Bool(false), et: et}
				for k := int64(0); k < n; k++ {
					q := &PtrV{obj: p.obj, path: joinPath(p.path, fmt.Sprintf("[%d]", k)), typ: et, nilc: tb.Bool(false)}
					pos := i.Pos()
					ev := x.load(st, q, &pos, false)
					st.heap[fmt.Sprintf("%s.{%d}", o.name, k)] = ev
					if t, ok := ev.(*Term); ok && hi != nil {
						st.heap[o.name+".[]"] = tb.App("store", arrSort(t.sort), x.arrTerm(st, o, "", et), tb.Int(k), t)
					}
				}
				return sv
			}
			unsup("slice of array")
		}
	}
	switch b := v.(type) {
	case *BytesV:
		x.checkView(st, b, i.Pos())
		l := tb.Sub(b.hi, b.lo)
		if hi == nil {
			hi = l
			if b.full != nil {
				hi = b.full
			}
		}
		n := *b
		n.full = nil
		n.lo = tb.Add(b.lo, lo)
		n.hi = tb.Add(b.lo, hi)
		if isString(i.X.Type()) || b.win != nil {
			x.require(st, tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, l)), "slice in bounds", i.Pos())
		} else {
			// a byte slice may be resliced up to its capacity
			ok := tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, l))
			if b.capT == nil || x.sol.Valid(ok) {
				x.require(st, ok, "slice in bounds", i.Pos())
				if b.capT != nil {
					n.capT = tb.Sub(b.capT, lo)
				}
			} else {
				x.require(st, tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, b.capT)), "slice in bounds", i.Pos())
				n.capT = tb.Sub(b.capT, lo)
				if b.loc == "" {
					// bytes beyond the length: unknown contents
					src := tb.Fresh("reslice", SBs)
					x.assume(st, tb.Eq(x.blen(src), tb.Sub(hi, lo)))
					n.src, n.lo, n.hi = src, tb.Int(0), tb.Sub(hi, lo)
				}
			}
		}
		if d := tb.Sub(n.hi, n.lo); d.isInt() && d.k.Sign() == 0 && b.loc == "" {
			n.src, n.lo, n.hi = x.bempty(), tb.Int(0), tb.Int(0)
			n.win = nil
		}
		return &n
	case *RSliceV:
		if hi == nil {
			hi = b.len
		}
		x.require(st, tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, b.len)), "slice in bounds", i.Pos())
		return &RSliceV{id: b.id, off: tb.Add(b.off, lo), len: tb.Sub(hi, lo), et: b.et}
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		if isEfaceT(b.et) && !(lo.isInt() && lo.k.Sign() == 0 && hi == b.len) {
			unsup("part of a []interface{}")
		}
		x.assume(st, tb.Le(b.len, b.cap))
		x.require(st, tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, b.cap)), "slice in bounds", i.Pos())
		n := *b
		n.off = tb.Add(b.off, lo)
		n.len = tb.Sub(hi, lo)
		n.cap = tb.Sub(b.cap, lo)
		return &n
	}
	unsup("slice of %T", v)
	return nil
}

func (x *Ex) convert(st *State, v Value, from, to types.Type, pos token.Pos) Value {
	tb := x.tb
	if _, _, ok := intInfo(to); ok {
		if _, _, ok := intInfo(from); ok {
			return x.wrap(st, v.(*Term), to)
		}
		if isUnsafePtr(from) {
			return x.scalar(st, v)
		}
		if isFloatT(from) {
			t := v.(*Term)
			r := tb.App("ftoi"+string(t.sort[1:]), SInt, t)
			return r
		}
	}
	if isUnsafePtr(to) {
		// an address taken from an object and handed back unchanged
		if t, ok := v.(*Term); ok && x.addrOf[t] != nil {
			q := *x.addrOf[t]
			return &q
		}
		return v
	}
	if isUnsafePtr(from) {
		pt, ok := to.Underlying().(*types.Pointer)
		if !ok {
			unsup("convert unsafe.Pointer to %s", to)
		}
		switch p := v.(type) {
		case *PtrV:
			q := *p
			q.typ = pt.Elem()
			if p.obj != nil && p.adr == nil && !types.Identical(p.typ.Underlying(), q.typ.Underlying()) {
				switch {
				case isByteSlice(p.typ) && isString(q.typ):
				case isString(p.typ) && headerOf(q.typ) == 2:
					q.pun = "str"
				case isEfaceT(p.typ) && isEfaceHdr(q.typ):
					q.pun = "eface"
				case headerOf(p.typ) == 3 && isByteSlice(q.typ):
					q.pun = "hdr"
				default:
					unsup("reinterpreting %s as %s", p.typ, q.typ)
				}
			}
			return &q
		case *Term:
			return &PtrV{adr: p, typ: pt.Elem(), nilc: tb.Eq(p, tb.Int(0))}
		}
	}
	if isString(to) {
		if b, ok := v.(*BytesV); ok {
			x.checkView(st, b, pos)
			n := *b
			if isByteSlice(from) {
				n.alias, n.win, n.loc, n.capT = "", nil, "", nil
				n.src = x.whole(b)
				n.lo = tb.Int(0)
				n.hi = x.blen(n.src)
			}
			n.nilc = tb.Bool(false)
			return &n
		}
		if t, ok := v.(*Term); ok {
			if _, _, isI := intInfo(from); isI {
				src := tb.App("runestr", SBs, t)
				return &BytesV{src: src, lo: tb.Int(0), hi: x.blen(src), nilc: tb.Bool(false)}
			}
		}
	}
	if isByteSlice(to) {
		if b, ok := v.(*BytesV); ok {
			n := *b
			n.alias, n.win, n.loc, n.capT = "", nil, "", nil
			n.src = x.whole(b)
			n.lo = tb.Int(0)
			n.hi = x.blen(n.src)
			n.nilc = tb.Bool(false)
			return &n
		}
	}
	if isFloatT(to) {
		t := v.(*Term)
		s := Sort("F64")
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			s = "F32"
		}
		if t.sort == s {
			return t
		}
		return tb.App("conv_"+string(t.sort)+"_"+string(s), s, t)
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func (x *Ex) isErrType(t *Term, name string) *Term {
	return x.tb.Eq(t, x.tb.Int(x.prog.errTypeCode(name)))
}

func namedName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "*" + namedName(p.Elem())
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

func (x *Ex) makeIface(st *State, v Value, from, to types.Type) Value {
	tb := x.tb
	if isErrorT(to) {
		return tb.Int(x.prog.errTypeCode(strings.TrimPrefix(namedName(from), "jzon.")))
	}
	if isEfaceT(to) {
		var t *Term
		nm := namedName(from)
		_, isNamed := types.Unalias(from).(*types.Named)
		switch {
		case nm == "json.Number":
			t = tb.App("jnumtxt", "JV", x.valueToTerm(st, v))
		case isNamed:
		case isBoolT(from):
			t = tb.App("jbool", "JV", v.(*Term))
		case isString(from):
			t = tb.App("jstr", "JV", x.valueToTerm(st, v))
		case isFloatT(from) && from.Underlying().(*types.Basic).Kind() == types.Float64:
			t = tb.App("jf64", "JV", v.(*Term))
		default:
			switch u := from.Underlying().(type) {
			case *types.Slice:
				if isEfaceT(u.Elem()) {
					s := v.(*SliceV)
					if s.home == nil {
						x.checkLive(st, s.obj)
					}
					t = tb.App("jarr", "JV", x.jsTerm(st, s))
					x.move(st, s)
				}
			case *types.Map:
				if isString(u.Key()) && isEfaceT(u.Elem()) {
					s := v.(*MapV)
					if s.home == nil {
						x.checkLive(st, s.obj)
					}
					t = tb.App("jobj", "JV", x.mapTerm(st, s))
					x.move(st, s)
				}
			}
		}
		if t == nil {
			t = tb.Fresh("iface", "JV")
			x.assume(st, tb.Not(tb.Eq(t, x.jnil())))
		}
		return &IfaceV{t: t, dyn: v, dt: from}
	}
	if p, ok := v.(*PtrV); ok && p.id != nil && p.nilc.isFalse() {
		return &IfaceV{t: p.id, dyn: v, dt: from}
	}
	if p, ok := v.(*PtrV); ok && p.nilc.isTrue() {
		return &IfaceV{t: typedNil(tb, shortType(from)), dyn: v, dt: from}
	}
	f := tb.Fresh("iface", SInt)
	f.lo = big1
	return &IfaceV{t: f, dyn: v, dt: from}
}

// typedNil: the nil pointer of a type, put into an interface.
func typedNil(tb *TB, t string) *Term {
	v := tb.Var("tnil_"+sanitize(t), SInt)
	v.lo = big1
	return v
}

// iterType: the state of a range loop over a string
var iterType = types.NewStruct([]*types.Var{types.NewField(0, nil, "Pos", types.Typ[types.Int], false)}, nil)

func (x *Ex) typeAssert(st *State, i *ssa.TypeAssert) Value {
	tb := x.tb
	v := x.val(st, i.X)
	if iv, ok := v.(*IfaceV); ok {
		if types.Identical(iv.dt, i.AssertedType) {
			if i.CommaOk {
				return TupleV{iv.dyn, tb.Bool(true)}
			}
			return iv.dyn
		}
	}
	if o, ok := v.(*OpaqueV); ok && strings.HasPrefix(o.t.name, "pool_") {
		r := x.mkValue("pooled", i.AssertedType, true, "")
		if p, ok := r.(*PtrV); ok {
			p.nilc = tb.Bool(false)
			x.poolAssume(st, p)
		}
		if i.CommaOk {
			return TupleV{r, tb.Bool(true)}
		}
		return r
	}
	src := x.scalar(st, v)
	r := x.mkValue("ta", i.AssertedType, true, "")
	if p, ok := r.(*PtrV); ok && i.CommaOk {
		p.id = src
	}
	if it, ok := i.AssertedType.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && src.sort == "JV" && x.spec.Fns["asIface"] != nil {
		// the same value seen as another interface
		t := tb.App("asIface", SInt, src)
		x.assume(st, tb.Lt(tb.Int(0), t))
		r = &OpaqueV{t: t, typ: i.AssertedType}
	}
	okT := tb.App("isType_"+strings.ReplaceAll(sanitize(types.TypeString(i.AssertedType, nil)), ".", "_"), SBool, src)
	if src.sort == SInt && len(x.con.Each) > 0 {
		x.assume(st, tb.Implies(okT, tb.Not(tb.Eq(src, tb.Int(0)))))
	}
	if i.CommaOk {
		x.eachAssume(st, src, i.AssertedType, r, okT)
		return TupleV{r, okT}
	}
	x.require(st, okT, "type assertion holds", i.Pos())
	return r
}

// poolAssume: what the pool contract guarantees for pooled objects.
func (x *Ex) poolAssume(st *State, p *PtrV) {
	n, ok := p.typ.(*types.Named)
	if !ok {
		return
	}
	if d := x.spec.Fns["pool_"+n.Obj().Name()]; d != nil {
		ev := &Eval{x: x, env: map[string]Value{d.Params[0].Name: p}, st: st}
		x.assume(st, ev.T(d.Body))
	}
}

func ptrIn(v Value) *PtrV {
	if i, ok := v.(*IfaceV); ok {
		v = i.dyn
	}
	p, _ := v.(*PtrV)
	return p
}

// poolOblige: every object handed to a pool must satisfy the pool invariant.
func (x *Ex) poolOblige(st *State, p *PtrV, what string, pos token.Pos) {
	n, ok := p.typ.(*types.Named)
	if !ok {
		return
	}
	if d := x.spec.Fns["pool_"+n.Obj().Name()]; d != nil {
		ev := &Eval{x: x, env: map[string]Value{d.Params[0].Name: p}, st: st}
		x.require(st, ev.T(d.Body), what, pos)
	}
}

func (x *Ex) mapUpdate(st *State, i *ssa.MapUpdate) {
	m, ok := x.val(st, i.Map).(*MapV)
	if !ok {
		unsup("map update on %T", x.val(st, i.Map))
	}
	x.require(st, x.tb.Not(m.nilc), "no assignment to nil map", i.Pos())
	k := x.val(st, i.Key)
	if !x.ownedVal(k) {
		x.require(st, x.tb.Bool(false), "stored string does not alias a reused buffer", i.Pos())
	}
	if m.home != nil {
		cur := x.homeMap(st, m.home, i.Pos())
		nm := x.tb.App("jmput", "JM", cur, x.valueToTerm(st, k), x.jvOf(st, x.val(st, i.Value)))
		x.setHome(st, m.home, x.tb.App("jobj", "JV", nm))
		return
	}
	x.checkLive(st, m.obj)
	cur := x.mapTerm(st, m)
	if cur.sort != "JM" {
		x.typedPut(st, i, m, cur, k)
		return
	}
	st.heap[m.obj.name+".jm"] = x.tb.App("jmput", "JM", cur, x.valueToTerm(st, k), x.jvOf(st, x.val(st, i.Value)))
}

func (x *Ex) jvOf(st *State, v Value) *Term {
	t := x.scalar(st, v)
	if t.sort != "JV" {
		unsup("map or slice element of sort %s", t.sort)
	}
	return t
}

func (x *Ex) mapLookup(st *State, i *ssa.Lookup, m *MapV) Value {
	cur := x.mapTerm(st, m)
	if cur.sort == "JM" {
		unsup("map lookup")
	}
	tb := x.tb
	k := x.valueToTerm(st, x.val(st, i.Index))
	et := i.X.Type().Underlying().(*types.Map).Elem()
	has := tb.And(tb.Not(m.nilc), mapHas(tb, cur, k))
	var v Value
	if cur.sort == "UM" {
		v = x.mkValue("mapval", et, true, "")
		if !i.CommaOk {
			unsup("element of a map whose contents are not tracked")
		}
	} else {
		v = mapVal(tb.Ite(has, mapGet(tb, cur, k), tb.Int(0)), et)
	}
	if x.listedTable(i.X) {
		switch v.(type) {
		case *OpaqueV, *IfaceV:
			x.assume(st, tb.Implies(has, tb.Not(tb.Eq(x.scalar(st, v), tb.Int(0)))))
		}
	}
	x.fromMap(st, v, k)
	if i.CommaOk {
		return TupleV{v, has}
	}
	return v
}

// listedTable: m is a package variable that only initialisers write and whose entries an inittab
// clause of the contract lists (an obligation of the same contract), all of them typed values.
func (x *Ex) listedTable(m ssa.Value) bool {
	u, ok := m.(*ssa.UnOp)
	if !ok || x.con == nil {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || x.prog.mutable[g] {
		return false
	}
	for _, it := range x.con.Inits {
		if it[0] == g.Name() {
			return true
		}
	}
	return false
}

// fromMap: v was read from a map at key k.
func (x *Ex) fromMap(st *State, v Value, k *Term) {
	if x.con == nil || len(x.con.Each) == 0 {
		return
	}
	if x.mapKey == nil {
		x.mapKey = map[*Term]*Term{}
	}
	switch v.(type) {
	case *Term, *OpaqueV, *IfaceV:
		x.mapKey[x.scalar(st, v)] = k
	}
}

// eachAssume: a value of a type with an each clause, read from a map.
func (x *Ex) eachAssume(st *State, src *Term, t types.Type, r Value, ok *Term) {
	k := x.mapKey[src]
	if k == nil || x.con == nil || x.preEv == nil {
		return
	}
	for _, ec := range x.con.Each {
		if ec.Type != shortType(t) {
			continue
		}
		x.checkStable(ec.E, ec.V, t)
		env := map[string]Value{}
		for n, w := range x.preEv.env {
			env[n] = w
		}
		env[ec.K], env[ec.V] = k, r
		ev := *x.preEv
		ev.env, ev.st, ev.old = env, st, x.preEv
		x.assume(st, x.tb.Implies(ok, ev.T(ec.E)))
		x.assumes["the "+ec.Type+" values in the maps passed in satisfy: "+exprStr(ec.E)] = true
	}
}

// checkStable: the fields an each clause reads are only ever set on objects made on the spot.
func (x *Ex) checkStable(e *Expr, v string, t types.Type) {
	if e == nil {
		return
	}
	if e.op == "field" && e.args[0].op == "name" && e.args[0].name == v {
		pt, ok := t.(*types.Pointer)
		if !ok || !x.prog.fieldSetOnce(pt.Elem(), e.name) {
			unsup("each: field %s of %s is assigned after construction", e.name, t)
		}
	} else if e.op == "field" && e.args[0].op == "field" {
		unsup("each: nested field")
	}
	for _, a := range e.args {
		x.checkStable(a, v, t)
	}
}

func mapVal(t *Term, et types.Type) Value {
	if types.IsInterface(et) {
		return &OpaqueV{t: t, typ: et}
	}
	return t
}

// mapSort: maps to interface{} by string are values of JSON objects (JM); other maps
// with integer (IM) or string (SM) keys and scalar values are finite functions; of the
// rest only the keys are known (UM).
func mapSort(t types.Type) Sort {
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return "JM"
	}
	_, _, ik := intInfo(mt.Key())
	_, _, iv := intInfo(mt.Elem())
	it := types.IsInterface(mt.Elem()) && !isEfaceT(mt.Elem())
	switch {
	case isString(mt.Key()) && isEfaceT(mt.Elem()):
		return "JM"
	case ik && (iv || it):
		return "IM"
	case isString(mt.Key()) && (iv || it):
		return "SM"
	}
	return "UM"
}

func emptyMap(tb *TB, s Sort) *Term {
	return tb.App(map[Sort]string{"JM": "jmempty", "IM": "imempty", "SM": "smempty", "UM": "umempty"}[s], s)
}

func mapHas(tb *TB, m, k *Term) *Term {
	if strings.HasSuffix(m.op, "mempty") {
		return tb.Bool(false)
	}
	if m.op == "ite" {
		return tb.Ite(m.args[0], mapHas(tb, m.args[1], k), mapHas(tb, m.args[2], k))
	}
	if len(m.args) == 3 && (m.op == "imPut" || m.op == "smPut") {
		return tb.Or(tb.Eq(m.args[1], k), mapHas(tb, m.args[0], k))
	}
	return tb.App(strings.ToLower(string(m.sort))+"Has", SBool, m, k)
}

func mapGet(tb *TB, m, k *Term) *Term {
	if m.op == "ite" {
		return tb.Ite(m.args[0], mapGet(tb, m.args[1], k), mapGet(tb, m.args[2], k))
	}
	if len(m.args) == 3 && (m.op == "imPut" || m.op == "smPut") {
		return tb.Ite(tb.Eq(m.args[1], k), m.args[2], mapGet(tb, m.args[0], k))
	}
	return tb.App(strings.ToLower(string(m.sort))+"Get", SInt, m, k)
}

func init() {
	for _, s := range []string{"im", "sm", "um"} {
		smartCtor[s+"Has"] = func(tb *TB, a []*Term) *Term { return mapHas(tb, a[0], a[1]) }
		if s != "um" {
			smartCtor[s+"Get"] = func(tb *TB, a []*Term) *Term { return mapGet(tb, a[0], a[1]) }
		}
	}
}

// neverNilMap: the map ranged over is made in this function, is used for nothing but
// storing, looking up and ranging, and every value stored in it is a value put into an
// interface on the spot, which is never the nil interface.
func neverNilMap(iter ssa.Value) bool {
	r, ok := iter.(*ssa.Range)
	if !ok {
		return false
	}
	m, ok := r.X.(*ssa.MakeMap)
	return ok && neverNilUses(m, nil, 3)
}

// neverNilUses looks at every use of the map m, following it into functions it is handed to;
// bind gives the arguments of the calls followed.
func neverNilUses(m ssa.Value, bind map[ssa.Value]ssa.Value, depth int) bool {
	if m.Referrers() == nil {
		return false
	}
	var typed func(v ssa.Value) bool
	typed = func(v ssa.Value) bool {
		if a, ok := bind[v]; ok {
			return typed(a)
		}
		switch c := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.ChangeInterface:
			return typed(c.X)
		}
		return false
	}
	for _, u := range *m.Referrers() {
		switch i := u.(type) {
		case *ssa.MapUpdate:
			if i.Map != m || i.Key == m || !typed(i.Value) {
				return false
			}
		case *ssa.Range, *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Call:
			fn := i.Call.StaticCallee()
			if fn == nil || len(fn.Blocks) == 0 || depth == 0 || len(fn.Params) != len(i.Call.Args) {
				return false
			}
			nb := map[ssa.Value]ssa.Value{}
			for k, v := range bind {
				nb[k] = v
			}
			for k, a := range i.Call.Args {
				if nb[fn.Params[k]] != nil {
					return false // recursive
				}
				nb[fn.Params[k]] = a
			}
			for k, a := range i.Call.Args {
				if a == m && !neverNilUses(fn.Params[k], nb, depth-1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// typedPut: the puts clauses of the contract are obligations for what is stored.
func (x *Ex) typedPut(st *State, i *ssa.MapUpdate, m *MapV, cur *Term, kv Value) {
	tb := x.tb
	k := x.valueToTerm(st, kv)
	v := x.val(st, i.Value)
	name, found := "", false
	if iv, ok := v.(*IfaceV); ok && x.con != nil && x.preEv != nil {
		for _, ec := range x.con.Each {
			if ec.Type != shortType(iv.dt) {
				continue
			}
			env := map[string]Value{}
			for n, w := range x.preEv.env {
				env[n] = w
			}
			env[ec.K], env[ec.V] = k, iv.dyn
			ev := *x.preEv
			ev.env, ev.st, ev.old = env, st, x.preEv
			x.require(st, ev.T(ec.E), fmt.Sprintf("every %s put into a map: %s", ec.Type, exprStr(ec.E)), i.Pos())
		}
	}
	if x.con != nil && x.preEv != nil {
		for _, pc := range x.con.Puts {
			if pm, ok := x.preEv.env[pc.Map].(*MapV); !ok || pm.obj != m.obj {
				continue
			}
			name = pc.Map
			var sv Value = v
			tn := "any"
			if iv, ok := v.(*IfaceV); ok {
				tn = shortType(iv.dt)
				sv = iv.dyn
			}
			if tn != pc.Type {
				continue
			}
			found = true
			env := map[string]Value{}
			for n, w := range x.preEv.env {
				env[n] = w
			}
			env[pc.K], env[pc.V] = k, sv
			if tn != "any" {
				env["self"] = v
			}
			ev := *x.preEv
			ev.env, ev.st, ev.old = env, st, x.preEv
			x.require(st, ev.T(pc.E), fmt.Sprintf("what is stored in %s (%s): %s", pc.Map, tn, exprStr(pc.E)), i.Pos())
		}
	}
	if name != "" && !found {
		tn := "any"
		if iv, ok := v.(*IfaceV); ok {
			tn = shortType(iv.dt)
		}
		x.require(st, tb.Bool(false), "no "+tn+" may be stored in "+name, i.Pos())
	}
	if cur.sort == "UM" {
		st.heap[m.obj.name+".jm"] = tb.Fresh("um", "UM")
		return
	}
	st.heap[m.obj.name+".jm"] = tb.App(strings.ToLower(string(cur.sort))+"Put", cur.sort, cur, k, x.scalar(st, v))
}

func (x *Ex) tableLoad(p *PtrV) Value {
	g := p.tab
	tbl := x.prog.tables[g.Name()]
	if d := x.spec.Fns["tab_"+g.Name()]; d != nil && d.Body == nil && p.path == "" {
		if x.prog.mutable[g] {
			unsup("table %s is assigned outside init", g.Name())
		}
		return mapVal(x.tb.App("tab_"+g.Name(), SInt, p.idx), g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem())
	}
	if tbl == nil {
		unsup("no contents for table %s", g.Name())
	}
	if x.prog.mutable[g] {
		unsup("table %s is assigned outside init", g.Name())
	}
	if tbl.Funcs != nil {
		return &FuncTabV{tab: g, idx: p.idx}
	}
	if tbl.Ints == nil {
		if tbl.Strs != nil {
			return x.strTable(g.Name(), tbl.Strs, p.idx)
		}
		unsup("table %s has no integer contents", g.Name())
	}
	if d := x.spec.TableDefs[g.Name()]; d != nil && !p.idx.isInt() {
		// a fact about (value, index), checked here for every entry and then used instead of the contents
		if x.tabOK == nil {
			x.tabOK = map[string]bool{}
		}
		at := func(v, i *Term) *Term {
			ev := &Eval{x: x, env: map[string]Value{d.Params[0].Name: v, d.Params[1].Name: i}}
			return ev.T(d.Body)
		}
		ok, done := x.tabOK[g.Name()]
		if !done {
			ok = true
			for i, v := range tbl.Ints {
				if t := at(x.tb.Big(v), x.tb.Int(int64(i))); !t.isTrue() {
					ok = false
					break
				}
			}
			x.tabOK[g.Name()] = ok
		}
		if ok {
			v := x.tb.App("tab_"+g.Name(), SInt, p.idx)
			lo, hi := new(big.Int).Set(tbl.Ints[0]), new(big.Int).Set(tbl.Ints[0])
			for _, k := range tbl.Ints {
				if k.Cmp(lo) < 0 {
					lo.Set(k)
				}
				if k.Cmp(hi) > 0 {
					hi.Set(k)
				}
			}
			x.sol.Assert(at(v, p.idx))
			x.sol.Assert(x.tb.And(x.tb.Le(x.tb.Big(lo), v), x.tb.Le(v, x.tb.Big(hi))))
			return v
		}
	}
	return tableTerm(x.tb, g.Name(), tbl.Ints, p.idx)
}

func (x *Ex) strTable(name string, ss []string, idx *Term) Value {
	if idx.isInt() {
		return x.strLit(ss[idx.k.Int64()])
	}
	// runs of equal strings
	var t *Term
	for i := len(ss); i > 0; {
		j := i - 1
		for j > 0 && ss[j-1] == ss[i-1] {
			j--
		}
		lit := x.whole(x.strLit(ss[i-1]))
		if t == nil {
			t = lit
		} else {
			t = x.tb.Ite(x.tb.Lt(idx, x.tb.Int(int64(i))), lit, t)
		}
		i = j
	}
	return &BytesV{src: t, lo: x.tb.Int(0), hi: x.blen(t), nilc: x.tb.Bool(false)}
}

// tableTerm compresses a constant table into an ite chain over runs of slope 0 or 1.
func tableTerm(tb *TB, name string, vals []*big.Int, idx *Term) *Term {
	if idx.isInt() {
		return tb.Big(vals[idx.k.Int64()])
	}
	type run struct {
		end   int // exclusive
		base  *big.Int
		slope int
	}
	var runs []run
	for i := 0; i < len(vals); {
		j := i + 1
		slope := 0
		if j < len(vals) {
			d := new(big.Int).Sub(vals[j], vals[i])
			if d.Cmp(big1) == 0 {
				// only worthwhile when it lasts
				if j+1 < len(vals) && new(big.Int).Sub(vals[j+1], vals[j]).Cmp(big1) == 0 {
					slope = 1
				}
			}
		}
		for j < len(vals) {
			d := new(big.Int).Sub(vals[j], vals[j-1])
			if d.Cmp(big.NewInt(int64(slope))) != 0 {
				break
			}
			j++
		}
		b := new(big.Int).Set(vals[i])
		if slope == 1 {
			b.Sub(b, big.NewInt(int64(i)))
		}
		runs = append(runs, run{j, b, slope})
		i = j
	}
	if len(runs) > 80 {
		return tb.App("tab_"+name, SInt, idx)
	}
	var t *Term
	for k := len(runs) - 1; k >= 0; k-- {
		r := runs[k]
		e := tb.Big(r.base)
		if r.slope == 1 {
			e = tb.Add(idx, e)
		}
		if t == nil {
			t = e
		} else {
			t = tb.Ite(tb.Lt(idx, tb.Int(int64(r.end))), e, t)
		}
	}
	return t
}

// strTabID is the class of a constant string table: the number of the strtab it equals.
func (x *Ex) strTabID(g *ssa.Global) *Term {
	tbl := x.prog.tables[g.Name()]
	if tbl != nil && tbl.Strs != nil && !x.prog.mutable[g] {
		for k, t := range x.spec.StrTabs {
			if len(t) == len(tbl.Strs) {
				same := true
				for i := range t {
					same = same && t[i] == tbl.Strs[i]
				}
				if same {
					return x.tb.Int(int64(k + 1))
				}
			}
		}
	}
	v := x.tb.Var("table_"+g.Name(), SInt)
	v.lo = big.NewInt(1000)
	return v
}

// forkStr loads an element of a string table, one path per distinct string.
func (x *Ex) forkStr(st *State, u *ssa.UnOp, p *PtrV) {
	tb := x.tb
	do := func(s *State, ss []string) {
		var order []string
		conds := map[string][]*Term{}
		for i := 0; i < len(ss); {
			j := i
			for j < len(ss) && ss[j] == ss[i] {
				j++
			}
			if _, ok := conds[ss[i]]; !ok {
				order = append(order, ss[i])
			}
			conds[ss[i]] = append(conds[ss[i]], tb.And(tb.Le(tb.Int(int64(i)), p.idx), tb.Lt(p.idx, tb.Int(int64(j)))))
			i = j
		}
		for _, str := range order {
			str := str
			x.branch(s.clone(), tb.Or(conds[str]...), func(s *State) {
				s.top().env[u] = x.strLit(str)
				x.run(s)
			})
		}
	}
	if p.tab != nil {
		tbl := x.prog.tables[p.tab.Name()]
		if tbl == nil || tbl.Strs == nil || x.prog.mutable[p.tab] {
			unsup("no contents for table %s", p.tab.Name())
		}
		do(st, tbl.Strs)
		return
	}
	other := tb.Bool(true)
	for k, t := range x.spec.StrTabs {
		t := t
		is := tb.Eq(p.stab, tb.Int(int64(k+1)))
		other = tb.And(other, tb.Not(is))
		x.branch(st.clone(), is, func(s *State) { do(s, t) })
	}
	x.branch(st.clone(), other, func(s *State) {
		s.top().env[u] = x.mkValue("tabstr", u.Type(), true, "")
		x.run(s)
	})
}

// headerOf recognises the headers of strings (2 words) and slices (3 words).
func headerOf(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() < 2 || s.NumFields() > 3 || !isUnsafePtr(s.Field(0).Type()) {
		return 0
	}
	for i := 1; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return 0
		}
	}
	return s.NumFields()
}

// isEfaceHdr recognises the two words of an interface{}.
func isEfaceHdr(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 2 || !isUnsafePtr(s.Field(1).Type()) {
		return false
	}
	b, ok := s.Field(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// punLoad reads through a reinterpreted pointer.
func (x *Ex) punLoad(st *State, p *PtrV, pos token.Pos) Value {
	tb := x.tb
	str := func() *BytesV {
		q := *p
		q.pun, q.typ = "", types.Typ[types.String]
		return x.load(st, &q, &pos, false).(*BytesV)
	}
	switch p.pun {
	case "str.data":
		return &DataV{str()}
	case "str.len":
		b := str()
		return tb.Sub(b.hi, b.lo)
	case "eface.rtype", "eface.data":
		q := *p
		q.pun, q.typ = "", types.NewInterfaceType(nil, nil)
		v := x.valueToTerm(st, x.load(st, &q, &pos, false))
		if v.sort != "JV" {
			unsup("eface of %s", v.sort)
		}
		if p.pun == "eface.rtype" {
			return tb.App("efType", SInt, v)
		}
		return tb.App("efData", SInt, v)
	case "hdr":
		ht := p.obj.typ
		if p.path != "" || headerOf(ht) != 3 {
			unsup("slice header inside an object")
		}
		f := func(i int) Value {
			v := ht.Underlying().(*types.Struct).Field(i)
			return x.load(st, &PtrV{obj: p.obj, path: v.Name(), typ: v.Type(), nilc: tb.Bool(false)}, &pos, false)
		}
		d, ok := f(0).(*DataV)
		if !ok {
			unsup("slice header with unknown data")
		}
		l, c := f(1).(*Term), f(2).(*Term)
		x.require(st, tb.And(tb.Le(tb.Int(0), l), tb.Le(l, c), tb.Le(c, tb.Sub(d.b.hi, d.b.lo))), "slice header within its data", pos)
		n := *d.b
		n.hi = tb.Add(n.lo, l)
		n.capT = c
		n.nilc = tb.Fresh("hdrnil", SBool)
		x.assume(st, tb.Implies(n.nilc, tb.Eq(l, tb.Int(0))))
		return &n
	}
	unsup("load through reinterpreted pointer")
	return nil
}

func frank(tb *TB, a *Term) *Term { return tb.App("frank"+string(a.sort[1:]), SInt, a) }
func fnan(tb *TB, a *Term) *Term  { return tb.App("fnan"+string(a.sort[1:]), SBool, a) }

// fcmp compares floats through their rank: the integer given by the bits of
// the magnitude, with the sign. It orders all values except NaN.
func fcmp(tb *TB, op token.Token, a, b *Term) *Term {
	p, q := frank(tb, a), frank(tb, b)
	var c *Term
	switch op {
	case token.LSS:
		c = tb.Lt(p, q)
	case token.LEQ:
		c = tb.Le(p, q)
	case token.GTR:
		c = tb.Lt(q, p)
	case token.GEQ:
		c = tb.Le(q, p)
	default:
		c = tb.Eq(p, q)
	}
	return tb.And(tb.Not(fnan(tb, a)), tb.Not(fnan(tb, b)), c)
}

func init() {
	for _, k := range []string{"64", "32"} {
		so := Sort("F" + k)
		inf := int64(0x7ff0000000000000)
		if k == "32" {
			inf = 0x7f800000
		}
		sideFacts["frank"+k] = func(tb *TB, t *Term) []*Term {
			fs := []*Term{tb.Le(tb.Int(-inf), t), tb.Le(t, tb.Int(inf))}
			switch a := t.args[0]; a.op {
			case "fofrank" + k:
				fs = append(fs, tb.Eq(t, a.args[0]))
			case "f" + k + "zero":
				fs = append(fs, tb.Eq(t, tb.Int(0)))
			case "fneg" + k, "fabs" + k:
				r := frank(tb, a.args[0])
				n := tb.Neg(r)
				if a.op[:4] == "fabs" {
					n = tb.Ite(tb.Le(tb.Int(0), r), r, tb.Neg(r))
				}
				fs = append(fs, tb.Eq(t, n))
			case "conv_F32_F64":
				r := frank(tb, a.args[0])
				z, i32 := tb.Int(0), tb.Int(0x7f800000)
				fs = append(fs, tb.Eq(tb.Lt(z, t), tb.Lt(z, r)), tb.Eq(tb.Lt(t, z), tb.Lt(r, z)),
					tb.Eq(tb.Eq(t, tb.Int(inf)), tb.Eq(r, i32)), tb.Eq(tb.Eq(t, tb.Int(-inf)), tb.Eq(r, tb.Neg(i32))))
			}
			return fs
		}
		sideFacts["fnan"+k] = func(tb *TB, t *Term) []*Term {
			switch a := t.args[0]; a.op {
			case "fofrank" + k, "f" + k + "zero":
				return []*Term{tb.Not(t)}
			case "fneg" + k, "fabs" + k, "conv_F32_F64":
				return []*Term{tb.Eq(t, fnan(tb, a.args[0]))}
			}
			return nil
		}
		_ = so
	}
}
