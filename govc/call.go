package main

import (
	"os"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// funcKey names a function the way contracts do.
func funcKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + shortType(r.Type()) + ")." + f.Name()
	}
	return f.Name()
}

func (x *Ex) contractFor(f *ssa.Function) *Contract {
	key := funcKey(f)
	if f.Pkg != x.prog.ssaPkg {
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Name()
		} else if o := f.Object(); o != nil && o.Pkg() != nil {
			pk = o.Pkg().Name()
		}
		key = strings.NewReplacer("(*", "", "(", "", ")", "").Replace(key)
		if c := x.spec.Contracts["ext "+pk+"."+key]; c != nil {
			return c
		}
		return nil
	}
	c := x.spec.Contracts[key]
	if c == nil {
		if len(f.Blocks) == 0 {
			return x.spec.Contracts["ext "+key]
		}
		return nil
	}
	if x.noCon[key] {
		return nil
	}
	return c
}

// sigOK tells whether a contract still fits the signature of its function.
func sigOK(c *Contract, f *ssa.Function) bool {
	n := len(c.Params)
	if c.Recv != "" {
		n++
	}
	return n == len(f.Params) && len(c.Results) <= f.Signature.Results().Len()
}

func (x *Ex) callee(st *State, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	fv := x.val(st, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return fv, args
}

func (x *Ex) call(st *State, i *ssa.Call) bool {
	fv, args := x.callee(st, &i.Call)
	return x.doCall(st, i, &i.Call, fv, args, i.Pos(), nil)
}

func (x *Ex) setRes(st *State, call ssa.Value, v Value) {
	if call != nil {
		st.top().env[call] = v
	}
}

func (x *Ex) doCall(st *State, call ssa.Value, c *ssa.CallCommon, fv Value, args []Value, pos token.Pos, _ interface{}) bool {
	if c.IsInvoke() {
		return x.invoke(st, call, c, fv, args, pos)
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		r, alive := x.builtin(st, f, c, args, pos)
		if !alive {
			return false
		}
		x.setRes(st, call, r)
		return true
	case *FuncV:
		if f.recv != nil {
			args = append([]Value{f.recv}, args...)
		}
		return x.callFn(st, call, f.fn, f.binds, args, pos)
	case *FuncTabV:
		return x.callTable(st, call, f, args, pos)
	case *OpaqueV:
		// function value of unknown identity: contract by type
		key := "iface func." + namedName(f.typ)
		if _, ok := f.typ.(*types.Signature); ok {
			key = "iface func." + sigName(c.Signature())
		}
		x.require(st, x.tb.Not(x.tb.Eq(f.t, x.tb.Int(0))), "no call of a nil function", pos)
		if con := x.spec.Contracts[key]; con != nil {
			return x.applyContract(st, call, con, c.Signature(), append([]Value{f}, args...), pos, key)
		}
	}
	unsup("call of %T %s", fv, c)
	return false
}

// sigName names a function type by its parameter and result types.
func sigName(s *types.Signature) string {
	var p []string
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			if isByteSlice(t.At(i).Type()) {
				p = append(p, "bytes")
			} else {
				p = append(p, sanitize(shortType(t.At(i).Type())))
			}
		}
	}
	return strings.Join(p, "_")
}

// callTable forks over the distinct functions of a dispatch table.
func (x *Ex) callTable(st *State, call ssa.Value, f *FuncTabV, args []Value, pos token.Pos) bool {
	tbl := x.prog.tables[f.tab.Name()]
	if f.idx.isInt() {
		fn := tbl.Funcs[f.idx.k.Int64()]
		if fn == nil {
			x.require(st, x.tb.Bool(false), "no call of a nil function", pos)
			return false
		}
		return x.callFn(st, call, fn, nil, args, pos)
	}
	var order []*ssa.Function
	conds := map[*ssa.Function][]*Term{}
	for i := 0; i < len(tbl.Funcs); {
		j := i
		for j < len(tbl.Funcs) && tbl.Funcs[j] == tbl.Funcs[i] {
			j++
		}
		fn := tbl.Funcs[i]
		if _, ok := conds[fn]; !ok {
			order = append(order, fn)
		}
		conds[fn] = append(conds[fn], x.tb.And(x.tb.Le(x.tb.Int(int64(i)), f.idx), x.tb.Lt(f.idx, x.tb.Int(int64(j)))))
		i = j
	}
	for _, fn := range order {
		fn := fn
		c := x.tb.Or(conds[fn]...)
		x.branch(st.clone(), c, func(s *State) {
			if fn == nil {
				x.require(s, x.tb.Bool(false), "no call of a nil function", pos)
				return
			}
			if x.callFn(s, call, fn, nil, args, pos) {
				x.run(s)
			}
		})
	}
	return false
}

func (x *Ex) callFn(st *State, call ssa.Value, fn *ssa.Function, binds []Value, args []Value, pos token.Pos) bool {
	x.checkTime()
	if con := x.contractFor(fn); con != nil && sigOK2(con, fn) {
		return x.applyContract(st, call, con, fn.Signature, args, pos, con.Key)
	}
	if r, ok := x.known(st, fn, args, pos); ok {
		x.setRes(st, call, r)
		return true
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil && x.prog.inlinable(fn) {
		fn.Pkg.Build()
	}
	if len(fn.Blocks) == 0 || !x.prog.inlinable(fn) {
		unsup("call of %s without contract", fn)
	}
	if len(st.frames) > 14 {
		unsup("inlining too deep at %s", fn)
	}
	for _, f := range st.frames {
		if f.fn == fn {
			unsup("recursive function %s without contract", fn)
		}
	}
	x.inlined[funcKey(fn)] = true
	x.serial++
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, call: call, serial: x.serial}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	fr.block = fn.Blocks[0]
	st.frames = append(st.frames, fr)
	if lp := x.prog.loopsOf(fn)[fr.block]; lp != nil {
		unsup("loop at function entry")
	}
	return true
}

func sigOK2(c *Contract, f *ssa.Function) bool {
	n := len(c.Params)
	if c.Recv != "" {
		n++
	}
	m := len(f.Params)
	if m == 0 {
		m = f.Signature.Params().Len()
		if f.Signature.Recv() != nil {
			m++
		}
	}
	return n == m && len(c.Results) <= f.Signature.Results().Len()
}

// known models a few library functions whose meaning is fixed by the language model.
func (x *Ex) known(st *State, fn *ssa.Function, args []Value, pos token.Pos) (Value, bool) {
	switch fn.String() {
	case "(*sync.Pool).Get":
		x.assumes["sync.Pool: Get returns an object built by New or previously Put; never concurrently shared"] = true
		return &OpaqueV{t: x.tb.Fresh("pool_", "JV"), typ: types.NewInterfaceType(nil, nil)}, true
	case "(*sync.Pool).Put":
		if p := ptrIn(args[1]); p != nil {
			x.poolOblige(st, p, "pool invariant of the object put back", pos)
		}
		return nil, true
	case "runtime.Gosched", "runtime.KeepAlive":
		return nil, true
	}
	return nil, false
}

func (x *Ex) invoke(st *State, call ssa.Value, c *ssa.CallCommon, recv Value, args []Value, pos token.Pos) bool {
	if iv, ok := recv.(*IfaceV); ok && iv.dyn != nil {
		if fn := x.prog.ssaProg.LookupMethod(iv.dt, c.Method.Pkg(), c.Method.Name()); fn != nil {
			return x.callFn(st, call, fn, nil, append([]Value{iv.dyn}, args...), pos)
		}
	}
	tn := namedName(c.Value.Type())
	tn = strings.TrimPrefix(tn, "jzon.")
	key := "iface " + tn + "." + c.Method.Name()
	con := x.spec.Contracts[key]
	if con == nil {
		unsup("interface call %s without contract", key)
	}
	nilc := x.tb.Eq(x.scalar(st, recv), x.tb.Int(0))
	x.require(st, x.tb.Not(nilc), "no nil dereference", pos)
	return x.applyContract(st, call, con, c.Signature(), append([]Value{recv}, args...), pos, key)
}

type modLoc struct {
	obj  *Obj
	path string
	typ  types.Type
	elem bool // array contents of obj
	mem  bool
	byt  *BytesV
}

func (x *Ex) modLocs(ev *Eval, es []*Expr) []modLoc {
	var out []modLoc
	for _, e := range es {
		switch {
		case e.op == "name" && e.name == "mem":
			out = append(out, modLoc{mem: true})
		case e.op == "name" && e.name == "nothing":
		case e.op == "call" && e.name == "elems":
			v := ev.V(e.args[0])
			if s, ok := v.(*SliceV); ok {
				out = append(out, modLoc{obj: s.obj, elem: true, typ: s.et})
			} else if b, ok := v.(*BytesV); ok {
				out = append(out, modLoc{obj: &Obj{name: b.loc}, elem: true, byt: b})
			} else if m, ok := v.(*MapV); ok {
				out = append(out, modLoc{obj: m.obj, elem: true, typ: m.obj.typ})
			}
		case e.op == "call" && e.name == "deref":
			p := ev.V(e.args[0]).(*PtrV)
			if p.obj != nil {
				out = append(out, modLoc{obj: p.obj, path: p.path, typ: p.typ})
			} else {
				out = append(out, modLoc{mem: true})
			}
		case e.op == "call" && x.spec.Modsets[e.name] != nil:
			ms := x.spec.Modsets[e.name]
			e2 := &Eval{x: x, env: map[string]Value{}, st: ev.st}
			for i, p := range ms.Params {
				e2.env[p.Name] = ev.V(e.args[i])
			}
			out = append(out, x.modLocs(e2, ms.Locs)...)
		case e.op == "field":
			b, ok := ev.V(e.args[0]).(*PtrV)
			if !ok {
				unsup("modifies %s", exprStr(e))
			}
			if b.adr != nil {
				out = append(out, modLoc{mem: true})
				continue
			}
			p := x.fieldPtr(b, e.name)
			out = append(out, modLoc{obj: p.obj, path: p.path, typ: p.typ})
		default:
			unsup("modifies %s", exprStr(e))
		}
	}
	return out
}

func (x *Ex) conEnv(con *Contract, args []Value) map[string]Value {
	env := map[string]Value{}
	i := 0
	if con.Recv != "" {
		env[con.Recv] = args[0]
		i = 1
	} else if con.Kind == "iface" && len(args) == len(con.Params)+1 {
		env["self"] = args[0]
		i = 1
	}
	for _, p := range con.Params {
		if i < len(args) {
			env[p] = args[i]
		}
		i++
	}
	return env
}

func (x *Ex) applyContract(st *State, call ssa.Value, con *Contract, sig *types.Signature, args []Value, pos token.Pos, key string) bool {
	tb := x.tb
	x.used[con.Key] = true
	if con.Flags["trusted"] || con.Kind != "func" {
		x.assumes["contract of "+con.Key] = true
	}
	env := x.conEnv(con, args)
	for n, v := range env {
		if p, ok := v.(*PtrV); ok && !con.Flags["nilable:"+n] && p.adr == nil {
			if con.Kind == "func" {
				x.checkNil(st, p, pos)
			}
		}
		switch b := v.(type) {
		case *BytesV:
			x.checkView(st, b, pos)
		case *SliceV:
			if b.home != nil {
				unsup("slice held by an element passed to a function")
			}
			x.checkLive(st, b.obj)
		case *MapV:
			if b.home != nil {
				unsup("map held by an element passed to a function")
			}
			x.checkLive(st, b.obj)
		}
		if con.Flags["moves:"+n] {
			defer func(v Value) { x.move(st, v) }(v)
		}
	}
	if con.Kind == "iface" && x.preEv != nil {
		if n := x.iterParam(); n != "" && env["it"] == nil {
			env["it"] = x.preEv.env[n]
		}
		for _, v := range x.preEv.env {
			if p, ok := v.(*PtrV); ok && p.obj != nil && namedName(p.typ) == "jzon.Streamer" && env["s"] == nil {
				env["s"] = v
			}
		}
	}
	pre := &Eval{x: x, env: env, st: st}
	for _, l := range con.Lets {
		env[l.Name] = pre.V(l.E)
	}
	for _, r := range con.Requires {
		x.require(st, pre.T(r), "precondition of "+con.Key+": "+exprStr(r), pos)
	}
	if x.concrete {
		for _, r := range con.Reps {
			x.require(st, pre.T(r), "representation invariant at call of "+con.Key, pos)
		}
	}
	if con.Decr != nil && x.con != nil && x.con.Decr != nil && !x.noDecr {
		m := pre.T(con.Decr)
		m0 := x.preEv.T(x.con.Decr)
		x.require(st, tb.And(tb.Le(tb.Int(0), m), tb.Lt(m, m0)), "termination: measure decreases at call of "+con.Key, pos)
	}
	oldSt := &State{heap: map[string]Value{}, epoch: st.epoch}
	for k, v := range st.heap {
		oldSt.heap[k] = v
	}
	pre.st = oldSt
	fresh := map[*Term]bool{}
	locs := x.modLocs(&Eval{x: x, env: env, st: oldSt}, con.Modifies)
	var havocked []string
	written := map[string]Value{} // arguments whose contents the callee changed
	for _, l := range locs {
		switch {
		case l.mem:
			v := tb.Fresh("mem", "Mem")
			fresh[v] = true
			st.heap["mem"] = v
			havocked = append(havocked, "mem")
		case l.elem:
			ek := []string{l.obj.name + ".[]", l.obj.name + ".js", l.obj.name + ".jm"}
			for _, hm := range []map[string]Value{st.heap, x.initVals} {
				for _, k := range sortedKeys(hm) {
					if strings.HasPrefix(k, l.obj.name+".[]") && k != l.obj.name+".[]" {
						ek = append(ek, k)
					}
				}
			}
			for _, k := range ek {
				cur, ok := st.heap[k]
				if !ok {
					cur, ok = x.initVals[k]
				}
				if ok {
					v := tb.Fresh("elems", cur.(*Term).sort)
					fresh[v] = true
					st.heap[k] = v
					havocked = append(havocked, k)
				}
			}
			if l.byt != nil && l.byt.loc == "" {
				nb := x.havocBytes(st, l.byt)
				for k, v := range env {
					if v == Value(l.byt) {
						written[k] = nb
					}
				}
			}
			if cur, ok := st.heap[l.obj.name].(*BytesV); ok { // byte array backing
				n := *cur
				n.src = tb.Fresh("bb", SBs)
				x.assume(st, tb.Eq(x.blen(n.src), x.blen(cur.src)))
				st.heap[l.obj.name] = &n
				for k, v := range env {
					if l.byt != nil && v == Value(l.byt) {
						w := *l.byt
						w.src = n.src
						written[k] = &w
					}
				}
			}
		default:
			if x.isWindowLoc(l.obj, l.path) {
				st.epoch++
				continue
			}
			if l.path == "offset" || strings.HasSuffix(l.path, ".offset") {
				st.epoch++
			}
			for _, lf := range x.leaves(l.obj, l.path, l.typ) {
				k := l.obj.name + "." + lf.path
				v := x.mkValue(sanitize(lf.path), lf.typ, true, k)
				if b, ok := v.(*BytesV); ok && strings.HasSuffix(lf.path, "tmpBuffer") {
					b.alias = "tmpBuffer"
				}
				for _, c := range comps(v) {
					if c.op == "var" {
						fresh[c] = true
					}
				}
				st.heap[k] = v
				havocked = append(havocked, k)
			}
		}
	}
	// results
	var res []Value
	preN := x.objN
	for i := 0; i < sig.Results().Len(); i++ {
		nm := fmt.Sprintf("r%d", i)
		if i < len(con.Results) {
			nm = con.Results[i]
		}
		rt := sig.Results().At(i).Type()
		var v Value
		if an, ok := con.RetArg[nm]; ok {
			v = env[an]
		} else {
			v = x.mkValue(sanitize(nm), rt, true, "")
			if p, ok := v.(*PtrV); ok && !con.Flags["nilable:"+nm] {
				p.nilc = tb.Bool(false)
				if con.Kind == "ext" && p.id == nil {
					p.id = tb.Fresh(sanitize(nm)+"_id", SInt)
					p.id.lo = big1
				}
			}
			if b, ok := v.(*BytesV); ok {
				b.alias = con.Alias[nm]
				if strings.HasPrefix(b.alias, "@") {
					// appended to that argument: shares its storage
					a, ok := env[b.alias[1:]].(*BytesV)
					b.alias = ""
					if ok {
						b.alias = a.alias
						if a.win != nil {
							b.alias = "buffer"
						}
					}
				}
			}
			for _, c := range comps(v) {
				if c.op == "var" {
					fresh[c] = true
				}
			}
		}
		res = append(res, v)
		if i < len(con.Results) {
			env[con.Results[i]] = v
		}
	}
	postEnv := map[string]Value{}
	for k, v := range env {
		postEnv[k] = v
	}
	for k, v := range written {
		postEnv[k] = v
	}
	finish := func(s *State, cs *Case) {
		post := &Eval{x: x, env: postEnv, st: s, old: pre}
		for _, e := range con.Ensures {
			x.bindPtrs(s, post, con, e, preN)
		}
		var facts []*Term
		if x.concrete {
			for _, e := range con.Reps {
				facts = append(facts, post.T(e))
			}
		}
		for _, e := range con.Ensures {
			t := post.T(e)
			if t.isFalse() {
				unsup("contract of %s is contradictory at this call: %s", con.Key, exprStr(e))
			}
			facts = append(facts, t)
		}
		for _, e := range con.Trusts {
			x.assumes["of "+con.Key+", assumed and not proved: "+exprStr(e)] = true
			facts = append(facts, post.T(e))
		}
		if cs != nil {
			if cs.Cond != nil {
				facts = append(facts, post.T(cs.Cond))
			}
			for _, e := range cs.Ensures {
				facts = append(facts, post.T(e))
			}
		}
		rest, sub := x.solve(facts, fresh)
		r2 := make([]Value, len(res))
		for i, v := range res {
			r2[i] = x.substV(v, sub)
		}
		for _, k := range havocked {
			s.heap[k] = x.substV(s.heap[k], sub)
		}
		for _, f := range rest {
			x.assume(s, f)
		}
		switch len(r2) {
		case 0:
		case 1:
			x.setRes(s, call, r2[0])
		default:
			x.setRes(s, call, TupleV(r2))
		}
	}
	if len(con.Cases) == 0 {
		finish(st, nil)
		if os.Getenv("GOVC_VAC") != "" {
			fmt.Fprintf(os.Stderr, "vac %s %s -> %v\n", x.posStr(pos), con.Key, x.sol.Check())
		}
		return true
	}
	for _, cs := range con.Cases {
		cs := cs
		s := st.clone()
		d := x.sol.Depth()
		x.sol.Push()
		finish(s, cs)
		r := x.sol.Check()
		if os.Getenv("GOVC_VAC") != "" {
			fmt.Fprintf(os.Stderr, "vac %s %s %s -> %v\n", x.posStr(pos), con.Key, cs.Name, r)
		}
		if r != Unsat {
			x.run(s)
		}
		x.sol.PopTo(d)
		if x.abort {
			return false
		}
	}
	return false
}

// bindPtrs makes a postcondition res.f == p, for a pointer p, an assignment
// of p to that field of the callee's new result object.
func (x *Ex) bindPtrs(s *State, post *Eval, con *Contract, e *Expr, preN int) {
	if e.op == "&&" {
		for _, a := range e.args {
			x.bindPtrs(s, post, con, a, preN)
		}
		return
	}
	if e.op != "==" || e.args[0].op != "field" {
		return
	}
	// the result itself, or an object it alone points to
	base := e.args[0].args[0]
	root := base
	for root.op == "field" {
		root = root.args[0]
	}
	if root.op != "name" {
		return
	}
	isRes := false
	for _, r := range con.Results {
		isRes = isRes || r == root.name && con.RetArg[r] == ""
	}
	if !isRes {
		return
	}
	b, ok := post.V(base).(*PtrV)
	if !ok || b.obj == nil || b.obj.n <= preN {
		return
	}
	switch v := post.V(e.args[1]).(type) {
	case *PtrV:
		p := x.fieldPtr(b, e.args[0].name)
		s.heap[p.obj.name+"."+p.path] = v
	}
}

type leaf struct {
	path string
	typ  types.Type
}

// leaves lists scalar locations of a (possibly struct) location.
func (x *Ex) leaves(o *Obj, path string, t types.Type) []leaf {
	if _, g := t.(ghostT); !g {
		if s, ok := t.Underlying().(*types.Struct); ok {
			var out []leaf
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, x.leaves(o, joinPath(path, s.Field(i).Name()), s.Field(i).Type())...)
			}
			if n, ok := t.(*types.Named); ok {
				for g, so := range x.spec.Ghosts[n.Obj().Name()] {
					out = append(out, leaf{joinPath(path, g), ghostType(so)})
				}
			}
			return out
		}
	}
	return []leaf{{path, t}}
}

// solve turns equalities over fresh symbols into substitutions.
func (x *Ex) solve(facts []*Term, fresh map[*Term]bool) ([]*Term, map[*Term]*Term) {
	tb := x.tb
	var work []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.op == "and" {
			for _, a := range t.args {
				flat(a)
			}
			return
		}
		if !t.isTrue() {
			work = append(work, t)
		}
	}
	for _, f := range facts {
		flat(f)
	}
	sub := map[*Term]*Term{}
	var ranges []*Term
	for {
		changed := false
		for i := 0; i < len(work); i++ {
			v, e := x.solveOne(work[i], fresh, sub)
			if v == nil {
				continue
			}
			one := map[*Term]*Term{v: e}
			for k := range sub {
				sub[k] = tb.Subst(sub[k], one)
			}
			sub[v] = e
			if v.lo != nil {
				ranges = append(ranges, tb.Le(tb.Big(v.lo), e))
			}
			if v.hi != nil {
				ranges = append(ranges, tb.Le(e, tb.Big(v.hi)))
			}
			var nw []*Term
			old := work
			work = nil
			for j, w := range old {
				if j != i {
					nw = append(nw, tb.Subst(w, one))
				}
			}
			for _, w := range nw {
				flat(w)
			}
			for j := range ranges {
				ranges[j] = tb.Subst(ranges[j], one)
			}
			changed = true
			break
		}
		if !changed {
			break
		}
	}
	return append(work, ranges...), sub
}

func occurs(v, t *Term) bool {
	found := false
	seen := map[*Term]bool{}
	t.walk(func(a *Term) bool {
		if found || seen[a] {
			return false
		}
		seen[a] = true
		if a == v {
			found = true
		}
		return !found
	})
	return found
}

func (x *Ex) solveOne(f *Term, fresh map[*Term]bool, sub map[*Term]*Term) (*Term, *Term) {
	tb := x.tb
	ok := func(v *Term) bool { return v.op == "var" && fresh[v] && sub[v] == nil }
	if f.sort == SBool && ok(f) {
		return f, tb.Bool(true)
	}
	if f.op == "not" && ok(f.args[0]) {
		return f.args[0], tb.Bool(false)
	}
	if f.op != "=" {
		return nil, nil
	}
	a, b := f.args[0], f.args[1]
	if a.sort == SInt {
		m, k := tb.lin(tb.Sub(a, b))
		var best *Term
		for v, c := range m {
			if !ok(v) || c.CmpAbs(big1) != 0 {
				continue
			}
			bad := false
			for w := range m {
				if w != v && occurs(v, w) {
					bad = true
				}
			}
			if !bad && (best == nil || v.id > best.id) {
				best = v
			}
		}
		if best == nil {
			return nil, nil
		}
		c := m[best]
		r := map[*Term]*big.Int{}
		for w, cw := range m {
			if w != best {
				r[w] = new(big.Int).Neg(new(big.Int).Mul(cw, c))
			}
		}
		return best, tb.mkLin(r, new(big.Int).Neg(new(big.Int).Mul(k, c)))
	}
	if ok(a) && !occurs(a, b) {
		return a, b
	}
	if ok(b) && !occurs(b, a) {
		return b, a
	}
	return nil, nil
}

func (x *Ex) substV(v Value, m map[*Term]*Term) Value {
	if len(m) == 0 || v == nil {
		return v
	}
	cs := comps(v)
	ch := false
	for i, c := range cs {
		n := x.tb.Subst(c, m)
		if n != c {
			ch = true
		}
		cs[i] = n
	}
	if !ch {
		return v
	}
	r := withComps(v, cs)
	if b, ok := r.(*BytesV); ok && b.capT != nil {
		b.capT = x.tb.Subst(b.capT, m)
	}
	return r
}

// atReturn checks the postcondition of the function under verification.
func (x *Ex) atReturn(st *State, res []Value, pos token.Pos) {
	tb := x.tb
	con := x.con
	env := map[string]Value{}
	for k, v := range x.preEv.env {
		env[k] = v
	}
	for i, r := range con.Results {
		if i < len(res) {
			env[r] = res[i]
		}
	}
	for rn, an := range con.RetArg {
		if rp, ok := env[rn].(*PtrV); ok {
			ap := x.preEv.env[an].(*PtrV)
			x.oblige(st, tb.Bool(rp.obj == ap.obj && rp.path == ap.path), "returns "+an, pos)
		}
	}
	for i, r := range res {
		nm := fmt.Sprintf("r%d", i)
		if i < len(con.Results) {
			nm = con.Results[i]
		}
		if p, ok := r.(*PtrV); ok && !con.Flags["nilable:"+nm] {
			// callers rely on it
			x.oblige(st, tb.Not(p.nilc), "result "+nm+" is not nil", pos)
		}
		if b, ok := r.(*BytesV); ok && i < len(con.Results) {
			want := con.Alias[con.Results[i]]
			if b.alias != "" && b.alias != want && !(b.hi == b.lo) {
				x.oblige(st, tb.Bool(false), "result "+con.Results[i]+" does not alias a reused buffer", pos)
			} else {
				x.oblige(st, tb.Bool(true), "result "+con.Results[i]+" does not alias a reused buffer", pos)
			}
			if b.win != nil {
				x.checkView(st, b, pos)
			}
		}
	}
	if con.Flags["poolnew"] {
		p := ptrIn(res[0])
		if p == nil {
			unsup("pool constructor returns %T", res[0])
		}
		x.poolOblige(st, p, "pool invariant of a new object", pos)
		if d := x.spec.Fns["rep_"+namedName(p.typ)[5:]]; d != nil {
			ev := &Eval{x: x, env: map[string]Value{d.Params[0].Name: p}, st: st}
			x.oblige(st, ev.T(d.Body), "representation invariant of a new object", pos)
		}
	}
	post := &Eval{x: x, env: env, st: st, old: x.preEv}
	for _, a := range con.Exits {
		p := x.fieldPtr(post.V(a[0].args[0]).(*PtrV), a[0].name)
		st.heap[x.locOf(p)] = post.T(a[1])
	}
	for _, e := range con.Reps {
		x.oblige(st, post.T(e), "representation invariant: "+exprStr(e), pos)
	}
	for _, e := range con.Ensures {
		x.oblige(st, post.T(e), "ensures "+exprStr(e), pos)
	}
	if len(con.Cases) > 0 {
		var cov []*Term
		for _, cs := range con.Cases {
			c := tb.Bool(true)
			if cs.Cond != nil {
				c = post.T(cs.Cond)
			}
			cov = append(cov, c)
			if c.isFalse() || !x.feasible(c) {
				continue
			}
			x.caseHit[cs.Name] = true
			x.sol.Push()
			x.sol.Assert(c)
			for _, e := range cs.Ensures {
				x.oblige(st, post.T(e), "case "+cs.Name+": ensures "+exprStr(e), pos)
			}
			x.sol.Pop()
		}
		x.oblige(st, tb.Or(cov...), "one of the cases applies", pos)
	}
	x.checkFrame(st, pos)
}

func objOfKey(k string) string {
	if i := strings.IndexByte(k, '#'); i >= 0 {
		if j := strings.IndexByte(k[i:], '.'); j >= 0 {
			return k[:i+j]
		}
	}
	return k
}

func (x *Ex) allowedPrefix(allowed map[string]bool, k string) bool {
	for a := range allowed {
		if strings.HasPrefix(a, "prefix:") && strings.HasPrefix(k, a[7:]) {
			return true
		}
	}
	return false
}

func (x *Ex) checkFrame(st *State, pos token.Pos) {
	// nothing reachable after the return was handed over
	if len(st.moved) > 0 {
		for n, v := range x.preEv.env {
			if x.con.Flags["moves:"+n] {
				continue
			}
			switch b := v.(type) {
			case *SliceV:
				x.checkLive(st, b.obj)
			case *MapV:
				x.checkLive(st, b.obj)
			}
		}
		for _, k := range sortedKeys(st.heap) {
			if o := x.objs[objOfKey(k)]; o != nil && !o.init {
				continue // allocated here
			}
			switch b := st.heap[k].(type) {
			case *SliceV:
				if b.home == nil {
					x.checkLive(st, b.obj)
				}
			case *MapV:
				if b.home == nil {
					x.checkLive(st, b.obj)
				}
			}
		}
	}
	allowed := map[string]bool{}
	mem := false
	for _, l := range x.modLocs(x.preEv, x.con.Modifies) {
		if l.mem {
			mem = true
			continue
		}
		if l.elem {
			allowed[l.obj.name+".[]"] = true
			allowed["prefix:"+l.obj.name+".[]"] = true
			allowed[l.obj.name+".js"] = true
			allowed[l.obj.name+".jm"] = true
			continue
		}
		for _, lf := range x.leaves(l.obj, l.path, l.typ) {
			k := l.obj.name + "." + lf.path
			allowed[k] = true
			if s, ok := x.initVals[k].(*SliceV); ok {
				allowed[s.obj.name+".[]"] = true
				allowed[s.obj.name+".js"] = true
				allowed["prefix:"+s.obj.name+".[]"] = true
			}
			if s, ok := x.initVals[k].(*MapV); ok {
				allowed[s.obj.name+".jm"] = true
			}
		}
	}
	for _, k := range sortedKeys(st.heap) {
		v := st.heap[k]
		if k == "mem" {
			if v.(*Term) != x.initVals["mem"] && !mem {
				o := x.initVals["mem"]
				if o == nil {
					o = v
				}
				x.oblige(st, x.tb.Eq(v.(*Term), o.(*Term)), "frame: raw memory unchanged", pos)
			}
			continue
		}
		if allowed[k] {
			continue
		}
		skip := false
		for a := range allowed {
			if strings.HasPrefix(a, "prefix:") && strings.HasPrefix(k, a[7:]) {
				skip = true
			}
		}
		if skip {
			continue
		}
		obj := k
		if i := strings.IndexByte(k, '#'); i >= 0 {
			j := strings.IndexByte(k[i:], '.')
			if j >= 0 {
				obj = k[:i+j]
			}
		} else if strings.HasPrefix(k, "glob:") {
			if i := strings.LastIndexByte(k, '.'); i >= 0 {
				obj = k[:i]
			}
		}
		o := x.objs[obj]
		if o == nil || !o.init {
			continue
		}
		if root := o.from; root != nil {
			for root.from != nil {
				root = root.from
			}
			if root.init && root.n <= x.entryObjs && !allowed[root.name+".[]"] && !x.allowedPrefix(allowed, root.name+".[]") && x.initVals[k] != v {
				x.oblige(st, x.tb.Bool(false), "frame: "+frameName(k)+" unchanged", pos)
			}
			continue
		}
		if o.n > x.entryObjs && !strings.HasPrefix(k, "glob:") {
			// object created by a callee or obtained from a pool
			if x.initVals[k] == nil || !x.reachEntry[o.name] {
				continue
			}
		}
		old := x.initVals[k]
		if old == nil {
			// never read before: compare against a lazily created initial value
			x.oblige(st, x.tb.Bool(false), "frame: "+frameName(k)+" unchanged", pos)
			continue
		}
		if shape(old) != shape(v) {
			x.oblige(st, x.tb.Bool(false), "frame: "+frameName(k)+" unchanged", pos)
			continue
		}
		a, b := comps(old), comps(v)
		for i := range a {
			if a[i] != b[i] {
				x.oblige(st, x.tb.Eq(a[i], b[i]), "frame: "+frameName(k)+" unchanged", pos)
			}
		}
	}
}

func frameName(k string) string {
	if i := strings.IndexByte(k, '#'); i >= 0 {
		j := strings.IndexByte(k[i:], '.')
		if j >= 0 {
			return k[:i] + k[i+j:]
		}
	}
	return k
}

// ---- builtins

func (x *Ex) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos) (Value, bool) {
	tb := x.tb
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *BytesV:
			if v.full != nil {
				return v.full, true
			}
			return tb.Sub(v.hi, v.lo), true
		case *SliceV:
			return v.len, true
		case *RSliceV:
			return v.len, true
		case *MapV:
			l := tb.App("jmlen", SInt, x.mapTerm(st, v))
			return l, true
		case *PtrV:
			if at, ok := v.typ.Underlying().(*types.Array); ok {
				return tb.Int(at.Len()), true
			}
		case *OpaqueV:
			if at, ok := v.typ.Underlying().(*types.Slice); ok && isString(at.Elem()) {
				l := tb.App("optablen", SInt, v.t)
				return l, true
			}
		}
	case "cap":
		switch v := args[0].(type) {
		case *BytesV:
			if v.capT != nil {
				return v.capT, true
			}
			cp := tb.Fresh("cap", SInt)
			cp.lo, cp.hi = big0, maxLen
			x.assume(st, tb.Le(tb.Sub(v.hi, v.lo), cp))
			return cp, true
		case *SliceV:
			return v.cap, true
		}
	case "append":
		return x.appendB(st, c, args, pos), true
	case "copy":
		return x.copyB(st, c, args, pos), true
	case "delete":
		m, ok := args[0].(*MapV)
		if !ok || m.home != nil {
			unsup("delete")
		}
		cur := x.mapTerm(st, m)
		if cur.sort == "JM" {
			unsup("delete")
		}
		// what is left in the map is not followed
		st.heap[m.obj.name+".jm"] = tb.Fresh("del", cur.sort)
		return nil, true
	case "ssa:wrapnilchk":
		return args[0], true
	case "String": // unsafe.String
	}
	unsup("builtin %s on %T", b.Name(), args[0])
	return nil, false
}

func (x *Ex) appendB(st *State, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	tb := x.tb
	switch d := args[0].(type) {
	case *BytesV:
		x.checkView(st, d, pos)
		var y *BytesV
		switch s := args[1].(type) {
		case *BytesV:
			y = s
		case *SliceV: // variadic bytes
			r := x.whole(d)
			n := s.len.k.Int64()
			for i := int64(0); i < n; i++ {
				r = x.snoc(r, st.heap[fmt.Sprintf("%s.{%d}", s.obj.name, i)].(*Term))
			}
			return x.appended(d, r, tb.Bool(false))
		default:
			unsup("append of %T", args[1])
		}
		x.checkView(st, y, pos)
		ysrc := y.src
		if y.loc != "" {
			if cur, ok := st.heap[y.loc].(*BytesV); ok {
				ysrc = cur.src
			}
		}
		r := x.appR(x.whole(d), ysrc, y.lo, y.hi)
		return x.appended(d, r, tb.And(d.nilc, tb.Eq(y.lo, y.hi)))
	case *SliceV:
		s, ok := args[1].(*SliceV)
		if !ok || !s.len.isInt() {
			unsup("append of slice")
		}
		n := s.len.k.Int64()
		o := x.newObj("app", d.obj.typ, false)
		nl := tb.Add(d.len, tb.Int(n))
		cp := tb.Fresh("cap", SInt)
		cp.lo, cp.hi = big0, maxLen
		x.assume(st, tb.Le(nl, cp))
		r := &SliceV{obj: o, off: tb.Int(0), len: nl, cap: cp, nilc: tb.Bool(false), et: d.et}
		if d.home == nil {
			x.checkLive(st, d.obj)
		}
		if isEfaceT(d.et) {
			js := x.jsTerm(st, d)
			x.move(st, d)
			for i := int64(0); i < n; i++ {
				js = tb.App("jsnoc", "JS", js, x.jvOf(st, st.heap[fmt.Sprintf("%s.{%d}", s.obj.name, i)]))
			}
			st.heap[o.name+".js"] = js
			return r
		}
		if !(d.off.isInt() && d.off.k.Sign() == 0) {
			unsup("append to an offset slice")
		}
		for i := int64(0); i < n; i++ {
			ev := st.heap[fmt.Sprintf("%s.{%d}", s.obj.name, i)]
			x.appendElem(st, d, r, "", d.et, tb.Add(d.len, tb.Int(i)), ev, i > 0)
		}
		x.move(st, d)
		return r
	}
	unsup("append to %T", args[0])
	return nil
}

// appendElem copies the element arrays of d into r and stores v at index idx.
func (x *Ex) appendElem(st *State, d, r *SliceV, path string, t types.Type, idx *Term, v Value, more bool) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		sv := v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			x.appendElem(st, d, r, joinPath(path, s.Field(i).Name()), s.Field(i).Type(), idx, sv.fs[i], more)
		}
		return
	}
	from := d
	if more {
		from = r
	}
	e := x.elemTerm(st, v, t, token.NoPos)
	a := x.arrTerm(st, from.obj, path, t)
	st.heap[r.obj.name+".[]"+path] = x.tb.App("store", a.sort, a, idx, e)
}

func (x *Ex) appended(d *BytesV, src *Term, nilc *Term) *BytesV {
	return &BytesV{src: src, lo: x.tb.Int(0), hi: x.blen(src), nilc: nilc, alias: d.alias}
}

func (x *Ex) copyB(st *State, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	tb := x.tb
	d, ok1 := args[0].(*BytesV)
	s, ok2 := args[1].(*BytesV)
	if !ok1 || !ok2 {
		unsup("copy of %T", args[0])
	}
	x.checkView(st, d, pos)
	x.checkView(st, s, pos)
	ld, ls := tb.Sub(d.hi, d.lo), tb.Sub(s.hi, s.lo)
	n := tb.Ite(tb.Le(ld, ls), ld, ls)
	if !n.isInt() {
		if x.sol.Valid(tb.Le(ls, ld)) {
			n = ls
		} else if x.sol.Valid(tb.Le(ld, ls)) {
			n = ld
		}
	}
	if d.loc == "" {
		// destination is a field's backing array: the only supported form is a
		// whole field value, which is updated in place
		for k, v := range st.heap {
			if b, ok := v.(*BytesV); ok && b.src == d.src && b.lo == d.lo && b.hi == d.hi {
				x.copyInto(st, k, b, s, n)
				return n
			}
		}
		for k, v := range x.initVals {
			if b, ok := v.(*BytesV); ok && b.src == d.src && b.lo == d.lo && b.hi == d.hi && st.heap[k] == nil {
				x.copyInto(st, k, b, s, n)
				return n
			}
		}
		unsup("copy into byte slice without location")
	}
	cur := st.heap[d.loc].(*BytesV)
	nb := *cur
	nb.src = tb.App("bcopy", SBs, cur.src, d.lo, x.curSrc(st, s), s.lo, n)
	st.heap[d.loc] = &nb
	return n
}

func (x *Ex) copyInto(st *State, k string, b, s *BytesV, n *Term) {
	nb := *b
	nb.src = x.tb.App("bcopy", SBs, b.src, b.lo, s.src, s.lo, n)
	st.heap[k] = &nb
	x.retarget(st, b.src, nb.src)
}

// havocBytes: a callee writes into the storage of b, a slice held by some field. Every field
// holding the same storage sees new contents of the same length.
func (x *Ex) havocBytes(st *State, b *BytesV) *BytesV {
	src := x.tb.Fresh("bb", SBs)
	x.assume(st, x.tb.Eq(x.blen(src), x.blen(b.src)))
	found := false
	upd := func(k string, v Value) {
		if c, ok := v.(*BytesV); ok && c.src == b.src {
			n := *c
			n.src = src
			if n.hi == x.blen(b.src) {
				n.hi = x.blen(src)
			}
			st.heap[k] = &n
			found = true
		}
	}
	for _, k := range sortedKeys(x.initVals) {
		if st.heap[k] == nil {
			upd(k, x.initVals[k])
		}
	}
	for _, k := range sortedKeys(st.heap) {
		upd(k, st.heap[k])
	}
	if !found {
		unsup("callee writes into a byte slice without location")
	}
	x.retarget(st, b.src, src)
	n := *b
	n.src = src
	if n.hi == x.blen(b.src) {
		n.hi = x.blen(src)
	}
	return &n
}
