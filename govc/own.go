package main

// Ownership obligations: which memory the goroutines using one configuration share, and that no
// function writes it once it is shared.
//
// The declarations ("own ..." lines of the contracts) say which types are shared, which fields are
// guarded by a mutex and which are published through an atomic value.  For every function of the
// package an effect is inferred (the parameters through which it writes, what its results alias, the
// locks it needs or takes, the pooled objects it gives back) and every caller is checked against it:
//   - no store, map update, delete, append or copy goes through shared memory or a package variable,
//     unless the object was allocated by the running call and is not published yet;
//   - guarded fields are touched, and published fields stored, only with the mutex held; what is
//     published is built from a load made under the same lock, and is not written afterwards;
//   - every lock is released on every path; no lock is taken while held;
//   - an object given back to a pool is not used or given back again;
//   - memory of a shared object is not stored into an object private to one goroutine.

import (
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type OwnSpec struct {
	Props     []string
	Shared    []string
	Building  map[string]bool
	Guarded   map[string]string // "EncoderConfig.internalCache" -> "cacheMu"
	Published map[string]string
	Reads     map[string][]int // "ValEncoder.Encode" -> parameters (receiver 0) its implementations must not write
	Writes    map[string][]int // body-less functions: the parameters they write
}

func newOwnSpec() *OwnSpec {
	return &OwnSpec{Building: map[string]bool{}, Guarded: map[string]string{}, Published: map[string]string{}, Reads: map[string][]int{}, Writes: map[string][]int{}}
}

func (o *OwnSpec) add(rest string) {
	f := strings.Fields(rest)
	switch f[0] {
	case "props":
		o.Props = append(o.Props, f[1:]...)
	case "shared":
		o.Shared = append(o.Shared, f[1:]...)
	case "building":
		for _, t := range f[1:] {
			o.Building[t] = true
		}
	case "guarded", "published":
		if len(f) != 4 || f[2] != "by" {
			panic("bad own clause " + rest)
		}
		if f[0] == "guarded" {
			o.Guarded[f[1]] = f[3]
		} else {
			o.Published[f[1]] = f[3]
		}
	case "reads", "writes":
		var is []int
		for _, s := range f[2:] {
			is = append(is, int(s[0]-'0'))
		}
		if f[0] == "reads" {
			o.Reads[f[1]] = is
		} else {
			o.Writes[f[1]] = is
		}
	default:
		panic("bad own clause " + rest)
	}
}

// a root is where a pointer was obtained
type root struct {
	kind byte // 'P' parameter, 'V' free variable, 'F' fresh, 'S' shared, 'G' package variable
	n    int
	v    ssa.Value
	d    string
}

type rootSet map[root]bool

func (s rootSet) add(o rootSet) bool {
	ch := false
	for r := range o {
		if !s[r] {
			s[r] = true
			ch = true
		}
	}
	return ch
}

type lockNeed struct {
	n     int // parameter
	mutex string
}

type effect struct {
	writes   map[int]string // parameter -> what writes it
	fvWrites map[int]string
	cont     rootSet   // what the objects allocated for the results contain
	results  []rootSet // in terms of P, S, G and F{v: nil}
	needs    map[lockNeed]string
	takes    map[string]bool
	releases map[int]bool
	loads    map[lockNeed]bool // published fields loaded (before publication they must be loaded under the lock)
}

type owner struct {
	p        *Prog
	o        *OwnSpec
	fns      []*ssa.Function
	eff      map[*ssa.Function]*effect
	initOnly map[*ssa.Function]bool
	shared   map[string]bool
	impls    map[string][]*ssa.Function // "ValDecoder.Decode"
	changed  bool
	report   func(fn *ssa.Function, rule, msg string, pos token.Pos)
	used     map[*ssa.Function]bool
	bySig    map[string][]*ssa.Function
	checking bool
	// reference types through which some function writes elements
	elemWritten map[string]bool
	sites    map[string]int
	cur      *fnOwn
}

func (w *owner) typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == w.p.ssaPkg.Pkg {
		return n.Obj().Name()
	}
	return ""
}

// isShared: a reference of this type may be held by several goroutines
func (w *owner) isShared(t types.Type) bool {
	t = types.Unalias(t)
	if m, ok := t.Underlying().(*types.Map); ok {
		return w.isSharedElem(m.Elem())
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return w.isSharedElem(s.Elem())
	}
	return w.isSharedElem(t)
}

func (w *owner) isSharedElem(t types.Type) bool {
	t = types.Unalias(t)
	if w.shared[w.typeName(t)] && w.typeName(t) != "" {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Struct:
			return true
		}
	}
	return false
}

func isUintptr(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func isRef(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if isRef(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func fieldOf(x *ssa.FieldAddr) (string, string) {
	t := x.X.Type().Underlying().(*types.Pointer).Elem()
	st := t.Underlying().(*types.Struct)
	n := ""
	if nt, ok := types.Unalias(t).(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return n, st.Field(x.Field).Name()
}

// ---- one function

type fnOwn struct {
	w    *owner
	fn   *ssa.Function
	memo map[ssa.Value]rootSet
	busy map[ssa.Value]bool
	cont map[ssa.Value]rootSet // what was stored in a fresh object
	vars map[ssa.Value]rootSet // what was stored in a local variable
}

func (f *fnOwn) roots(v ssa.Value) rootSet {
	if r, ok := f.memo[v]; ok {
		return r
	}
	if f.busy[v] {
		return rootSet{}
	}
	f.busy[v] = true
	r := f.roots0(v)
	delete(f.busy, v)
	if len(f.busy) == 0 {
		f.memo[v] = r
	}
	return r
}

func (f *fnOwn) union(vs ...ssa.Value) rootSet {
	r := rootSet{}
	for _, v := range vs {
		r.add(f.roots(v))
	}
	return r
}

// what a reference loaded from memory at addr points into
func (f *fnOwn) load(addr ssa.Value, t types.Type) rootSet {
	if !isRef(t) || isUintptr(t) {
		return rootSet{}
	}
	base := f.roots(addr)
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		n, fld := fieldOf(fa)
		if f.w.o.Guarded[n+"."+fld] != "" && !onlyFresh(base) {
			return rootSet{root{kind: 'L', v: fa, d: n + "." + fld}: true}
		}
	}
	if f.w.isShared(t) {
		// references of shared type under construction hang off building objects
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			if n, _ := fieldOf(fa); f.w.o.Building[n] {
				return base
			}
		}
		res := rootSet{}
		priv := true
		for r := range base {
			if r.kind == 'F' {
				if _, ok := r.v.(*ssa.Alloc); ok && r.v == addr {
					res.add(f.vars[r.v]) // a local variable
					continue
				}
			}
			priv = false
		}
		if priv && len(base) > 0 {
			return res
		}
		res[root{kind: 'S', d: types.TypeString(t, func(*types.Package) string { return "" })}] = true
		return res
	}
	res := rootSet{}
	for r := range base {
		res[r] = true
		if r.kind == 'F' {
			res.add(f.cont[r.v])
		}
	}
	return res
}

func (f *fnOwn) roots0(v ssa.Value) rootSet {
	if !isRef(v.Type()) {
		if _, ok := v.(*ssa.Next); !ok {
			return rootSet{}
		}
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return rootSet{root{kind: 'F', v: v}: true}
	case *ssa.MakeClosure:
		r := rootSet{root{kind: 'F', v: v}: true}
		r.add(f.union(v.Bindings...))
		return r
	case *ssa.Parameter:
		if isUintptr(v.Type()) {
			return rootSet{}
		}
		for i, p := range f.fn.Params {
			if p == v {
				return rootSet{root{kind: 'P', n: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.fn.FreeVars {
			if p == v {
				return rootSet{root{kind: 'V', n: i}: true}
			}
		}
	case *ssa.Global:
		return rootSet{root{kind: 'G', d: v.Name()}: true}
	case *ssa.FieldAddr:
		return f.roots(v.X)
	case *ssa.IndexAddr:
		return f.roots(v.X)
	case *ssa.Field:
		return f.roots(v.X)
	case *ssa.Index:
		return f.roots(v.X)
	case *ssa.Slice:
		return f.roots(v.X)
	case *ssa.SliceToArrayPointer:
		return f.roots(v.X)
	case *ssa.ChangeType:
		return f.roots(v.X)
	case *ssa.ChangeInterface:
		return f.roots(v.X)
	case *ssa.Convert:
		if b, ok := v.Type().Underlying().(*types.Slice); ok {
			_ = b
			if bt, ok := v.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return rootSet{root{kind: 'F', v: v}: true}
			}
		}
		return f.roots(v.X)
	case *ssa.MakeInterface:
		return f.roots(v.X)
	case *ssa.TypeAssert:
		return f.roots(v.X)
	case *ssa.BinOp:
		return f.union(v.X, v.Y)
	case *ssa.Phi:
		return f.union(v.Edges...)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok {
				if isRef(v.Type()) {
					return rootSet{root{kind: 'G', d: g.Name()}: true}
				}
				return rootSet{}
			}
			return f.load(v.X, v.Type())
		}
		return f.roots(v.X)
	case *ssa.Lookup:
		t := v.X.Type().Underlying()
		if m, ok := t.(*types.Map); ok {
			return f.load(v.X, m.Elem())
		}
		return rootSet{}
	case *ssa.Range:
		return f.roots(v.X)
	case *ssa.Next:
		rg := v.Iter.(*ssa.Range)
		if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
			return f.load(rg.X, m.Elem())
		}
		return rootSet{}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return f.callRoots(c, v.Index)
		}
		return f.roots(v.Tuple)
	case *ssa.Call:
		return f.callRoots(v, 0)
	}
	return rootSet{}
}

func (f *fnOwn) callRoots(c *ssa.Call, i int) rootSet {
	com := c.Common()
	fresh := rootSet{root{kind: 'F', v: c}: true}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			fresh.add(f.roots(com.Args[0]))
		}
		return fresh
	}
	res := rootSet{}
	for _, callee := range f.w.callees(com) {
		if callee.Pkg != f.w.p.ssaPkg || len(callee.Blocks) == 0 {
			res.add(f.external(callee, c))
			continue
		}
		e := f.w.eff[callee]
		if e == nil || i >= len(e.results) {
			continue
		}
		args := callArgs(com)
		for r := range e.results[i] {
			switch r.kind {
			case 'P':
				if r.n < len(args) {
					res.add(f.roots(args[r.n]))
				}
			case 'F':
				res.add(fresh)
			case 'V':
				res[root{kind: 'S', d: "captured by " + callee.Name()}] = true
			default:
				res[r] = true
			}
		}
	}
	if len(f.w.callees(com)) == 0 {
		t := com.Signature().Results()
		if i < t.Len() && f.w.isShared(t.At(i).Type()) {
			res[root{kind: 'S', d: "result of a call"}] = true
		} else {
			res.add(fresh)
		}
	}
	return res
}

func (f *fnOwn) external(callee *ssa.Function, c *ssa.Call) rootSet {
	args := callArgs(c.Common())
	if isAtomic(callee, "Load") || isAtomic(callee, "Swap") {
		return rootSet{root{kind: 'S', d: "published value"}: true}
	}
	pk := pkgPath(callee)
	if pk == "strconv" && strings.HasPrefix(callee.Name(), "Append") || pk == "bytes" || pk == "unicode/utf8" || pk == "reflect" && callee.Name() == "add" {
		r := rootSet{root{kind: 'F', v: c}: true}
		for _, a := range args {
			r.add(f.roots(a))
		}
		return r
	}
	return rootSet{root{kind: 'F', v: c}: true}
}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func isAtomic(fn *ssa.Function, name string) bool {
	return pkgPath(fn) == "sync/atomic" && fn.Signature.Recv() != nil && fn.Name() == name
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// the functions of the package (or external ones) a call may reach
func (w *owner) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		n := ""
		if nt, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			n = nt.Obj().Name()
		}
		return w.impls[n+"."+c.Method.Name()]
	}
	if s := c.StaticCallee(); s != nil {
		return []*ssa.Function{s}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return w.bySig[sigKey(c.Signature())]
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func (w *owner) inScope(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	return fn.Pkg == w.p.ssaPkg || fn.Pkg == nil && pkgPath(fn) == w.p.ssaPkg.Pkg.Path()
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// walk visits the instructions that can run after from, in some order, until visit returns false on a path
func walk(from ssa.Instruction, visit func(ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var blk func(b *ssa.BasicBlock, i int)
	blk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if !visit(b.Instrs[i]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				blk(s, 0)
			}
		}
	}
	for i, x := range from.Block().Instrs {
		if x == from {
			blk(from.Block(), i+1)
			return
		}
	}
}

// mutexCall: c is NAME on a mutex field of a shared object
func mutexCall(ins ssa.Instruction, names ...string) (*ssa.FieldAddr, bool) {
	var com *ssa.CallCommon
	switch c := ins.(type) {
	case *ssa.Call:
		com = c.Common()
	case *ssa.Defer:
		com = &c.Call
	default:
		return nil, false
	}
	s := com.StaticCallee()
	if s == nil || pkgPath(s) != "sync" || len(com.Args) == 0 {
		return nil, false
	}
	ok := false
	for _, n := range names {
		ok = ok || s.Name() == n
	}
	if !ok {
		return nil, false
	}
	fa, _ := com.Args[0].(*ssa.FieldAddr)
	return fa, true
}

func (f *fnOwn) sameBase(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, y := f.roots(a), f.roots(b)
	if len(x) != 1 || len(y) != 1 {
		return false
	}
	for r := range x {
		return y[r] && (r.kind == 'P' || r.kind == 'F') && types.Identical(a.Type(), b.Type())
	}
	return false
}

// held: the mutex field of base is locked when ins runs
func (f *fnOwn) held(base ssa.Value, mutex string, ins ssa.Instruction) bool {
	is := func(i ssa.Instruction, n string) bool {
		fa, ok := mutexCall(i, n)
		if !ok || fa == nil {
			return false
		}
		_, fld := fieldOf(fa)
		return fld == mutex && f.sameBase(fa.X, base)
	}
	var locks []ssa.Instruction
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Call); ok && is(i, "Lock") && i != ins && before(i, ins) {
				locks = append(locks, i)
			}
		}
	}
	if len(locks) == 0 {
		return false
	}
	ok := true
	for _, b := range f.fn.Blocks {
		for _, u := range b.Instrs {
			if _, call := u.(*ssa.Call); call && is(u, "Unlock") {
				walk(u, func(i ssa.Instruction) bool {
					if i == ins {
						ok = false
					}
					return !is(i, "Lock") && i != ins
				})
			}
		}
	}
	return ok
}

func onlyFresh(s rootSet) bool {
	for r := range s {
		if r.kind != 'F' {
			return false
		}
	}
	return len(s) > 0
}

func (f *fnOwn) site(rule string) {
	if f.w.checking {
		f.w.sites[rule]++
	}
}

func (f *fnOwn) bad(rule, msg string, pos token.Pos) {
	if f.w.checking {
		f.w.report(f.fn, rule, msg, pos)
	}
}

const (
	ruleWrite = "writes only memory no other goroutine can reach"
	ruleLock  = "guarded and published fields are used with the lock held"
	rulePub   = "a published cache extends the current one and is not written afterwards"
	ruleRel   = "every lock is released and none is taken twice"
	rulePool  = "objects given back to a pool are not used again"
	ruleLeak  = "memory of shared objects is not handed to private ones"
	ruleRead  = "encoding only reads the value"
)

func (f *fnOwn) write(s rootSet, what string, ins ssa.Instruction) {
	e := f.w.eff[f.fn]
	f.site(ruleWrite)
	for r := range s {
		switch r.kind {
		case 'S':
			f.bad(ruleWrite, what+" writes shared memory ("+r.d+")", ins.Pos())
		case 'L':
			fa := r.v.(*ssa.FieldAddr)
			n, fld := fieldOf(fa)
			f.need(fa.X, f.w.o.Guarded[n+"."+fld], what+" writes "+n+"."+fld, ins)
		case 'G':
			root := f.fn
			for root.Parent() != nil {
				root = root.Parent()
			}
			if !f.w.initOnly[root] {
				f.bad(ruleWrite, what+" writes the package variable "+r.d, ins.Pos())
			}
		case 'P':
			if _, ok := e.writes[r.n]; !ok {
				e.writes[r.n] = what
				f.w.changed = true
			}
		case 'V':
			if _, ok := e.fvWrites[r.n]; !ok {
				e.fvWrites[r.n] = what
				f.w.changed = true
			}
		}
	}
}

// need: the lock of base must be held at ins
func (f *fnOwn) need(base ssa.Value, mutex, what string, ins ssa.Instruction) {
	f.site(ruleLock)
	s := f.roots(base)
	if onlyFresh(s) || f.held(base, mutex, ins) {
		return
	}
	for r := range s {
		if r.kind == 'P' {
			k := lockNeed{r.n, mutex}
			if _, ok := f.w.eff[f.fn].needs[k]; !ok {
				f.w.eff[f.fn].needs[k] = what
				f.w.changed = true
			}
		} else if r.kind != 'F' {
			f.bad(ruleLock, what+" without holding "+mutex, ins.Pos())
		}
	}
}

type pubEvent struct {
	ins ssa.Instruction
	s   rootSet
}

func (f *fnOwn) run() {
	e := f.w.eff[f.fn]
	// what is stored in the objects this call allocates
	f.cont, f.vars = map[ssa.Value]rootSet{}, map[ssa.Value]rootSet{}
	for again := true; again; {
		again = false
		f.memo, f.busy = map[ssa.Value]rootSet{}, map[ssa.Value]bool{}
		put := func(m map[ssa.Value]rootSet, to, what rootSet) {
			for r := range to {
				if r.kind == 'F' {
					if m[r.v] == nil {
						m[r.v] = rootSet{}
					}
					if m[r.v].add(what) {
						again = true
					}
				}
			}
		}
		for _, b := range f.fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if isRef(x.Val.Type()) {
						put(f.vars, f.roots(x.Addr), f.roots(x.Val))
						if !f.w.isShared(x.Val.Type()) {
							put(f.cont, f.roots(x.Addr), f.roots(x.Val))
						}
					}
				case *ssa.MapUpdate:
					put(f.vars, f.roots(x.Map), f.roots(x.Value))
					if !f.w.isShared(x.Value.Type()) {
						put(f.cont, f.roots(x.Map), f.roots(x.Value))
					}
				case *ssa.Call:
					args := callArgs(x.Common())
					for _, callee := range f.w.callees(x.Common()) {
						if ce := f.w.eff[callee]; ce != nil {
							s := rootSet{}
							for r := range ce.cont {
								if r.kind == 'P' {
									if r.n < len(args) {
										s.add(f.roots(args[r.n]))
									}
								} else if r.kind != 'V' && r.kind != 'F' {
									s[r] = true
								}
							}
							put(f.cont, rootSet{root{kind: 'F', v: x}: true}, s)
						}
					}
				}
			}
		}
	}
	f.memo, f.busy = map[ssa.Value]rootSet{}, map[ssa.Value]bool{}
	var pubs, rels []pubEvent
	for _, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					n, fld := fieldOf(fa)
					if m := f.w.o.Guarded[n+"."+fld]; m != "" {
						f.need(fa.X, m, "a store to "+n+"."+fld, ins)
						if f.held(fa.X, m, ins) {
							break
						}
					}
				}
				f.write(f.roots(x.Addr), "a store", ins)
				f.leak(x.Addr, x.Val, ins)
			case *ssa.MapUpdate:
				f.write(f.roots(x.Map), "a map update", ins)
				f.leak(x.Map, x.Value, ins)
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					n, fld := fieldOf(fa)
					if m := f.w.o.Guarded[n+"."+fld]; m != "" {
						f.need(fa.X, m, "a load of "+n+"."+fld, ins)
					}
				}
			case *ssa.Go:
				f.bad(ruleWrite, "go statement: not modelled", ins.Pos())
			case *ssa.Send:
				f.bad(ruleWrite, "channel send: not modelled", ins.Pos())
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				if ce := f.w.eff[fn]; ce != nil {
					for i := range ce.fvWrites {
						if i < len(x.Bindings) {
							f.write(f.roots(x.Bindings[i]), "the function literal", ins)
						}
					}
				}
			case *ssa.Return:
				for i, r := range x.Results {
					if i < len(e.results) {
						s := rootSet{}
						for rt := range f.roots(r) {
							switch rt.kind {
							case 'F':
								s[root{kind: 'F'}] = true
								c := rootSet{}
								for d := range f.cont[rt.v] {
									if d.kind != 'F' {
										c[d] = true
									}
								}
								if e.cont.add(c) {
									f.w.changed = true
								}
							case 'L':
								s[root{kind: 'S', d: rt.d}] = true
							default:
								s[rt] = true
							}
						}
						if e.results[i].add(s) {
							f.w.changed = true
						}
					}
				}
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				p, r := f.call(c)
				pubs = append(pubs, p...)
				rels = append(rels, r...)
			}
		}
	}
	if f.w.checking {
		f.after(pubs, rels)
	}
}

// leak: memory of a shared object stored into an object of this goroutine
func (f *fnOwn) leak(addr, val ssa.Value, ins ssa.Instruction) {
	switch types.Unalias(val.Type()).Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map:
	default:
		return
	}
	if f.w.isShared(val.Type()) {
		return
	}
	f.site(ruleLeak)
	for r := range f.roots(val) {
		if r.kind == 'P' && f.w.isShared(f.fn.Params[r.n].Type()) {
			for a := range f.roots(addr) {
				if a.kind == 'P' && a.n != r.n && !f.w.isShared(f.fn.Params[a.n].Type()) {
					f.bad(ruleLeak, "memory of "+f.fn.Params[r.n].Name()+" is stored in another object", ins.Pos())
				}
			}
		}
		if r.kind == 'S' || r.kind == 'G' && f.w.elemWritten[types.TypeString(val.Type(), nil)] || r.kind == 'L' {
			for a := range f.roots(addr) {
				if a.kind == 'P' && !f.w.initOnly[f.fn] {
					f.bad(ruleLeak, "memory of "+r.d+" is stored in another object", ins.Pos())
				}
			}
		}
	}
}

func (f *fnOwn) call(c ssa.CallInstruction) (pubs, rels []pubEvent) {
	com := c.Common()
	e := f.w.eff[f.fn]
	args := callArgs(com)
	_, deferred := c.(*ssa.Defer)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "delete", "clear":
			f.write(f.roots(args[0]), b.Name(), c)
		}
		return
	}
	if fa, ok := mutexCall(c, "Lock"); ok && !deferred {
		f.site(ruleRel)
		if fa == nil {
			return
		}
		n, fld := fieldOf(fa)
		if !e.takes[n+"."+fld] {
			e.takes[n+"."+fld] = true
			f.w.changed = true
		}
		if f.w.checking {
			if f.held(fa.X, fld, c) {
				f.bad(ruleRel, "the lock "+fld+" is taken while it is held", c.Pos())
			}
			walk(c, func(i ssa.Instruction) bool {
				if g, ok := mutexCall(i, "Unlock"); ok && g != nil {
					_, h := fieldOf(g)
					if h == fld && f.sameBase(g.X, fa.X) {
						return false
					}
				}
				if _, ok := i.(*ssa.Return); ok {
					f.bad(ruleRel, "the lock "+fld+" is not released on a path", c.Pos())
				}
				return true
			})
		}
		return
	}
	if _, ok := mutexCall(c, "Unlock", "RLock", "RUnlock", "TryLock"); ok {
		return
	}
	callees := f.w.callees(com)
	for _, callee := range callees {
		pk, nm := pkgPath(callee), callee.Name()
		if pk == "sync" && nm == "Put" && len(args) == 2 {
			s := f.roots(args[1])
			for r := range s {
				if r.kind == 'P' && !e.releases[r.n] {
					e.releases[r.n] = true
					f.w.changed = true
				}
			}
			if mi, ok := args[1].(*ssa.MakeInterface); ok {
				rels = append(rels, pubEvent{c, f.roots(mi.X)})
			}
			continue
		}
		if pk == "sync/atomic" && len(args) > 0 {
			if fa, ok := args[0].(*ssa.FieldAddr); ok {
				n, fld := fieldOf(fa)
				if m := f.w.o.Published[n+"."+fld]; m != "" && nm == "Load" {
					k := lockNeed{0, n + "." + fld}
					if !e.loads[k] {
						e.loads[k] = true
						f.w.changed = true
					}
				} else if m != "" && !onlyFresh(f.roots(fa.X)) {
					f.need(fa.X, m, nm+" of "+n+"."+fld, c)
					if len(args) > 1 {
						f.published(n+"."+fld, fa.X, m, c)
						pubs = append(pubs, pubEvent{c, f.roots(args[1])})
						for r := range f.roots(args[1]) {
							if r.kind == 'S' || r.kind == 'G' || r.kind == 'L' {
								f.bad(rulePub, "memory that is already shared is published", c.Pos())
							}
						}
					}
				}
			}
			continue
		}
		if f.w.inScope(callee) {
			ce := f.w.eff[callee]
			if ce == nil {
				continue
			}
			for i, what := range ce.writes {
				if i >= len(args) || com.IsInvoke() && i == 0 && f.w.isShared(args[0].Type()) {
					continue
				}
				f.write(f.roots(args[i]), "the call of "+callee.Name()+" ("+strings.TrimPrefix(what, "the call of ")+")", c)
			}
			for k, what := range ce.needs {
				if k.n < len(args) {
					f.need(args[k.n], k.mutex, what+" in "+callee.Name(), c)
				}
			}
			for t := range ce.takes {
				if !e.takes[t] && !deferred {
					e.takes[t] = true
					f.w.changed = true
				}
				if f.w.checking {
					for _, a := range args {
						if n := f.w.typeName(a.Type()); n != "" && strings.HasPrefix(t, n+".") && f.held(a, t[len(n)+1:], c) {
							f.bad(ruleRel, "the call of "+callee.Name()+" takes the lock that is held", c.Pos())
						}
					}
				}
			}
			for i := range ce.releases {
				if i < len(args) {
					s := f.roots(args[i])
					for r := range s {
						if r.kind == 'P' && !e.releases[r.n] {
							e.releases[r.n] = true
							f.w.changed = true
						}
					}
					rels = append(rels, pubEvent{c, s})
				}
			}
			for k := range ce.loads {
				if !e.loads[k] {
					e.loads[k] = true
					f.w.changed = true
				}
			}
			continue
		}
		f.externalCall(callee, c, args)
	}
	if len(callees) == 0 && com.IsInvoke() && com.Method.Name() == "Read" && len(args) > 1 {
		f.write(f.roots(args[1]), "Read", c)
	}
	return
}

// published: the cache stored at c must have been built from a load under the same lock
func (f *fnOwn) published(field string, base ssa.Value, mutex string, c ssa.Instruction) {
	f.site(rulePub)
	if !f.w.checking || !f.held(base, mutex, c) {
		return
	}
	found := false
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			for _, callee := range f.w.callees(ci.Common()) {
				is := false
				if pkgPath(callee) == "sync/atomic" && callee.Name() == "Load" {
					if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok {
						n, fld := fieldOf(fa)
						is = n+"."+fld == field
					}
				} else if ce := f.w.eff[callee]; ce != nil {
					is = ce.loads[lockNeed{0, field}] && !ce.takes[strings.SplitN(field, ".", 2)[0]+"."+mutex]
				}
				if !is {
					continue
				}
				if f.held(base, mutex, i) {
					found = true
				} else if reaches(i, c) {
					f.bad(rulePub, "the cache is loaded before the lock is taken: types published meanwhile are lost", i.Pos())
				}
			}
		}
	}
	if !found {
		f.bad(rulePub, "the published cache is not built from the current one", c.Pos())
	}
}

func reaches(a, b ssa.Instruction) bool {
	ok := false
	walk(a, func(i ssa.Instruction) bool {
		ok = ok || i == b
		return !ok
	})
	return ok
}

// after: nothing is written after its publication, nothing is used after it went back to a pool
func (f *fnOwn) after(pubs, rels []pubEvent) {
	for _, p := range pubs {
		f.site(rulePub)
		walk(p.ins, func(i ssa.Instruction) bool {
			var s rootSet
			switch x := i.(type) {
			case *ssa.Store:
				s = f.roots(x.Addr)
			case *ssa.MapUpdate:
				s = f.roots(x.Map)
			case ssa.CallInstruction:
				s = rootSet{}
				args := callArgs(x.Common())
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					s.add(f.roots(args[0]))
				}
				for _, callee := range f.w.callees(x.Common()) {
					if ce := f.w.eff[callee]; ce != nil {
						for n := range ce.writes {
							if n < len(args) {
								s.add(f.roots(args[n]))
							}
						}
					}
				}
			}
			for r := range s {
				if r.kind == 'F' && p.s[r] {
					if _, isAlloc := i.(*ssa.Store); isAlloc && f.localVar(r.v) {
						continue
					}
					f.bad(rulePub, "the cache is written after it was published", i.Pos())
					return false
				}
			}
			return true
		})
	}
	for _, p := range rels {
		f.site(rulePool)
		_, deferred := p.ins.(*ssa.Defer)
		for r := range p.s {
			if r.kind != 'F' && r.kind != 'P' {
				continue
			}
			walk(p.ins, func(i ssa.Instruction) bool {
				if v, ok := i.(ssa.Value); ok && r.kind == 'F' && v == r.v {
					return false
				}
				if deferred {
					if _, ok := i.(*ssa.Return); !ok {
						rel := false
						for _, q := range rels {
							rel = rel || q.ins == i
						}
						if !rel {
							return true
						}
					}
				}
				switch i.(type) {
				case *ssa.FieldAddr, *ssa.Return, *ssa.Store:
				case ssa.CallInstruction:
				default:
					return true
				}
				for _, op := range i.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, ret := i.(*ssa.Return); ret && r.kind == 'F' {
						if _, ok := (*op).Type().Underlying().(*types.Slice); ok && f.roots(*op)[r] {
							f.bad(rulePool, "memory of an object given back to its pool is returned", i.Pos())
							return false
						}
					}
					if pt, ok := (*op).Type().Underlying().(*types.Pointer); ok && f.w.typeName(pt) != "" && f.roots(*op)[r] && f.relType(p, *op) {
						f.bad(rulePool, "an object given back to its pool is used again", i.Pos())
						return false
					}
				}
				return true
			})
		}
	}
}

func (f *fnOwn) relType(p pubEvent, v ssa.Value) bool {
	for _, a := range callArgs(p.ins.(ssa.CallInstruction).Common()) {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if types.Identical(a.Type(), v.Type()) {
			return true
		}
	}
	return false
}

func (f *fnOwn) localVar(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && !a.Heap
}

func (f *fnOwn) externalCall(callee *ssa.Function, c ssa.CallInstruction, args []ssa.Value) {
	pk, nm := pkgPath(callee), callee.Name()
	wr := func(is ...int) {
		for _, i := range is {
			if i < len(args) {
				f.write(f.roots(args[i]), "the call of "+nm, c)
			}
		}
	}
	if pk == f.w.p.ssaPkg.Pkg.Path() {
		is, ok := f.w.o.Writes[nm]
		if !ok {
			is = nil
		}
		wr(is...)
		return
	}
	switch pk {
	case "strconv":
		if strings.HasPrefix(nm, "Append") {
			wr(0)
		}
		return
	case "unicode/utf8":
		if nm == "EncodeRune" || nm == "AppendRune" {
			wr(0)
		}
		return
	case "bytes", "strings", "unicode", "unicode/utf16", "math", "math/bits", "errors", "fmt", "reflect", "io", "sync":
		if pk == "io" && (nm == "ReadFull" || nm == "ReadAtLeast") {
			wr(1)
		}
		return
	case "encoding/base64":
		if nm == "Encode" || nm == "Decode" {
			wr(1)
		}
		return
	case "encoding/json":
		if nm == "Unmarshal" {
			wr(1)
		}
		return
	}
	// unknown: assumed to write what it is given
	for i, a := range args {
		if isRef(a.Type()) {
			wr(i)
		}
	}
}

// ---- the whole package

func (p *Prog) own(spec *Spec) *FuncResults {
	w := &owner{p: p, o: spec.Own, eff: map[*ssa.Function]*effect{}, shared: map[string]bool{}, impls: map[string][]*ssa.Function{}, bySig: map[string][]*ssa.Function{}, sites: map[string]int{}, used: map[*ssa.Function]bool{}, elemWritten: map[string]bool{}}
	w.initOnly = p.initOnly()
	ifaces := map[string]*types.Interface{}
	scope := p.ssaPkg.Pkg.Scope()
	var named []*types.Named
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if it, ok := nt.Underlying().(*types.Interface); ok {
			ifaces[n] = it
		} else {
			named = append(named, nt)
		}
	}
	for _, s := range w.o.Shared {
		w.shared[s] = true
	}
	for n, it := range ifaces {
		for _, nt := range named {
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				if !types.Implements(t, it) {
					continue
				}
				if w.shared[n] {
					w.shared[nt.Obj().Name()] = true
				}
				ms := types.NewMethodSet(t)
				for i := 0; i < it.NumMethods(); i++ {
					if sel := ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name()); sel != nil {
						if fn := p.ssaProg.MethodValue(sel); fn != nil {
							k := n + "." + it.Method(i).Name()
							dup := false
							for _, g := range w.impls[k] {
								dup = dup || g == fn
							}
							if !dup {
								w.impls[k] = append(w.impls[k], fn)
							}
						}
					}
				}
			}
		}
	}
	entry := map[*ssa.Function]bool{}
	for _, t := range []string{"[]byte", "[]uint8", "unsafe.Pointer"} {
		w.elemWritten[t] = true
	}
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if !w.inScope(fn) {
			continue
		}
		w.fns = append(w.fns, fn)
		e := &effect{cont: rootSet{}, writes: map[int]string{}, fvWrites: map[int]string{}, needs: map[lockNeed]string{}, takes: map[string]bool{}, releases: map[int]bool{}, loads: map[lockNeed]bool{}}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			e.results = append(e.results, rootSet{})
		}
		w.eff[fn] = e
		if ast.IsExported(fn.Name()) {
			entry[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.IndexAddr); ok && !w.initOnly[fn] {
						w.elemWritten[types.TypeString(a.X.Type(), nil)] = true
					}
				case *ssa.Slice:
					w.elemWritten[types.TypeString(x.X.Type(), nil)] = true
				case *ssa.MapUpdate:
					w.elemWritten[types.TypeString(x.Map.Type(), nil)] = true
				}
				ci, isCall := ins.(ssa.CallInstruction)
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(isCall && ci.Common().Value == g) {
						if !w.used[g] {
							w.used[g] = true
							w.bySig[sigKey(g.Signature)] = append(w.bySig[sigKey(g.Signature)], g)
						}
						if _, mc := ins.(*ssa.MakeClosure); !mc && g.Parent() == nil {
							entry[g] = true
						}
					}
				}
			}
		}
	}
	for n := range ifaces {
		if w.shared[n] {
			for k, fs := range w.impls {
				if strings.HasPrefix(k, n+".") {
					for _, g := range fs {
						entry[g] = true
					}
				}
			}
		}
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].String() < w.fns[j].String() })
	for k := 0; k < 50; k++ {
		w.changed = false
		for _, fn := range w.fns {
			(&fnOwn{w: w, fn: fn}).run()
		}
		if !w.changed {
			break
		}
		if k == 49 {
			return &FuncResults{Err: "effects do not stabilise"}
		}
	}
	out := &FuncResults{}
	w.checking = true
	for _, fn := range w.fns {
		w.sites = map[string]int{}
		w.sites[ruleWrite] = 0
		type fl struct{ msg, pos string }
		fails := map[string][]fl{}
		w.report = func(_ *ssa.Function, rule, msg string, pos token.Pos) {
			fails[rule] = append(fails[rule], fl{msg, p.pos(pos)})
		}
		(&fnOwn{w: w, fn: fn}).run()
		e := w.eff[fn]
		if entry[fn] {
			for i, what := range e.writes {
				if i < len(fn.Params) && w.isShared(fn.Params[i].Type()) {
					w.report(fn, ruleWrite, "writes "+fn.Params[i].Name()+", which other goroutines may use ("+what+")", fn.Pos())
				}
			}
			for k, what := range e.needs {
				w.report(fn, ruleLock, what+" without holding "+k.mutex, fn.Pos())
			}
		}
		for k, is := range w.o.Reads {
			for _, g := range w.impls[k] {
				if g != fn {
					continue
				}
				w.sites[ruleRead]++
				for _, i := range is {
					if what, ok := e.writes[i]; ok {
						w.report(fn, ruleRead, "writes the value it encodes ("+what+")", fn.Pos())
					}
				}
			}
		}
		r := &FuncResult{Key: "ownership of " + ownKey(fn)}
		var rules []string
		for k := range w.sites {
			rules = append(rules, k)
		}
		for k := range fails {
			if _, ok := w.sites[k]; !ok {
				rules = append(rules, k)
			}
		}
		sort.Strings(rules)
		for _, k := range rules {
			o := &Obl{Func: r.Key, Name: k, OK: len(fails[k]) == 0, Count: w.sites[k]}
			if !o.OK {
				o.Name += ": " + fails[k][0].msg
				o.Pos = fails[k][0].pos
			}
			r.Obls = append(r.Obls, o)
		}
		out.List = append(out.List, r)
	}
	return out
}

type FuncResults struct {
	List []*FuncResult
	Err  string
}

func (p *Prog) pos(t token.Pos) string {
	if !t.IsValid() {
		return ""
	}
	q := p.fset.Position(t)
	return filepath.Base(q.Filename) + ":" + strconv.Itoa(q.Line)
}

func ownKey(fn *ssa.Function) string {
	if fn.Parent() != nil || fn.Signature.Recv() == nil {
		return fn.Name()
	}
	return funcKey(fn)
}
