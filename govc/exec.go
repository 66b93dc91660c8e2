package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	call    ssa.Value // call instruction in the caller frame (nil: top)
	defers  []*deferred
	serial  int
	allocN  int
	isDefer bool
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
}

type loopRec struct {
	frame   int
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	houdini bool
	onBack  func(*State)
}

type State struct {
	frames []*Frame
	heap   map[string]Value
	loops  []*loopRec
	epoch  int
	depth  int
	calls  int
	trace  []string
	moved  map[string]bool // objects whose contents now belong to another value
}

func (st *State) clone() *State {
	n := &State{epoch: st.epoch, depth: st.depth, calls: st.calls}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	if len(st.moved) > 0 {
		n.moved = make(map[string]bool, len(st.moved))
		for k := range st.moved {
			n.moved[k] = true
		}
	}
	n.heap = make(map[string]Value, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.loops = append([]*loopRec(nil), st.loops...)
	n.trace = append([]string(nil), st.trace...)
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }
func (st *State) houdini() bool {
	for _, l := range st.loops {
		if l.houdini {
			return true
		}
	}
	return false
}

// Obl is one proof obligation.
type Obl struct {
	Func  string `json:"func"`
	Name  string `json:"name"`
	OK    bool   `json:"ok"`
	Pos   string `json:"pos,omitempty"`
	Info  string `json:"info,omitempty"`
	Model string `json:"model,omitempty"`
	Count int    `json:"count"`
}

// Ex verifies one function.
type Ex struct {
	iterMaps   map[string]*MapV
	mapKey     map[*Term]*Term // values read from maps, and the key
	iters      map[string]*BytesV // strings under range loops
	tb         *TB
	sol        *Solver
	metaSt     *State
	addrOf     map[*Term]*PtrV
	spec       *Spec
	prog       *Prog
	con        *Contract
	fn         *ssa.Function
	initVals   map[string]Value
	objs       map[string]*Obj
	obls       map[string]*Obl
	oblOrder   []string
	bvN        int
	serial     int
	objN       int
	deadline   time.Time
	entry      *State
	preEv      *Eval
	params     []Value
	noCon      map[string]bool // contracts to ignore (inline instead)
	used       map[string]bool // contracts relied on
	inlined    map[string]bool
	assumes    map[string]bool // trusted things relied on
	loopsN     int
	verbose    bool
	abort      bool
	returns    int
	invCache   map[string][]string
	concrete   bool
	streams    []*Term
	pathsN     int
	noDecr     bool
	caseHit    map[string]bool
	seenIns    map[ssa.Instruction]bool
	unreached  []string
	entryObjs  int
	reaching   bool
	reachEntry map[string]bool
	epochN     int
	traceInv   bool
	tabOK      map[string]bool
	invCount   int
}

type giveUp struct{ msg string }

func (x *Ex) freshV(prefix string, t types.Type, exist bool) Value {
	return x.mkValue(prefix, t, exist, "")
}

// mkValue creates a symbolic value of Go type t.
func (x *Ex) mkValue(name string, t types.Type, exist bool, loc string) Value {
	tb := x.tb
	if g, ok := t.(ghostT); ok {
		return tb.Fresh(name, g.s)
	}
	if bits, signed, ok := intInfo(t); ok {
		v := tb.Fresh(name, SInt)
		v.lo, v.hi = typeRange(bits, signed)
		return v
	}
	switch {
	case isBoolT(t):
		return tb.Fresh(name, SBool)
	case isString(t):
		src := tb.Fresh(name, SBs)
		return &BytesV{src: src, lo: tb.Int(0), hi: x.blen(src), nilc: tb.Bool(false)}
	case isByteSlice(t):
		src := tb.Fresh(name, SBs)
		b := &BytesV{src: src, lo: tb.Int(0), hi: x.blen(src), nilc: tb.Fresh(name+"_nil", SBool)}
		if x.concrete {
			b.capT = tb.Fresh(name+"_cap", SInt)
			b.capT.lo, b.capT.hi = big0, maxLen
			if x.sol != nil {
				x.sol.Assert(tb.Le(b.hi, b.capT))
			}
		}
		return b
	case isFloatT(t):
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			return tb.Fresh(name, "F32")
		}
		return tb.Fresh(name, "F64")
	case isErrorT(t):
		v := tb.Fresh(name, SInt)
		v.lo = big0
		return v
	case isUnsafePtr(t):
		v := tb.Fresh(name, SInt)
		v.lo = big0
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() == 0 {
			return &OpaqueV{t: tb.Fresh(name, "JV"), typ: t}
		}
		v := tb.Fresh(name, SInt)
		v.lo = big0
		return &OpaqueV{t: v, typ: t}
	case *types.Pointer:
		if x.readonly(u.Elem()) {
			id, ix := tb.Fresh(name+"_list", SInt), tb.Fresh(name+"_ix", SInt)
			ix.lo, ix.hi = big0, maxLen
			return &PtrV{rs: &RSliceV{id: id, off: tb.Int(0), len: tb.App("slLen", SInt, id), et: u.Elem()}, idx: ix, typ: u.Elem(), nilc: tb.Fresh(name+"_nil", SBool)}
		}
		o := x.newObj(name, u.Elem(), exist)
		return &PtrV{obj: o, typ: u.Elem(), nilc: tb.Fresh(name+"_nil", SBool)}
	case *types.Slice:
		if isString(u.Elem()) {
			v := tb.Fresh(name, SInt)
			v.lo = big0
			return &OpaqueV{t: v, typ: t}
		}
		if exist && x.readonly(u.Elem()) {
			id := tb.Fresh(name+"_list", SInt)
			return x.rslice(id, u.Elem())
		}
		o := x.newObj(name, t, exist)
		l := tb.Fresh(name+"_len", SInt)
		l.lo, l.hi = big0, maxLen
		c := tb.Fresh(name+"_cap", SInt)
		c.lo, c.hi = big0, maxLen
		return &SliceV{obj: o, off: tb.Int(0), len: l, cap: c, nilc: tb.Fresh(name+"_nil", SBool), et: u.Elem()}
	case *types.Map:
		if exist && x.readonly(t) {
			v := tb.Fresh(name, SInt)
			v.lo = big0
			return &OpaqueV{t: v, typ: t}
		}
		o := x.newObj(name, t, exist)
		return &MapV{obj: o, nilc: tb.Fresh(name+"_nil", SBool)}
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, x.mkValue(name+"_"+u.Field(i).Name(), u.Field(i).Type(), exist, ""))
		}
		return s
	case *types.Signature:
		return &OpaqueV{t: tb.Fresh(name, SInt), typ: t}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.mkValue(fmt.Sprintf("%s_%d", name, i), u.At(i).Type(), exist, ""))
		}
		return tv
	case *types.Array:
		return &OpaqueV{t: tb.Fresh(name, SInt), typ: t}
	}
	return &OpaqueV{t: tb.Fresh(name, SInt), typ: t}
}

// readonly reports whether slices of t are declared read-only.
func (x *Ex) readonly(t types.Type) bool {
	return x.spec.ReadOnly[shortType(t)]
}

func (x *Ex) rslice(id *Term, et types.Type) *RSliceV {
	return &RSliceV{id: id, off: x.tb.Int(0), len: x.tb.App("slLen", SInt, id), et: et}
}

// rsLoad reads an element (or a field of it) of a read-only slice.
func (x *Ex) rsLoad(st *State, p *PtrV) Value {
	es, ok := sortOfType(x, p.typ)
	if !ok {
		unsup("read-only slice of %s", p.typ)
	}
	name := "sl_" + sanitize(shortType(p.rs.et))
	if p.path != "" {
		name += "_" + sanitize(p.path)
	}
	f := x.spec.Fns[name]
	if f == nil || f.Ret != es {
		unsup("no declaration of %s", name)
	}
	t := x.tb.App(name, es, p.rs.id, x.tb.Add(p.rs.off, p.idx))
	if bits, signed, ok := intInfo(p.typ); ok {
		lo, hi := typeRange(bits, signed)
		x.assume(st, x.tb.And(x.tb.intern(&Term{op: "ge0", args: []*Term{x.tb.Sub(t, x.tb.Big(lo))}, sort: SBool}),
			x.tb.intern(&Term{op: "ge0", args: []*Term{x.tb.Sub(x.tb.Big(hi), t)}, sort: SBool})))
	}
	return x.termToValue(t, p.typ)
}

func (x *Ex) newObj(name string, t types.Type, exist bool) *Obj {
	x.objN++
	if x.reaching {
		x.reachEntry[fmt.Sprintf("%s#%d", name, x.objN)] = true
	}
	o := &Obj{name: fmt.Sprintf("%s#%d", name, x.objN), typ: t, init: exist, n: x.objN}
	x.objs[o.name] = o
	return o
}

// zero value of a Go type.
func (x *Ex) zero(t types.Type) Value {
	tb := x.tb
	if g, ok := t.(ghostT); ok {
		switch g.s {
		case SInt:
			return tb.Int(0)
		case SBool:
			return tb.Bool(false)
		case SBs:
			return x.bempty()
		}
		return tb.Fresh("gz", g.s)
	}
	if _, _, ok := intInfo(t); ok {
		return tb.Int(0)
	}
	switch {
	case isBoolT(t):
		return tb.Bool(false)
	case isString(t):
		return &BytesV{src: x.bempty(), lo: tb.Int(0), hi: tb.Int(0), nilc: tb.Bool(false)}
	case isByteSlice(t):
		return &BytesV{src: x.bempty(), lo: tb.Int(0), hi: tb.Int(0), nilc: tb.Bool(true), capT: tb.Int(0)}
	case isFloatT(t):
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			return tb.App("f32zero", "F32")
		}
		return tb.App("f64zero", "F64")
	case isErrorT(t), isUnsafePtr(t):
		return tb.Int(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() == 0 {
			return &OpaqueV{t: x.jnil(), typ: t}
		}
		return &OpaqueV{t: tb.Int(0), typ: t}
	case *types.Pointer:
		return &PtrV{typ: u.Elem(), nilc: tb.Bool(true)}
	case *types.Slice:
		if isString(u.Elem()) {
			return &OpaqueV{t: tb.Int(0), typ: t}
		}
		o := x.newObj("nilslice", t, false)
		return &SliceV{obj: o, off: tb.Int(0), len: tb.Int(0), cap: tb.Int(0), nilc: tb.Bool(true), et: u.Elem()}
	case *types.Map:
		return &MapV{obj: x.newObj("nilmap", t, false), nilc: tb.Bool(true)}
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Signature:
		return &OpaqueV{t: tb.Int(0), typ: t}
	case *types.Array:
		return &OpaqueV{t: tb.App("zeroarr", SInt), typ: t}
	}
	return &OpaqueV{t: tb.Int(0), typ: t}
}

func (x *Ex) jnil() *Term { return x.tb.App("jnil", "JV") }

// ---- byte sequences

func (x *Ex) bempty() *Term { return x.tb.App("bempty", SBs) }
func (x *Ex) blen(b *Term) *Term {
	return mkBlen(x.tb, b)
}
func mkBlen(tb *TB, b *Term) *Term {
	switch b.op {
	case "ite":
		return tb.Ite(b.args[0], mkBlen(tb, b.args[1]), mkBlen(tb, b.args[2]))
	case "bset":
		return mkBlen(tb, b.args[0])
	case "bcopy":
		return mkBlen(tb, b.args[0])
	case "bempty":
		return tb.Int(0)
	case "snoc":
		return tb.Add(mkBlen(tb, b.args[0]), tb.Int(1))
	}
	return tb.App("blen", SInt, b)
}
func (x *Ex) bat(b, i *Term) *Term { return mkBat(x.tb, b, i) }
func mkBat(tb *TB, b, i *Term) *Term {
	if b.op == "snoc" {
		d := tb.Sub(i, mkBlen(tb, b.args[0]))
		if d.isInt() {
			if d.k.Sign() == 0 {
				return b.args[1]
			}
			if d.k.Sign() < 0 {
				return mkBat(tb, b.args[0], i)
			}
		}
	}
	return tb.App("bat", SInt, b, i)
}
func mkBset(tb *TB, b, i, v *Term) *Term {
	if b.op == "snoc" && i.isInt() {
		d := tb.Sub(i, mkBlen(tb, b.args[0]))
		if d.isInt() && d.k.Sign() == 0 {
			return tb.App("snoc", SBs, b.args[0], v)
		}
		if d.isInt() && d.k.Sign() < 0 {
			return tb.App("snoc", SBs, mkBset(tb, b.args[0], i, v), b.args[1])
		}
	}
	return tb.App("bset", SBs, b, i, v)
}
func (x *Ex) snoc(b, c *Term) *Term { return x.tb.App("snoc", SBs, b, c) }
func (x *Ex) appR(b, s, lo, hi *Term) *Term {
	return mkAppR(x.tb, b, s, lo, hi)
}
func mkAppR(tb *TB, b, s, lo, hi *Term) *Term {
	d := tb.Sub(hi, lo)
	if d.isInt() {
		if d.k.Sign() <= 0 {
			return b
		}
		if d.k.Cmp(big.NewInt(16)) <= 0 {
			n := int(d.k.Int64())
			for i := 0; i < n; i++ {
				b = tb.App("snoc", SBs, b, mkBat(tb, s, tb.Add(lo, tb.Int(int64(i)))))
			}
			return b
		}
	}
	if lo.isInt() && lo.k.Sign() == 0 && hi == mkBlen(tb, s) {
		switch {
		case b.op == "bempty":
			return s
		case s.op == "bempty":
			return b
		case s.op == "snoc":
			return tb.App("snoc", SBs, mkAppR(tb, b, s.args[0], tb.Int(0), mkBlen(tb, s.args[0])), s.args[1])
		case s.op == "appR":
			return mkAppR(tb, mkAppR(tb, b, s.args[0], tb.Int(0), mkBlen(tb, s.args[0])), s.args[1], s.args[2], s.args[3])
		}
	}
	return tb.App("appR", SBs, b, s, lo, hi)
}

func init() {
	smartCtor["blen"] = func(tb *TB, a []*Term) *Term { return mkBlen(tb, a[0]) }
	smartCtor["bat"] = func(tb *TB, a []*Term) *Term { return mkBat(tb, a[0], a[1]) }
	smartCtor["appR"] = func(tb *TB, a []*Term) *Term { return mkAppR(tb, a[0], a[1], a[2], a[3]) }
	sideFacts["bat"] = func(tb *TB, t *Term) []*Term {
		return []*Term{tb.intern(&Term{op: "ge0", args: []*Term{t}, sort: SBool}), rawLe(tb, t, 255)}
	}
	sideFacts["blen"] = func(tb *TB, t *Term) []*Term {
		return []*Term{tb.intern(&Term{op: "ge0", args: []*Term{t}, sort: SBool}),
			tb.intern(&Term{op: "ge0", args: []*Term{tb.Sub(tb.Big(maxLen), t)}, sort: SBool})}
	}
}

func rawLe(tb *TB, t *Term, n int64) *Term {
	return tb.intern(&Term{op: "ge0", args: []*Term{tb.Sub(tb.Int(n), t)}, sort: SBool})
}

func (x *Ex) whole(b *BytesV) *Term {
	if b.lo.isInt() && b.lo.k.Sign() == 0 && b.hi == x.blen(b.src) {
		return b.src
	}
	return x.appR(x.bempty(), b.src, b.lo, b.hi)
}

func (x *Ex) strLit(s string) *BytesV {
	t := x.bempty()
	for i := 0; i < len(s); i++ {
		t = x.snoc(t, x.tb.Int(int64(s[i])))
	}
	return &BytesV{src: t, lo: x.tb.Int(0), hi: x.tb.Int(int64(len(s))), nilc: x.tb.Bool(false)}
}

// ---- heap

func (x *Ex) isWindowLoc(o *Obj, path string) bool {
	if x.concrete || path != "buffer" || o == nil {
		return false
	}
	n, ok := o.typ.(*types.Named)
	return ok && n.Obj().Name() == "Iterator"
}

func (x *Ex) locOf(p *PtrV) string { return p.obj.name + "." + p.path }

func (x *Ex) getLoc(st *State, o *Obj, path string, t types.Type) Value {
	loc := o.name + "." + path
	if v, ok := st.heap[loc]; ok {
		return v
	}
	if v, ok := x.initVals[loc]; ok {
		return v
	}
	var v Value
	if o.init {
		base := o.name
		if i := strings.IndexByte(base, '#'); i >= 0 {
			base = base[:i]
		}
		was := x.reaching
		x.reaching = o.n <= x.entryObjs || x.reachEntry[o.name]
		v = x.mkValue(sanitize(base+"_"+path), t, true, loc)
		x.reaching = was
		if path == "tmpBuffer" {
			if b, ok := v.(*BytesV); ok {
				b.alias = "tmpBuffer"
			}
		}
		if x.spec != nil {
			if nn := x.nonNil(o, path); nn {
				if p, ok := v.(*PtrV); ok {
					p.nilc = x.tb.Bool(false)
				}
			}
		}
		x.initVals[loc] = v
		return v
	}
	v = x.zero(t)
	st.heap[loc] = v
	return v
}

func (x *Ex) nonNil(o *Obj, path string) bool { return false }

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	r := sb.String()
	if r == "" || r[0] >= '0' && r[0] <= '9' {
		r = "v" + r
	}
	return r
}

func (x *Ex) checkNil(st *State, p *PtrV, pos token.Pos) {
	if p.adr != nil || p.nilc == nil || p.nilc.isFalse() {
		return
	}
	x.require(st, x.tb.Not(p.nilc), "no nil dereference", pos)
}

func sortOfType(x *Ex, t types.Type) (Sort, bool) {
	if g, ok := t.(ghostT); ok {
		return g.s, true
	}
	if _, _, ok := intInfo(t); ok {
		return SInt, true
	}
	switch {
	case isBoolT(t):
		return SBool, true
	case isString(t), isByteSlice(t):
		return SBs, true
	case isErrorT(t), isUnsafePtr(t):
		return SInt, true
	case isEfaceT(t):
		return "JV", true
	case isFloatT(t):
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			return "F32", true
		}
		return "F64", true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface, *types.Signature, *types.Pointer:
		return SInt, true
	case *types.Slice:
		if isEfaceT(u.Elem()) {
			return "JS", true
		}
		return SInt, true
	case *types.Map:
		return mapSort(t), true
	}
	return "", false
}

// termToValue wraps an SMT term as a value of Go type t.
func (x *Ex) termToValue(v *Term, t types.Type) Value {
	tb := x.tb
	switch {
	case isString(t):
		return &BytesV{src: v, lo: tb.Int(0), hi: x.blen(v), nilc: tb.Bool(false)}
	case isByteSlice(t):
		return &BytesV{src: v, lo: tb.Int(0), hi: x.blen(v), nilc: tb.Fresh("bnil", SBool)}
	case isErrorT(t):
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if x.readonly(u.Elem()) {
			return x.rslice(v, u.Elem())
		}
	case *types.Interface, *types.Signature:
		return &OpaqueV{t: v, typ: t}
	case *types.Pointer:
		return &PtrV{adr: v, typ: t.Underlying().(*types.Pointer).Elem(), nilc: tb.Eq(v, tb.Int(0))}
	}
	return v
}

func (x *Ex) valueToTerm(st *State, v Value) *Term {
	ev := &Eval{x: x, st: st}
	return ev.toTerm(v, &Expr{op: "name", name: "value"})
}

func (x *Ex) ptrTerm(p *PtrV) *Term {
	if p.adr != nil {
		return p.adr
	}
	if p.id != nil && p.path == "" {
		return p.id
	}
	if p.nilc.isTrue() {
		return x.tb.Int(0)
	}
	nm := "nilobj"
	if p.obj != nil {
		nm = p.obj.name
	}
	v := x.tb.Var("addr_"+sanitize(nm+"."+p.path), SInt)
	v.lo = big1
	v.hi = new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1)
	if p.obj != nil && p.nilc.isFalse() && p.rs == nil && p.arr == nil && p.byt == nil && p.pun == "" {
		x.addrOf[v] = p
	}
	if p.nilc.isFalse() {
		return v
	}
	return x.tb.Ite(p.nilc, x.tb.Int(0), v)
}

func (x *Ex) elemLoc(o *Obj, path string) string { return "[]." + path }

// load reads the value at p.
func (x *Ex) load(st *State, p *PtrV, pos *token.Pos, check bool) Value {
	return x.refresh(st, x.load0(st, p, pos, check))
}

// refresh gives a slice of a local array the current contents of that array.
func (x *Ex) refresh(st *State, v Value) Value {
	if b, ok := v.(*BytesV); ok && b.loc != "" {
		if src := x.curSrc(st, b); src != b.src {
			n := *b
			n.src = src
			if n.hi == x.blen(b.src) {
				n.hi = x.blen(src)
			}
			return &n
		}
	}
	return v
}

func (x *Ex) load0(st *State, p *PtrV, pos *token.Pos, check bool) Value {
	tb := x.tb
	if check {
		x.checkNil(st, p, *pos)
	}
	if p.tab != nil {
		return x.tableLoad(p)
	}
	if p.pun != "" {
		return x.punLoad(st, p, *pos)
	}
	if p.byt != nil {
		x.checkView(st, p.byt, *pos)
		return x.bat(x.curSrc(st, p.byt), tb.Add(p.byt.lo, p.idx))
	}
	if p.adr != nil {
		return x.memLoad(st, p.adr, p.typ)
	}
	if p.rs != nil {
		if s, ok := p.typ.Underlying().(*types.Struct); ok {
			r := &StructV{typ: p.typ}
			for i := 0; i < s.NumFields(); i++ {
				q := *p
				q.path = joinPath(p.path, s.Field(i).Name())
				q.typ = s.Field(i).Type()
				r.fs = append(r.fs, x.rsLoad(st, &q))
			}
			return r
		}
		return x.rsLoad(st, p)
	}
	if p.obj == nil {
		return x.mkValue("nilderef", p.typ, false, "")
	}
	if s, ok := p.typ.Underlying().(*types.Struct); ok {
		if _, isg := p.typ.(ghostT); !isg {
			r := &StructV{typ: p.typ}
			for i := 0; i < s.NumFields(); i++ {
				q := *p
				q.path = joinPath(p.path, s.Field(i).Name())
				q.typ = s.Field(i).Type()
				r.fs = append(r.fs, x.load(st, &q, pos, false))
			}
			return r
		}
	}
	if p.arr != nil {
		return x.arrLoad(st, p)
	}
	if x.isWindowLoc(p.obj, p.path) {
		return x.window(st, p.obj)
	}
	return x.getLoc(st, p.obj, p.path, p.typ)
}

func (x *Ex) itField(st *State, o *Obj, name string) *Term {
	p := &PtrV{obj: o, typ: o.typ}
	return x.load(st, x.fieldPtr(p, name), nil, false).(*Term)
}

func (x *Ex) window(st *State, o *Obj) Value {
	S := x.itField(st, o, "S")
	off := x.itField(st, o, "offset")
	tail := x.itField(st, o, "tail")
	return &BytesV{src: S, lo: off, hi: x.tb.Add(off, tail), nilc: x.tb.Bool(false), win: o, epoch: st.epoch, alias: "buffer"}
}

// wholeWindow: the code reads the field buffer, whose length is unknown and at
// least tail; only its first tail bytes are read from the stream.
func (x *Ex) wholeWindow(st *State, b *BytesV, i *ssa.UnOp) Value {
	n := *b
	n.full = x.tb.Fresh("buflen", SInt)
	l := x.tb.Sub(b.hi, b.lo)
	x.assume(st, x.tb.Le(l, n.full))
	for _, r := range *i.Referrers() {
		switch u := r.(type) {
		case *ssa.Slice, *ssa.IndexAddr, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if bi, ok := u.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				continue
			}
		}
		x.require(st, x.tb.Eq(l, n.full), "only the bytes read so far are used", i.Pos())
		n.full = nil
		break
	}
	return &n
}

// checkView: a window view may only be used while its bytes are still in the buffer.
func (x *Ex) checkView(st *State, b *BytesV, pos token.Pos) {
	if b.win == nil || b.epoch == st.epoch {
		return
	}
	x.require(st, x.itField(st, b.win, "capture"), "buffer view still valid", pos)
}

func (x *Ex) store(st *State, p *PtrV, v Value, pos token.Pos) {
	x.checkNil(st, p, pos)
	if p.pun != "" {
		unsup("store through a reinterpreted pointer")
	}
	if p.tab != nil {
		unsup("store to table %s", p.tab.Name())
	}
	if p.byt != nil {
		x.byteStore(st, p, v, pos)
		return
	}
	if p.adr != nil {
		x.memStore(st, p.adr, p.typ, v)
		return
	}
	if p.rs != nil {
		unsup("store into a read-only slice")
	}
	if p.obj == nil {
		return
	}
	if s, ok := p.typ.Underlying().(*types.Struct); ok {
		if sv, ok := v.(*StructV); ok {
			for i := 0; i < s.NumFields(); i++ {
				q := *p
				q.path = joinPath(p.path, s.Field(i).Name())
				q.typ = s.Field(i).Type()
				x.store(st, &q, sv.fs[i], pos)
			}
			return
		}
		unsup("store of %T into struct", v)
	}
	if p.arr != nil {
		x.arrStore(st, p, v)
		return
	}
	if x.isWindowLoc(p.obj, p.path) {
		unsup("assignment to the iterator buffer outside the refill contract")
	}
	if !x.concrete && p.obj != nil && p.obj.init && namedName(p.obj.typ) == "jzon.Iterator" && repField(p.path) {
		unsup("assignment to iterator field %s outside the functions that own the representation", p.path)
	}
	st.heap[x.locOf(p)] = v
}

func repField(path string) bool {
	switch path[strings.LastIndexByte(path, '.')+1:] {
	case "buffer", "tail", "offset", "reader", "fixbuf":
		return true
	}
	return false
}

func (x *Ex) byteStore(st *State, p *PtrV, v Value, pos token.Pos) {
	b := p.byt
	if b.loc == "" {
		x.fieldByteStore(st, b, p.idx, v.(*Term))
		return
	}
	cur, ok := st.heap[b.loc].(*BytesV)
	if !ok {
		unsup("store into byte slice without backing")
	}
	n := *cur
	n.src = mkBset(x.tb, cur.src, x.tb.Add(b.lo, p.idx), v.(*Term))
	st.heap[b.loc] = &n
}

// fieldByteStore writes one byte of a slice held by a field: every slice
// value with the same backing sees it.
func (x *Ex) fieldByteStore(st *State, b *BytesV, idx, c *Term) {
	if b.win != nil || b.alias != "" {
		unsup("store into a shared byte slice")
	}
	src := mkBset(x.tb, b.src, x.tb.Add(b.lo, idx), c)
	found := false
	upd := func(v *BytesV) *BytesV {
		n := *v
		n.src = src
		return &n
	}
	for _, m := range []map[string]Value{x.initVals, st.heap} {
		for _, k := range sortedKeys(m) {
			if m[k] != Value(nil) && (st.heap[k] == nil || st.heap[k] == m[k]) {
				if c, ok := m[k].(*BytesV); ok && c.src == b.src {
					st.heap[k] = upd(c)
					found = true
				}
			}
		}
	}
	if !found {
		unsup("store into a byte slice without location")
	}
	x.retarget(st, b.src, src)
}

// ---- slices with elements in SMT arrays

func (x *Ex) arrTerm(st *State, o *Obj, path string, et types.Type) *Term {
	loc := o.name + ".[]" + path
	if v, ok := st.heap[loc]; ok {
		return v.(*Term)
	}
	if v, ok := x.initVals[loc]; ok {
		return v.(*Term)
	}
	s, ok := elemSort(x, et)
	if !ok {
		unsup("slice of %s", et)
	}
	v := x.tb.Fresh(sanitize("arr_"+path), arrSort(s))
	x.initVals[loc] = v
	return v
}

// isTreeT: maps and slices of interface{}: owned by the field that holds them.
func isTreeT(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return isString(u.Key()) && isEfaceT(u.Elem())
	case *types.Slice:
		return isEfaceT(u.Elem())
	}
	return false
}

// elemSort is the sort of a field of slice elements. Maps and slices of
// interface{} are kept by value: jnil, jobj(m) or jarr(s).
func elemSort(x *Ex, t types.Type) (Sort, bool) {
	if isTreeT(t) {
		return "JV", true
	}
	return sortOfType(x, t)
}

// move records that v's contents now belong to another value: it must not be
// used any more.
func (x *Ex) move(st *State, v Value) {
	var o *Obj
	switch b := v.(type) {
	case *MapV:
		if b.nilc.isTrue() {
			return
		}
		if b.home != nil {
			x.killElem(st, b.home)
			return
		}
		o = b.obj
	case *SliceV:
		if b.nilc.isTrue() {
			return
		}
		if b.home != nil {
			x.killElem(st, b.home)
			return
		}
		o = b.obj
	}
	if st.moved == nil {
		st.moved = map[string]bool{}
	}
	st.moved[o.name] = true
}

func (x *Ex) checkLive(st *State, o *Obj) {
	if o != nil && st.moved[o.name] {
		unsup("use of %s after its contents were handed over", o.name)
	}
}

func (x *Ex) verOf(st *State, o *Obj) Value {
	return st.heap[o.name+".[]@ver"]
}

func (x *Ex) homeElem(st *State, h *View) *Term {
	x.checkLive(st, h.p.arr.obj)
	if x.verOf(st, h.p.arr.obj) != h.ver {
		unsup("map or slice read from an element that was replaced since")
	}
	a := x.arrTerm(st, h.p.arr.obj, h.p.path, h.p.typ)
	return mkSelect(x.tb, a, x.tb.Add(h.p.arr.off, h.p.idx), "JV")
}

func (x *Ex) setHome(st *State, h *View, t *Term) {
	a := x.arrTerm(st, h.p.arr.obj, h.p.path, h.p.typ)
	st.heap[h.p.arr.obj.name+".[]"+h.p.path] = x.tb.App("store", a.sort, a, x.tb.Add(h.p.arr.off, h.p.idx), t)
}

// killElem: the contents of the element's field were handed over.
func (x *Ex) killElem(st *State, h *View) {
	x.setHome(st, h, x.tb.App("jopq", "JV", x.tb.Int(0)))
}

// homeMap, homeSeq: contents of a view; the element must still own them.
func (x *Ex) homeMap(st *State, h *View, pos token.Pos) *Term {
	t := x.homeElem(st, h)
	m := x.tb.App("jobj_v", "JM", t)
	if t.op == "jobj" {
		m = t.args[0]
	}
	x.require(st, x.tb.Eq(t, x.tb.App("jobj", "JV", m)), "the element still owns its map", pos)
	return m
}

func (x *Ex) homeSeq(st *State, h *View, pos token.Pos) *Term {
	t := x.homeElem(st, h)
	s := x.tb.App("jarr_v", "JS", t)
	if t.op == "jarr" {
		s = t.args[0]
	}
	x.require(st, x.tb.Eq(t, x.tb.App("jarr", "JV", s)), "the element still owns its slice", pos)
	return s
}

// elemTerm converts a value stored into a field of a slice element.
func (x *Ex) elemTerm(st *State, v Value, t types.Type, pos token.Pos) *Term {
	if !isTreeT(t) {
		if isString(t) && !x.ownedVal(v) {
			x.require(st, x.tb.Bool(false), "stored string does not alias a reused buffer", pos)
		}
		return x.valueToTerm(st, v)
	}
	tb := x.tb
	var nilc, c *Term
	switch b := v.(type) {
	case *MapV:
		nilc = b.nilc
		if nilc.isTrue() {
			return x.jnil()
		}
		if b.home != nil {
			c = tb.App("jobj", "JV", x.homeMap(st, b.home, pos))
		} else {
			x.checkLive(st, b.obj)
			c = tb.App("jobj", "JV", x.mapTerm(st, b))
		}
	case *SliceV:
		nilc = b.nilc
		if nilc.isTrue() {
			return x.jnil()
		}
		if b.home != nil {
			c = tb.App("jarr", "JV", x.homeSeq(st, b.home, pos))
		} else {
			x.checkLive(st, b.obj)
			c = tb.App("jarr", "JV", x.jsTerm(st, b))
		}
	default:
		unsup("%T stored in a slice element", v)
	}
	x.move(st, v)
	if nilc.isFalse() {
		return c
	}
	return tb.Ite(nilc, x.jnil(), c)
}

func (x *Ex) arrLoad(st *State, p *PtrV) Value {
	x.checkLive(st, p.arr.obj)
	a := x.arrTerm(st, p.arr.obj, p.path, p.typ)
	es, _ := elemSort(x, p.typ)
	t := mkSelect(x.tb, a, x.tb.Add(p.arr.off, p.idx), es)
	if bits, signed, ok := intInfo(p.typ); ok {
		// element type range
		lo, hi := typeRange(bits, signed)
		x.assume(st, x.tb.And(x.tb.intern(&Term{op: "ge0", args: []*Term{x.tb.Sub(t, x.tb.Big(lo))}, sort: SBool}),
			x.tb.intern(&Term{op: "ge0", args: []*Term{x.tb.Sub(x.tb.Big(hi), t)}, sort: SBool})))
	}
	if isTreeT(p.typ) {
		h := &View{p: p, ver: x.verOf(st, p.arr.obj)}
		isNil := x.tb.Eq(t, x.jnil())
		if t.op == "jobj" || t.op == "jarr" {
			isNil = x.tb.Bool(false)
		}
		if _, ok := p.typ.Underlying().(*types.Map); ok {
			return &MapV{home: h, nilc: isNil}
		}
		l := x.tb.App("jslen", SInt, t)
		l.lo, l.hi = big0, maxLen
		c := x.tb.Fresh("viewcap", SInt)
		c.lo, c.hi = big0, maxLen
		return &SliceV{home: h, off: x.tb.Int(0), len: l, cap: c, nilc: isNil, et: p.typ.Underlying().(*types.Slice).Elem(), obj: &Obj{name: "view#", typ: p.typ, n: -1}}
	}
	return x.termToValue(t, p.typ)
}

func mkSelect(tb *TB, a, i *Term, es Sort) *Term {
	for a.op == "store" {
		d := tb.Sub(a.args[1], i)
		if d.isInt() {
			if d.k.Sign() == 0 {
				return a.args[2]
			}
			a = a.args[0]
			continue
		}
		break
	}
	return tb.App("select", es, a, i)
}

func (x *Ex) arrStore(st *State, p *PtrV, v Value) {
	a := x.arrTerm(st, p.arr.obj, p.path, p.typ)
	x.checkLive(st, p.arr.obj)
	if isTreeT(p.typ) {
		t := x.elemTerm(st, v, p.typ, token.NoPos)
		a = x.arrTerm(st, p.arr.obj, p.path, p.typ)
		st.heap[p.arr.obj.name+".[]@ver"] = x.tb.Fresh("ver", SInt)
		st.heap[p.arr.obj.name+".[]"+p.path] = x.tb.App("store", a.sort, a, x.tb.Add(p.arr.off, p.idx), t)
		return
	}
	t := x.elemTerm(st, v, p.typ, token.NoPos)
	st.heap[p.arr.obj.name+".[]"+p.path] = x.tb.App("store", a.sort, a, x.tb.Add(p.arr.off, p.idx), t)
}

func (x *Ex) sliceTerm(st *State, s *SliceV) *Term {
	es, ok := sortOfType(x, s.et)
	if ok && es == "JV" {
		return x.jsTerm(st, s)
	}
	if ok {
		return x.arrTerm(st, s.obj, "", s.et)
	}
	unsup("slice of %s as term", s.et)
	return nil
}

// []interface{} are modelled as JS sequences stored at "<obj>.js".
func (x *Ex) jsTerm(st *State, s *SliceV) *Term {
	if s.home != nil {
		return x.homeSeq(st, s.home, token.NoPos)
	}
	loc := s.obj.name + ".js"
	if v, ok := st.heap[loc]; ok {
		return v.(*Term)
	}
	if v, ok := x.initVals[loc]; ok {
		return v.(*Term)
	}
	if s.len.isInt() && s.len.k.Sign() == 0 {
		return x.tb.App("jsempty", "JS")
	}
	v := x.tb.Fresh("js", "JS")
	x.initVals[loc] = v
	return v
}

func (x *Ex) mapTerm(st *State, m *MapV) *Term {
	if m.home != nil {
		return x.homeMap(st, m.home, token.NoPos)
	}
	loc := m.obj.name + ".jm"
	if v, ok := st.heap[loc]; ok {
		return v.(*Term)
	}
	if v, ok := x.initVals[loc]; ok {
		return v.(*Term)
	}
	so := mapSort(m.obj.typ)
	if m.nilc.isTrue() {
		return emptyMap(x.tb, so)
	}
	v := x.tb.Fresh("jm", so)
	x.initVals[loc] = v
	return v
}

// ---- raw memory

func memKind(t types.Type) string {
	if bits, signed, ok := intInfo(t); ok {
		if signed {
			return fmt.Sprintf("i%d", bits)
		}
		return fmt.Sprintf("u%d", bits)
	}
	switch {
	case isBoolT(t):
		return "bool"
	case isString(t):
		return "str"
	case isByteSlice(t):
		return "bytes"
	case isUnsafePtr(t):
		return "ptr"
	case isEfaceT(t):
		return "eface"
	case isErrorT(t):
		return "iface"
	case isFloatT(t):
		if t.Underlying().(*types.Basic).Kind() == types.Float32 {
			return "f32"
		}
		return "f64"
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return "ptr"
	case *types.Interface:
		return "iface"
	}
	return ""
}

func (x *Ex) mem(st *State) *Term {
	if v, ok := st.heap["mem"]; ok {
		return v.(*Term)
	}
	if v, ok := x.initVals["mem"]; ok {
		return v.(*Term)
	}
	v := x.tb.Fresh("mem", "Mem")
	x.initVals["mem"] = v
	return v
}

func (x *Ex) memLoad(st *State, a *Term, t types.Type) Value {
	if s, ok := t.Underlying().(*types.Struct); ok {
		r := &StructV{typ: t}
		var offs []int64
		var fs []*types.Var
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i))
		}
		offs = x.prog.sizes.Offsetsof(fs)
		for i := range fs {
			r.fs = append(r.fs, x.memLoad(st, x.tb.Add(a, x.tb.Int(offs[i])), fs[i].Type()))
		}
		return r
	}
	k := memKind(t)
	if k == "" {
		unsup("raw memory load of %s", t)
	}
	es, _ := sortOfType(x, t)
	if k == "ptr" || k == "iface" {
		es = SInt
	}
	v := mkLd(x.tb, k, es, x.mem(st), a)
	if bits, signed, ok := intInfo(t); ok && v.op == "ld_"+k {
		lo, hi := typeRange(bits, signed)
		x.assume(st, x.tb.And(x.tb.intern(&Term{op: "ge0", args: []*Term{x.tb.Sub(v, x.tb.Big(lo))}, sort: SBool}),
			x.tb.intern(&Term{op: "ge0", args: []*Term{x.tb.Sub(x.tb.Big(hi), v)}, sort: SBool})))
	}
	r := x.termToValue(v, t)
	if b, ok := r.(*BytesV); ok && isByteSlice(t) {
		b.nilc = x.tb.App("ldnil", SBool, x.mem(st), a)
		x.assume(st, x.tb.Implies(b.nilc, x.tb.Eq(x.blen(v), x.tb.Int(0))))
	}
	return r
}

func mkLd(tb *TB, k string, es Sort, m, a *Term) *Term {
	if m.op == "st_"+k && m.args[1] == a {
		return m.args[2]
	}
	return tb.App("ld_"+k, es, m, a)
}

func (x *Ex) memStore(st *State, a *Term, t types.Type, v Value) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		sv, ok := v.(*StructV)
		if !ok {
			unsup("raw store of struct %T", v)
		}
		var fs []*types.Var
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i))
		}
		offs := x.prog.sizes.Offsetsof(fs)
		for i := range fs {
			x.memStore(st, x.tb.Add(a, x.tb.Int(offs[i])), fs[i].Type(), sv.fs[i])
		}
		return
	}
	k := memKind(t)
	if k == "" {
		unsup("raw memory store of %s", t)
	}
	var vt *Term
	if pv, ok := v.(*PtrV); ok {
		vt = x.ptrTerm(pv)
	} else {
		vt = x.valueToTerm(st, v)
	}
	if b, ok := v.(*BytesV); ok && (b.alias != "" || b.win != nil) {
		x.require(st, x.tb.Bool(false), "stored string does not alias a reused buffer", token.NoPos)
	}
	st.heap["mem"] = x.tb.App("st_"+k, "Mem", x.mem(st), a, vt)
}

func (x *Ex) ownedVal(v Value) bool {
	switch b := v.(type) {
	case *BytesV:
		return b.alias == "" && b.win == nil
	case *IfaceV:
		return x.ownedVal(b.dyn)
	case *StructV:
		for _, f := range b.fs {
			if !x.ownedVal(f) {
				return false
			}
		}
	}
	return true
}

// ---- assumptions and obligations

func (x *Ex) assume(st *State, t *Term) {
	x.sol.Assert(t)
}

func (x *Ex) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Ex) where(st *State) string {
	f := st.top().fn
	n := funcKey(f)
	if n != funcKey(x.fn) {
		return " in " + n
	}
	return ""
}

// require emits an obligation; afterwards it is assumed.
func (x *Ex) require(st *State, t *Term, name string, pos token.Pos) {
	if st.houdini() {
		x.assume(st, t)
		return
	}
	name += x.where(st)
	x.oblige(st, t, name, pos)
	x.assume(st, t)
}

func (x *Ex) oblige(st *State, t *Term, name string, pos token.Pos) bool {
	o := x.obls[name]
	if o == nil {
		o = &Obl{Func: funcKey(x.fn), Name: name, OK: true}
		x.obls[name] = o
		x.oblOrder = append(x.oblOrder, name)
	}
	o.Count++
	if !o.OK {
		return false
	}
	if x.prove(t) {
		return true
	}
	// the path itself may be infeasible beyond what pruning noticed
	o.OK = false
	o.Pos = x.posStr(pos)
	o.Info = trunc(t.String(), 600)
	o.Model = x.model(st, x.tb.Not(t))
	if x.verbose {
		fmt.Fprintf(os.Stderr, "FAIL %s: %s at %s\n   goal %s\n   model %s\n", o.Func, name, o.Pos, o.Info, o.Model)
		if os.Getenv("GOVC_PC") != "" {
			for _, l := range x.sol.levels {
				for _, a := range l.asserts {
					fmt.Fprintf(os.Stderr, "      pc %s\n", trunc(a.String(), 400))
				}
			}
		}
	}
	return false
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// prove tries conjuncts one by one.
func (x *Ex) prove(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !x.prove(a) {
				return false
			}
		}
		return true
	}
	if t.op == "=" && t.args[0].sort == SBs && (t.args[0].op == "snoc" || t.args[1].op == "snoc") {
		d := x.sol.Depth()
		x.sol.Push()
		ok := x.matchBs(t.args[0], t.args[1], 0)
		x.sol.PopTo(d)
		if ok {
			return true
		}
	}
	return x.sol.Valid(t)
}

// headBs rewrites a byte string term by the definitions of specification functions until its
// last constructor is visible, deciding conditions with the solver.
func (x *Ex) headBs(t *Term) *Term {
	for n := 0; n < 8; n++ {
		switch {
		case t.op == "ite":
			x.sol.prep(t.args[0])
			if x.sol.Valid(t.args[0]) {
				t = t.args[1]
			} else if x.sol.Valid(x.tb.Not(t.args[0])) {
				t = t.args[2]
			} else {
				return t
			}
		case x.sol.fns[t.op]:
			u := x.sol.unfold(t, 1)
			if u == nil {
				return t
			}
			t = u.args[1]
		default:
			return t
		}
	}
	return t
}

func (x *Ex) matchBs(a, b *Term, n int) bool {
	if a == b {
		return true
	}
	if n > 60 {
		return false
	}
	if x.sol.fns[a.op] && a.op == b.op {
		all := x.tb.Bool(true)
		for i := range a.args {
			if a.args[i] != b.args[i] {
				all = x.tb.And(all, x.tb.Eq(a.args[i], b.args[i]))
			}
		}
		if x.sol.Valid(all) {
			return true
		}
	}
	a, b = x.headBs(a), x.headBs(b)
	if a == b {
		return true
	}
	if a.op == "snoc" && b.op == "snoc" {
		e := x.tb.Eq(a.args[1], b.args[1])
		if !x.sol.Valid(e) {
			if x.verbose {
				fmt.Fprintf(os.Stderr, "  mismatch %s\n", e)
			}
			return false
		}
		return x.matchBs(a.args[0], b.args[0], n+1)
	}
	return x.sol.Valid(x.tb.Eq(a, b))
}

func (x *Ex) model(st *State, neg *Term) string {
	var ts []*Term
	for _, S := range x.streams {
		ts = append(ts, x.blen(S))
		for i := int64(0); i < 24; i++ {
			ts = append(ts, x.tb.App("bat", SInt, S, x.tb.Int(i)))
		}
	}
	if len(ts) == 0 {
		return ""
	}
	vals := x.sol.ModelOf(neg, ts)
	return strings.Join(vals, " ")
}

func (x *Ex) checkTime() {
	if time.Now().After(x.deadline) {
		panic(giveUp{"time limit reached"})
	}
}

// feasible decides a branch.
func (x *Ex) feasible(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	return x.sol.Feasible(t)
}

// ---- main loop

func (x *Ex) branch(st *State, cond *Term, f func(*State)) {
	if cond.isFalse() {
		return
	}
	d := x.sol.Depth()
	x.sol.Push()
	x.sol.Assert(cond)
	if cond.isTrue() || x.sol.Check() != Unsat {
		st.depth++
		f(st)
	}
	x.sol.PopTo(d)
}

func (x *Ex) run(st *State) {
	for {
		if x.abort {
			return
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			panic("fell off block")
		}
		ins := f.block.Instrs[f.pc]
		if len(st.frames) == 1 {
			x.seenIns[ins] = true
		}
		f.pc++
		switch i := ins.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			if !x.goTo(st, f.block.Succs[0]) {
				return
			}
		case *ssa.If:
			x.checkTime()
			c := x.val(st, i.Cond).(*Term)
			tb, fb := f.block.Succs[0], f.block.Succs[1]
			if c.isTrue() {
				if !x.goTo(st, tb) {
					return
				}
				continue
			}
			if c.isFalse() {
				if !x.goTo(st, fb) {
					return
				}
				continue
			}
			st2 := st.clone()
			x.branch(st, c, func(s *State) {
				if x.goTo(s, tb) {
					x.run(s)
				}
			})
			x.branch(st2, x.tb.Not(c), func(s *State) {
				if x.goTo(s, fb) {
					x.run(s)
				}
			})
			return
		case *ssa.Return:
			var res []Value
			for _, r := range i.Results {
				res = append(res, x.val(st, r))
			}
			if !x.doReturn(st, res, i.Pos()) {
				return
			}
		case *ssa.Panic:
			x.require(st, x.tb.Bool(false), "no panic", i.Pos())
			return
		case *ssa.Call:
			if !x.call(st, i) {
				return
			}
		case *ssa.Defer:
			fv, args := x.callee(st, &i.Call)
			f.defers = append(f.defers, &deferred{call: &i.Call, fn: fv, args: args})
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				f.pc-- // come back for the rest
				if !x.doCall(st, nil, d.call, d.fn, d.args, i.Pos(), nil) {
					return
				}
			}
		case *ssa.Store:
			p, ok := x.val(st, i.Addr).(*PtrV)
			if !ok {
				unsup("store through %T", x.val(st, i.Addr))
			}
			x.store(st, p, x.val(st, i.Val), i.Pos())
		case *ssa.MapUpdate:
			x.mapUpdate(st, i)
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("concurrency")
		default:
			v, ok := ins.(ssa.Value)
			if !ok {
				unsup("instruction %T", ins)
			}
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && isString(u.Type()) {
				if p, ok := x.val(st, u.X).(*PtrV); ok && (p.stab != nil || p.tab != nil) && !p.idx.isInt() {
					x.forkStr(st, u, p)
					return
				}
			}
			r, alive := x.instr(st, v)
			if !alive {
				return
			}
			f.env[v] = r
		}
	}
}

// goTo moves to block b; false: path ended (or was continued elsewhere).
func (x *Ex) goTo(st *State, b *ssa.BasicBlock) bool {
	fi := len(st.frames) - 1
	f := st.top()
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.frame != fi || l.blocks[b] {
			break
		}
		if l.houdini {
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	f.prev, f.block, f.pc = f.block, b, 0
	if n := len(st.loops); n > 0 {
		l := st.loops[n-1]
		if l.frame == fi && l.header == b {
			l.onBack(st)
			return false
		}
	}
	if lp := x.prog.loopsOf(f.fn)[b]; lp != nil {
		x.enterLoop(st, b, lp)
		return false
	}
	x.phis(st)
	return true
}

func (x *Ex) phiIn(st *State) map[*ssa.Phi]Value {
	f := st.top()
	idx := -1
	for i, p := range f.block.Preds {
		if p == f.prev {
			idx = i
		}
	}
	m := map[*ssa.Phi]Value{}
	for _, ins := range f.block.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		m[ph] = x.val(st, ph.Edges[idx])
	}
	return m
}

func (x *Ex) phis(st *State) {
	f := st.top()
	m := x.phiIn(st)
	for ph, v := range m {
		f.env[ph] = v
	}
	f.pc = len(m)
}

func (x *Ex) doReturn(st *State, res []Value, pos token.Pos) bool {
	fi := len(st.frames) - 1
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.frame != fi {
			break
		}
		if l.houdini {
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	f := st.top()
	if fi == 0 {
		x.returns++
		x.atReturn(st, res, pos)
		return false
	}
	st.frames = st.frames[:fi]
	g := st.top()
	if f.call != nil {
		switch len(res) {
		case 0:
		case 1:
			g.env[f.call] = res[0]
		default:
			g.env[f.call] = TupleV(res)
		}
	}
	return true
}

func (x *Ex) val(st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.globalPtr(st, c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return c
	case *ssa.FreeVar:
		if r, ok := st.top().env[v]; ok {
			return r
		}
		unsup("free variable %s", v.Name())
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn))
	}
	return x.refresh(st, r)
}

func (x *Ex) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return x.tb.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return x.strLit(constant.StringVal(c.Value))
	case constant.Int:
		if isFloatT(t) {
			return x.floatConst(c)
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return x.tb.Big(n)
	case constant.Float:
		if _, _, ok := intInfo(t); ok {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return x.tb.Big(n)
		}
		return x.floatConst(c)
	}
	unsup("constant %s", c)
	return nil
}

func (x *Ex) floatConst(c *ssa.Const) Value {
	if constant.Sign(c.Value) == 0 {
		return x.zero(c.Type())
	}
	so, r := Sort("F64"), int64(0)
	if c.Type().Underlying().(*types.Basic).Kind() == types.Float32 {
		so = "F32"
		f, _ := constant.Float32Val(c.Value)
		r = int64(math.Float32bits(f) & 0x7fffffff)
	} else {
		f, _ := constant.Float64Val(c.Value)
		r = int64(math.Float64bits(f) & (1<<63 - 1))
	}
	if constant.Sign(c.Value) < 0 {
		r = -r
	}
	return x.tb.App("fofrank"+string(so[1:]), so, x.tb.Int(r))
}

func (x *Ex) globalPtr(st *State, g *ssa.Global) Value {
	elem := g.Type().Underlying().(*types.Pointer).Elem()
	key := "glob:" + g.Pkg.Pkg.Path() + "." + g.Name()
	o := x.objs[key]
	if o == nil {
		o = &Obj{name: key, typ: elem, init: true}
		x.objs[key] = o
		// error sentinels
		if isErrorT(elem) {
			x.initVals[key+"."] = x.tb.Int(x.prog.errCode(g))
		} else if v := x.prog.globalConst(g); v != nil {
			x.initVals[key+"."] = x.constVal(v)
		}
		if _, ok := elem.Underlying().(*types.Pointer); ok && !x.prog.mutable[g] {
			v := x.mkValue(sanitize(g.Name()), elem, true, "")
			v.(*PtrV).nilc = x.tb.Bool(false)
			x.initVals[key+"."] = v
		}
	}
	p := &PtrV{obj: o, typ: elem, nilc: x.tb.Bool(false)}
	if _, ok := elem.Underlying().(*types.Array); ok {
		p.tab = g
	}
	return p
}

func sortedKeys(m map[string]Value) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// curSrc is the current contents of the backing store of b.
func (x *Ex) curSrc(st *State, b *BytesV) *Term {
	if b.loc != "" {
		if cur, ok := st.heap[b.loc].(*BytesV); ok {
			return cur.src
		}
	}
	return b.src
}

// retarget: the bytes old are now src, for every slice value at hand.
func (x *Ex) retarget(st *State, old, src *Term) {
	upd := func(v *BytesV) *BytesV {
		n := *v
		n.src = src
		if n.hi == x.blen(old) {
			n.hi = x.blen(src)
		}
		return &n
	}
	for _, f := range st.frames {
		for r, v := range f.env {
			switch w := v.(type) {
			case *BytesV:
				if w.src == old {
					if !isByteSlice(r.Type()) {
						unsup("store into bytes also held by a string")
					}
					f.env[r] = upd(w)
				}
			case *PtrV:
				if w.byt != nil && w.byt.src == old {
					q := *w
					q.byt = upd(w.byt)
					f.env[r] = &q
				}
			case TupleV, *StructV, *DataV, *IfaceV:
				for _, t := range comps(v) {
					if t == old {
						unsup("store into bytes held by a composite value")
					}
				}
			}
		}
	}
}
