package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

// BytesV is a []byte or string: bytes lo..hi-1 of sequence src.
type BytesV struct {
	src, lo, hi *Term
	nilc        *Term // Bool: is nil slice
	win         *Obj  // window view on this iterator's stream
	full        *Term // the whole buffer: its length, at least that of the window
	epoch       int
	alias       string // "" owned; otherwise name of the buffer it aliases
	capT        *Term  // nil: unknown
	loc         string // concrete mode: heap location of backing store
}

// SliceV is a slice of non-byte elements backed by obj.
type SliceV struct {
	obj           *Obj
	off, len, cap *Term
	nilc          *Term
	et            types.Type
	home          *View // held by an element of another slice
}

// View is a map or slice read from a field of a slice element, which owns it.
type View struct {
	p   *PtrV
	ver Value // version of the element array when it was read
}

// RSliceV is a slice whose elements are never written once it is shared
// (declared "readonly" in the contracts): element fields are functions of
// the list identity and the index.
type RSliceV struct {
	id, off, len *Term
	et           types.Type
}

// PtrV points to a location.
type PtrV struct {
	obj  *Obj
	path string // leaf path inside obj ("" whole object)
	typ  types.Type
	nilc *Term
	// element pointers
	arr  *SliceV // slice element: arr content of obj at index idx, then path
	idx  *Term
	tab  *ssa.Global // element of a table
	stab *Term       // element of a string table known by its class
	byt  *BytesV     // element of a byte sequence
	adr  *Term       // raw address (unsafe memory)
	id   *Term       // identity of the interface value it was taken from
	rs   *RSliceV    // element of a read-only slice: idx, then path
	pun  string      // "str": a string seen as its header; "hdr": a slice header seen as []byte
}

// DataV is the data pointer of a byte sequence.
type DataV struct{ b *BytesV }

type Obj struct {
	name string
	typ  types.Type
	init bool // lazily initialised symbolic contents (exists before the call)
	n    int
	from *Obj // loop head object: the object it stands for on entry
}

type TupleV []Value
type StructV struct {
	typ types.Type
	fs  []Value
}
type FuncV struct {
	fn    *ssa.Function
	binds []Value
	recv  Value
}
type FuncTabV struct {
	tab *ssa.Global
	idx *Term
}

// OpaqueV is a value the model knows nothing about (identity only).
type OpaqueV struct {
	t   *Term
	typ types.Type
}

// MapV is a map reference.
type MapV struct {
	obj  *Obj
	nilc *Term
	home *View
}

// IfaceV is an interface with known dynamic contents (t is its abstraction).
type IfaceV struct {
	t   *Term
	dyn Value
	dt  types.Type
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func comps(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *BytesV:
		return []*Term{x.src, x.lo, x.hi, x.nilc}
	case *SliceV:
		return []*Term{x.off, x.len, x.cap, x.nilc}
	case *PtrV:
		if x.adr != nil {
			return []*Term{x.adr}
		}
		if x.rs != nil {
			return []*Term{x.rs.id, x.idx, x.nilc}
		}
		if x.idx != nil {
			return []*Term{x.idx, x.nilc}
		}
		return []*Term{x.nilc}
	case TupleV:
		var r []*Term
		for _, y := range x {
			r = append(r, comps(y)...)
		}
		return r
	case *StructV:
		var r []*Term
		for _, y := range x.fs {
			r = append(r, comps(y)...)
		}
		return r
	case *OpaqueV:
		return []*Term{x.t}
	case *RSliceV:
		return []*Term{x.id, x.off, x.len}
	case *IfaceV:
		return []*Term{x.t}
	case *MapV:
		return []*Term{x.nilc}
	case nil:
		return nil
	case *FuncV, *FuncTabV:
		return nil
	}
	panic(fmt.Sprintf("comps %T", v))
}

// shape must agree for values to be merged at a loop head.
func shape(v Value) string {
	switch x := v.(type) {
	case *Term:
		return "t:" + string(x.sort)
	case *BytesV:
		w := ""
		if x.win != nil {
			w = x.win.name
		}
		return "b:" + w
	case *SliceV:
		if x.home != nil {
			return "sv"
		}
		return "s:" + x.obj.name
	case *PtrV:
		if x.adr != nil {
			return "p@"
		}
		if x.rs != nil {
			return "pr:" + x.path + shortType(x.rs.et)
		}
		o := ""
		if x.obj != nil {
			o = x.obj.name
		}
		return "p:" + o + "." + x.path
	case TupleV:
		s := "T"
		for _, y := range x {
			s += "," + shape(y)
		}
		return s
	case *StructV:
		s := "S"
		for _, y := range x.fs {
			s += "," + shape(y)
		}
		return s
	case *OpaqueV:
		return "o:" + string(x.t.sort)
	case *RSliceV:
		return "rs:" + shortType(x.et)
	case *IfaceV:
		return "o:" + string(x.t.sort)
	case *MapV:
		if x.home != nil {
			return "mv"
		}
		return "m:" + x.obj.name
	case *FuncV:
		return "f:" + x.fn.String()
	case *FuncTabV:
		return "ft"
	case nil:
		return "nil"
	}
	panic(fmt.Sprintf("shape %T", v))
}

func withComps(v Value, ts []*Term) Value {
	r, rest := withComps1(v, ts)
	if len(rest) != 0 {
		panic("withComps")
	}
	return r
}
func withComps1(v Value, ts []*Term) (Value, []*Term) {
	switch x := v.(type) {
	case *Term:
		return ts[0], ts[1:]
	case *BytesV:
		y := *x
		y.src, y.lo, y.hi, y.nilc = ts[0], ts[1], ts[2], ts[3]
		return &y, ts[4:]
	case *SliceV:
		y := *x
		y.off, y.len, y.cap, y.nilc = ts[0], ts[1], ts[2], ts[3]
		return &y, ts[4:]
	case *PtrV:
		y := *x
		if x.adr != nil {
			y.adr = ts[0]
			return &y, ts[1:]
		}
		if x.rs != nil {
			r := *x.rs
			r.id = ts[0]
			y.rs, y.idx, y.nilc = &r, ts[1], ts[2]
			return &y, ts[3:]
		}
		if x.idx != nil {
			y.idx, y.nilc = ts[0], ts[1]
			return &y, ts[2:]
		}
		y.nilc = ts[0]
		return &y, ts[1:]
	case TupleV:
		r := make(TupleV, len(x))
		for i, y := range x {
			r[i], ts = withComps1(y, ts)
		}
		return r, ts
	case *StructV:
		r := &StructV{typ: x.typ, fs: make([]Value, len(x.fs))}
		for i, y := range x.fs {
			r.fs[i], ts = withComps1(y, ts)
		}
		return r, ts
	case *OpaqueV:
		return &OpaqueV{t: ts[0], typ: x.typ}, ts[1:]
	case *RSliceV:
		return &RSliceV{id: ts[0], off: ts[1], len: ts[2], et: x.et}, ts[3:]
	case *IfaceV:
		if ts[0] == x.t {
			return x, ts[1:]
		}
		return &OpaqueV{t: ts[0], typ: x.dt}, ts[1:]
	case *MapV:
		return &MapV{obj: x.obj, nilc: ts[0]}, ts[1:]
	default:
		return v, ts
	}
}

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		hi = new(big.Int).Lsh(big1, uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big1)
		return
	}
	return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isErrorT(t types.Type) bool {
	return types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying())
}
func isEfaceT(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}
func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return "" })
	return strings.TrimPrefix(s, ".")
}
