package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scanPools registers the constructor of each sync.Pool under "poolnew:T" (T: pooled type).
func (p *Prog) scanPools() {
	for _, fn := range p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isSyncPool(fa.X.Type()) {
					continue
				}
				var f *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					f = v
				case *ssa.MakeClosure:
					f, _ = v.Fn.(*ssa.Function)
				}
				if f == nil {
					continue
				}
				for _, fb := range f.Blocks {
					for _, fi := range fb.Instrs {
						if mi, ok := fi.(*ssa.MakeInterface); ok {
							if pt, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
								p.funcs["poolnew:"+strings.TrimPrefix(namedName(pt.Elem()), "jzon.")] = f
							}
						}
					}
				}
			}
		}
	}
}

func isSyncPool(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() == "Pool"
}

func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if !seen[f] {
			seen[f] = true
			add(f)
		}
	}
	if f := p.ssaPkg.Func("init"); f != nil && !seen[f] {
		add(f)
	}
	return out
}

// repFrame: the fields behind the iterator's representation invariant are written only by
// functions verified against it (concrete mode), by constructors verified against it, or by
// helpers called only from those. Everything else leaves the invariant alone.
func (p *Prog) repFrame(spec *Spec, no map[string]bool) *FuncResult {
	r := &FuncResult{Key: "frame of the iterator representation"}
	owner := map[*ssa.Function]bool{}
	for k, c := range spec.Contracts {
		if c.Kind == "func" && c.Flags["concrete"] && !no[k] {
			if f := p.funcs[k]; f != nil {
				owner[f] = true
			}
		}
	}
	all := p.allFuncs()
	// static references to each function
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{}
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if c, ok := ins.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if f == callee {
							if callers[f] == nil {
								callers[f] = map[*ssa.Function]bool{}
							}
							callers[f][fn] = true
						} else {
							other[f] = true
						}
					}
				}
			}
		}
	}
	writes := map[*ssa.Function]string{}
	for _, fn := range all {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					if w := repWrite(fa); w != "" {
						writes[fn] = w
					}
				}
				if st, ok := ins.(*ssa.Store); ok { // whole-struct store
					if pt, ok := st.Addr.Type().Underlying().(*types.Pointer); ok && repType(namedName(pt.Elem())) {
						if _, fresh := st.Addr.(*ssa.Alloc); !fresh {
							writes[fn] = "whole struct"
						}
					}
				}
			}
		}
	}
	ok := map[*ssa.Function]bool{}
	for f := range owner {
		ok[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f := range writes {
			if ok[f] || other[f] || len(callers[f]) == 0 || (f.Object() != nil && f.Object().Exported()) {
				continue
			}
			all := true
			for c := range callers[f] {
				if !ok[c] {
					all = false
				}
			}
			if all {
				ok[f] = true
				ch = true
			}
		}
	}
	good := true
	var bad []string
	for f, w := range writes {
		if !ok[f] {
			good = false
			bad = append(bad, funcKey(f)+" ("+w+")")
		}
	}
	sortStrings(bad)
	name := "buffer, tail, offset, reader and fixbuf are written only under the representation invariant"
	if !good {
		name += ": " + strings.Join(bad, ", ")
	}
	r.Obls = append(r.Obls, &Obl{Func: r.Key, Name: name, OK: good, Count: len(writes)})
	return r
}

func repType(n string) bool { return n == "jzon.Iterator" || n == "jzon.iteratorEmbedded" }

// repWrite: the field address is used for anything but loads.
func repWrite(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer)
	if !repType(namedName(pt.Elem())) {
		return ""
	}
	st := pt.Elem().Underlying().(*types.Struct)
	f := st.Field(fa.Field).Name()
	if !repField(f) {
		return ""
	}
	if _, fresh := fa.X.(*ssa.Alloc); fresh && namedName(pt.Elem()) == "jzon.iteratorEmbedded" {
		return ""
	}
	for _, ref := range *fa.Referrers() {
		switch u := ref.(type) {
		case *ssa.UnOp:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			if u.Addr == fa {
				return f
			}
			return f
		default:
			return f
		}
	}
	return ""
}
