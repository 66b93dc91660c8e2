package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cand is an instantiated candidate invariant.
type cand struct {
	name string
	eval func(ev *loopEnv) *Term
	live bool
}

// loopEnv evaluates candidates in a state with given phi values.
type loopEnv struct {
	x    *Ex
	st   *State
	phi  map[*ssa.Phi]Value
	in   *loopEnv
	memo map[string]*Eval
}

type slot struct {
	phi *ssa.Phi
	loc string
}

func (s slot) key() string {
	if s.phi != nil {
		return "phi " + s.phi.Name()
	}
	return s.loc
}

type modset struct {
	objs  map[string]*Obj
	comp  map[string]map[int]bool
	alias map[string]string
	obj   map[string]bool
	epoch bool
}

// norm brings byte values into whole form (lo = 0, hi = len).
func (x *Ex) norm(v Value) Value {
	switch b := v.(type) {
	case *BytesV:
		if b.win != nil || b.loc != "" {
			return b
		}
		if b.lo.isInt() && b.lo.k.Sign() == 0 && b.hi == x.blen(b.src) {
			if b.capT == nil {
				return b
			}
		}
		n := *b
		n.src = x.whole(b)
		n.lo = x.tb.Int(0)
		n.hi = x.blen(n.src)
		if !x.concrete {
			n.capT = nil
		}
		return &n
	case *IfaceV:
		return &OpaqueV{t: b.t, typ: b.dt}
	}
	return v
}

func (x *Ex) typeOfLoc(loc string) types.Type {
	i := strings.IndexByte(loc, '#')
	if i < 0 {
		return nil
	}
	j := strings.IndexByte(loc[i:], '.')
	if j < 0 {
		return nil
	}
	o := x.objs[loc[:i+j]]
	if o == nil {
		return nil
	}
	t := o.typ
	path := loc[i+j+1:]
	if path == "" {
		return t
	}
	for _, f := range strings.Split(path, ".") {
		if n, ok := t.(*types.Named); ok {
			if s, ok := x.spec.Ghosts[n.Obj().Name()][f]; ok {
				return ghostType(s)
			}
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == f {
				t = s.Field(k).Type()
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return t
}

func (x *Ex) freshLike(name string, t *Term, typ types.Type) *Term {
	v := x.tb.Fresh(sanitize(name), t.sort)
	if t.sort == SInt && typ != nil {
		if bits, signed, ok := intInfo(typ); ok {
			v.lo, v.hi = typeRange(bits, signed)
		} else if isErrorT(typ) || isUnsafePtr(typ) {
			v.lo = big0
		}
	}
	return v
}

// havocComps replaces flagged components by fresh symbols.
func (x *Ex) havocV(st *State, key string, v Value, typ types.Type, m *modset, fresh map[*Term]bool) Value {
	flags := m.comp[key]
	if a, ok := m.alias[key]; ok {
		if b, ok2 := v.(*BytesV); ok2 {
			n := *b
			n.alias = a
			v = &n
		}
	}
	if len(flags) == 0 && !m.obj[key] {
		return v
	}
	tb := x.tb
	nm := key
	if i := strings.LastIndexByte(nm, '.'); i >= 0 {
		nm = nm[i+1:]
	}
	nm = strings.ReplaceAll(nm, "phi ", "")
	switch b := v.(type) {
	case *BytesV:
		n := *b
		if b.win == nil && b.loc == "" {
			n.src = tb.Fresh(sanitize(nm), SBs)
			fresh[n.src] = true
			n.hi = x.blen(n.src)
			if x.concrete {
				n.capT = tb.Fresh(sanitize(nm)+"_cap", SInt)
				n.capT.lo, n.capT.hi = big0, maxLen
				x.assume(st, tb.Le(n.hi, n.capT))
			}
			if flags[3] {
				n.nilc = tb.Fresh(sanitize(nm)+"_nil", SBool)
			}
			return &n
		}
		cs := comps(b)
		for i := range cs {
			if flags[i] {
				cs[i] = x.freshLike(nm, cs[i], nil)
				if i == 1 || i == 2 {
					cs[i].lo, cs[i].hi = big0, maxLen
				}
				fresh[cs[i]] = true
			}
		}
		return withComps(b, cs)
	case *SliceV:
		n := *b
		if m.obj[key] {
			if m.objs[key] == nil {
				m.objs[key] = x.newObj("loop_"+sanitize(nm), b.obj.typ, true)
				m.objs[key].from = b.obj
			}
			n.obj = m.objs[key]
		}
		if flags[0] {
			n.off = tb.Fresh(nm+"_off", SInt)
		}
		if flags[1] {
			n.len = tb.Fresh(nm+"_len", SInt)
			n.len.lo, n.len.hi = big0, maxLen
			fresh[n.len] = true
		}
		if flags[2] || m.obj[key] {
			n.cap = tb.Fresh(nm+"_cap", SInt)
			n.cap.lo, n.cap.hi = big0, maxLen
		}
		x.assume(st, tb.Le(n.len, n.cap))
		if flags[3] {
			n.nilc = tb.Fresh(nm+"_nil", SBool)
		}
		return &n
	}
	cs := comps(v)
	for i := range cs {
		if flags[i] {
			cs[i] = x.freshLike(nm, cs[i], typ)
			if ov, ok := v.(*OpaqueV); ok && ov.t.sort == SInt {
				cs[i].lo = big0
			}
			fresh[cs[i]] = true
		}
	}
	return withComps(v, cs)
}

// diffV flags components in which back differs from head.
func (x *Ex) diffV(key string, head, back Value, m *modset) bool {
	ch := false
	hb, ok1 := head.(*BytesV)
	bb, ok2 := back.(*BytesV)
	if ok1 && ok2 && hb.alias != bb.alias {
		if hb.alias != "" && bb.alias != "" {
			unsup("byte slices of different buffers merge in a loop")
		}
		a := hb.alias + bb.alias
		if m.alias[key] != a {
			m.alias[key] = a
			ch = true
		}
	}
	hs, ok1 := head.(*SliceV)
	bs, ok2 := back.(*SliceV)
	if ok1 && ok2 {
		if hs.obj != bs.obj && !m.obj[key] {
			m.obj[key] = true
			ch = true
		}
	} else if shape(head) != shape(back) {
		unsup("value %s changes shape in a loop (%s, %s)", key, shape(head), shape(back))
	}
	a, b := comps(head), comps(back)
	if x.concrete && hb != nil && bb != nil && hb.capT != bb.capT && hb.win == nil && hb.loc == "" && !m.comp[key][0] {
		if m.comp[key] == nil {
			m.comp[key] = map[int]bool{}
		}
		m.comp[key][0] = true
		ch = true
	}
	for i := range a {
		if a[i] != b[i] {
			if hb != nil && (i == 1 || i == 2) && hb.win == nil && hb.loc == "" {
				continue
			}
			f := m.comp[key]
			if f == nil {
				f = map[int]bool{}
				m.comp[key] = f
			}
			if !f[i] {
				f[i] = true
				ch = true
			}
		}
	}
	return ch
}

func (x *Ex) liveLoc(k string) bool {
	return !strings.Contains(k, ".{") && !strings.HasPrefix(k, "varargs")
}

func (x *Ex) enterLoop(st *State, header *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) {
	x.loopsN++
	f := st.top()
	fi := len(st.frames) - 1
	entryPhi := x.phiIn(st)
	var phis []*ssa.Phi
	for p, v := range entryPhi {
		entryPhi[p] = x.norm(v)
		phis = append(phis, p)
	}
	sort.Slice(phis, func(i, j int) bool { return phis[i].Name() < phis[j].Name() })
	for k, v := range st.heap {
		st.heap[k] = x.norm(v)
	}
	for p, v := range entryPhi {
		f.env[p] = v
	}
	entry := st
	inEnv := &loopEnv{x: x, st: entry, phi: entryPhi}
	m := &modset{comp: map[string]map[int]bool{}, alias: map[string]string{}, obj: map[string]bool{}, objs: map[string]*Obj{}}
	cands := x.candidates(entry, phis, entryPhi)
	// initiation
	for _, c := range cands {
		t := x.tryCand(c, &loopEnv{x: x, st: entry, phi: entryPhi, in: inEnv})
		c.live = t != nil && (t.isTrue() || !t.isFalse() && x.sol.Valid(t))
	}
	build := func(s *State) (*State, map[*ssa.Phi]Value) {
		h := entry.clone()
		fresh := map[*Term]bool{}
		hp := map[*ssa.Phi]Value{}
		for _, p := range phis {
			hp[p] = x.havocV(h, "phi "+p.Name(), entryPhi[p], p.Type(), m, fresh)
		}
		mods := map[string]bool{}
		for k := range m.comp {
			mods[k] = true
		}
		for k := range m.obj {
			mods[k] = true
		}
		for k := range m.alias {
			mods[k] = true
		}
		var ks []string
		for k := range mods {
			if !strings.HasPrefix(k, "phi ") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			v, ok := h.heap[k]
			if !ok {
				v = x.initVals[k]
			}
			if v == nil {
				continue
			}
			h.heap[k] = x.havocV(h, k, x.norm(v), x.typeOfLoc(k), m, fresh)
		}
		if m.epoch {
			x.epochN++
			h.epoch = 1000000 * x.epochN
		}
		// assume invariants
		var facts []*Term
		le := &loopEnv{x: x, st: h, phi: hp, in: inEnv}
		for _, c := range cands {
			if c.live {
				facts = append(facts, x.tryCand(c, le))
			}
		}
		rest, sub := x.solve(facts, fresh)
		for p, v := range hp {
			hp[p] = x.substV(v, sub)
		}
		for _, k := range ks {
			if v := h.heap[k]; v != nil {
				h.heap[k] = x.substV(v, sub)
			}
		}
		for _, t := range rest {
			x.assume(h, t)
		}
		hf := h.frames[fi]
		for p, v := range hp {
			hf.env[p] = v
		}
		hf.pc = len(phis)
		return h, hp
	}
	heapVal := func(s *State, k string) Value {
		if v, ok := s.heap[k]; ok {
			return x.norm(v)
		}
		if v, ok := x.initVals[k]; ok {
			return x.norm(v)
		}
		return nil
	}
	diff := func(h, s *State, hp, bp map[*ssa.Phi]Value) bool {
		ch := false
		for _, p := range phis {
			if x.diffV("phi "+p.Name(), hp[p], bp[p], m) {
				ch = true
			}
		}
		seen := map[string]bool{}
		for _, hm := range []map[string]Value{s.heap, h.heap} {
			for _, k := range sortedKeys(hm) {
				if seen[k] || !x.liveLoc(k) {
					continue
				}
				seen[k] = true
				hv := heapVal(h, k)
				if hv == nil {
					continue // allocated inside the loop
				}
				if x.diffV(k, hv, heapVal(s, k), m) {
					ch = true
				}
			}
		}
		if s.epoch != h.epoch && !m.epoch {
			m.epoch = true
			ch = true
		}
		return ch
	}
	headObj := x.objN
	// ownership is not lost over an iteration
	backMoved := func(h, s *State, bp map[*ssa.Phi]Value) {
		lo := map[string]bool{}
		for _, o := range m.objs {
			lo[o.name] = true
		}
		for k := range s.moved {
			if o := x.objs[k]; o == nil || h.moved[k] || lo[k] || o.n > headObj {
				continue
			}
			unsup("%s is handed over inside a loop", k)
		}
		live := func(v Value) {
			switch b := v.(type) {
			case *SliceV:
				if b.home != nil {
					unsup("slice held by an element is carried over an iteration")
				}
				x.checkLive(s, b.obj)
			case *MapV:
				if b.home != nil {
					unsup("map held by an element is carried over an iteration")
				}
				x.checkLive(s, b.obj)
			}
		}
		for _, v := range bp {
			live(v)
		}
		for k := range m.obj {
			if !strings.HasPrefix(k, "phi ") {
				live(s.heap[k])
			}
		}
	}
	outerAbort := x.abort
	for pass := 0; ; pass++ {
		if pass > 60 {
			panic(giveUp{"loop invariant inference does not converge"})
		}
		x.checkTime()
		changed := false
		d := x.sol.Depth()
		x.sol.Push()
		h, hp := build(entry)
		hs := h.clone() // h itself is consumed by the run below
		rec := &loopRec{frame: fi, header: header, blocks: blocks, houdini: true}
		rec.onBack = func(s *State) {
			bp := x.phiIn(s)
			for p, v := range bp {
				bp[p] = x.norm(v)
			}
			if diff(hs, s, hp, bp) {
				changed = true
				x.abort = true
				return
			}
			backMoved(hs, s, bp)
			le := &loopEnv{x: x, st: s, phi: bp, in: inEnv}
			for _, c := range cands {
				if !c.live {
					continue
				}
				t := x.tryCand(c, le)
				if t == nil || !x.prove(t) {
					if x.traceInv {
						fmt.Fprintf(os.Stderr, "    drop %s: %s\n", c.name, trunc(fmt.Sprint(t), 300))
					}
					c.live = false
					changed = true
				}
			}
		}
		h.loops = append(h.loops, rec)
		x.run(h)
		x.sol.PopTo(d)
		x.abort = outerAbort
		if !changed {
			break
		}
	}
	// final pass
	d := x.sol.Depth()
	x.sol.Push()
	h, hp := build(entry)
	n := 0
	var names []string
	for _, c := range cands {
		if c.live {
			n++
			names = append(names, c.name)
		}
	}
	hou := st.houdini()
	if x.traceInv && !hou {
		fmt.Fprintf(os.Stderr, "  loop at block %d of %s: %d invariants, modset %v\n", header.Index, funcKey(f.fn), n, m.comp)
		for _, s := range names {
			fmt.Fprintf(os.Stderr, "    inv %s\n", s)
		}
	}
	if !hou {
		x.invCount += n
	}
	headEnv := &loopEnv{x: x, st: h.clone(), phi: hp, in: inEnv}
	meas := x.measures(headEnv, phis)
	type edge struct{ dec, non []bool }
	var edges []edge
	rec := &loopRec{frame: fi, header: header, blocks: blocks}
	hEnd := h.clone()
	rec.onBack = func(s *State) {
		backMoved(hEnd, s, x.phiIn(s))
		if hou || x.con.Flags["noterm"] {
			return
		}
		bp := x.phiIn(s)
		le := &loopEnv{x: x, st: s, phi: bp, in: inEnv}
		e := edge{make([]bool, len(meas)), make([]bool, len(meas))}
		for i, mm := range meas {
			b := mm(le)
			a := mm(headEnv)
			if a == nil || b == nil {
				continue
			}
			if x.prove(x.tb.And(x.tb.Lt(b, a), x.tb.Le(x.tb.Int(0), a))) {
				e.dec[i] = true
				e.non[i] = true
			} else if x.prove(x.tb.Le(b, a)) {
				e.non[i] = true
			}
		}
		edges = append(edges, e)
	}
	h.loops = append(h.loops, rec)
	x.run(h)
	x.sol.PopTo(d)
	if !hou && !x.con.Flags["noterm"] && len(edges) > 0 {
		left := edges
		for {
			prog := false
			for i := range meas {
				ok, some := true, false
				for _, e := range left {
					if !e.non[i] {
						ok = false
						break
					}
					if e.dec[i] {
						some = true
					}
				}
				if ok && some {
					var nl []edge
					for _, e := range left {
						if !e.dec[i] {
							nl = append(nl, e)
						}
					}
					left = nl
					prog = true
				}
			}
			if len(left) == 0 || !prog {
				break
			}
		}
		x.oblige(st, x.tb.Bool(len(left) == 0), fmt.Sprintf("loop terminates%s", x.where(st)), f.fn.Pos())
	}
}

func (x *Ex) tryCand(c *cand, le *loopEnv) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(le)
}

// evalIn builds an evaluator for candidate bodies.
func (le *loopEnv) ev(binds map[string]func(*loopEnv) Value) *Eval {
	mk := func(l *loopEnv) *Eval {
		env := map[string]Value{}
		for k, v := range l.x.preEv.env {
			env[k] = v
		}
		for k, f := range binds {
			env[k] = f(l)
		}
		return &Eval{x: l.x, env: env, st: l.st, old: l.x.preEv}
	}
	e := mk(le)
	if le.in != nil {
		e.in = mk(le.in)
	} else {
		e.in = e
	}
	return e
}

type meta struct {
	name string
	get  func(*loopEnv) Value
}

func (x *Ex) iterParam() string {
	for n, v := range x.preEv.env {
		if p, ok := v.(*PtrV); ok && p.obj != nil {
			if nm, ok := p.typ.(*types.Named); ok && nm.Obj().Name() == "Iterator" {
				return n
			}
		}
	}
	return ""
}

func (x *Ex) metas(kind string, phis []*ssa.Phi, vals map[*ssa.Phi]Value) []meta {
	var out []meta
	itn := x.iterParam()
	fld := func(l *loopEnv, name string) *Term {
		p := l.x.preEv.env[itn].(*PtrV)
		return l.x.load(l.st, l.x.fieldPtr(p, name), nil, false).(*Term)
	}
	isIntPhi := func(p *ssa.Phi) bool {
		t, ok := vals[p].(*Term)
		if !ok || t.sort != SInt {
			return false
		}
		_, _, ok = intInfo(p.Type())
		return ok
	}
	switch kind {
	case "pos":
		if itn != "" {
			out = append(out, meta{"offset+head", func(l *loopEnv) Value { return x.tb.Add(fld(l, "offset"), fld(l, "head")) }})
			for _, p := range phis {
				p := p
				if isIntPhi(p) {
					if b, _, _ := intInfo(p.Type()); b == 64 {
						out = append(out, meta{"offset+" + p.Comment, func(l *loopEnv) Value { return x.tb.Add(fld(l, "offset"), l.phi[p].(*Term)) }})
					}
				}
			}
		}
	case "int":
		for _, p := range phis {
			p := p
			if isIntPhi(p) {
				out = append(out, meta{p.Comment, func(l *loopEnv) Value { return l.phi[p] }})
			}
		}
		if x.metaSt != nil {
			// positions of range loops over strings
			var vs []ssa.Value
			for v := range x.metaSt.top().env {
				if _, ok := v.(*ssa.Range); ok {
					vs = append(vs, v)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				if p, ok := x.metaSt.top().env[v].(*PtrV); ok {
					out = append(out, meta{"range position", func(l *loopEnv) Value { return l.x.load(l.st, l.x.fieldPtr(p, "Pos"), nil, false) }})
				}
			}
		}
	case "bool":
		for _, p := range phis {
			p := p
			if t, ok := vals[p].(*Term); ok && t.sort == SBool {
				out = append(out, meta{p.Comment, func(l *loopEnv) Value { return l.phi[p] }})
			}
		}
	case "addr":
		for _, p := range phis {
			p := p
			if t, ok := vals[p].(*Term); ok && t.sort == SInt && isUnsafePtr(p.Type()) {
				out = append(out, meta{p.Comment, func(l *loopEnv) Value { return l.phi[p] }})
			}
		}
	case "err":
		for _, p := range phis {
			p := p
			if isErrorT(p.Type()) {
				out = append(out, meta{p.Comment, func(l *loopEnv) Value { return l.phi[p] }})
			}
		}
	case "bytes":
		for _, p := range phis {
			p := p
			if _, ok := vals[p].(*BytesV); ok {
				out = append(out, meta{p.Comment, func(l *loopEnv) Value { return l.phi[p] }})
			}
		}
		// byte slice fields of parameters
		var ns []string
		for n := range x.preEv.env {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			n := n
			p, ok := x.preEv.env[n].(*PtrV)
			if !ok || p.obj == nil || p.typ == nil {
				continue
			}
			s, ok := p.typ.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				fn := s.Field(i).Name()
				if isByteSlice(s.Field(i).Type()) && fn != "fixbuf" && !(fn == "buffer" && n == itn) {
					out = append(out, meta{n + "." + fn, func(l *loopEnv) Value {
						return l.x.load(l.st, l.x.fieldPtr(l.x.preEv.env[n].(*PtrV), fn), nil, false)
					}})
				}
			}
		}
	case "rs":
		// read-only slices computed before the loop, and those held by
		// elements of read-only slices
		if x.metaSt == nil {
			break
		}
		seen := map[string]bool{}
		addRS := func(nm string, r *RSliceV) {
			k := fmt.Sprint(r.id.String(), "/", r.off.String())
			if !seen[k] {
				seen[k] = true
				out = append(out, meta{nm, func(l *loopEnv) Value { return r }})
			}
		}
		var vs []ssa.Value
		for v := range x.metaSt.top().env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			switch w := x.metaSt.top().env[v].(type) {
			case *RSliceV:
				addRS(v.Name(), w)
			case *PtrV:
				if w.rs == nil || w.path != "" {
					break
				}
				if s, ok := w.typ.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
							continue
						}
						if r, ok := x.load(x.metaSt, x.fieldPtr(w, s.Field(i).Name()), nil, false).(*RSliceV); ok {
							addRS(v.Name()+"."+s.Field(i).Name(), r)
						}
					}
				}
			}
		}
	case "jv", "slice", "map":
		if kind == "map" && x.metaSt != nil {
			var vs []ssa.Value
			for v, w := range x.metaSt.top().env {
				if _, isPhi := v.(*ssa.Phi); isPhi {
					continue
				}
				if mv, ok := w.(*MapV); ok && mv.home == nil && mv.obj != nil {
					vs = append(vs, v)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			for _, v := range vs {
				mv := x.metaSt.top().env[v].(*MapV)
				out = append(out, meta{v.Name(), func(l *loopEnv) Value { return mv }})
			}
		}
		for _, p := range phis {
			p := p
			ok := false
			switch v := vals[p].(type) {
			case *OpaqueV:
				ok = kind == "jv" && v.t.sort == "JV"
			case *SliceV:
				ok = kind == "slice"
			case *MapV:
				ok = kind == "map"
			}
			if ok {
				out = append(out, meta{p.Comment, func(l *loopEnv) Value { return l.phi[p] }})
			}
		}
	default:
		if x.metaSt == nil {
			break
		}
		if strings.HasPrefix(kind, "env_") {
			// values of that basic type computed before the loop
			for v, w := range x.metaSt.top().env {
				t, ok := w.(*Term)
				if b, isB := v.Type().(*types.Basic); !ok || !isB || b.Name() != kind[4:] && !(kind == "env_int32" && b.Kind() == types.Int32) || t.isInt() {
					continue
				}
				out = append(out, meta{v.Name(), func(l *loopEnv) Value { return t }})
			}
			sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
			break
		}
		// a local object of the named struct type
		for v, w := range x.metaSt.top().env {
			a, ok := v.(*ssa.Alloc)
			if !ok {
				continue
			}
			p, ok := w.(*PtrV)
			if !ok || p.obj == nil {
				continue
			}
			if nm, ok := a.Type().Underlying().(*types.Pointer).Elem().(*types.Named); ok && nm.Obj().Name() == kind {
				out = append(out, meta{a.Name(), func(l *loopEnv) Value { return p }})
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	}
	return out
}

func (x *Ex) candidates(st *State, phis []*ssa.Phi, vals map[*ssa.Phi]Value) []*cand {
	var out []*cand
	x.metaSt = st
	tb := x.tb
	seenNm := map[string]bool{}
	for _, mm := range x.metas("int", phis, vals) {
		g := mm.get
		out = append(out,
			&cand{name: "in(" + mm.name + ") <= " + mm.name, eval: func(l *loopEnv) *Term { return tb.Le(g(l.in).(*Term), g(l).(*Term)) }},
			&cand{name: mm.name + " <= in(" + mm.name + ")", eval: func(l *loopEnv) *Term { return tb.Le(g(l).(*Term), g(l.in).(*Term)) }},
			&cand{name: mm.name + " >= 0", eval: func(l *loopEnv) *Term { return tb.Le(tb.Int(0), g(l).(*Term)) }})
	}
	pools := x.con.Pools
	if x.iterParam() != "" && x.spec.Pools["iter"] != nil && !x.concrete {
		pools = append([]string{"iter"}, pools...)
	}
	for _, pn := range pools {
		invs, ok := x.spec.Pools[pn]
		if !ok {
			panic("unknown pool " + pn)
		}
		for _, pi := range invs {
			choice := make([][]meta, len(pi.Metas))
			tot := 1
			for i, ms := range pi.Metas {
				choice[i] = x.metas(ms.Sort, phis, vals)
				tot *= len(choice[i])
			}
			if tot == 0 && len(pi.Metas) > 0 {
				continue
			}
			idx := make([]int, len(pi.Metas))
			for {
				binds := map[string]func(*loopEnv) Value{}
				nm := exprStr(pi.Body)
				dup := false
				used := map[string]bool{}
				for i, ms := range pi.Metas {
					c := choice[i][idx[i]]
					binds[ms.Name] = c.get
					nm = strings.ReplaceAll(nm, ms.Name, c.name)
					k := ms.Sort + c.name
					if used[k] {
						dup = true
					}
					used[k] = true
				}
				_ = dup
				for _, body := range conjuncts(pi.Body) {
					body := body
					nm := nm
					if body != pi.Body {
						nm = exprStr(body)
						for i, ms := range pi.Metas {
							nm = strings.ReplaceAll(nm, ms.Name, choice[i][idx[i]].name)
						}
					}
					if !seenNm[nm] {
						seenNm[nm] = true
						out = append(out, &cand{name: nm, eval: func(l *loopEnv) *Term { return l.ev(binds).T(body) }})
					}
				}
				j := 0
				for ; j < len(idx); j++ {
					idx[j]++
					if idx[j] < len(choice[j]) {
						break
					}
					idx[j] = 0
				}
				if j == len(idx) {
					break
				}
			}
		}
	}
	return out
}

func (x *Ex) measures(h *loopEnv, phis []*ssa.Phi) []func(*loopEnv) *Term {
	var out []func(*loopEnv) *Term
	tb := x.tb
	for _, e := range x.con.Variants {
		e := e
		out = append(out, func(l *loopEnv) *Term {
			return x.tryCand(&cand{eval: func(l *loopEnv) *Term { return l.ev(nil).T(e) }}, l)
		})
	}
	itn := x.iterParam()
	ints := x.metas("int", phis, h.phi)
	if itn != "" {
		fld := func(l *loopEnv, name string) *Term {
			p := l.x.preEv.env[itn].(*PtrV)
			return l.x.load(l.st, l.x.fieldPtr(p, name), nil, false).(*Term)
		}
		n := func(l *loopEnv) *Term { return x.blen(fld(l, "S")) }
		out = append(out,
			func(l *loopEnv) *Term { return tb.Sub(n(l), tb.Add(fld(l, "offset"), fld(l, "head"))) },
			func(l *loopEnv) *Term { return tb.Sub(n(l), tb.Add(fld(l, "offset"), fld(l, "tail"))) },
			func(l *loopEnv) *Term { return tb.Sub(fld(l, "tail"), fld(l, "head")) })
		for _, m := range ints {
			m := m
			out = append(out, func(l *loopEnv) *Term { return tb.Sub(fld(l, "tail"), m.get(l).(*Term)) })
			out = append(out, func(l *loopEnv) *Term {
				return tb.Sub(n(l), tb.Add(fld(l, "offset"), m.get(l).(*Term)))
			})
		}
	}
	for _, m := range ints {
		m := m
		out = append(out, func(l *loopEnv) *Term { return m.get(l).(*Term) })
		out = append(out, func(l *loopEnv) *Term {
			return tb.Sub(tb.Big(new(big.Int).Lsh(big1, 63)), m.get(l).(*Term))
		})
		for pn, v := range x.preEv.env {
			if b, ok := v.(*BytesV); ok {
				_ = pn
				out = append(out, func(l *loopEnv) *Term { return tb.Sub(tb.Sub(b.hi, b.lo), m.get(l).(*Term)) })
			}
			if b, ok := v.(*SliceV); ok {
				out = append(out, func(l *loopEnv) *Term { return tb.Sub(b.len, m.get(l).(*Term)) })
			}
		}
	}
	for _, m := range x.metas("bytes", phis, h.phi) {
		m := m
		out = append(out, func(l *loopEnv) *Term {
			if b, ok := m.get(l).(*BytesV); ok {
				return tb.Sub(b.hi, b.lo)
			}
			return nil
		})
	}
	return out
}

func conjuncts(e *Expr) []*Expr {
	if e.op == "&&" {
		return append(conjuncts(e.args[0]), conjuncts(e.args[1])...)
	}
	return []*Expr{e}
}
