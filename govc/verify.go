package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FuncResult is the outcome for one function or lemma.
type FuncResult struct {
	Key     string   `json:"key"`
	Obls    []*Obl   `json:"obligations"`
	Used    []string `json:"used,omitempty"`
	Inlined []string `json:"inlined,omitempty"`
	Assumes []string `json:"assumes,omitempty"`
	Err     string   `json:"error,omitempty"`
	Queries int      `json:"queries"`
	SolverS float64  `json:"solver_s"`
	WallS   float64  `json:"wall_s"`
	Returns int      `json:"returns"`
	// lines of the function no feasible path of the proof reaches: dead code or a vacuous assumption
	Unreached []string `json:"unreached,omitempty"`
	Paths   int      `json:"paths"`
	Trusted bool     `json:"trusted,omitempty"`
	// queries that ran into the time limit; a failing function with such queries is tried once more with a longer one
	Timeouts int  `json:"timeouts,omitempty"`
	Retried  bool `json:"retried,omitempty"`
	Loops   int      `json:"loops"`
}

func (r *FuncResult) ok() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func newEx(prog *Prog, spec *Spec, noCon map[string]bool, limit time.Duration) *Ex {
	x := &Ex{addrOf: map[*Term]*PtrV{}, tb: NewTB(), spec: spec, prog: prog,
		initVals: map[string]Value{}, objs: map[string]*Obj{}, obls: map[string]*Obl{},
		noCon: noCon, used: map[string]bool{}, inlined: map[string]bool{}, assumes: map[string]bool{},
		seenIns: map[ssa.Instruction]bool{}, caseHit: map[string]bool{}, reachEntry: map[string]bool{}, invCache: map[string][]string{},
		deadline: time.Now().Add(limit)}
	if x.noCon == nil {
		x.noCon = map[string]bool{}
	}
	return x
}

func (x *Ex) result(key string, t0 time.Time, rec interface{}) *FuncResult {
	r := &FuncResult{Key: key, Used: keys(x.used), Inlined: keys(x.inlined), Assumes: keys(x.assumes), Returns: x.returns, Unreached: x.unreached, WallS: time.Since(t0).Seconds(), Loops: x.loopsN}
	for _, n := range x.oblOrder {
		r.Obls = append(r.Obls, x.obls[n])
	}
	if x.sol != nil {
		r.Queries = x.sol.Queries
		r.SolverS = x.sol.Time.Seconds()
		r.Timeouts = x.sol.Timeouts
	}
	if rec != nil {
		switch e := rec.(type) {
		case unsupported:
			r.Err = "outside the verifier's language: " + e.msg
		case giveUp:
			r.Err = "gave up: " + e.msg
		default:
			r.Err = fmt.Sprintf("internal: %v", e)
			if x.verbose {
				debug.PrintStack()
			}
		}
	}
	return r
}

// verifyFunc discharges the obligations of one contract.
func verifyFunc(prog *Prog, spec *Spec, key string, noCon map[string]bool, limit time.Duration, verbose bool) *FuncResult {
	r := verifyOnce(prog, spec, key, noCon, limit, verbose, 0)
	if !r.ok() && r.Timeouts > 0 && limit > 20*time.Second {
		if limit > 120*time.Second {
			limit = 120 * time.Second
		}
		if r2 := verifyOnce(prog, spec, key, noCon, limit, verbose, 15000); r2.ok() {
			r2.Retried = true
			return r2
		}
	}
	return r
}

func verifyOnce(prog *Prog, spec *Spec, key string, noCon map[string]bool, limit time.Duration, verbose bool, softMS int) (res *FuncResult) {
	t0 := time.Now()
	con := spec.Contracts[key]
	fn := prog.funcs[key]
	x := newEx(prog, spec, noCon, limit)
	x.con, x.fn, x.verbose = con, fn, verbose
	x.concrete = con.Flags["concrete"]
	x.traceInv = os.Getenv("GOVC_INV") != ""
	if fn == nil {
		return &FuncResult{Key: key, Err: "function not found"}
	}
	if !sigOK(con, fn) {
		return &FuncResult{Key: key, Err: "signature does not match the contract"}
	}
	defer func() {
		rec := recover()
		if rec != nil && verbose {
			fmt.Fprintf(os.Stderr, "PANIC %v\n%s\n", rec, debug.Stack())
		}
		res = x.result(key, t0, rec)
		if x.sol != nil {
			x.sol.Close()
		}
	}()
	x.initSolver(con.Uses, -1)
	if softMS > 0 {
		x.sol.softMS = softMS
		x.sol.send(fmt.Sprintf("(set-option :timeout %d)\n", softMS))
	}
	for f := range con.Flags {
		fmt.Sscanf(f, "fuel:%d", &x.sol.fuel)
	}
	st := &State{heap: map[string]Value{}}
	x.serial++
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, serial: x.serial}
	names := con.Params
	if con.Recv != "" {
		names = append([]string{con.Recv}, names...)
	}
	x.reaching = true
	for i, p := range fn.Params {
		v := x.mkValue(sanitize(names[i]), p.Type(), true, "")
		if pv, ok := v.(*PtrV); ok && !con.Flags["nilable:"+names[i]] {
			pv.nilc = x.tb.Bool(false)
		}
		fr.env[p] = v
		x.params = append(x.params, v)
	}
	x.reaching = false
	x.entryObjs = x.objN
	fr.block = fn.Blocks[0]
	st.frames = []*Frame{fr}
	env := x.conEnv(con, x.params)
	x.entry = &State{heap: map[string]Value{}}
	x.preEv = &Eval{x: x, env: env, st: x.entry}
	for _, l := range con.Lets {
		env[l.Name] = x.preEv.V(l.E)
	}
	for _, p := range x.params {
		if pv, ok := p.(*PtrV); ok && pv.obj != nil && namedName(pv.typ) == "jzon.Iterator" && !x.concrete {
			x.streams = append(x.streams, x.itField(x.entry, pv.obj, "S"))
		}
	}
	for _, r := range con.Requires {
		x.sol.Assert(x.preEv.T(r))
	}
	for _, r := range con.Reps {
		x.sol.Assert(x.preEv.T(r))
	}
	for _, r := range con.Assumed {
		x.assumes["on entry of "+key+", assumed and not proved: "+exprStr(r)] = true
		x.sol.Assert(x.preEv.T(r))
	}
	// vacuity: the precondition must not be contradictory
	sat := x.sol.Check() != Unsat
	x.obls["precondition is satisfiable"] = &Obl{Func: key, Name: "precondition is satisfiable", OK: sat, Count: 1}
	x.oblOrder = append(x.oblOrder, "precondition is satisfiable")
	if lp := prog.loopsOf(fn)[fr.block]; lp != nil {
		x.enterLoop(st, fr.block, lp)
	} else {
		x.run(st)
	}
	x.unreached = unreachedLines(x, fn)
	x.initObls(key, con)
	x.obls["some path returns"] = &Obl{Func: key, Name: "some path returns", OK: x.returns > 0 || con.Flags["noreturn"], Count: 1}
	x.oblOrder = append(x.oblOrder, "some path returns")
	return
}

func verifyLemma(prog *Prog, spec *Spec, i int) (res *FuncResult) {
	t0 := time.Now()
	x := newEx(prog, spec, nil, 5*time.Minute)
	defer func() {
		res = x.result("lemma "+spec.Lemmas[i].Name, t0, recover())
	}()
	x.proveLemma(i)
	return
}

func sortStrings(s []string) { sort.Strings(s) }

func unreachedLines(x *Ex, fn *ssa.Function) []string {
	seen := map[string]bool{}
	for i := range x.seenIns {
		if i.Pos().IsValid() {
			seen[x.posStr(i.Pos())] = true
		}
	}
	var out []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok || isPhi(i) || x.seenIns[i] || !i.Pos().IsValid() {
				continue
			}
			if p := x.posStr(i.Pos()); !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	return out
}

func isPhi(i ssa.Instruction) bool { _, ok := i.(*ssa.Phi); return ok }

// initObls: the tables the contract depends on, as the package's own initialisation leaves them,
// and not assigned afterwards.
func (x *Ex) initObls(key string, con *Contract) {
	for _, it := range con.Inits {
		why := ""
		g, _ := x.prog.ssaPkg.Members[it[0]].(*ssa.Global)
		t := x.prog.inits[it[0]]
		switch {
		case g == nil || t == nil:
			why = "no such table"
		case x.prog.mutable[g]:
			why = "assigned outside initialisation"
		case t.Map:
			want := append([]string{}, it[1:]...)
			sort.Strings(want)
			if strings.Join(want, " ") != strings.Join(t.Names, " ") {
				why = "contents are " + strings.Join(t.Names, " ")
			}
		default:
			want := make([]string, len(t.Names))
			for _, e := range it[1:] {
				i := strings.IndexByte(e, '=')
				n, err := strconv.Atoi(e[:i])
				if err != nil || n >= len(want) {
					why = "no entry " + e[:i]
					continue
				}
				want[n] = e[i+1:]
			}
			for i := range want {
				if want[i] != t.Names[i] {
					why += fmt.Sprintf(" entry %d is %q, not %q", i, t.Names[i], want[i])
				}
			}
		}
		n := "table " + it[0] + " after initialisation"
		if why != "" && x.verbose {
			fmt.Fprintf(os.Stderr, "   %s: %s\n", n, why)
		}
		x.obls[n] = &Obl{Func: key, Name: n, OK: why == "", Count: 1, Info: why}
		x.oblOrder = append(x.oblOrder, n)
	}
}
