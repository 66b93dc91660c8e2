package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
)

const basePrelude = `
(declare-sort Bs 0)
(declare-sort Mem 0)
(declare-sort F64 0)
(declare-sort F32 0)
(declare-datatypes ((K 0)) (((kNil) (kCons (khd Int) (ktl K)))))
(declare-datatypes ((JV 0) (JS 0) (JM 0)) (
  ((jnil) (jbool (jbool_v Bool)) (jstr (jstr_v Bs)) (jf64 (jf64_v F64)) (jnumtxt (jnumtxt_v Bs)) (jarr (jarr_v JS)) (jobj (jobj_v JM)) (jopq (jopq_v Int)))
  ((jsempty) (jsnoc (js_i JS) (js_l JV)))
  ((jmempty) (jmput (jm_m JM) (jm_k Bs) (jm_v JV)))))
(declare-datatypes ((FR 0)) (((fNil) (fArr (fa_s JS) (fa_k Bs) (fa_t FR)) (fObj (fo_m JM) (fo_k Bs) (fo_t FR)))))
(declare-datatypes ((UR 0)) (((ur (ue Int) (uv JV)))))
(declare-fun jslen (JV) Int)
(declare-fun bempty () Bs)
(declare-fun snoc (Bs Int) Bs)
(declare-fun appR (Bs Bs Int Int) Bs)
(declare-fun bcopy (Bs Int Bs Int Int) Bs)
(declare-fun bset (Bs Int Int) Bs)
(declare-fun blen (Bs) Int)
(declare-fun bat (Bs Int) Int)
(assert (= (blen bempty) 0))
(assert (forall ((b Bs)) (! (>= (blen b) 0) :pattern ((blen b)))))
(assert (forall ((b Bs) (c Int)) (! (= (blen (snoc b c)) (+ (blen b) 1)) :pattern ((snoc b c)))))
(assert (forall ((b Bs) (c Int) (i Int)) (! (and (=> (= i (blen b)) (= (bat (snoc b c) i) c)) (=> (< i (blen b)) (= (bat (snoc b c) i) (bat b i)))) :pattern ((bat (snoc b c) i)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (hi Int)) (! (= (blen (appR b s lo hi)) (+ (blen b) (ite (>= hi lo) (- hi lo) 0))) :pattern ((appR b s lo hi)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (hi Int)) (! (=> (<= hi lo) (= (appR b s lo hi) b)) :pattern ((appR b s lo hi)))))
(assert (forall ((b Bs) (c Int)) (! (=> (= (blen b) 0) (= b bempty)) :pattern ((snoc b c)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (hi Int)) (! (=> (and (= (blen b) 0) (= lo 0) (= hi (blen s))) (= (appR b s lo hi) s)) :pattern ((appR b s lo hi)))))
(assert (forall ((x Bs) (s Bs) (sl Int) (n Int)) (! (=> (= n (blen x)) (= (bcopy x 0 s sl n) (appR bempty s sl (+ sl n)))) :pattern ((bcopy x 0 s sl n)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (hi Int)) (! (=> (= hi (+ lo 1)) (= (appR b s lo hi) (snoc b (bat s lo)))) :pattern ((appR b s lo hi)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (hi Int) (i Int)) (! (and (=> (< i (blen b)) (= (bat (appR b s lo hi) i) (bat b i))) (=> (and (<= (blen b) i) (< i (+ (blen b) (- hi lo)))) (= (bat (appR b s lo hi) i) (bat s (+ lo (- i (blen b))))))) :pattern ((bat (appR b s lo hi) i)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (hi Int) (c Int)) (! (=> (and (<= lo hi) (= c (bat s hi))) (= (snoc (appR b s lo hi) c) (appR b s lo (+ hi 1)))) :pattern ((snoc (appR b s lo hi) c)))))
(assert (forall ((b Bs) (s Bs) (lo Int) (m Int) (hi Int)) (! (=> (and (<= lo m) (<= m hi)) (= (appR (appR b s lo m) s m hi) (appR b s lo hi))) :pattern ((appR (appR b s lo m) s m hi)))))
(assert (forall ((b Bs) (x Bs) (s Bs) (sl Int) (n Int)) (! (=> (>= n 0) (= (appR b (bcopy x 0 s sl n) 0 n) (appR b s sl (+ sl n)))) :pattern ((appR b (bcopy x 0 s sl n) 0 n)))))
(assert (forall ((x Bs) (lo Int) (s Bs) (sl Int) (n Int)) (! (= (blen (bcopy x lo s sl n)) (blen x)) :pattern ((bcopy x lo s sl n)))))
(assert (forall ((x Bs) (lo Int) (s Bs) (sl Int) (n Int) (i Int)) (! (= (bat (bcopy x lo s sl n) i) (ite (and (<= lo i) (< i (+ lo n))) (bat s (+ sl (- i lo))) (bat x i))) :pattern ((bat (bcopy x lo s sl n) i)))))
(assert (forall ((b Bs) (i Int) (c Int)) (! (= (blen (bset b i c)) (blen b)) :pattern ((bset b i c)))))
(assert (forall ((b Bs) (i Int) (c Int) (j Int)) (! (= (bat (bset b i c) j) (ite (= i j) c (bat b j))) :pattern ((bat (bset b i c) j)))))
`

var builtinOps = map[string]bool{}

func init() {
	for _, s := range strings.Fields("int lin ge0 = var bvar true false not and or ite => forall div mod * select store bempty snoc appR bcopy bset blen bat kNil kCons khd ktl jnil jbool jbool_v jstr jstr_v jf64 jf64_v jnumtxt jnumtxt_v jarr jarr_v jobj jobj_v jopq jopq_v jsempty jsnoc js_i js_l jmempty jmput jm_m jm_k jm_v fNil fArr fa_s fa_k fa_t fObj fo_m fo_k fo_t ur ue uv jslen") {
		builtinOps[s] = true
	}
	for _, s := range strings.Fields("kNil kCons jnil jbool jstr jf64 jnumtxt jarr jobj jopq jsempty jsnoc jmempty jmput fNil fArr fObj ur bempty") {
		ctors[s] = true
	}
	sel := map[string]string{"khd": "kCons:0", "ktl": "kCons:1", "jbool_v": "jbool:0", "jstr_v": "jstr:0", "jf64_v": "jf64:0", "jarr_v": "jarr:0", "jobj_v": "jobj:0", "jnumtxt_v": "jnumtxt:0",
		"js_i": "jsnoc:0", "js_l": "jsnoc:1", "jm_m": "jmput:0", "jm_k": "jmput:1", "jm_v": "jmput:2", "fa_s": "fArr:0", "fa_k": "fArr:1", "fa_t": "fArr:2", "ue": "ur:0", "uv": "ur:1", "fo_m": "fObj:0", "fo_k": "fObj:1", "fo_t": "fObj:2"}
	for s, c := range sel {
		s := s
		i := strings.IndexByte(c, ':')
		cn, ix := c[:i], int(c[i+1]-'0')
		rs := builtinSig[s].ret
		smartCtor[s] = func(tb *TB, a []*Term) *Term {
			if a[0].op == cn {
				return a[0].args[ix]
			}
			return tb.App(s, rs, a[0])
		}
	}
}

type sig struct {
	args []Sort
	ret  Sort
}

// builtinSig are theory symbols usable in specifications.
var builtinSig = map[string]sig{
	"kNil": {nil, "K"}, "kCons": {[]Sort{SInt, "K"}, "K"}, "khd": {[]Sort{"K"}, SInt}, "ktl": {[]Sort{"K"}, "K"},
	"jnil": {nil, "JV"}, "jbool": {[]Sort{SBool}, "JV"}, "jstr": {[]Sort{SBs}, "JV"}, "jf64": {[]Sort{"F64"}, "JV"},
	"jnumtxt": {[]Sort{SBs}, "JV"}, "jarr": {[]Sort{"JS"}, "JV"}, "jobj": {[]Sort{"JM"}, "JV"}, "jopq": {[]Sort{SInt}, "JV"},
	"jbool_v": {[]Sort{"JV"}, SBool}, "jstr_v": {[]Sort{"JV"}, SBs}, "jf64_v": {[]Sort{"JV"}, "F64"}, "jnumtxt_v": {[]Sort{"JV"}, SBs}, "jarr_v": {[]Sort{"JV"}, "JS"}, "jobj_v": {[]Sort{"JV"}, "JM"},
	"jsempty": {nil, "JS"}, "jsnoc": {[]Sort{"JS", "JV"}, "JS"}, "js_i": {[]Sort{"JS"}, "JS"}, "js_l": {[]Sort{"JS"}, "JV"},
	"jmempty": {nil, "JM"}, "jmput": {[]Sort{"JM", SBs, "JV"}, "JM"}, "jm_m": {[]Sort{"JM"}, "JM"}, "jm_k": {[]Sort{"JM"}, SBs}, "jm_v": {[]Sort{"JM"}, "JV"},
	"fNil": {nil, "FR"}, "fArr": {[]Sort{"JS", SBs, "FR"}, "FR"}, "fa_k": {[]Sort{"FR"}, SBs}, "ur": {[]Sort{SInt, "JV"}, "UR"}, "ue": {[]Sort{"UR"}, SInt}, "uv": {[]Sort{"UR"}, "JV"}, "fObj": {[]Sort{"JM", SBs, "FR"}, "FR"},
	"fa_s": {[]Sort{"FR"}, "JS"}, "fa_t": {[]Sort{"FR"}, "FR"}, "fo_m": {[]Sort{"FR"}, "JM"}, "fo_k": {[]Sort{"FR"}, SBs}, "fo_t": {[]Sort{"FR"}, "FR"},
	"bempty": {nil, SBs}, "bcopy": {[]Sort{SBs, SInt, SBs, SInt, SInt}, SBs}, "bset": {[]Sort{SBs, SInt, SInt}, SBs},
}

// analyse marks recursive specification functions.
func (sp *Spec) analyse() {
	deps := map[string]map[string]bool{}
	for n, d := range sp.Fns {
		m := map[string]bool{}
		var f func(e *Expr)
		f = func(e *Expr) {
			if e == nil {
				return
			}
			if e.op == "call" || e.op == "name" {
				if sp.Fns[e.name] != nil {
					m[e.name] = true
				}
			}
			for _, a := range e.args {
				f(a)
			}
		}
		f(d.Body)
		deps[n] = m
	}
	for n, d := range sp.Fns {
		seen := map[string]bool{}
		var f func(k string)
		f = func(k string) {
			for j := range deps[k] {
				if !seen[j] {
					seen[j] = true
					f(j)
				}
			}
		}
		f(n)
		d.Rec = seen[n]
	}
}

// prelude builds the solver prelude for a set of theories.
func (sp *Spec) declPrelude() string {
	var sb strings.Builder
	sb.WriteString(basePrelude)
	for _, s := range sp.Sorts {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	for _, s := range sp.Datatypes {
		sb.WriteString(s + "\n")
	}
	for _, n := range sp.FnOrder {
		d := sp.Fns[n]
		if d.Macro {
			continue
		}
		var ps []string
		for _, p := range d.Params {
			ps = append(ps, p.Sort)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(ps, " "), d.Ret)
	}
	for _, s := range sp.Raw {
		sb.WriteString(s + "\n")
	}
	return sb.String()
}

func theoryOf(file string) string { return strings.TrimSuffix(filepath.Base(file), ".vc") }

func (x *Ex) lemmaTerm(l *Lemma) *Term {
	tb := x.tb
	env := map[string]Value{}
	var bs []*Term
	for _, p := range l.Params {
		x.bvN++
		v := tb.BVar(fmt.Sprintf("%s?%d", p.Name, x.bvN), Sort(p.Sort))
		bs = append(bs, v)
		env[p.Name] = v
	}
	ev := &Eval{x: x, env: env}
	body := ev.T(l.Body)
	var pats [][]*Term
	for _, tr := range l.Trigs {
		var p []*Term
		for _, e := range tr {
			p = append(p, ev.T(e))
		}
		pats = append(pats, p)
	}
	return tb.Forall(bs, body, pats...)
}

// initSolver creates the solver with the theories of the contract.
func (x *Ex) initSolver(theories []string, upto int) {
	want := map[string]bool{"base": true}
	for _, t := range theories {
		want[t] = true
	}
	x.sol = NewSolver(x.tb, x.spec.declPrelude())
	x.sol.fns = map[string]bool{}
	if f := os.Getenv("GOVC_LOG"); f != "" {
		w, _ := os.Create(f)
		x.sol.log = w
		w.WriteString(x.sol.prelude)
	}
	for n, d := range x.spec.Fns {
		if !d.Macro {
			x.sol.fns[n] = true
		}
	}
	x.sol.unfold = func(t *Term, fuel int) *Term {
		d := x.spec.Fns[t.op]
		if d == nil || d.Body == nil || d.Macro {
			return nil
		}
		if d.Rec && fuel <= 0 {
			return nil
		}
		ev := &Eval{x: x, env: map[string]Value{}}
		for i, p := range d.Params {
			ev.env[p.Name] = t.args[i]
		}
		b := ev.T(d.Body)
		if b == t {
			return nil
		}
		return rawEq(x.tb, t, b)
	}
	for i, l := range x.spec.Lemmas {
		if upto >= 0 && i >= upto {
			break
		}
		if want[theoryOf(l.File)] {
			x.sol.Assert(x.lemmaTerm(l))
			if l.Trusted {
				x.assumes["axiom "+l.Name] = true
			}
		}
	}
}

func rawEq(tb *TB, a, b *Term) *Term {
	if a.sort == SBool {
		return tb.intern(&Term{op: "=", args: []*Term{a, b}, sort: SBool})
	}
	return tb.intern(&Term{op: "=", args: []*Term{a, b}, sort: SBool})
}

// proveLemma discharges lemma number i using the earlier ones.
func (x *Ex) proveLemma(i int) {
	l := x.spec.Lemmas[i]
	theories := append([]string{theoryOf(l.File)}, l.Using...)
	if l.BV {
		x.proveBV(l)
		return
	}
	x.initSolver(theories, i)
	defer x.sol.Close()
	x.sol.softMS = 20000
	x.sol.send("(set-option :timeout 20000)\n")
	tb := x.tb
	env := map[string]Value{}
	for _, p := range l.Params {
		env[p.Name] = tb.Fresh(p.Name, Sort(p.Sort))
	}
	ev := &Eval{x: x, env: env}
	goal := ev.T(l.Body)
	if l.Induct != "" {
		p := env[l.Induct].(*Term)
		var q, guard *Term
		bound := ev.T(l.Bound)
		if l.Dir == "up" {
			// measure bound - p
			q = tb.Add(p, tb.Int(1))
			guard = tb.Lt(p, bound)
		} else {
			q = tb.Sub(p, tb.Int(1))
			guard = tb.Lt(bound, p)
		}
		// induction hypothesis at q for all values of the other parameters
		e2 := &Eval{x: x, env: map[string]Value{}}
		var bs []*Term
		for _, pr := range l.Params {
			if pr.Name == l.Induct {
				e2.env[pr.Name] = q
				continue
			}
			x.bvN++
			v := tb.BVar(fmt.Sprintf("%s?%d", pr.Name, x.bvN), Sort(pr.Sort))
			bs = append(bs, v)
			e2.env[pr.Name] = v
		}
		_ = bs
		ih := e2.T(l.Body)
		var pats [][]*Term
		for _, tr := range l.Trigs {
			var ps []*Term
			all := true
			for _, e := range tr {
				t := e2.T(e)
				ps = append(ps, t)
			}
			if all {
				pats = append(pats, ps)
			}
		}
		if len(bs) > 0 {
			x.sol.Assert(tb.Implies(guard, tb.Forall(bs, ih, pats...)))
		} else {
			x.sol.Assert(tb.Implies(guard, ih))
		}
		// instances with unchanged other parameters
		e3 := &Eval{x: x, env: map[string]Value{}}
		for k, v := range env {
			e3.env[k] = v
		}
		e3.env[l.Induct] = q
		x.sol.Assert(tb.Implies(guard, e3.T(l.Body)))
	}
	for _, h := range l.Hints {
		t := ev.T(h)
		if t.sort == SBool {
			t = tb.Or(t, tb.Not(t))
			x.sol.prep(ev.T(h))
			continue
		}
		x.sol.Assert(rawEq(tb, t, tb.Fresh("hint", t.sort)))
	}
	if l.Body.op == "==>" {
		x.sol.Assert(ev.T(l.Body.args[0]))
		goal = ev.T(l.Body.args[1])
	}
	for k, h := range l.Steps {
		t := ev.T(h)
		n := fmt.Sprintf("lemma %s step %d", l.Name, k+1)
		ok := x.prove(t)
		if !ok && os.Getenv("GOVC_INV") != "" {
			fmt.Fprintf(os.Stderr, "step %d of %s not proved: %s\n", k+1, l.Name, exprStr(h))
		}
		x.obls[n] = &Obl{Func: "lemma", Name: n, OK: ok, Count: 1, Info: exprStr(h)}
		x.oblOrder = append(x.oblOrder, n)
		x.sol.Assert(t)
	}
	ok := x.prove(goal)
	x.obls["lemma "+l.Name] = &Obl{Func: "lemma", Name: "lemma " + l.Name, OK: ok, Count: 1, Info: exprStr(l.Body)}
	x.oblOrder = append(x.oblOrder, "lemma "+l.Name)
}

func (x *Ex) proveBV(l *Lemma) {
	// lemma over 64-bit operations: parameters are 64-bit vectors
	s := &Solver{tb: x.tb, bin: solverBin(), softMS: 60000}
	s.start()
	defer s.Close()
	var sb strings.Builder
	for _, p := range l.Params {
		fmt.Fprintf(&sb, "(declare-const %s (_ BitVec 64))\n", p.Name)
	}
	s.send(sb.String())
	s.send("(assert (not " + bvExpr(l.Body) + "))\n")
	s.levels = []*level{{facts: map[*Term]bool{}}}
	r := s.Check()
	x.obls["lemma "+l.Name] = &Obl{Func: "lemma", Name: "lemma " + l.Name, OK: r == Unsat, Count: 1, Info: exprStr(l.Body)}
	x.oblOrder = append(x.oblOrder, "lemma "+l.Name)
}

func bvExpr(e *Expr) string {
	bin := func(op string) string { return "(" + op + " " + bvExpr(e.args[0]) + " " + bvExpr(e.args[1]) + ")" }
	switch e.op {
	case "num":
		return fmt.Sprintf("(_ bv%s 64)", new(big.Int).Mod(e.num, new(big.Int).Lsh(big1, 64)))
	case "name":
		return e.name
	case "+":
		return bin("bvadd")
	case "-":
		return bin("bvsub")
	case "*":
		return bin("bvmul")
	case "/":
		return bin("bvudiv")
	case "%":
		return bin("bvurem")
	case "==":
		return bin("=")
	case "!=":
		return "(not " + bin("=") + ")"
	case "<":
		return bin("bvult")
	case "<=":
		return bin("bvule")
	case ">":
		return bin("bvugt")
	case ">=":
		return bin("bvuge")
	case "&&":
		return bin("and")
	case "||":
		return bin("or")
	case "==>":
		return bin("=>")
	case "u!":
		return "(not " + bvExpr(e.args[0]) + ")"
	case "?:":
		return "(ite " + bvExpr(e.args[0]) + " " + bvExpr(e.args[1]) + " " + bvExpr(e.args[2]) + ")"
	case "call":
		m := map[string]string{"shl64": "bvshl", "shr64": "bvlshr", "and64": "bvand", "or64": "bvor"}
		if o, ok := m[e.name]; ok {
			return bin(o)
		}
		if e.name == "andn64" {
			return "(bvand " + bvExpr(e.args[0]) + " (bvnot " + bvExpr(e.args[1]) + "))"
		}
		if e.name == "bit" {
			return "((_ extract 0 0) (bvlshr " + bvExpr(e.args[0]) + " " + bvExpr(e.args[1]) + "))"
		}
	}
	panic("bv expression " + exprStr(e))
}

func init() {
	max64 := new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1)
	for _, op := range []string{"shl64", "shr64", "and64", "or64"} {
		fnRanges[op] = [2]*big.Int{big0, max64}
		sideFacts[op] = func(tb *TB, t *Term) []*Term {
			return []*Term{tb.intern(&Term{op: "ge0", args: []*Term{t}, sort: SBool}),
				tb.intern(&Term{op: "ge0", args: []*Term{tb.Sub(tb.Big(max64), t)}, sort: SBool})}
		}
	}
}
