package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Solver wraps an incremental SMT process.
type Solver struct {
	tb       *TB
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	prelude  string
	levels   []*level
	declared map[string]bool
	Queries  int
	Time     time.Duration
	log      io.Writer
	bin      string
	dead     bool
	softMS   int
	Unknowns int
	Timeouts int
	unfold   func(t *Term, fuel int) *Term
	fuel     int
	fns      map[string]bool
	fdecl    map[string]bool
}

type level struct {
	asserts  []*Term
	facts    map[*Term]bool // terms whose side facts are asserted on this level
	unfolded map[*Term]bool
}

func newLevel() *level { return &level{facts: map[*Term]bool{}, unfolded: map[*Term]bool{}} }

var totalQueries int64
var totalSolverNS int64

func solverBin() string {
	if s := os.Getenv("GOVC_Z3"); s != "" {
		return s
	}
	return "z3-new"
}

func NewSolver(tb *TB, prelude string) *Solver {
	s := &Solver{tb: tb, prelude: prelude, bin: solverBin(), softMS: 4000}
	s.start()
	s.levels = []*level{{facts: map[*Term]bool{}, unfolded: map[*Term]bool{}}}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.declared = map[string]bool{}
	s.dead = false
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n")
	s.send("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.softMS))
	s.send(s.prelude)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	s.in.WriteString(t)
}

func (s *Solver) Push() {
	s.send("(push 1)\n")
	s.levels = append(s.levels, newLevel())
}
func (s *Solver) Pop() {
	s.send("(pop 1)\n")
	s.levels = s.levels[:len(s.levels)-1]
}
func (s *Solver) Depth() int { return len(s.levels) }
func (s *Solver) PopTo(d int) {
	for len(s.levels) > d {
		s.Pop()
	}
}

func (s *Solver) covered(t *Term) bool {
	for i := len(s.levels) - 1; i >= 0; i-- {
		if s.levels[i].facts[t] {
			return true
		}
	}
	return false
}

// prep declares symbols and asserts side facts of all subterms: type ranges, byte
// ranges, and one unfolding of every specification function application.
func (s *Solver) prep(t *Term) {
	if s.fuel > 1 {
		s.prepF(t, s.fuel)
		return
	}
	s.prepF(t, 1)
}

func (s *Solver) prepF(t *Term, fuel int) {
	lv := s.levels[len(s.levels)-1]
	seen := map[*Term]bool{}
	var f func(t *Term, fuel int)
	f = func(t *Term, fuel int) {
		if seen[t] && fuel == 0 {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			f(a, fuel)
		}
		if t.op == "var" {
			if !s.declared[t.name] {
				s.declared[t.name] = true
				s.send(fmt.Sprintf("(declare-const %s %s)\n", t.name, t.sort))
			}
		} else if !builtinOps[t.op] && !s.fns[t.op] && !s.declared["fn "+t.op] {
			s.declared["fn "+t.op] = true
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			s.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", t.op, strings.Join(as, " "), t.sort))
		}
		if t.nb {
			return
		}
		if s.fns[t.op] && s.unfold != nil && sideFacts[t.op] == nil {
			if !s.coveredU(t) {
				if u := s.unfold(t, fuel); u != nil {
					lv.unfolded[t] = true
					k := fuel - 1
					if k < 0 {
						k = 0
					}
					f(u, k)
					s.send("(assert " + u.String() + ")\n")
				}
			}
			return
		}
		interesting := t.op == "var" && t.sort == SInt && (t.lo != nil || t.hi != nil) || sideFacts[t.op] != nil || strings.HasPrefix(t.op, "ld_")
		if !interesting || s.covered(t) {
			return
		}
		lv.facts[t] = true
		if t.op == "var" {
			if t.lo != nil {
				s.send(fmt.Sprintf("(assert (>= %s %s))\n", t, bigStr(t.lo)))
			}
			if t.hi != nil {
				s.send(fmt.Sprintf("(assert (<= %s %s))\n", t, bigStr(t.hi)))
			}
			return
		}
		var fs []*Term
		if strings.HasPrefix(t.op, "ld_") {
			fs = ldFacts(s.tb, t)
		} else {
			fs = sideFacts[t.op](s.tb, t)
		}
		for _, x := range fs {
			f(x, 0)
			s.send("(assert " + x.String() + ")\n")
		}
	}
	f(t, fuel)
}

func (s *Solver) coveredU(t *Term) bool {
	for i := len(s.levels) - 1; i >= 0; i-- {
		if s.levels[i].unfolded[t] {
			return true
		}
	}
	return false
}

func kindSize(k string) int64 {
	switch k {
	case "i8", "u8", "bool":
		return 1
	case "i16", "u16":
		return 2
	case "i32", "u32", "f32":
		return 4
	case "str", "eface", "iface":
		return 16
	case "bytes":
		return 24
	}
	return 8
}

// ldFacts: a load skips a store to a disjoint address range.
func ldFacts(tb *TB, t *Term) []*Term {
	m, a := t.args[0], t.args[1]
	if !strings.HasPrefix(m.op, "st_") {
		return nil
	}
	k, k2 := t.op[3:], m.op[3:]
	below := mkLd(tb, k, t.sort, m.args[0], a)
	dis := tb.Or(tb.Le(tb.Add(a, tb.Int(kindSize(k))), m.args[1]), tb.Le(tb.Add(m.args[1], tb.Int(kindSize(k2))), a))
	out := []*Term{tb.Implies(dis, tb.Eq(t, below))}
	if k == k2 {
		out = append(out, tb.Implies(tb.Eq(a, m.args[1]), tb.Eq(t, m.args[2])))
	}
	return out
}

// sideFacts: facts instantiated for every ground application that occurs.
var sideFacts = map[string]func(*TB, *Term) []*Term{}

func (s *Solver) Assert(t *Term) {
	if t.isTrue() {
		return
	}
	s.prep(t)
	lv := s.levels[len(s.levels)-1]
	lv.asserts = append(lv.asserts, t)
	s.send("(assert " + t.String() + ")\n")
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (s *Solver) Check() Result {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	r, err := s.readLine()
	d := time.Since(t0)
	s.Time += d
	s.Queries++
	atomic.AddInt64(&totalQueries, 1)
	atomic.AddInt64(&totalSolverNS, int64(d))
	if os.Getenv("GOVC_SLOW") != "" && d > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v %s\n", d, r)
	}
	if err != nil {
		s.restart()
		return Unknown
	}
	switch r {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	case "unknown", "timeout":
		s.Unknowns++
		if r == "timeout" || d > time.Duration(s.softMS)*time.Millisecond*9/10 {
			s.Timeouts++
		}
		return Unknown
	}
	panic("solver said: " + r)
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	lv := s.levels
	s.start()
	s.levels = []*level{{facts: map[*Term]bool{}, unfolded: map[*Term]bool{}}}
	for i, l := range lv {
		if i > 0 {
			s.Push()
		}
		for _, a := range l.asserts {
			s.Assert(a)
		}
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
			panic("solver error: " + l)
		}
		return l, nil
	}
}

// Valid checks whether the current assertions imply t.
func (s *Solver) Valid(t *Term) bool {
	if t.isTrue() {
		return true
	}
	s.Push()
	s.Assert(s.tb.Not(t))
	r := s.Check()
	s.Pop()
	return r == Unsat
}

// Feasible checks whether t is consistent with the current assertions.
func (s *Solver) Feasible(t *Term) bool {
	if t.isFalse() {
		return false
	}
	s.Push()
	s.Assert(t)
	r := s.Check()
	s.Pop()
	return r != Unsat
}

// Values evaluates terms in the model after a non-unsat check made by try.
func (s *Solver) ModelOf(neg *Term, ts []*Term) []string {
	s.Push()
	defer s.Pop()
	for _, t := range ts {
		s.prep(t)
	}
	s.Assert(neg)
	r := s.Check()
	if r == Unsat {
		return nil
	}
	var out []string
	for _, t := range ts {
		s.send("(get-value (" + t.String() + "))\n")
		s.in.Flush()
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			return out
		}
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			return out
		}
		// ((term value))
		for strings.Count(l, "(") != strings.Count(l, ")") {
			m, err := s.out.ReadString('\n')
			if err != nil {
				return out
			}
			l += " " + strings.TrimSpace(m)
		}
		str := t.String()
		v := strings.TrimSuffix(strings.TrimPrefix(l, "(("), "))")
		if strings.HasPrefix(v, str) {
			v = strings.TrimSpace(v[len(str):])
		} else if i := strings.LastIndex(v, " "); i >= 0 {
			v = v[i+1:]
		}
		out = append(out, v)
	}
	return out
}

// nlmul is the product of two unknowns: an uninterpreted function with the facts that are needed of it.
func init() {
	sideFacts["nlmul"] = func(tb *TB, t *Term) []*Term {
		x, y, z, o := t.args[0], t.args[1], tb.Int(0), tb.Int(1)
		return []*Term{
			tb.Implies(tb.Or(tb.Eq(x, z), tb.Eq(y, z)), tb.Eq(t, z)),
			tb.Implies(tb.Eq(x, o), tb.Eq(t, y)),
			tb.Implies(tb.Eq(y, o), tb.Eq(t, x)),
			tb.Implies(tb.And(tb.Le(z, x), tb.Le(z, y)), tb.Le(z, t)),
		}
	}
}
