package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort of an SMT term.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SBs   Sort = "Bs"
)

func arrSort(elem Sort) Sort { return Sort("(Array Int " + string(elem) + ")") }

// Term is a hash-consed SMT term.
//
//	op "int"    integer literal (k)
//	op "lin"    sum coefs[i]*args[i] + k
//	op "ge0"    args[0] >= 0
//	op "="      equality
//	op "var"    constant symbol (name)
//	op "bvar"   bound variable (name)
//	op "true"/"false"/"not"/"and"/"or"/"ite"/"=>"
//	op "forall" name = binder text, args = body [, pattern terms...]
//	otherwise   function application
type Term struct {
	op    string
	name  string
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	sort  Sort
	id    int
	lo    *big.Int // known range for "var" (type range); nil = unbounded
	hi    *big.Int
	str   string
	nb    bool // contains a bound variable
}

// TB is a term bank (one per verification job, not goroutine safe).
type TB struct {
	tab   map[string]*Term
	n     int
	fresh int
}

func NewTB() *TB { return &TB{tab: map[string]*Term{}} }

func (b *TB) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	for i, a := range t.args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].String())
		}
	}
	if t.k != nil {
		sb.WriteByte('#')
		sb.WriteString(t.k.String())
	}
	key := sb.String()
	if x, ok := b.tab[key]; ok {
		return x
	}
	b.n++
	t.id = b.n
	if t.op == "bvar" {
		t.nb = true
	}
	for _, a := range t.args {
		if a.nb && t.op != "forall" {
			t.nb = true
		}
	}
	b.tab[key] = t
	return t
}

var big0 = big.NewInt(0)
var big1 = big.NewInt(1)

func (b *TB) Int(n int64) *Term { return b.Big(big.NewInt(n)) }
func (b *TB) Big(n *big.Int) *Term {
	return b.intern(&Term{op: "int", k: n, sort: SInt})
}
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.intern(&Term{op: "true", sort: SBool})
	}
	return b.intern(&Term{op: "false", sort: SBool})
}
func (b *TB) Var(name string, s Sort) *Term {
	return b.intern(&Term{op: "var", name: name, sort: s})
}
func (b *TB) Fresh(prefix string, s Sort) *Term {
	b.fresh++
	return b.Var(fmt.Sprintf("%s!%d", prefix, b.fresh), s)
}
func (b *TB) BVar(name string, s Sort) *Term {
	return b.intern(&Term{op: "bvar", name: name, sort: s})
}

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

// lin decomposes an Int term.
func (b *TB) lin(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	b.linAdd(m, k, t, big1)
	return m, k
}
func (b *TB) linAdd(m map[*Term]*big.Int, k *big.Int, t *Term, c *big.Int) {
	switch t.op {
	case "int":
		k.Add(k, new(big.Int).Mul(t.k, c))
	case "lin":
		for i, a := range t.args {
			x := m[a]
			if x == nil {
				x = new(big.Int)
				m[a] = x
			}
			x.Add(x, new(big.Int).Mul(t.coefs[i], c))
		}
		k.Add(k, new(big.Int).Mul(t.k, c))
	default:
		x := m[t]
		if x == nil {
			x = new(big.Int)
			m[t] = x
		}
		x.Add(x, c)
	}
}
func (b *TB) mkLin(m map[*Term]*big.Int, k *big.Int) *Term {
	var as []*Term
	// x - c*(x div c) is x mod c
	for a, c := range m {
		if a.op == "div" && c.Sign() < 0 && a.args[0].op != "lin" && a.args[1].isInt() {
			if cx := m[a.args[0]]; cx != nil && cx.Sign() > 0 {
				q, r := new(big.Int).QuoRem(new(big.Int).Neg(c), a.args[1].k, new(big.Int))
				if r.Sign() == 0 && q.Cmp(cx) == 0 {
					x := a.args[0]
					md := b.Mod(x, a.args[1].k)
					n := map[*Term]*big.Int{}
					for t, v := range m {
						if t != a && t != x {
							n[t] = v
						}
					}
					k2 := new(big.Int).Set(k)
					b.linAdd(n, k2, md, q)
					return b.mkLin(n, k2)
				}
			}
		}
	}
	for a, c := range m {
		if c.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return b.Big(k)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k.Sign() == 0 && m[as[0]].Cmp(big1) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return b.intern(&Term{op: "lin", args: as, coefs: cs, k: k, sort: SInt})
}

func (b *TB) Add(xs ...*Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	for _, x := range xs {
		b.linAdd(m, k, x, big1)
	}
	return b.mkLin(m, k)
}
func (b *TB) Sub(x, y *Term) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	b.linAdd(m, k, x, big1)
	b.linAdd(m, k, y, big.NewInt(-1))
	return b.mkLin(m, k)
}
func (b *TB) MulC(x *Term, c *big.Int) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	b.linAdd(m, k, x, c)
	return b.mkLin(m, k)
}
func (b *TB) Mul(x, y *Term) *Term {
	if x.isInt() {
		return b.MulC(y, x.k)
	}
	if y.isInt() {
		return b.MulC(x, y.k)
	}
	// products of sums are multiplied out
	if y.op == "lin" {
		x, y = y, x
	}
	if x.op == "lin" && (y.op != "lin" || len(x.args)*len(y.args) <= 16) {
		m := map[*Term]*big.Int{}
		k := new(big.Int)
		b.linAdd(m, k, y, x.k)
		for i, a := range x.args {
			b.linAdd(m, k, b.Mul(a, y), x.coefs[i])
		}
		return b.mkLin(m, k)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.intern(&Term{op: "nlmul", args: []*Term{x, y}, sort: SInt})
}
func (b *TB) Neg(x *Term) *Term { return b.MulC(x, big.NewInt(-1)) }

// Div is floor division by a positive constant.
func (b *TB) Div(x *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("Div by non positive constant")
	}
	if c.Cmp(big1) == 0 {
		return x
	}
	if x.isInt() {
		q := new(big.Int)
		q.Div(x.k, c) // Euclidean == floor for positive c
		return b.Big(q)
	}
	if lo, hi := b.Range(x); lo != nil && hi != nil {
		ql := new(big.Int).Div(lo, c)
		qh := new(big.Int).Div(hi, c)
		if ql.Cmp(qh) == 0 {
			return b.Big(ql)
		}
	}
	// pull out multiples: (c*a + r) div c = a + r div c
	m, k := b.lin(x)
	out := map[*Term]*big.Int{}
	rest := map[*Term]*big.Int{}
	any := false
	for a, co := range m {
		q, r := new(big.Int).DivMod(co, c, new(big.Int))
		if r.Sign() == 0 {
			out[a] = q
			any = true
		} else {
			rest[a] = co
		}
	}
	kq, kr := new(big.Int).DivMod(k, c, new(big.Int))
	if any || kq.Sign() != 0 {
		inner := b.mkLin(rest, kr)
		var d *Term
		if any && len(rest) == 0 || inner.isInt() {
			d = b.Big(new(big.Int).Div(kr, c))
			if inner.isInt() {
				d = b.Big(new(big.Int).Div(inner.k, c))
			}
		} else {
			d = b.Div(inner, c)
		}
		return b.Add(b.mkLin(out, kq), d)
	}
	return b.intern(&Term{op: "div", args: []*Term{x, b.Big(c)}, sort: SInt})
}

// Mod is the non-negative remainder by a positive constant.
func (b *TB) Mod(x *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("Mod by non positive constant")
	}
	if c.Cmp(big1) == 0 {
		return b.Int(0)
	}
	if x.isInt() {
		return b.Big(new(big.Int).Mod(x.k, c))
	}
	if lo, hi := b.Range(x); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(c) < 0 {
		return x
	}
	m, k := b.lin(x)
	red := map[*Term]*big.Int{}
	ch := false
	for a, co := range m {
		r := new(big.Int).Mod(co, c)
		if r.Cmp(co) != 0 {
			ch = true
		}
		red[a] = r
	}
	kr := new(big.Int).Mod(k, c)
	if kr.Cmp(k) != 0 {
		ch = true
	}
	if ch {
		return b.Mod(b.mkLin(red, kr), c)
	}
	if x.op == "mod" {
		// (y mod d) mod c with c | d
		if new(big.Int).Mod(x.args[1].k, c).Sign() == 0 {
			return b.Mod(x.args[0], c)
		}
	}
	return b.intern(&Term{op: "mod", args: []*Term{x, b.Big(c)}, sort: SInt})
}

// Range gives a conservative interval of an Int term from type ranges.
func (b *TB) Range(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "int":
		return t.k, t.k
	case "var":
		return t.lo, t.hi
	case "bat":
		return big0, big.NewInt(255)
	case "blen":
		return big0, maxLen
	case "mod":
		return big0, new(big.Int).Sub(t.args[1].k, big1)
	case "div":
		l, h := b.Range(t.args[0])
		c := t.args[1].k
		if l != nil {
			l = new(big.Int).Div(l, c)
		}
		if h != nil {
			h = new(big.Int).Div(h, c)
		}
		return l, h
	case "ite":
		l1, h1 := b.Range(t.args[1])
		l2, h2 := b.Range(t.args[2])
		return minB(l1, l2), maxB(h1, h2)
	case "lin":
		l := new(big.Int).Set(t.k)
		h := new(big.Int).Set(t.k)
		for i, a := range t.args {
			al, ah := b.Range(a)
			if t.coefs[i].Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				l = nil
			} else if l != nil {
				l.Add(l, new(big.Int).Mul(al, t.coefs[i]))
			}
			if ah == nil {
				h = nil
			} else if h != nil {
				h.Add(h, new(big.Int).Mul(ah, t.coefs[i]))
			}
		}
		return l, h
	}
	if r, ok := fnRanges[t.op]; ok {
		return r[0], r[1]
	}
	return nil, nil
}

var maxLen = new(big.Int).Lsh(big1, 48)

// fnRanges holds result ranges of builtin functions that are guaranteed by a side fact.
var fnRanges = map[string][2]*big.Int{}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (b *TB) ge0(d *Term) *Term {
	if d.isInt() {
		return b.Bool(d.k.Sign() >= 0)
	}
	lo, hi := b.Range(d)
	if lo != nil && lo.Sign() >= 0 {
		return b.Bool(true)
	}
	if hi != nil && hi.Sign() < 0 {
		return b.Bool(false)
	}
	if d.op == "ite" && d.args[1].isInt() && (d.args[2].isInt() || d.args[2].op == "ite") {
		return b.Ite(d.args[0], b.ge0(d.args[1]), b.ge0(d.args[2]))
	}
	if d.op == "lin" && len(d.args) == 1 && d.args[0].op == "ite" && constIte(d.args[0]) {
		return b.mapIte(d.args[0], func(x *Term) *Term {
			return b.ge0(b.Add(b.MulC(x, d.coefs[0]), b.Big(d.k)))
		})
	}
	return b.intern(&Term{op: "ge0", args: []*Term{d}, sort: SBool})
}

func constIte(t *Term) bool {
	if t.isInt() {
		return true
	}
	return t.op == "ite" && constIte(t.args[1]) && constIte(t.args[2])
}

// mapIte maps f over the leaves of an ite tree.
func (b *TB) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == "ite" {
		return b.Ite(t.args[0], b.mapIte(t.args[1], f), b.mapIte(t.args[2], f))
	}
	return f(t)
}

func (b *TB) Le(x, y *Term) *Term { return b.ge0(b.Sub(y, x)) }
func (b *TB) Lt(x, y *Term) *Term { return b.ge0(b.Sub(b.Sub(y, x), b.Int(1))) }

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.Bool(true)
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s, %s", x.sort, y.sort, x, y))
	}
	switch x.sort {
	case SBool:
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	case SInt:
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.k.Sign() == 0)
		}
		lo, hi := b.Range(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return b.Bool(false)
		}
		if d.op == "lin" && len(d.args) == 1 && d.args[0].op == "ite" {
			return b.mapIte(d.args[0], func(l *Term) *Term {
				return b.Eq(b.Add(b.MulC(l, d.coefs[0]), b.Big(d.k)), b.Int(0))
			})
		}
		if d.op == "ite" {
			return b.mapIte(d, func(l *Term) *Term { return b.Eq(l, b.Int(0)) })
		}
		// canonical split into positive and negative part
		pos := map[*Term]*big.Int{}
		neg := map[*Term]*big.Int{}
		m, k := b.lin(d)
		for a, c := range m {
			if c.Sign() > 0 {
				pos[a] = c
			} else if c.Sign() < 0 {
				neg[a] = new(big.Int).Neg(c)
			}
		}
		pk, nk := new(big.Int), new(big.Int)
		if k.Sign() > 0 {
			pk = k
		} else {
			nk = new(big.Int).Neg(k)
		}
		x, y = b.mkLin(pos, pk), b.mkLin(neg, nk)
	default:
		if x.op == "ite" && y.op != "ite" {
			// keep
		}
		if ctorDistinct(x, y) {
			return b.Bool(false)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.intern(&Term{op: "=", args: []*Term{x, y}, sort: SBool})
}

// ctors are injective, pairwise distinct constructor symbols.
var ctors = map[string]bool{}

func ctorDistinct(x, y *Term) bool {
	return ctors[x.op] && ctors[y.op] && x.op != y.op
}

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case "true":
		return b.Bool(false)
	case "false":
		return b.Bool(true)
	case "not":
		return x.args[0]
	case "ge0":
		return b.ge0(b.Sub(b.Int(-1), x.args[0]))
	case "and":
		ys := make([]*Term, len(x.args))
		for i, a := range x.args {
			ys[i] = b.Not(a)
		}
		return b.Or(ys...)
	case "or":
		ys := make([]*Term, len(x.args))
		for i, a := range x.args {
			ys[i] = b.Not(a)
		}
		return b.And(ys...)
	case "ite":
		return b.Ite(x.args[0], b.Not(x.args[1]), b.Not(x.args[2]))
	}
	return b.intern(&Term{op: "not", args: []*Term{x}, sort: SBool})
}

func (b *TB) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isTrue() || seen[x] {
			return true
		}
		if x.isFalse() {
			return false
		}
		if x.op == "and" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[b.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return b.Bool(false)
		}
	}
	if len(out) == 0 {
		return b.Bool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.intern(&Term{op: "and", args: out, sort: SBool})
}

func (b *TB) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool { // false: whole thing true
		if x.isFalse() || seen[x] {
			return true
		}
		if x.isTrue() {
			return false
		}
		if x.op == "or" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return b.Bool(true)
		}
	}
	for _, x := range out {
		if x.op == "not" && seen[x.args[0]] {
			return b.Bool(true)
		}
		if x.op == "ge0" && seen[b.Not(x)] {
			return b.Bool(true)
		}
	}
	if len(out) == 0 {
		return b.Bool(false)
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.intern(&Term{op: "or", args: out, sort: SBool})
}

func (b *TB) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == SBool {
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	return b.intern(&Term{op: "ite", args: []*Term{c, x, y}, sort: x.sort})
}

// App builds an uninterpreted (or builtin theory) application.
func (b *TB) App(op string, s Sort, args ...*Term) *Term {
	if len(args) == 3 && strings.HasPrefix(op, "st_") {
		// stores to disjoint fields of one base commute: the lower address goes inside
		if m := args[0]; strings.HasPrefix(m.op, "st_") && len(m.args) == 3 {
			if d := b.Sub(args[1], m.args[1]); d.isInt() && d.k.IsInt64() {
				n := d.k.Int64()
				if n == 0 && op == m.op {
					return b.App(op, s, m.args[0], args[1], args[2])
				}
				if n < 0 && n+kindSize(op[3:]) <= 0 {
					return b.App(m.op, s, b.App(op, s, m.args[0], args[1], args[2]), m.args[1], m.args[2])
				}
			}
		}
	}
	return b.intern(&Term{op: op, args: args, sort: s})
}

func (b *TB) Forall(binders []*Term, body *Term, pats ...[]*Term) *Term {
	if len(binders) == 0 || body.isTrue() {
		return body
	}
	var sb strings.Builder
	for _, v := range binders {
		fmt.Fprintf(&sb, "(%s %s)", v.name, v.sort)
	}
	t := &Term{op: "forall", name: sb.String(), sort: SBool}
	t.args = append(t.args, body)
	var ps strings.Builder
	for _, p := range pats {
		ps.WriteString(" :pattern (")
		for i, x := range p {
			if i > 0 {
				ps.WriteByte(' ')
			}
			ps.WriteString(x.String())
		}
		ps.WriteString(")")
	}
	t.name += "\x00" + ps.String()
	return b.intern(t)
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var sb strings.Builder
	t.write(&sb)
	s := sb.String()
	if len(s) < 4096 {
		t.str = s
	}
	return s
}

func bigStr(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (t *Term) write(sb *strings.Builder) {
	if t.str != "" {
		sb.WriteString(t.str)
		return
	}
	switch t.op {
	case "int":
		sb.WriteString(bigStr(t.k))
	case "var", "bvar":
		sb.WriteString(t.name)
	case "true", "false":
		sb.WriteString(t.op)
	case "lin":
		n := len(t.args)
		if t.k.Sign() != 0 {
			n++
		}
		if n > 1 {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				sb.WriteByte(' ')
			}
			if t.coefs[i].Cmp(big1) == 0 {
				a.write(sb)
			} else {
				sb.WriteString("(* ")
				sb.WriteString(bigStr(t.coefs[i]))
				sb.WriteByte(' ')
				a.write(sb)
				sb.WriteByte(')')
			}
		}
		if t.k.Sign() != 0 {
			sb.WriteByte(' ')
			sb.WriteString(bigStr(t.k))
		}
		if n > 1 {
			sb.WriteByte(')')
		}
	case "ge0":
		// print with positive parts on both sides
		d := t.args[0]
		if d.op == "lin" {
			var l, r []string
			for i, a := range d.args {
				c := d.coefs[i]
				if c.Sign() > 0 {
					l = append(l, mulStr(c, a))
				} else {
					r = append(r, mulStr(new(big.Int).Neg(c), a))
				}
			}
			if d.k.Sign() > 0 {
				l = append(l, d.k.String())
			} else if d.k.Sign() < 0 {
				r = append(r, new(big.Int).Neg(d.k).String())
			}
			sb.WriteString("(>= " + sumStr(l) + " " + sumStr(r) + ")")
			return
		}
		sb.WriteString("(>= ")
		d.write(sb)
		sb.WriteString(" 0)")
	case "forall":
		i := strings.IndexByte(t.name, 0)
		sb.WriteString("(forall (")
		sb.WriteString(t.name[:i])
		sb.WriteString(") ")
		if p := t.name[i+1:]; p != "" {
			sb.WriteString("(! ")
			t.args[0].write(sb)
			sb.WriteString(p)
			sb.WriteString(")")
		} else {
			t.args[0].write(sb)
		}
		sb.WriteString(")")
	default:
		if len(t.args) == 0 {
			sb.WriteString(t.op)
			return
		}
		sb.WriteByte('(')
		sb.WriteString(t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb)
		}
		sb.WriteByte(')')
	}
}

func mulStr(c *big.Int, a *Term) string {
	if c.Cmp(big1) == 0 {
		return a.String()
	}
	return "(* " + c.String() + " " + a.String() + ")"
}
func sumStr(xs []string) string {
	switch len(xs) {
	case 0:
		return "0"
	case 1:
		return xs[0]
	}
	return "(+ " + strings.Join(xs, " ") + ")"
}

// Subst replaces constants by terms.
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = b.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (b *TB) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "lin":
		m := map[*Term]*big.Int{}
		k := new(big.Int).Set(t.k)
		for i, a := range args {
			b.linAdd(m, k, a, t.coefs[i])
		}
		return b.mkLin(m, k)
	case "ge0":
		return b.ge0(args[0])
	case "=":
		return b.Eq(args[0], args[1])
	case "not":
		return b.Not(args[0])
	case "and":
		return b.And(args...)
	case "or":
		return b.Or(args...)
	case "ite":
		return b.Ite(args[0], args[1], args[2])
	case "div":
		return b.Div(args[0], args[1].k)
	case "mod":
		return b.Mod(args[0], args[1].k)
	case "nlmul":
		return b.Mul(args[0], args[1])
	case "forall":
		if !strings.HasSuffix(t.name, "\x00") {
			panic("subst under forall with patterns not supported: " + t.String())
		}
		return b.intern(&Term{op: "forall", name: t.name, args: args, sort: SBool})
	default:
		if f, ok := smartCtor[t.op]; ok {
			return f(b, args)
		}
		return b.intern(&Term{op: t.op, name: t.name, args: args, sort: t.sort})
	}
}

// smartCtor holds simplifying constructors of builtin functions.
var smartCtor = map[string]func(*TB, []*Term) *Term{}

func (t *Term) walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, a := range t.args {
		a.walk(f)
	}
}
