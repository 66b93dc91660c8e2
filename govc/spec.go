package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Expr is a specification expression.
type Expr struct {
	op   string // "num","name","call","field","index", operators, "forall","?:", "str"
	name string
	num  *big.Int
	args []*Expr
	bind []Param
	src  string
}

type Param struct {
	Name string
	Sort string
}

// FnDef is a specification function.
type FnDef struct {
	Name   string
	Params []Param
	Ret    Sort
	On     [][]*Expr // extra triggers (each: terms beside the application)
	Body   *Expr     // nil: uninterpreted
	Macro  bool
	Ctor   bool
	Rec    bool
	File   string
}

// Lemma is a quantified fact with a proof by the solver, or a trusted axiom.
type Lemma struct {
	Name    string
	Params  []Param
	Trigs   [][]*Expr
	Induct  string // parameter name; "" = direct
	Dir     string // "up": IH at p+1 for p<bound, "down": IH at p-1 for p>bound
	Bound   *Expr
	Steps   []*Expr
	Hints   []*Expr
	Body    *Expr
	Trusted bool
	BV      bool
	File    string
	Using   []string
}

type Case struct {
	Name    string
	Cond    *Expr // nil = true
	Ensures []*Expr
}

type PoolInv struct {
	Metas []Param // Name "$p" Sort kind
	Body  *Expr
}

type Contract struct {
	Key      string // "(*Iterator).readMore", "skipString", "iface io.Reader.Read", "ext utf16.IsSurrogate"
	Kind     string // func, iface, ext
	Recv     string
	Params   []string
	Results  []string
	Props    []string
	Requires []*Expr
	Assumed  []*Expr // facts about the pre-state assumed when proving the function; callers do not prove them
	Trusts   []*Expr // callers may rely on these; they are not proved here
	Ensures  []*Expr
	Cases    []*Case
	Modifies []*Expr
	Pools    []string
	Variants []*Expr
	Flags    map[string]bool
	Reps     []*Expr    // representation invariant, seen only by functions verified in concrete mode
	Exits    [][2]*Expr // ghost assignments at return
	Puts     []PutClause
	Each     []PutClause
	Inits    [][]string // table, then the entries it must have after initialisation
	Decr     *Expr
	File     string
	Lets     []struct {
		Name string
		E    *Expr
	}
	Uses   []string
	Alias  map[string]string // result -> buffer it may alias
	RetArg map[string]string // result -> parameter it equals
}

// PutClause: what may be stored in a map, by dynamic type of the value ("any": not known).
type PutClause struct {
	Map, K, V, Type string
	E               *Expr
}

type Modset struct {
	Params []Param
	Locs   []*Expr
}

type Spec struct {
	Fns       map[string]*FnDef
	FnOrder   []string
	Sorts     []string
	Datatypes []string
	Lemmas    []*Lemma
	Contracts map[string]*Contract
	Pools     map[string][]*PoolInv
	Ghosts    map[string]map[string]Sort // type -> field -> sort
	Own       *OwnSpec
	ReadOnly  map[string]bool            // element types of read-only slices
	Raw       []string                   // raw smt prelude
	Modsets   map[string]*Modset
	TableDefs map[string]*FnDef
	StrTabs   [][]string
	FileProps map[string][]string
	Requires  map[string][]string // fn file deps
}

type lexer struct {
	s   string
	pos int
	tok string
	knd byte // 'n' number, 'i' ident, 'o' op, 's' string, 0 eof
	ln  string
}

func (l *lexer) next() {
	for l.pos < len(l.s) && (l.s[l.pos] == ' ' || l.s[l.pos] == '\t' || l.s[l.pos] == '\n') {
		l.pos++
	}
	if l.pos >= len(l.s) {
		l.tok, l.knd = "", 0
		return
	}
	c := l.s[l.pos]
	switch {
	case c >= '0' && c <= '9':
		j := l.pos
		for j < len(l.s) && (l.s[j] >= '0' && l.s[j] <= '9' || l.s[j] == 'x' || l.s[j] >= 'a' && l.s[j] <= 'f' || l.s[j] >= 'A' && l.s[j] <= 'F') {
			j++
		}
		l.tok, l.knd = l.s[l.pos:j], 'n'
		l.pos = j
	case c == '\'':
		j := l.pos + 1
		var v byte
		if l.s[j] == '\\' {
			j++
			switch l.s[j] {
			case 'n':
				v = '\n'
			case 't':
				v = '\t'
			case 'r':
				v = '\r'
			case 'b':
				v = '\b'
			case 'f':
				v = '\f'
			default:
				v = l.s[j]
			}
		} else {
			v = l.s[j]
		}
		if l.s[j+1] != '\'' {
			panic("bad char literal in " + l.ln)
		}
		l.pos = j + 2
		l.tok, l.knd = fmt.Sprint(int(v)), 'n'
	case c == '"':
		j := l.pos + 1
		var sb []byte
		for l.s[j] != '"' {
			if l.s[j] == '\\' {
				j++
			}
			sb = append(sb, l.s[j])
			j++
		}
		l.tok, l.knd = string(sb), 's'
		l.pos = j + 1
	case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
		j := l.pos + 1
		for j < len(l.s) && (unicode.IsLetter(rune(l.s[j])) || l.s[j] == '_' || l.s[j] >= '0' && l.s[j] <= '9') {
			j++
		}
		l.tok, l.knd = l.s[l.pos:j], 'i'
		l.pos = j
	default:
		for _, op := range []string{"<==>", "==>", "::", ":=", "&&", "||", "==", "!=", "<=", ">="} {
			if strings.HasPrefix(l.s[l.pos:], op) {
				l.tok, l.knd = op, 'o'
				l.pos += len(op)
				return
			}
		}
		l.tok, l.knd = string(c), 'o'
		l.pos++
	}
}

func (l *lexer) expect(t string) {
	if l.tok != t {
		panic(fmt.Sprintf("spec: expected %q, got %q in: %s", t, l.tok, l.ln))
	}
	l.next()
}

func parseExpr(s string) *Expr {
	l := &lexer{s: s, ln: s}
	l.next()
	e := l.ternary()
	if l.knd != 0 {
		panic(fmt.Sprintf("spec: trailing %q in: %s", l.tok, s))
	}
	e.src = strings.Join(strings.Fields(s), " ")
	return e
}

func (l *lexer) ternary() *Expr {
	if l.tok == "forall" {
		l.next()
		var ps []Param
		for {
			n := l.tok
			l.next()
			s := "Int"
			if l.knd == 'i' {
				s = l.tok
				l.next()
			}
			ps = append(ps, Param{n, s})
			if l.tok == "," {
				l.next()
				continue
			}
			break
		}
		l.expect("::")
		return &Expr{op: "forall", bind: ps, args: []*Expr{l.ternary()}}
	}
	if l.tok == "let" {
		l.next()
		n := l.tok
		l.next()
		l.expect(":=")
		v := l.ternary()
		l.expect("in")
		return &Expr{op: "let", name: n, args: []*Expr{v, l.ternary()}}
	}
	c := l.impl()
	if l.tok == "?" {
		l.next()
		a := l.ternary()
		l.expect(":")
		b := l.ternary()
		return &Expr{op: "?:", args: []*Expr{c, a, b}}
	}
	return c
}
func (l *lexer) impl() *Expr {
	a := l.or()
	if l.tok == "==>" {
		l.next()
		return &Expr{op: "==>", args: []*Expr{a, l.ternary()}}
	}
	if l.tok == "<==>" {
		l.next()
		return &Expr{op: "==", args: []*Expr{a, l.or()}}
	}
	return a
}
func (l *lexer) or() *Expr {
	a := l.and()
	for l.tok == "||" {
		l.next()
		a = &Expr{op: "||", args: []*Expr{a, l.and()}}
	}
	return a
}
func (l *lexer) and() *Expr {
	a := l.cmp()
	for l.tok == "&&" {
		l.next()
		a = &Expr{op: "&&", args: []*Expr{a, l.cmp()}}
	}
	return a
}
func isCmp(s string) bool {
	switch s {
	case "==", "!=", "<", "<=", ">", ">=":
		return true
	}
	return false
}
func (l *lexer) cmp() *Expr {
	a := l.sum()
	var res *Expr
	for l.knd == 'o' && isCmp(l.tok) {
		op := l.tok
		l.next()
		b := l.sum()
		c := &Expr{op: op, args: []*Expr{a, b}}
		if res == nil {
			res = c
		} else {
			res = &Expr{op: "&&", args: []*Expr{res, c}}
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}
func (l *lexer) sum() *Expr {
	a := l.prod()
	for l.knd == 'o' && (l.tok == "+" || l.tok == "-") {
		op := l.tok
		l.next()
		a = &Expr{op: op, args: []*Expr{a, l.prod()}}
	}
	return a
}
func (l *lexer) prod() *Expr {
	a := l.unary()
	for l.knd == 'o' && (l.tok == "*" || l.tok == "/" || l.tok == "%") {
		op := l.tok
		l.next()
		a = &Expr{op: op, args: []*Expr{a, l.unary()}}
	}
	return a
}
func (l *lexer) unary() *Expr {
	if l.knd == 'o' && (l.tok == "!" || l.tok == "-") {
		op := l.tok
		l.next()
		return &Expr{op: "u" + op, args: []*Expr{l.unary()}}
	}
	return l.postfix()
}
func (l *lexer) postfix() *Expr {
	var e *Expr
	switch {
	case l.knd == 'n':
		n, ok := new(big.Int).SetString(l.tok, 0)
		if !ok {
			panic("bad number " + l.tok + " in " + l.ln)
		}
		e = &Expr{op: "num", num: n}
		l.next()
	case l.knd == 's':
		e = &Expr{op: "str", name: l.tok}
		l.next()
	case l.knd == 'i':
		e = &Expr{op: "name", name: l.tok}
		l.next()
	case l.tok == "(":
		l.next()
		e = l.ternary()
		l.expect(")")
	default:
		panic(fmt.Sprintf("spec: unexpected %q in: %s", l.tok, l.ln))
	}
	for {
		switch {
		case l.tok == "." && l.knd == 'o':
			l.next()
			e = &Expr{op: "field", name: l.tok, args: []*Expr{e}}
			l.next()
		case l.tok == "[" && l.knd == 'o':
			l.next()
			i := l.ternary()
			l.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		case l.tok == "(" && l.knd == 'o' && e.op == "name":
			l.next()
			c := &Expr{op: "call", name: e.name}
			for l.tok != ")" {
				c.args = append(c.args, l.ternary())
				if l.tok == "," {
					l.next()
				}
			}
			l.next()
			e = c
		default:
			return e
		}
	}
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '{', '[':
			d++
		case ')', '}', ']':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, s[st:])
	}
	return out
}

func parseParams(s string) []Param {
	var ps []Param
	for _, x := range splitTop(s, ',') {
		f := strings.Fields(x)
		switch len(f) {
		case 0:
		case 1:
			ps = append(ps, Param{f[0], ""})
		default:
			ps = append(ps, Param{f[0], strings.Join(f[1:], " ")})
		}
	}
	return ps
}

// logicalLines joins continuation lines.
func logicalLines(src string) []string {
	var out []string
	for _, raw := range strings.Split(src, "\n") {
		if i := strings.Index(raw, "//"); i >= 0 {
			raw = raw[:i]
		}
		raw = strings.TrimRight(raw, " \t")
		if strings.TrimSpace(raw) == "" {
			continue
		}
		t := strings.TrimSpace(raw)
		cont := false
		if len(out) > 0 {
			p := out[len(out)-1]
			if strings.Count(p, "(")-strings.Count(p, "'('") > strings.Count(p, ")")-strings.Count(p, "')'") {
				cont = true
			}
			for _, op := range []string{"&&", "||", "==>", "?", ":", "+", "-", "==", ":="} {
				if strings.HasPrefix(t, op) || strings.HasSuffix(strings.TrimSpace(p), " "+op) {
					cont = true
				}
			}
			if strings.HasSuffix(p, ",") {
				cont = true
			}
		}
		if cont {
			out[len(out)-1] += " " + t
		} else {
			out = append(out, raw)
		}
	}
	return out
}

func NewSpec() *Spec {
	return &Spec{Fns: map[string]*FnDef{}, Contracts: map[string]*Contract{}, Pools: map[string][]*PoolInv{}, Ghosts: map[string]map[string]Sort{}, Modsets: map[string]*Modset{}, TableDefs: map[string]*FnDef{}, FileProps: map[string][]string{}, ReadOnly: map[string]bool{}, Own: newOwnSpec()}
}

func parseTrig(s string) [][]*Expr {
	// "a, b | c" : alternatives separated by |
	var out [][]*Expr
	for _, alt := range splitTop(s, '|') {
		var ts []*Expr
		for _, x := range splitTop(alt, ',') {
			ts = append(ts, parseExpr(x))
		}
		out = append(out, ts)
	}
	return out
}

// head of "name(params) Ret rest"
func splitSig(s string) (name, params, rest string) {
	i := strings.IndexByte(s, '(')
	name = strings.TrimSpace(s[:i])
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		}
		if s[j] == ')' {
			d--
			if d == 0 {
				return name, s[i+1 : j], strings.TrimSpace(s[j+1:])
			}
		}
	}
	panic("bad signature: " + s)
}

func (sp *Spec) LoadDir(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parse(string(b), filepath.Base(f))
	}
}

func (sp *Spec) parse(src, file string) {
	var cur *Contract
	var curCase *Case
	var pool string
	defer func() {
		if r := recover(); r != nil {
			panic(fmt.Sprintf("%s: %v", file, r))
		}
	}()
	for _, line := range logicalLines(src) {
		t := strings.TrimSpace(line)
		kw := t
		rest := ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			kw, rest = t[:i], strings.TrimSpace(t[i:])
		}
		indented := line[0] == ' ' || line[0] == '\t'
		if !indented {
			cur, curCase, pool = nil, nil, ""
			switch kw {
			case "sort":
				sp.Sorts = append(sp.Sorts, rest)
			case "datatype":
				sp.Datatypes = append(sp.Datatypes, rest)
			case "smt":
				sp.Raw = append(sp.Raw, rest)
			case "ghost":
				f := strings.Fields(rest)
				i := strings.IndexByte(f[0], '.')
				if sp.Ghosts[f[0][:i]] == nil {
					sp.Ghosts[f[0][:i]] = map[string]Sort{}
				}
				sp.Ghosts[f[0][:i]][f[0][i+1:]] = Sort(f[1])
			case "ctor", "ufn", "fn":
				name, ps, r := splitSig(rest)
				d := &FnDef{Name: name, Params: parseParams(ps), File: file, Ctor: kw == "ctor"}
				if i := strings.Index(r, ":="); i >= 0 {
					d.Body = parseExpr(r[i+2:])
					r = strings.TrimSpace(r[:i])
				}
				if i := strings.Index(r, " on "); i >= 0 {
					d.On = parseTrig(r[i+4:])
					r = r[:i]
				}
				d.Ret = Sort(strings.TrimSpace(r))
				sp.addFn(d)
			case "own":
				sp.Own.add(rest)
			case "readonly":
				for _, t := range strings.Fields(rest) {
					sp.ReadOnly[t] = true
				}
			case "def":
				name, ps, r := splitSig(rest)
				i := strings.Index(r, ":=")
				sp.addFn(&FnDef{Name: name, Params: parseParams(ps), Macro: true, Body: parseExpr(r[i+2:]), File: file})
			case "lemmas":
				// the lemmas of this file belong to these properties
				for _, p := range strings.Fields(rest) {
					sp.FileProps[p] = append(sp.FileProps[p], theoryOf(file))
				}
			case "strtab":
				// strtab LENGTH index "string" index "string" ...; classes are numbered from 1
				f := strings.Fields(rest)
				n, err := strconv.Atoi(f[0])
				if err != nil {
					panic("bad strtab " + rest)
				}
				t := make([]string, n)
				for i := 1; i+1 < len(f); i += 2 {
					k, err1 := strconv.Atoi(f[i])
					v, err2 := strconv.Unquote(f[i+1])
					if err1 != nil || err2 != nil {
						panic("bad strtab " + rest)
					}
					t[k] = v
				}
				sp.StrTabs = append(sp.StrTabs, t)
			case "tabledef":
				name, ps, r := splitSig(rest)
				i := strings.Index(r, ":=")
				sp.TableDefs[name] = &FnDef{Name: name, Params: parseParams(ps), Body: parseExpr(r[i+2:]), File: file}
			case "modset":
				name, ps, r := splitSig(rest)
				i := strings.Index(r, ":=")
				ms := &Modset{Params: parseParams(ps)}
				for _, e := range splitTop(r[i+2:], ',') {
					ms.Locs = append(ms.Locs, parseExpr(e))
				}
				sp.Modsets[name] = ms
			case "lemma", "axiom":
				name, ps, r := splitSig(rest)
				lm := &Lemma{Name: name, Params: parseParams(ps), File: file, Trusted: kw == "axiom"}
				i := strings.Index(r, ":=")
				lm.Body = parseExpr(r[i+2:])
				hd := r[:i]
				// attributes: trigger {..} induct p up bound {..} hint {..} bv
				for hd = strings.TrimSpace(hd); hd != ""; hd = strings.TrimSpace(hd) {
					w := hd
					if j := strings.IndexAny(hd, " {"); j >= 0 {
						w = hd[:j]
					}
					hd = strings.TrimSpace(hd[len(w):])
					brace := func() string {
						j := strings.IndexByte(hd, '}')
						x := hd[1:j]
						hd = hd[j+1:]
						return x
					}
					switch w {
					case "trigger":
						lm.Trigs = append(lm.Trigs, parseTrig(brace())...)
					case "hint":
						lm.Hints = append(lm.Hints, parseTrig(brace())[0]...)
					case "step":
						lm.Steps = append(lm.Steps, parseExpr(brace()))
					case "using":
						lm.Using = strings.Fields(strings.ReplaceAll(brace(), ",", " "))
					case "bv":
						lm.BV = true
					case "induct":
						f := strings.Fields(hd)
						lm.Induct, lm.Dir = f[0], f[1]
						j := strings.IndexByte(hd, '{')
						hd = hd[j:]
						lm.Bound = parseExpr(brace())
					default:
						panic("bad lemma attribute " + w)
					}
				}
				sp.Lemmas = append(sp.Lemmas, lm)
			case "pool":
				pool = rest
			case "func", "ext", "iface":
				cur = &Contract{Kind: kw, File: file, Flags: map[string]bool{}, Alias: map[string]string{}, RetArg: map[string]string{}}
				r := rest
				if kw == "func" && strings.HasPrefix(r, "(") {
					j := strings.IndexByte(r, ')')
					f := strings.Fields(r[1:j])
					cur.Recv = f[0]
					nm, ps, rr := splitSig(strings.TrimSpace(r[j+1:]))
					cur.Key = "(" + f[1] + ")." + nm
					cur.setSig(ps, rr)
				} else {
					nm, ps, rr := splitSig(r)
					cur.Key = nm
					if kw != "func" {
						cur.Key = kw + " " + nm
					}
					cur.setSig(ps, rr)
				}
				if sp.Contracts[cur.Key] != nil {
					panic("duplicate contract " + cur.Key)
				}
				sp.Contracts[cur.Key] = cur
			default:
				panic("unknown declaration: " + line)
			}
			continue
		}
		if pool != "" {
			if kw != "inv" {
				panic("bad pool line: " + line)
			}
			pi := &PoolInv{}
			if strings.HasPrefix(rest, "$") {
				i := strings.Index(rest, "::")
				pi.Metas = parseParams(rest[:i])
				rest = rest[i+2:]
			}
			pi.Body = parseExpr(rest)
			sp.Pools[pool] = append(sp.Pools[pool], pi)
			continue
		}
		if cur == nil {
			panic("clause outside contract: " + line)
		}
		switch kw {
		case "props":
			cur.Props = strings.Fields(rest)
		case "inittab":
			cur.Inits = append(cur.Inits, strings.Fields(rest))
		case "each":
			// each (k, v TYPE) EXPR: holds of every value of the type put into a map by this function
			a, b := strings.IndexByte(rest, '('), strings.IndexByte(rest, ')')
			ps := strings.Split(rest[a+1:b], ",")
			vt := strings.Fields(ps[1])
			cur.Each = append(cur.Each, PutClause{"", strings.TrimSpace(ps[0]), vt[0], vt[1], parseExpr(rest[b+1:])})
		case "puts":
			// puts MAP(k, v TYPE) EXPR
			a, b := strings.IndexByte(rest, '('), strings.IndexByte(rest, ')')
			ps := strings.Split(rest[a+1:b], ",")
			vt := strings.Fields(ps[1])
			cur.Puts = append(cur.Puts, PutClause{strings.TrimSpace(rest[:a]), strings.TrimSpace(ps[0]), vt[0], vt[1], parseExpr(rest[b+1:])})
		case "requires":
			cur.Requires = append(cur.Requires, parseExpr(rest))
		case "ensures":
			if curCase != nil {
				curCase.Ensures = append(curCase.Ensures, parseExpr(rest))
			} else {
				cur.Ensures = append(cur.Ensures, parseExpr(rest))
			}
		case "assumes":
			cur.Assumed = append(cur.Assumed, parseExpr(rest))
		case "trusts":
			cur.Trusts = append(cur.Trusts, parseExpr(rest))
		case "case":
			// case NAME: cond
			i := strings.IndexByte(rest, ':')
			curCase = &Case{Name: strings.TrimSpace(rest[:i])}
			if c := strings.TrimSpace(rest[i+1:]); c != "" && c != "true" {
				curCase.Cond = parseExpr(c)
			}
			cur.Cases = append(cur.Cases, curCase)
		case "ends":
			// shorthand: consumes input up to e (see base.vc)
			en := cur.Results[len(cur.Results)-1]
			cur.Requires = append(cur.Requires, parseExpr("inv(it)"))
			cur.Modifies = append(cur.Modifies, parseExpr("M(it)"))
			cur.Ensures = append(cur.Ensures, parseExpr("keep(it)"))
			cur.Lets = append(cur.Lets, struct {
				Name string
				E    *Expr
			}{"e", parseExpr(rest)})
			cur.Cases = append(cur.Cases,
				&Case{Name: "ok", Cond: parseExpr(en + " == 0"), Ensures: []*Expr{parseExpr("pos(it) == e"), parseExpr("e >= old(pos(it))")}},
				&Case{Name: "bad", Cond: parseExpr("synErr(" + en + ")"), Ensures: []*Expr{parseExpr("e == -1")}},
				&Case{Name: "end", Cond: parseExpr(en + " == eofErr(it)"), Ensures: []*Expr{parseExpr("e == -2")}})
		case "ok", "bad", "end":
			for _, cs := range cur.Cases {
				if cs.Name == kw {
					cs.Ensures = append(cs.Ensures, parseExpr(rest))
				}
			}
		case "modifies":
			for _, x := range splitTop(rest, ',') {
				cur.Modifies = append(cur.Modifies, parseExpr(x))
			}
		case "pool":
			cur.Pools = append(cur.Pools, strings.Fields(rest)...)
		case "variant":
			cur.Variants = append(cur.Variants, parseExpr(rest))
		case "rep":
			cur.Reps = append(cur.Reps, parseExpr(rest))
		case "exit":
			i := strings.Index(rest, ":=")
			cur.Exits = append(cur.Exits, [2]*Expr{parseExpr(rest[:i]), parseExpr(rest[i+2:])})
		case "decreases":
			cur.Decr = parseExpr(rest)
		case "let":
			i := strings.Index(rest, ":=")
			cur.Lets = append(cur.Lets, struct {
				Name string
				E    *Expr
			}{strings.TrimSpace(rest[:i]), parseExpr(rest[i+2:])})
		case "theory":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "alias":
			f := strings.Fields(rest)
			cur.Alias[f[0]] = f[1]
		case "returns":
			f := strings.Fields(rest)
			cur.RetArg[f[0]] = f[1]
		case "flag":
			for _, f := range strings.Fields(rest) {
				cur.Flags[f] = true
			}
		default:
			panic("unknown clause: " + line)
		}
	}
}

func (c *Contract) setSig(ps, rest string) {
	for _, p := range parseParams(ps) {
		c.Params = append(c.Params, p.Name)
	}
	rest = strings.TrimSpace(rest)
	if strings.HasPrefix(rest, "(") {
		for _, p := range parseParams(rest[1:strings.LastIndexByte(rest, ')')]) {
			c.Results = append(c.Results, p.Name)
		}
	}
}

func (sp *Spec) addFn(d *FnDef) {
	switch d.Name {
	case "old", "in", "mem", "bytes", "len", "cap", "deref", "listOf", "indexOf", "col", "owned", "src", "lo", "hi", "blen", "bat", "snoc", "appR", "store", "pow2", "errtype", "isfn", "runeIn", "dyn", "isdyn", "isnilptr", "pre":
		panic("definition of " + d.Name + " hides a builtin")
	}
	if sp.Fns[d.Name] != nil {
		panic("duplicate spec function " + d.Name)
	}
	sp.Fns[d.Name] = d
	sp.FnOrder = append(sp.FnOrder, d.Name)
	if d.Ctor {
		ctors[d.Name] = true
	}
}
