package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Table is the contents of a package level array after initialisation.
type Table struct {
	Ints  []*big.Int
	Strs  []string
	Funcs []*ssa.Function
	Names []string // dynamic types, type names or function names, after initialisation
	Map   bool
}

// Prog is the loaded program.
type Prog struct {
	fset    *token.FileSet
	pkg     *packages.Package
	ssaProg *ssa.Program
	ssaPkg  *ssa.Package
	sizes   types.Sizes
	tables  map[string]*Table
	inits   map[string]*Table
	mutable map[*ssa.Global]bool
	funcs   map[string]*ssa.Function
	mu      sync.Mutex
	loops   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	errT    map[string]int64
	errG    map[string]int64
	repo    string
}

func goEnv() []string {
	const v = "/opt/veriftools/go1.23.12"
	env := []string{"HOME=/root", "PATH=" + v + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=1",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build"}
	if t := os.Getenv("TMPDIR"); t != "" {
		env = append(env, "TMPDIR="+t)
	}
	return env
}

func LoadProg(repo string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Fset: fset,
		Env:  append(goEnv(), "GOFLAGS=-mod=readonly"),
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("loaded %d packages", len(ps))
	}
	if len(ps[0].Errors) > 0 {
		return nil, fmt.Errorf("%v", ps[0].Errors[0])
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{fset: fset, pkg: ps[0], ssaProg: prog, ssaPkg: sp[0], sizes: ps[0].TypesSizes, repo: repo,
		tables: map[string]*Table{}, inits: map[string]*Table{}, mutable: map[*ssa.Global]bool{}, funcs: map[string]*ssa.Function{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, errT: map[string]int64{}, errG: map[string]int64{}}
	if p.sizes == nil {
		p.sizes = types.SizesFor("gc", "amd64")
	}
	p.ssaPkg.Build()
	for _, im := range []string{"unicode/utf16", "unicode/utf8", "math", "errors", "bytes"} {
		for _, q := range prog.AllPackages() {
			if q.Pkg.Path() == im {
				q.Build()
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == p.ssaPkg && fn.Synthetic == "" {
			k := funcKey(fn)
			if fn.Parent() != nil {
				k = fn.Name()
			}
			p.funcs[k] = fn
		}
	}
	p.scanPools()
	p.scanGlobals()
	p.scanErrors()
	if err := p.dumpTables(); err != nil {
		return nil, err
	}
	return p, nil
}

func (p *Prog) inlinable(fn *ssa.Function) bool {
	if fn.Pkg == p.ssaPkg || fn.Pkg == nil {
		return true
	}
	switch fn.Pkg.Pkg.Path() {
	case "unicode/utf16", "math":
		return true
	case "bytes":
		return fn.Name() == "Bytes"
	}
	return false
}

// initOnly: the package initialisers and the unexported functions that only they call.
func (p *Prog) initOnly() map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if fn.Pkg != p.ssaPkg {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, isCall := ins.(*ssa.Call)
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f.Parent() == nil {
						if isCall && c.Call.Value == f {
							callers[f] = append(callers[f], root)
						} else {
							escapes[f] = true
						}
					}
				}
				if isCall {
					for _, a := range c.Call.Args {
						if f, ok := a.(*ssa.Function); ok {
							escapes[f] = true
						}
					}
				}
			}
		}
	}
	res := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if fn.Pkg == p.ssaPkg && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) && fn.Signature.Recv() == nil {
			res[fn] = true
		}
	}
	for again := true; again; {
		again = false
		for f, cs := range callers {
			if res[f] || escapes[f] || f.Signature.Recv() != nil || ast.IsExported(f.Name()) {
				continue
			}
			all := true
			for _, c := range cs {
				all = all && res[c]
			}
			if all {
				res[f] = true
				again = true
			}
		}
	}
	return res
}

// scanGlobals finds globals that are written or whose address escapes outside init.
func (p *Prog) scanGlobals() {
	onlyInit := p.initOnly()
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if fn.Pkg != p.ssaPkg {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		isInit := onlyInit[root]
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && !isInit {
							p.mutable[g] = true
						}
					}
				}
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				for {
					switch y := a.(type) {
					case *ssa.IndexAddr:
						a = y.X
						continue
					case *ssa.FieldAddr:
						a = y.X
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok && !isInit {
					p.mutable[g] = true
				}
			}
		}
	}
}

// scanErrors numbers error sentinels and error types.
func (p *Prog) scanErrors() {
	var gs, ts []string
	for n, m := range p.ssaPkg.Members {
		switch y := m.(type) {
		case *ssa.Global:
			if isErrorT(y.Type().Underlying().(*types.Pointer).Elem()) {
				gs = append(gs, n)
			}
		case *ssa.Type:
			ts = append(ts, n)
		}
	}
	sort.Strings(gs)
	sort.Strings(ts)
	for i, g := range gs {
		p.errG[g] = int64(2 + i)
	}
	for i, t := range ts {
		p.errT[t] = int64(100 + i)
		p.errT["*"+t] = int64(400 + i)
	}
}

func (p *Prog) errCode(g *ssa.Global) int64 {
	if g.Pkg == p.ssaPkg {
		return p.errG[g.Name()]
	}
	if g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
		return 1
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	k := g.Pkg.Pkg.Path() + "." + g.Name()
	if c, ok := p.errG[k]; ok {
		return c
	}
	c := int64(60 + len(p.errG))
	p.errG[k] = c
	return c
}

func (p *Prog) errTypeCode(name string) int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c, ok := p.errT[name]; ok {
		return c
	}
	c := int64(700 + len(p.errT))
	p.errT[name] = c
	return c
}

// globalConst finds the constant a never reassigned global is initialised with.
func (p *Prog) globalConst(g *ssa.Global) *ssa.Const {
	if g.Pkg != p.ssaPkg || p.mutable[g] {
		return nil
	}
	var c *ssa.Const
	n := 0
	for _, fn := range p.ssaPkg.Members {
		f, ok := fn.(*ssa.Function)
		if !ok || !(f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
					n++
					if k, ok := s.Val.(*ssa.Const); ok {
						c = k
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return c
}

// loopsOf returns natural loops by header.
func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				set := l[h]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{h: true}
					l[h] = set
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if set[b] {
						return
					}
					set[b] = true
					for _, q := range b.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	p.loops[fn] = l
	return l
}

// dumpTables runs the package's own initialisation and prints the arrays it leaves behind.
func (p *Prog) dumpTables() error {
	type gl struct {
		name string
		kind string
	}
	var gs []gl
	for n, m := range p.ssaPkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		isRT := func(t types.Type) bool {
			n, ok := t.(interface{ Obj() *types.TypeName })
			b, isB := t.Underlying().(*types.Basic)
			return ok && isB && b.Kind() == types.Uintptr && n.Obj().Name() == "rtype"
		}
		if mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map); ok && isRT(mt.Key()) && types.IsInterface(mt.Elem()) {
			gs = append(gs, gl{n, "m"})
		}
		at, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || at.Len() > 5000 {
			continue
		}
		switch {
		case isRT(at.Elem()):
			gs = append(gs, gl{n, "t"})
		case types.IsInterface(at.Elem()):
			gs = append(gs, gl{n, "d"})
		case isString(at.Elem()):
			gs = append(gs, gl{n, "s"})
		case isBoolT(at.Elem()):
			gs = append(gs, gl{n, "b"})
		default:
			if _, _, ok := intInfo(at.Elem()); ok {
				gs = append(gs, gl{n, "i"})
			} else if _, ok := at.Elem().Underlying().(*types.Signature); ok {
				gs = append(gs, gl{n, "f"})
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].name < gs[j].name })
	var sb strings.Builder
	sb.WriteString("package " + p.pkg.Types.Name() + "\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"reflect\"\n\t\"runtime\"\n\t\"sort\"\n\t\"testing\"\n\t\"unsafe\"\n)\n\n")
	sb.WriteString("func verifTypeName(r uintptr) string { if r == 0 { return \"\" }; e := struct{ t uintptr; p unsafe.Pointer }{r, nil}; return reflect.TypeOf(*(*interface{})(unsafe.Pointer(&e))).String() }\n")
	sb.WriteString("func verifDyn(v interface{}) string { if v == nil { return \"\" }; return fmt.Sprintf(\"%T\", v) }\nvar _ = sort.Strings\n")
	sb.WriteString("func TestVerifDump(t *testing.T) {\n\tout := map[string]interface{}{}\n")
	sb.WriteString("\tvar fn func(v interface{}) string\n\tfn = func(v interface{}) string { r := reflect.ValueOf(v); if r.IsNil() { return \"\" }; f := runtime.FuncForPC(r.Pointer()); fl, ln := f.FileLine(f.Entry()); return fmt.Sprintf(\"%s|%s:%d\", f.Name(), fl, ln) }\n")
	for _, g := range gs {
		switch g.kind {
		case "s":
			fmt.Fprintf(&sb, "\t{ var l []string; for _, x := range %s { l = append(l, string(x)) }; out[%q] = map[string]interface{}{\"s\": l} }\n", g.name, g.name)
		case "t":
			fmt.Fprintf(&sb, "\t{ l := []string{}; k := []string{}; for _, x := range %s { l = append(l, fmt.Sprintf(\"%%d\", uintptr(x))); k = append(k, verifTypeName(uintptr(x))) }; out[%q] = map[string]interface{}{\"i\": l, \"n\": k} }\n", g.name, g.name)
		case "d":
			fmt.Fprintf(&sb, "\t{ l := []string{}; for _, x := range %s { l = append(l, verifDyn(x)) }; out[%q] = map[string]interface{}{\"n\": l} }\n", g.name, g.name)
		case "m":
			fmt.Fprintf(&sb, "\t{ l := []string{}; for k, x := range %s { l = append(l, verifTypeName(uintptr(k))+\"=\"+verifDyn(x)) }; sort.Strings(l); out[%q] = map[string]interface{}{\"n\": l, \"m\": []string{}} }\n", g.name, g.name)
		case "b":
			fmt.Fprintf(&sb, "\t{ var l []string; for _, x := range %s { if x { l = append(l, \"1\") } else { l = append(l, \"0\") } }; out[%q] = map[string]interface{}{\"i\": l} }\n", g.name, g.name)
		case "i":
			fmt.Fprintf(&sb, "\t{ var l []string; for _, x := range %s { l = append(l, fmt.Sprintf(\"%%d\", x)) }; out[%q] = map[string]interface{}{\"i\": l} }\n", g.name, g.name)
		case "f":
			fmt.Fprintf(&sb, "\t{ var l []string; for _, x := range %s { l = append(l, fn(x)) }; out[%q] = map[string]interface{}{\"f\": l} }\n", g.name, g.name)
		}
	}
	sb.WriteString("\tb, _ := json.Marshal(out)\n\tos.WriteFile(os.Getenv(\"VERIF_DUMP\"), b, 0644)\n}\n")
	dir, err := os.MkdirTemp("", "govcdump")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "zz_verif_dump_test.go")
	os.WriteFile(src, []byte(sb.String()), 0644)
	rep := map[string]string{filepath.Join(p.repo, "zz_verif_dump_test.go"): src}
	tests, _ := filepath.Glob(filepath.Join(p.repo, "*_test.go"))
	for _, t := range tests {
		rep[t] = ""
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	outf := filepath.Join(dir, "out.json")
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", "test", "-vet=off", "-count=1", "-mod=readonly", "-gcflags=all=-l", "-overlay", ovf, "-run", "^TestVerifDump$", ".")
	cmd.Dir = p.repo
	cmd.Env = append(goEnv(), "GOFLAGS=", "VERIF_DUMP="+outf)
	var eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &eb, &eb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("dumping tables: %v\n%s", err, trunc(eb.String(), 2000))
	}
	raw, err := os.ReadFile(outf)
	if err != nil {
		return err
	}
	var res map[string]map[string][]string
	if err := json.Unmarshal(raw, &res); err != nil {
		return err
	}
	// functions by file:line
	byPos := map[string]*ssa.Function{}
	byName := map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if fn.Pkg != p.ssaPkg {
			continue
		}
		q := p.fset.Position(fn.Pos())
		if fn.Syntax() != nil {
			if _, ok := fn.Syntax().(*ast.FuncLit); ok {
				q = p.fset.Position(fn.Syntax().Pos())
			}
		}
		byPos[fmt.Sprintf("%s:%d", q.Filename, q.Line)] = fn
		if fn.Parent() == nil {
			byName[p.pkg.PkgPath+"."+fn.Name()] = fn
		}
	}
	for n, r := range res {
		t := &Table{Names: r["n"], Map: r["m"] != nil}
		for _, s := range r["f"] {
			s = strings.TrimPrefix(strings.SplitN(s, "|", 2)[0], p.pkg.PkgPath+".")
			if strings.Contains(s, ".func") {
				s = "closure"
			}
			t.Names = append(t.Names, s)
		}
		for i, s := range t.Names {
			t.Names[i] = strings.ReplaceAll(s, p.pkg.Types.Name()+".", "")
		}
		p.inits[n] = t
		if r["s"] == nil && r["i"] == nil && r["f"] == nil {
			continue
		}
		switch {
		case r["s"] != nil:
			t.Strs = r["s"]
		case r["i"] != nil:
			for _, s := range r["i"] {
				v, _ := new(big.Int).SetString(s, 10)
				t.Ints = append(t.Ints, v)
			}
		case r["f"] != nil:
			bad := false
			for _, s := range r["f"] {
				if s == "" {
					t.Funcs = append(t.Funcs, nil)
					continue
				}
				i := strings.IndexByte(s, '|')
				fn := byName[s[:i]]
				if fn == nil {
					fn = byPos[s[i+1:]]
				}
				if fn == nil {
					bad = true
				}
				t.Funcs = append(t.Funcs, fn)
			}
			if bad {
				continue
			}
		}
		p.tables[n] = t
	}
	return nil
}

// fieldSetOnce: every store to the field is to an object allocated in the same function.
func (p *Prog) fieldSetOnce(t types.Type, name string) bool {
	for fn := range ssautil.AllFunctions(p.ssaProg) {
		if fn.Pkg != p.ssaPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				et := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if !types.Identical(et, t) || et.Underlying().(*types.Struct).Field(fa.Field).Name() != name {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch w := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						_ = w
						return false
					default:
						return false
					}
				}
			}
		}
	}
	return true
}
