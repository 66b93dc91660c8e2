package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "tree to verify")
	dir := flag.String("contracts", "", "contract directory")
	fns := flag.String("func", "", "verify only these functions (comma separated)")
	lem := flag.String("lemma", "", "prove lemmas (name or all)")
	prop := flag.String("prop", "", "property to decide")
	out := flag.String("json", "", "write the result here")
	limit := flag.Int("limit", 240, "seconds per function")
	total := flag.Int("total", 700, "seconds in total")
	own := flag.Bool("own", false, "check the ownership obligations")
	verbose := flag.Bool("v", false, "verbose")
	drop := flag.String("drop", "", "contracts to ignore")
	flag.Parse()
	if *dir == "" {
		e, _ := os.Executable()
		*dir = filepath.Join(filepath.Dir(filepath.Dir(e)), "contracts")
	}
	spec := NewSpec()
	spec.LoadDir(*dir)
	spec.analyse()
	prog, err := LoadProg(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	no := map[string]bool{}
	for _, d := range strings.Split(*drop, ",") {
		if d != "" {
			no[d] = true
		}
	}
	if *own {
		rs := prog.own(spec)
		if rs.Err != "" {
			fmt.Println("error", rs.Err)
		}
		n, bad := 0, 0
		for _, r := range rs.List {
			for _, o := range r.Obls {
				n++
				if !o.OK {
					bad++
					fmt.Println("FAIL", r.Key, o.Name, o.Pos)
				} else if *verbose {
					fmt.Println("ok", r.Key, o.Name, o.Count)
				}
			}
		}
		fmt.Println("functions", len(rs.List), "obligations", n, "failed", bad)
		return
	}
	if *lem != "" {
		bad := 0
		for i, l := range spec.Lemmas {
			if (*lem == "all" || *lem == l.Name) && !l.Trusted {
				r := verifyLemma(prog, spec, i)
				fmt.Printf("%-40s ok=%v %s %.2fs\n", r.Key, r.ok(), r.Err, r.WallS)
				if !r.ok() {
					bad++
				}
			}
		}
		fmt.Println("bad", bad)
		return
	}
	if *fns != "" {
		var ks []string
		for _, k := range strings.Split(*fns, ",") {
			if strings.HasSuffix(k, ".vc") || k == "all" {
				for n, c := range spec.Contracts {
					if (c.File == k || k == "all") && c.Kind == "func" && !c.Flags["trusted"] {
						ks = append(ks, n)
					}
				}
				continue
			}
			ks = append(ks, k)
		}
		bad := 0
		parallel(len(ks), func(i int) {
			k := ks[i]
			if spec.Contracts[k] == nil {
				fmt.Println("no contract", k)
				return
			}
			r := verifyFunc(prog, spec, k, no, time.Duration(*limit)*time.Second, *verbose)
			report(r, *verbose)
			if !r.ok() {
				bad++
			}
		})
		fmt.Println("functions", len(ks), "failed", bad)
		return
	}
	if *prop != "" {
		rep := decide(prog, spec, *prop, time.Duration(*limit)*time.Second, time.Duration(*total)*time.Second, *verbose)
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		}
		fmt.Printf("property %s: functions %d obligations %d discharged %d\n", *prop, len(rep.Functions), rep.Obligations, rep.Discharged)
		for _, f := range rep.Failed {
			fmt.Println("FAILED", f)
		}
		if !rep.OK {
			os.Exit(1)
		}
	}
}

func parallel(n int, f func(int)) {
	ch := make(chan int)
	done := make(chan bool)
	for w := 0; w < 8; w++ {
		go func() {
			for i := range ch {
				f(i)
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	for w := 0; w < 8; w++ {
		<-done
	}
}

func report(r *FuncResult, verbose bool) {
	n, ok := 0, 0
	var sb strings.Builder
	for _, o := range r.Obls {
		n++
		if o.OK {
			ok++
		} else {
			fmt.Fprintf(&sb, "    FAILED %s (%s)\n", o.Name, o.Pos)
		}
	}
	s := "ok  "
	if !r.ok() {
		s = "FAIL"
	}
	if len(r.Unreached) > 0 {
		fmt.Fprintf(&sb, "    unreached %s\n", strings.Join(r.Unreached, " "))
	}
	fmt.Printf("%s %-44s %d/%d obl, %d ret, %d loops, %d queries, %.1fs (solver %.1fs) %s\n%s", s, r.Key, ok, n, r.Returns, r.Loops, r.Queries, r.WallS, r.SolverS, r.Err, sb.String())
	if verbose {
		fmt.Println("   used", r.Used, "inlined", r.Inlined, "assumes", r.Assumes)
	}
}

// Report is the outcome for one property.
type Report struct {
	Property    string        `json:"property"`
	OK          bool          `json:"ok"`
	Functions   []*FuncResult `json:"functions"`
	Lemmas      []*FuncResult `json:"lemmas"`
	Obligations int           `json:"obligations"`
	Discharged  int           `json:"discharged"`
	Failed      []string      `json:"failed"`
	Dropped     []string      `json:"dropped_contracts"`
	Queries     int64         `json:"queries"`
	SolverS     float64       `json:"solver_s"`
	WallS       float64       `json:"wall_s"`
	Assumptions []string      `json:"assumptions"`
	Inlined     []string      `json:"inlined"`
	Missing     []string      `json:"missing"`
}

func has(xs []string, y string) bool {
	for _, x := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// decide verifies every contract carrying the property, the contracts those rely on, and the lemmas used.
func decide(prog *Prog, spec *Spec, prop string, limit, total time.Duration, verbose bool) *Report {
	t0 := time.Now()
	rep := &Report{Property: prop, OK: true}
	no := map[string]bool{}
	// contracts whose function disappeared or changed shape are not usable
	for k, c := range spec.Contracts {
		if c.Kind != "func" {
			continue
		}
		f := prog.funcs[k]
		if f == nil || !sigOK(c, f) {
			no[k] = true
			if has(c.Props, prop) {
				rep.Missing = append(rep.Missing, k)
			}
		}
	}
	done := map[string]*FuncResult{}
	deadline := t0.Add(total)
	for round := 0; round < 6; round++ {
		var todo []string
		seen := map[string]bool{}
		add := func(k string) {
			c := spec.Contracts[k]
			if c != nil && c.Kind == "func" && !c.Flags["trusted"] && !no[k] && !seen[k] {
				seen[k] = true
				if done[k] == nil {
					todo = append(todo, k)
				}
			}
		}
		for k, c := range spec.Contracts {
			if has(c.Props, prop) {
				add(k)
			}
		}
		reach := map[string]bool{}
		for {
			// close over contracts used
			for {
				n := len(seen)
				for k := range seen {
					if r := done[k]; r != nil {
						for _, u := range r.Used {
							add(u)
						}
					}
				}
				if len(seen) == n {
					break
				}
			}
			if len(todo) == 0 {
				break
			}
			batch := todo
			todo = nil
			rs := make([]*FuncResult, len(batch))
			parallel(len(batch), func(i int) {
				lim := limit
				if d := time.Until(deadline); d < lim {
					lim = d
				}
				if lim < time.Second {
					lim = time.Second
				}
				rs[i] = verifyFunc(prog, spec, batch[i], copyMap(no), lim, verbose)
			})
			for i, k := range batch {
				done[k] = rs[i]
			}
		}
		_ = reach
		// failing helper contracts are dropped: their callers are verified with the body inlined
		var bad []string
		for k := range seen {
			if r := done[k]; r != nil && !r.ok() && len(spec.Contracts[k].Props) == 0 {
				bad = append(bad, k)
			}
		}
		if len(bad) == 0 || time.Now().After(deadline) {
			for k := range done {
				if !seen[k] {
					delete(done, k)
				}
			}
			break
		}
		for _, k := range bad {
			no[k] = true
			rep.Dropped = append(rep.Dropped, k)
			delete(done, k)
		}
		for k, r := range done {
			for _, b := range bad {
				if has(r.Used, b) {
					delete(done, k)
				}
			}
		}
	}
	// lemmas of the theories in use
	th := map[string]bool{"base": true}
	for _, f := range spec.FileProps[prop] {
		th[f] = true
	}
	for k := range done {
		for _, u := range spec.Contracts[k].Uses {
			th[u] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, l := range spec.Lemmas {
			if th[theoryOf(l.File)] {
				for _, u := range l.Using {
					if !th[u] {
						th[u] = true
						ch = true
					}
				}
			}
		}
	}
	var ls []int
	for i, l := range spec.Lemmas {
		if th[theoryOf(l.File)] && !l.Trusted {
			ls = append(ls, i)
		}
	}
	lr := make([]*FuncResult, len(ls))
	parallel(len(ls), func(i int) { lr[i] = verifyLemma(prog, spec, ls[i]) })
	rep.Lemmas = lr
	for k := range done {
		if len(spec.Contracts[k].Reps) > 0 || spec.Contracts[k].Flags["poolnew"] {
			done["frame of the iterator representation"] = prog.repFrame(spec, no)
			break
		}
	}
	as, inl := map[string]bool{}, map[string]bool{}
	if has(spec.Own.Props, prop) {
		rs := prog.own(spec)
		for i, r := range rs.List {
			k := r.Key
			if done[k] != nil {
				k += "#" + strconv.Itoa(i)
				r.Key = k
			}
			done[k] = r
		}
		if rs.Err != "" {
			done["ownership"] = &FuncResult{Key: "ownership", Err: rs.Err}
		}
		as["sync.Mutex excludes, atomic.Value publishes, sync.Pool hands out an object to one goroutine at a time"] = true
		as["user code reached through interfaces (readers, writers, marshalers, custom coders) is itself safe for concurrent use"] = true
		as["without unordered accesses to shared memory an interleaving gives the results of sequential use (the separation-logic frame argument; not mechanised)"] = true
	}
	var ks []string
	for k := range done {
		ks = append(ks, k)
	}
	sortStrings(ks)
	count := func(r *FuncResult) {
		for _, o := range r.Obls {
			rep.Obligations++
			if o.OK {
				rep.Discharged++
			} else {
				rep.OK = false
				rep.Failed = append(rep.Failed, r.Key+": "+o.Name+" ["+o.Pos+"]")
			}
		}
		if r.Err != "" {
			rep.OK = false
			rep.Obligations++
			rep.Failed = append(rep.Failed, r.Key+": "+r.Err)
		}
		for _, a := range r.Assumes {
			as[a] = true
		}
		for _, a := range r.Inlined {
			inl[a] = true
		}
	}
	for _, k := range ks {
		rep.Functions = append(rep.Functions, done[k])
		count(done[k])
	}
	for _, r := range lr {
		count(r)
	}
	if rep.Obligations == 0 {
		rep.OK = false
		rep.Obligations = 1
		rep.Failed = append(rep.Failed, "no contract carries property "+prop)
	}
	rep.Assumptions = keys(as)
	rep.Inlined = keys(inl)
	rep.Queries = totalQueries
	rep.SolverS = float64(totalSolverNS) / 1e9
	rep.WallS = time.Since(t0).Seconds()
	return rep
}

func copyMap(m map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
