// Command rac executes the contracts of the properties against the real code (built from /repo)
// with independent oracles: it replays counterexamples of failed proof obligations and serves as
// the labelled bounded check for the functions outside the verifier's reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type caseInfo struct {
	n     int64
	name  string
	input string
	start time.Time
}

type ctx struct {
	prop     string
	seed     int64
	rng      *rand.Rand
	deadline time.Time
	n        int64
	counts   map[string]int64
	cur      atomic.Pointer[caseInfo]
	out      string
	hints    []string
	trace    *os.File
	tier     string
}

type failure struct {
	Property string `json:"property"`
	Check    string `json:"check"`
	Seed     int64  `json:"seed"`
	Case     int64  `json:"case"`
	Input    string `json:"input"`
	Observed string `json:"observed"`
	Rerun    string `json:"rerun"`
}

func (c *ctx) fail(ci *caseInfo, obs string) {
	f := failure{c.prop, ci.name, c.seed, ci.n, ci.input, obs, fmt.Sprintf("rac -prop %s -seed %d", c.prop, c.seed)}
	b, _ := json.MarshalIndent(f, "", " ")
	if c.out != "" {
		os.WriteFile(c.out, append(b, '\n'), 0644)
	}
	fmt.Printf("RAC-FAIL %s check=%s case=%d\n  input: %s\n  observed: %s\n", c.prop, ci.name, ci.n, clip(ci.input, 600), clip(obs, 1500))
	os.Exit(1)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// check runs one case; f returns "" if the contract held.
func (c *ctx) check(name string, input func() string, f func() string) {
	c.n++
	c.counts[name]++
	ci := &caseInfo{n: c.n, name: name, start: time.Now()}
	if c.trace != nil {
		ci.input = input()
		c.trace.Truncate(0)
		c.trace.WriteAt([]byte(name+"\n"+clip(ci.input, 20000)), 0)
	}
	c.cur.Store(ci)
	obs := func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v\n%s", r, clip(string(debug.Stack()), 1200))
			}
		}()
		return f()
	}()
	c.cur.Store(nil)
	if obs != "" {
		ci.input = input()
		c.fail(ci, obs)
	}
}

func (c *ctx) more() bool { return time.Now().Before(c.deadline) }

// share gives a slice of the time budget to f.
func (c *ctx) share(frac float64, f func()) {
	d := c.deadline
	left := time.Until(d)
	c.deadline = time.Now().Add(time.Duration(float64(left) * frac))
	f()
	c.deadline = d
}

var props = map[string]func(*ctx){}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 10, "time budget")
	out := flag.String("out", "", "replay file")
	stats := flag.String("stats", "", "statistics file")
	hints := flag.String("hints", "", "file with candidate inputs, one Go-quoted string per line")
	trace := flag.String("trace", "", "write each case here before running it")
	tier := flag.String("tier", "quick", "tier")
	flag.Parse()
	f := props[*prop]
	if f == nil {
		fmt.Println("no executable contract for", *prop)
		os.Exit(3)
	}
	debug.SetMaxStack(512 << 20)
	c := &ctx{prop: *prop, seed: *seed, rng: rand.New(rand.NewSource(*seed)), deadline: time.Now().Add(time.Duration(*secs * float64(time.Second))), counts: map[string]int64{}, out: *out, tier: *tier}
	if *hints != "" {
		b, _ := os.ReadFile(*hints)
		for _, l := range strings.Split(string(b), "\n") {
			var s string
			if _, err := fmt.Sscanf(l, "%q", &s); err == nil {
				c.hints = append(c.hints, s)
			}
		}
	}
	if *trace != "" {
		c.trace, _ = os.Create(*trace)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if ci := c.cur.Load(); ci != nil && time.Since(ci.start) > 20*time.Second {
				if ci.input == "" {
					ci.input = "(rerun with -trace to see the input)"
				}
				if c.trace == nil {
					os.Exit(7) // the driver reruns with tracing
				}
				c.fail(ci, "does not terminate within 20 s")
			}
		}
	}()
	f(c)
	var ks []string
	for k := range c.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b, _ := json.Marshal(c.counts)
	if *stats != "" {
		os.WriteFile(*stats, b, 0644)
	}
	fmt.Printf("RAC-OK %s cases=%d %s\n", *prop, c.n, b)
}
