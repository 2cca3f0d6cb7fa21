package main

// Bounded stand-in checks: every property has a case function that compares the
// library (public API only) with the reference semantics of oracle.go on one
// generated case. Cases are addressed by (seed, index), so a failing one can be
// re-run alone with -case.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	abnf "github.com/pandatix/go-abnf"
)

type failure struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Grammar  string `json:"grammar,omitempty"`
	Input    string `json:"input,omitempty"`
	What     string `json:"what"`
}

type C struct {
	prop  string
	seed  int64
	idx   int
	rng   *rand.Rand
	tier  string
	cur   atomic.Value // description of what is being evaluated
	evals int
	nontr map[uint64]bool
	samp  []string
	fails []failure
	skips map[string]int
}

const maxFailsPerCase = 3

func (c *C) fail(gram, in string, format string, a ...any) {
	if len(c.fails) < maxFailsPerCase {
		c.fails = append(c.fails, failure{c.prop, "mismatch", c.seed, c.idx, gram, in, fmt.Sprintf(format, a...)})
	}
}

func (c *C) at(gram, in string) { c.cur.Store([2]string{gram, in}) }

// eval counts one evaluation; key identifies it, nontrivial marks those where
// the property says something beyond the trivial answer.
func (c *C) eval(nontrivial bool, key ...string) {
	c.evals++
	if nontrivial {
		h := fnv.New64a()
		for _, k := range key {
			h.Write([]byte(k))
			h.Write([]byte{0})
		}
		c.nontr[h.Sum64()] = true
		if len(c.samp) < 1 && len(key) > 0 {
			s := ""
			for i, k := range key {
				if i > 0 {
					s += " | "
				}
				s += fmt.Sprintf("%q", k)
			}
			if len(s) < 600 {
				c.samp = append(c.samp, s)
			}
		}
	}
}

func (c *C) skip(why string) { c.skips[why]++ }

func (c *C) pick(n int) int        { return c.rng.Intn(n) }
func (c *C) p(percent int) bool    { return c.rng.Intn(100) < percent }
func pickOf[T any](c *C, xs []T) T { return xs[c.rng.Intn(len(xs))] }
func q(b []byte) string            { return fmt.Sprintf("%q", string(b)) }
func gstr(g *abnf.Grammar) string  { return dumpGrammar(g) }

type propDef struct {
	run      func(*C)
	quick    int
	thorough int
	rule     string
	serial   bool
}

var props = map[string]propDef{}

type result struct {
	Property    string         `json:"property"`
	Seed        int64          `json:"seed"`
	Tier        string         `json:"tier"`
	Cases       int            `json:"cases"`
	Planned     int            `json:"planned"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Skipped     map[string]int `json:"skipped"`
	Failures    []failure      `json:"failures"`
	WallS       float64        `json:"wall_s"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "result file")
	one := flag.Int("case", -1, "run a single case")
	cap_ := flag.Int("cap", 240, "wall-clock cap in seconds")
	caseCap := flag.Int("casecap", 60, "per-case cap in seconds")
	workers := flag.Int("workers", 8, "workers")
	n := flag.Int("n", 0, "override the number of cases")
	flag.Parse()

	d, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	total := d.quick
	if *tier == "thorough" {
		total = d.thorough
	}
	if *n > 0 {
		total = *n
	}
	res := &result{Property: *prop, Seed: *seed, Tier: *tier, Planned: total, Rule: d.rule, Skipped: map[string]int{}}
	start := time.Now()
	var mu sync.Mutex
	nontr := map[uint64]bool{}
	cancel := false

	write := func() {
		res.Nontrivial = len(nontr)
		res.WallS = time.Since(start).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
	}
	finish := func() {
		write()
		for _, f := range res.Failures {
			fmt.Printf("FAIL %s case=%d %s\n  grammar: %s\n  input: %s\n", f.Property, f.Case, f.What, f.Grammar, f.Input)
		}
		fmt.Printf("%s cases=%d evals=%d nontrivial=%d failures=%d %.1fs skips=%v\n", *prop, res.Cases, res.Evaluations, res.Nontrivial, len(res.Failures), res.WallS, res.Skipped)
		if len(res.Failures) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}

	type slot struct {
		c     *C
		since time.Time
	}
	slots := make([]slot, *workers)
	var smu sync.Mutex

	runCase := func(w, idx int) {
		c := &C{prop: *prop, seed: *seed, idx: idx, tier: *tier, nontr: map[uint64]bool{}, skips: map[string]int{}}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%d/%d", *prop, *seed, idx)
		c.rng = rand.New(rand.NewSource(int64(h.Sum64())))
		c.cur.Store([2]string{"", ""})
		smu.Lock()
		slots[w] = slot{c, time.Now()}
		smu.Unlock()
		if *out != "" {
			// what to blame should the process die
			os.WriteFile(fmt.Sprintf("%s.cur%d", *out, w), []byte(fmt.Sprintf("%d", idx)), 0o644)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					cur := c.cur.Load().([2]string)
					st := string(debug.Stack())
					if len(st) > 3000 {
						st = st[:3000]
					}
					c.fails = append(c.fails, failure{*prop, "panic", *seed, idx, cur[0], cur[1], fmt.Sprintf("panic: %v\n%s", r, st)})
				}
			}()
			d.run(c)
		}()
		smu.Lock()
		slots[w] = slot{}
		smu.Unlock()
		mu.Lock()
		res.Cases++
		res.Evaluations += c.evals
		for k := range c.nontr {
			nontr[k] = true
		}
		if len(res.Samples) < 8 {
			res.Samples = append(res.Samples, c.samp...)
		}
		for k, v := range c.skips {
			res.Skipped[k] += v
		}
		res.Failures = append(res.Failures, c.fails...)
		if len(res.Failures) >= 5 {
			cancel = true
		}
		mu.Unlock()
	}

	if *one >= 0 {
		runCase(0, *one)
		finish()
	}

	go func() {
		for range time.Tick(500 * time.Millisecond) {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			smu.Lock()
			for _, s := range slots {
				if s.c == nil {
					continue
				}
				long := time.Since(s.since) > time.Duration(*caseCap)*time.Second
				big := ms.HeapAlloc > 14<<30
				if long || big {
					cur := s.c.cur.Load().([2]string)
					kind := "the call did not terminate within the case limit"
					if big {
						kind = "unbounded memory use"
					}
					mu.Lock()
					res.Failures = append(res.Failures, failure{*prop, "hang", *seed, s.c.idx, cur[0], cur[1], kind})
					if long {
						finish()
					}
					mu.Unlock()
				}
			}
			smu.Unlock()
			if ms.HeapAlloc > 14<<30 {
				mu.Lock()
				finish()
			}
		}
	}()

	nw := *workers
	if d.serial {
		nw = 1
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= total || time.Since(start) > time.Duration(*cap_)*time.Second {
					return
				}
				mu.Lock()
				stop := cancel
				mu.Unlock()
				if stop {
					return
				}
				runCase(w, i)
			}
		}(w)
	}
	wg.Wait()
	if *out != "" {
		old, _ := filepath.Glob(*out + ".cur*")
		for _, o := range old {
			os.Remove(o)
		}
	}
	finish()
}
