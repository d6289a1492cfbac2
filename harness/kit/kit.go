// Package kit is the common part of the runtime monitors: seeded workload generation, violation records,
// coverage counters, progress watchdog and virtual-time bubbles.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

const maxViolations = 4

// C is a context of one check.
type C struct {
	T    *testing.T
	Prop string
	Tier string
	Seed int64
	out  string

	mu         sync.Mutex
	counts     map[string]int64
	distinct   map[uint64]struct{}
	samples    []string
	sampleKeys map[string]bool
	violations int
	sigs       map[string]int
	rules      []string
	current    string

	evals atomic.Int64
	ticks atomic.Int64
	stuck atomic.Bool
	minEv int64
}

// Check is an implementation of a property check.
type Check struct {
	Rule  string // how cases are generated, and which are counted as distinct
	Floor int64  // minimal number of evaluations, otherwise the run is inconclusive
	Run   func(c *C)
}

var Checks = map[string]Check{}

// Register a check for the property.
func Register(prop string, ch Check) {
	if _, ok := Checks[prop]; ok {
		panic("duplicate " + prop)
	}
	Checks[prop] = ch
}

// Main runs the check selected by environment.
func Main(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	ch, ok := Checks[prop]
	if !ok {
		t.Fatalf("unknown property %q", prop)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	c := &C{
		T: t, Prop: prop, Tier: tier, Seed: seed, out: os.Getenv("VERIF_OUT"),
		counts: make(map[string]int64), distinct: make(map[uint64]struct{}),
		sampleKeys: make(map[string]bool), sigs: make(map[string]int), minEv: ch.Floor,
	}
	c.rules = append(c.rules, ch.Rule)
	stop := make(chan struct{})
	go c.watchdog(stop)
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic", "panic: %v\n%s", r, debug.Stack())
			}
		}()
		ch.Run(c)
	}()
	close(stop)
	c.finish()
}

// Thorough tier is selected.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N selects a number by tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rand returns a generator that only depends on the run seed, property and arguments.
func (c *C) Rand(keys ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, c.Seed, c.Prop, keys)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts an executed case. Desc identifies it in violation records.
func (c *C) Eval(format string, args ...any) {
	c.evals.Add(1)
	c.ticks.Add(1)
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.current = s
	c.mu.Unlock()
}

// Tick reports progress to the watchdog.
func (c *C) Tick() { c.ticks.Add(1) }

// Count adds to the named counter of observed events.
func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Max tracks the maximum of a value.
func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if v, ok := c.counts[name]; !ok || v < int64(n) {
		c.counts[name] = int64(n)
	}
	c.mu.Unlock()
}

// Distinct records an observed case, history or state; it's counted once.
func (c *C) Distinct(keys ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, keys...)
	v := h.Sum64()
	c.mu.Lock()
	c.distinct[v] = struct{}{}
	c.mu.Unlock()
}

// Sample stores up to two descriptions of actual cases per kind.
func (c *C) Sample(kind, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleKeys[kind] || len(c.samples) >= 8 {
		return
	}
	c.sampleKeys[kind] = true
	s := kind + ": " + fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.samples = append(c.samples, s)
}

// Failed reports if there were violations.
func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.violations > 0
}

// Fail records a violation. Sig is a stable signature of the failure.
func (c *C) Fail(sig, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 20000 {
		msg = msg[:20000] + "..."
	}
	c.mu.Lock()
	c.sigs[sig]++
	if c.sigs[sig] > 1 {
		c.violations++
		n := c.violations
		c.mu.Unlock()
		if n > 200 {
			c.finish()
			os.Exit(1)
		}
		return
	}
	c.violations++
	rec := map[string]any{
		"property": c.Prop, "signature": sig, "tier": c.Tier, "seed": c.Seed,
		"case": c.current, "message": msg,
	}
	data, _ := json.Marshal(rec)
	f, err := os.OpenFile(filepath.Join(c.out, "violations.jsonl"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err == nil {
		_, _ = f.Write(append(data, '\n'))
		_ = f.Close()
	}
	fmt.Fprintf(os.Stderr, "FAIL %s [%s] case=%s: %s\n", c.Prop, sig, c.current, msg)
	n := len(c.sigs)
	c.mu.Unlock()
	if n >= maxViolations {
		c.finish()
		os.Exit(1)
	}
}

// Check a condition.
func (c *C) Check(ok bool, sig, format string, args ...any) bool {
	if !ok {
		c.Fail(sig, format, args...)
	}
	return ok
}

// Try runs the function and reports a panic in it as a violation.
func (c *C) Try(sig string, fnc func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail(sig+"/panic", "panic: %v\n%s", r, debug.Stack())
		}
	}()
	fnc()
	return true
}

// Panics runs the function and returns a panic value.
func Panics(fnc func()) (r any) {
	defer func() { r = recover() }()
	fnc()
	return nil
}

// Bubble runs the function in virtual time. Deadlocks and leaked goroutines are reported as violations.
func (c *C) Bubble(sig string, fnc func()) {
	c.Tick()
	defer func() {
		if r := recover(); r != nil {
			kind := "deadlock"
			if !strings.Contains(fmt.Sprint(r), "deadlock") {
				kind = "panic"
			}
			c.Fail(sig+"/"+kind, "%v\n%s", r, stacks())
		}
	}()
	synctest.Test(c.T, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				c.Fail(sig+"/panic", "panic: %v\n%s", r, debug.Stack())
			}
		}()
		fnc()
	})
}

// Within runs the function in real time, and reports if it does not return within a very generous limit.
func (c *C) Within(sig string, limit time.Duration, fnc func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Try(sig, fnc)
	}()
	if c.stuck.Load() {
		limit = min(limit, 5*time.Second) // already reported, don't wait that long again
	}
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case <-done:
		c.Tick()
		return true
	case <-tm.C:
		c.stuck.Store(true)
		c.Fail(sig+"/stuck", "not finished after %v\n%s", limit, stacks())
		return false
	}
}

func stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if len(buf) > 12000 {
		buf = buf[:12000]
	}
	return string(buf)
}

func (c *C) watchdog(stop chan struct{}) {
	last, idle := int64(-1), 0
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
		}
		cur := c.ticks.Load()
		if cur != last {
			last, idle = cur, 0
			continue
		}
		idle++
		if idle >= 120 {
			c.Fail("no-progress", "the case makes no progress (blocked or spinning) after %d sec\n%s", idle, stacks())
			c.finish()
			os.Exit(1)
		}
	}
}

var finishOnce sync.Once

func (c *C) finish() {
	finishOnce.Do(func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		names := make([]string, 0, len(c.counts))
		for k := range c.counts {
			names = append(names, k)
		}
		sort.Strings(names)
		res := map[string]any{
			"property": c.Prop, "evaluations": c.evals.Load(), "distinct": len(c.distinct),
			"rule": strings.Join(c.rules, " "), "samples": c.samples, "observed": c.counts,
			"violations": c.violations, "inconclusive": c.evals.Load() < c.minEv, "floor": c.minEv, "complete": true,
		}
		data, err := json.MarshalIndent(res, "", " ")
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(c.out, "result.json"), data, 0644); err != nil {
			panic(err)
		}
	})
}
