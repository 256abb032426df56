// Package harness drives the real influx-spout components under
// generated workloads and judges the recorded executions.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx carries everything one run of one check needs and collects what
// the monitors observed.
type Ctx struct {
	ID       string
	Seed     int64
	Round    int
	Thorough bool
	Dir      string // scratch directory of this run

	mu       sync.Mutex
	evals    int64
	sigs     map[uint64]struct{}
	samples  []string
	obs      map[string]int64
	viols    []Violation
	known    map[string]int64
	infra    []string
	scenario string
	started  time.Time
}

// Violation is one observed break of the property.
type Violation struct {
	Scenario string `json:"scenario"`
	What     string `json:"what"`
}

// Result is what a run writes for the driver.
type Result struct {
	ID         string           `json:"id"`
	Evals      int64            `json:"evals"`
	Sigs       []uint64         `json:"sigs"`
	Samples    []string         `json:"samples"`
	Obs        map[string]int64 `json:"obs"`
	Violations []Violation      `json:"violations"`
	Known      map[string]int64 `json:"known"`
	Infra      []string         `json:"infra"`
	Done       bool             `json:"done"`
}

func newCtx(id string, seed int64, round int, thorough bool, dir string) *Ctx {
	return &Ctx{
		ID: id, Seed: seed, Round: round, Thorough: thorough, Dir: dir,
		sigs:    make(map[uint64]struct{}),
		obs:     make(map[string]int64),
		known:   make(map[string]int64),
		started: time.Now(),
	}
}

// Rand returns a generator which is determined by the seed, the round
// and the name.
func (c *Ctx) Rand(name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d/%s", c.ID, c.Seed, c.Round, name)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// N picks a workload size.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Eval counts one judged case. sig identifies the case (or its shape);
// nontrivial says whether it counts as such.
func (c *Ctx) Eval(sig string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	c.mu.Lock()
	c.evals++
	if nontrivial {
		c.sigs[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample records an example case (the first few are kept).
func (c *Ctx) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Obs adds to a counter of what the monitors saw.
func (c *Ctx) Obs(name string, n int) {
	c.mu.Lock()
	c.obs[name] += int64(n)
	c.mu.Unlock()
}

// ObsMax keeps the largest value seen.
func (c *Ctx) ObsMax(name string, n int) {
	c.mu.Lock()
	if int64(n) > c.obs[name] {
		c.obs[name] = int64(n)
	}
	c.mu.Unlock()
}

// KnownFinding notes that a listed finding was observed.
func (c *Ctx) KnownFinding(key string) {
	c.mu.Lock()
	c.known[key]++
	c.mu.Unlock()
}

type abortScenario struct{}

// Fail records a violation.
func (c *Ctx) Fail(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	c.mu.Lock()
	if len(c.viols) < 20 {
		c.viols = append(c.viols, Violation{c.scenario, s})
	}
	c.mu.Unlock()
}

// Fatal records a violation and leaves the scenario.
func (c *Ctx) Fatal(format string, args ...interface{}) {
	c.Fail(format, args...)
	panic(abortScenario{})
}

// Infra reports that the harness could not set up or judge a scenario;
// it says nothing about the property.
func (c *Ctx) Infra(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.infra = append(c.infra, c.scenario+": "+s)
	c.mu.Unlock()
	panic(abortScenario{})
}

// needHook leaves the scenario if a hook doesn't exist.
func (c *Ctx) needHook(available bool) {
	if !available {
		c.Obs("scenarios skipped for lack of a hook", 1)
		panic(abortScenario{})
	}
}

// Failed returns whether a violation was recorded so far.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) > 0
}

// Scenario runs f; Fatal and Infra end it early. Further scenarios are
// skipped once there is a violation.
func (c *Ctx) Scenario(name string, f func()) {
	if c.Failed() {
		return
	}
	c.mu.Lock()
	c.scenario = name
	c.mu.Unlock()
	t0 := time.Now()
	c.guard(f)
	log.Printf("SCENARIO %s took %v", name, time.Since(t0))
}

func (c *Ctx) guard(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortScenario); ok {
				return
			}
			stack := string(debug.Stack())
			// A panic raised by the code under test is a violation,
			// one of the harness isn't.
			if panicOrigin(stack) == "repo" {
				c.Fail("panic: %v\n%s", p, stack)
				return
			}
			c.mu.Lock()
			c.infra = append(c.infra, fmt.Sprintf("harness panic: %v\n%s", p, stack))
			c.mu.Unlock()
		}
	}()
	f()
}

// panicOrigin looks for the first frame which belongs to the code under
// test or to the harness, starting at the panic.
func panicOrigin(stack string) string {
	i := strings.LastIndex(stack, "panic(")
	if i > 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/verif/overlay/") {
			continue
		}
		if strings.HasPrefix(l, "/verif/") {
			return "harness"
		}
		if strings.HasPrefix(l, "/repo/") {
			return "repo"
		}
	}
	return "unknown"
}

// Go runs the functions concurrently, each guarded, and waits for them.
func (c *Ctx) Go(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			c.guard(f)
		}(f)
	}
	wg.Wait()
}

// Pool runs n guarded jobs on a limited number of goroutines.
func (c *Ctx) Pool(workers, n int, f func(i int)) {
	var next int64 = -1
	fs := make([]func(), workers)
	for w := range fs {
		fs[w] = func() {
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Failed() {
					return
				}
				t0 := time.Now()
				f(i)
				log.Printf("JOB %d took %v", i, time.Since(t0))
			}
		}
	}
	c.Go(fs...)
}

func (c *Ctx) write(path string, done bool) {
	c.mu.Lock()
	r := Result{
		ID: c.ID, Evals: c.evals, Samples: c.samples, Obs: c.obs,
		Violations: c.viols, Known: c.known, Infra: c.infra, Done: done,
	}
	for s := range c.sigs {
		r.Sigs = append(r.Sigs, s)
	}
	sort.Slice(r.Sigs, func(i, j int) bool { return r.Sigs[i] < r.Sigs[j] })
	b, err := json.Marshal(r)
	c.mu.Unlock()
	if err != nil {
		panic(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0600); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------------
// Time

// effClock advances like the wall clock unless the process (or the whole
// machine) is held up; deadlines on it don't expire because of a stall.
var effClock int64

// stalled adds up by how much the process was held up so far.
var stalled int64

func init() {
	go func() {
		last := time.Now()
		for {
			time.Sleep(10 * time.Millisecond)
			now := time.Now()
			d := now.Sub(last)
			last = now
			if d > 30*time.Millisecond {
				atomic.AddInt64(&stalled, int64(d-30*time.Millisecond))
				d = 30 * time.Millisecond
			}
			atomic.AddInt64(&effClock, int64(d))
		}
	}()
}

func stalledFor() time.Duration { return time.Duration(atomic.LoadInt64(&stalled)) }

func eff() time.Duration { return time.Duration(atomic.LoadInt64(&effClock)) }

// longWait is how long something that must happen may take.
const longWait = 25 * time.Second

// Until polls cond until it holds or the (effective) time is over.
func Until(d time.Duration, cond func() bool) bool {
	end := eff() + d
	pause := time.Millisecond
	for {
		if cond() {
			return true
		}
		if eff() >= end {
			return cond()
		}
		time.Sleep(pause)
		if pause < 10*time.Millisecond {
			pause *= 2
		}
	}
}

// UntilProgress polls cond until it holds; the time limit starts again
// whenever progress() changes.
func UntilProgress(d time.Duration, progress func() int, cond func() bool) bool {
	last := progress()
	for {
		ok := Until(d, func() bool { return cond() || progress() != last })
		if cond() {
			return true
		}
		if !ok {
			return false
		}
		last = progress()
	}
}

// Must waits for something which has to happen.
func (c *Ctx) Must(what string, cond func() bool) {
	if !Until(longWait, cond) {
		c.Fatal("timed out waiting for: %s", what)
	}
}

// Within runs f and reports whether it returned in time.
func Within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	return Until(d, func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	})
}

// ---------------------------------------------------------------------
// Misc

func short(b []byte) string {
	const max = 160
	if len(b) <= max {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes)...%q", b[:80], len(b), b[len(b)-60:])
}

// firstDiff describes the first difference of two byte strings.
func firstDiff(want, got []byte) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	i := 0
	for i < n && want[i] == got[i] {
		i++
	}
	cut := func(b []byte) string {
		from := i - 60
		if from < 0 {
			from = 0
		}
		to := i + 80
		if to > len(b) {
			to = len(b)
		}
		if from > to {
			from = to
		}
		return fmt.Sprintf("%q", b[from:to])
	}
	return fmt.Sprintf("lengths %d (want) %d (got), first difference at offset %d: want ...%s got ...%s",
		len(want), len(got), i, cut(want), cut(got))
}

func goroutineDump() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// repoGoroutines returns the stacks of goroutines which run or were
// created by the code under test.
func repoGoroutines() []string {
	var out []string
	for _, g := range strings.Split(goroutineDump(), "\n\n") {
		if strings.Contains(g, "/repo/") && !strings.Contains(g, "harness.repoGoroutines") {
			out = append(out, g)
		}
	}
	return out
}

func (c *Ctx) subdir(name string) string {
	d := filepath.Join(c.Dir, name)
	if err := os.MkdirAll(d, 0700); err != nil {
		panic(err)
	}
	return d
}
