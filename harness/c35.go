package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// C35: benchcheck is given files with results of benchmarks in which it is
// clear by construction which of them changed significantly and how much.

func init() { register("C35", checkC35) }

func checkC35(c *Ctx) {
	c.Scenario("files", func() { c.Pool(8, c.N(400, 4000), func(i int) { c35files(c, i) }) })
	c.Scenario("errors", func() { c35errors(c) })
}

// benchcheck runs the program.
func benchcheck(c *Ctx, args ...string) (status int, out, errOut string) {
	cmd := exec.Command(binPath(c, "benchcheck"), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Dir = c.Dir
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			c.Infra("benchcheck: %v", err)
		}
	}
	status = cmd.ProcessState.ExitCode()
	if s := e.String(); strings.Contains(s, "goroutine ") || strings.Contains(s, "DATA RACE") || status < 0 {
		c.Fatal("benchcheck %q crashed: %s", args, short([]byte(s)))
	}
	return status, o.String(), e.String()
}

// c35measure is one measure of a benchmark.
type c35measure struct {
	unit     string
	old, new []float64
	kind     string
	pct      float64
	bad      bool
}

// spread makes n different values around a mean (which is their mean).
func spread(mean float64, n int, width float64) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = mean * (1 + width*(2*float64(i)/float64(n-1)-1))
	}
	return out
}

// pSeparate is the exact p value of n and m values that don't overlap.
func pSeparate(n, m int) float64 {
	p := 2.0
	for i := 1; i <= n; i++ {
		p *= float64(i) / float64(m+i)
	}
	return p
}

func c35files(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("files%d", i))
	maxDelta, alpha := 10.0, 0.05
	var args []string
	if r.Intn(2) == 0 {
		maxDelta = []float64{1, 5, 20, 50, 150}[r.Intn(5)]
		args = append(args, fmt.Sprintf("-max-delta=%v", maxDelta))
	}
	if r.Intn(3) == 0 {
		alpha = []float64{0.2, 0.01, 0.001}[r.Intn(3)]
		args = append(args, fmt.Sprintf("-alpha=%v", alpha))
	}
	print := r.Intn(3) == 0
	if print {
		args = append(args, "-print")
	}
	var oldF, newF strings.Builder
	preamble := func(b *strings.Builder) {
		b.WriteString("goos: linux\ngoarch: amd64\n")
	}
	preamble(&oldF)
	preamble(&newF)
	// Usually at most one benchmark has a regression.
	benchmarks := 1 + r.Intn(8)
	badOne := -1
	if r.Intn(2) == 0 {
		badOne = r.Intn(benchmarks)
	}
	bad := false
	var names, notes []string
	for b := 0; b < benchmarks; b++ {
		name := fmt.Sprintf("Benchmark%c%d", 'A'+r.Intn(26), b)
		n, m := 3+r.Intn(6), 3+r.Intn(6)
		units := []string{"ns/op"}
		if r.Intn(2) == 0 {
			units = append(units, "MB/s")
		}
		if r.Intn(2) == 0 {
			units = append(units, "B/op", "allocs/op")
		}
		badUnit := -1
		if b == badOne {
			badUnit = r.Intn(len(units))
		}
		var ms []c35measure
		for u, unit := range units {
			ms = append(ms, c35make(r, unit, n, m, maxDelta, alpha, u == badUnit))
		}
		only := 0
		if b != badOne && r.Intn(6) == 0 {
			only = 1 + r.Intn(2) // in one file only
		}
		for _, x := range ms {
			if only == 0 {
				bad = bad || x.bad
				c.Eval(fmt.Sprintf("%s %s %v max %v alpha %v", x.unit, x.kind, x.bad, maxDelta, alpha), true)
			}
			notes = append(notes, fmt.Sprintf("%s %s: %s %+.2f%% (%d and %d values)", name, x.unit, x.kind, x.pct, n, m))
		}
		write := func(w *strings.Builder, k int, get func(x c35measure) []float64) {
			for j := 0; j < k; j++ {
				fmt.Fprintf(w, "%s-8 \t %d", name, 1000+r.Intn(100000))
				for _, x := range ms {
					fmt.Fprintf(w, "\t%.6f %s", get(x)[j], x.unit)
				}
				w.WriteByte('\n')
			}
		}
		if only != 2 {
			write(&oldF, n, func(x c35measure) []float64 { return x.old })
		}
		if only != 1 {
			write(&newF, m, func(x c35measure) []float64 { return x.new })
		}
		if only == 0 {
			names = append(names, strings.TrimPrefix(name, "Benchmark"))
		}
	}
	oldF.WriteString("PASS\nok  \tgithub.com/x/y\t1.234s\n")
	newF.WriteString("PASS\nok  \tgithub.com/x/y\t1.234s\n")
	of, nf := filepath.Join(c.Dir, fmt.Sprintf("b%d-old.txt", i)), filepath.Join(c.Dir, fmt.Sprintf("b%d-new.txt", i))
	for f, s := range map[string]string{of: oldF.String(), nf: newF.String()} {
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			c.Infra("%v", err)
		}
		defer os.Remove(f)
	}
	status, out, errOut := benchcheck(c, append(args, of, nf)...)
	what := fmt.Sprintf("benchcheck %q with %s", args, strings.Join(notes, "; "))
	want := 0
	if bad {
		want = 1
	}
	if status != want || bad != strings.Contains(out, "regression found!") {
		c.Fatal("%s: status %d, want %d: %s %s", what, status, want, out, errOut)
	}
	for _, name := range names {
		if (bad || print) && !strings.Contains(out, name) {
			c.Fatal("%s: doesn't show %s: %s", what, name, out)
		}
	}
	if !bad && !print && strings.Contains(out, "/op") {
		c.Fatal("%s: shows the comparison without being asked to: %s", what, out)
	}
	if bad {
		c.Obs("files with a regression", 1)
	} else {
		c.Obs("files without a regression", 1)
	}
	if i < 4 {
		c.Sample("%s: status %d", what, status)
	}
}

// c35make makes old and new values of one measure.
func c35make(r *rand.Rand, unit string, n, m int, maxDelta, alpha float64, bad bool) c35measure {
	x := c35measure{unit: unit}
	base := []float64{3, 75, 2000, 150000, 4e7}[r.Intn(5)] * (1 + r.Float64())
	const width = 0.0005 // values differ by at most a thousandth
	significant := pSeparate(n, m) < alpha*0.95
	nearly := pSeparate(n, m) > alpha*1.05
	worse := func(pct float64) float64 { // as a change of the value
		if unit == "MB/s" {
			return -pct
		}
		return pct
	}
	if bad && !significant {
		bad = false
	}
	limit := maxDelta
	if unit == "MB/s" && limit > 80 { // can't get worse by more than 100 %
		bad = false
	}
	switch {
	case bad:
		d := limit + 0.3 + r.Float64()*[]float64{0.5, 5, 15}[r.Intn(3)]
		x.kind, x.pct, x.bad = "worse than allowed", worse(d), true
	case nearly && r.Intn(3) == 0: // too few values
		x.kind, x.pct = "insignificant", worse(limit+5+r.Float64()*5)
		if unit == "MB/s" && limit > 80 {
			x.pct = 50
		}
	case r.Intn(4) == 0: // the same
		x.kind = "equal"
	case r.Intn(3) == 0: // within the limit
		x.kind, x.pct = "little worse", worse((limit-0.3)*(0.5+0.5*r.Float64()))
		if unit == "MB/s" && limit > 80 {
			x.pct = -50
		}
	default: // by any amount
		d := r.Float64() * []float64{5, 50, 95}[r.Intn(3)]
		if unit == "MB/s" {
			d *= 10
		}
		x.kind, x.pct = "better", worse(-(d + 0.5))
	}
	x.old = spread(base, n, width)
	x.new = spread(base*(1+x.pct/100), m, width)
	shuffle := func(v []float64) { r.Shuffle(len(v), func(i, j int) { v[i], v[j] = v[j], v[i] }) }
	shuffle(x.old)
	shuffle(x.new)
	return x
}

func c35errors(c *Ctx) {
	good := filepath.Join(c.Dir, "good.txt")
	if err := os.WriteFile(good, []byte("BenchmarkX 1 10 ns/op\n"), 0644); err != nil {
		c.Infra("%v", err)
	}
	for _, args := range [][]string{{}, {good}, {good, good, good}, {"-nope", good, good}, {good, "missing.txt"}, {"missing.txt", good}, {c.Dir, good}} {
		status, out, errOut := benchcheck(c, args...)
		if status == 0 || errOut == "" || strings.Contains(out, "egression") {
			c.Fatal("benchcheck %q: status %d: %s %s", args, status, out, errOut)
		}
		c.Eval(fmt.Sprintf("error %d arguments", len(args)), true)
	}
}
