package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/batch"
	"github.com/jumptrading/influx-spout/v2/stats"
)

func init() {
	register("C29", checkC29)
	register("C31", checkC31)
}

// ---------------------------------------------------------------------
// C29

func checkC29(c *Ctx) {
	n := c.N(250, 2500)
	for i := 0; i < n && !c.Failed(); i++ {
		bubble(c, fmt.Sprintf("batch%d", i), func() { c29run(c, i) })
	}
}

// pieceReader returns scripted pieces and watches how it's used.
type pieceReader struct {
	r       *rand.Rand
	pieces  [][]byte
	err     error // what comes after the pieces
	withErr bool  // the last piece comes together with the error
	reads   int
	minBuf  int
	given   []byte
	scratch bool
	empty   bool // sometimes returns nothing and no error
	delay   time.Duration
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if p.delay > 0 {
		time.Sleep(p.delay)
	}
	p.reads++
	if p.reads == 1 || len(b) < p.minBuf {
		p.minBuf = len(b)
	}
	if p.scratch { // readers may use all of it
		for i := 0; i < len(b); {
			i += copy(b[i:], scratchFill)
		}
	}
	if len(p.pieces) == 0 {
		return 0, p.err
	}
	if p.empty && p.r.Intn(3) == 0 {
		return 0, nil
	}
	n := copy(b, p.pieces[0])
	p.given = append(p.given, p.pieces[0][:n]...)
	p.pieces[0] = p.pieces[0][n:]
	if len(p.pieces[0]) == 0 {
		p.pieces = p.pieces[1:]
		if len(p.pieces) == 0 && p.withErr {
			return n, p.err
		}
	}
	return n, nil
}

var (
	scratchFill = bytes.Repeat([]byte("S"), 4096)
	blobPool    []byte
)

// blob returns a piece of a large pool (made once, it's expensive with
// the race detector).
func blob(r *rand.Rand, n int) []byte {
	if blobPool == nil {
		blobPool = make([]byte, 1<<20)
		r.Read(blobPool)
		for i := 0; i < len(blobPool); i += 1 + r.Intn(60) {
			blobPool[i] = '\n'
		}
	}
	b := make([]byte, n)
	copy(b, blobPool[r.Intn(len(blobPool)-n):])
	if n > 0 && r.Intn(2) == 0 {
		b[n-1] = '\n'
	}
	return b
}

func blobSize(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return []int{65535, 65536, 65537, 65507, 32768, 131072, 131073}[r.Intn(7)]
	case 3:
		return r.Intn(300000)
	case 4, 5:
		return r.Intn(70000)
	}
	return r.Intn(2000)
}

var errRead = errors.New("read failed")

type c29err struct{}

func (c29err) Error() string { return "timeout" }
func (c29err) Timeout() bool { return true }

func c29run(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("batch%d", i))
	capacity := []int{0, 1, 2, 10, 100, 4096, 65535, 65536, 65537, 131072, 1 << 20}[r.Intn(11)]
	if r.Intn(3) == 0 {
		capacity = r.Intn(200000)
	}
	b := batch.New(capacity)
	var model []byte
	writes := 0
	var first time.Time
	type snap struct{ want, got []byte }
	var snaps []snap
	count := func() {
		if writes == 0 {
			first = time.Now()
		}
		writes++
	}
	var log []string
	fail := func(format string, args ...interface{}) {
		if len(log) > 30 {
			log = log[len(log)-30:]
		}
		c.Fatal("batch of capacity %d after %v: %s", capacity, log, fmt.Sprintf(format, args...))
	}
	steps := 10 + r.Intn(60)
	for s := 0; s < steps; s++ {
		op := r.Intn(16)
		switch {
		case op < 4:
			p := blob(r, blobSize(r))
			log = append(log, fmt.Sprintf("Append(%d bytes)", len(p)))
			in := append([]byte(nil), p...)
			b.Append(in)
			if !bytes.Equal(in, p) {
				fail("Append changed its argument")
			}
			for j := range in { // the batch must have copied it
				in[j] = 'Z'
			}
			count()
			model = append(model, p...)
		case op < 8:
			pr := &pieceReader{r: r, scratch: r.Intn(2) == 0, err: []error{nil, io.EOF, errRead, c29err{}}[r.Intn(4)]}
			n := blobSize(r)
			if n > 65536 {
				n = 65536
			}
			if r.Intn(5) > 0 && n > 0 {
				pr.pieces = [][]byte{blob(r, n)}
				if r.Intn(3) == 0 {
					pr.pieces = append(pr.pieces, []byte("next datagram"))
				} else if r.Intn(3) == 0 {
					pr.withErr = true
				}
			}
			had := len(pr.pieces) > 0
			var wantErr error
			if !had || pr.withErr {
				wantErr = pr.err
			}
			if wantErr == io.EOF {
				wantErr = nil
			}
			if r.Intn(4) == 0 {
				pr.delay = time.Duration(r.Intn(1000)) * time.Millisecond
			}
			log = append(log, fmt.Sprintf("ReadOnceFrom(%v %d bytes, error %v)", had, n, wantErr))
			got, err := b.ReadOnceFrom(pr)
			if pr.reads != 1 {
				fail("ReadOnceFrom called Read %d times", pr.reads)
			}
			if pr.minBuf < 65536 {
				fail("ReadOnceFrom offered only %d bytes to Read", pr.minBuf)
			}
			if got != len(pr.given) || err != wantErr {
				fail("ReadOnceFrom returned %d, %v instead of %d, %v", got, err, len(pr.given), wantErr)
			}
			if had && len(pr.given) != n {
				fail("a datagram of %d bytes was cut to %d", n, len(pr.given))
			}
			if got > 0 {
				count()
			}
			model = append(model, pr.given...)
		case op < 10:
			pr := &pieceReader{r: r, scratch: r.Intn(2) == 0, err: []error{io.EOF, io.EOF, errRead}[r.Intn(3)], withErr: r.Intn(2) == 0, empty: r.Intn(3) == 0}
			for j := r.Intn(5); j > 0; j-- {
				if n := blobSize(r); n > 0 {
					pr.pieces = append(pr.pieces, blob(r, n))
				}
			}
			wantErr := pr.err
			if wantErr == io.EOF {
				wantErr = nil
			}
			log = append(log, fmt.Sprintf("ReadFrom(%d pieces)", len(pr.pieces)))
			got, err := b.ReadFrom(pr)
			if got != int64(len(pr.given)) || err != wantErr || len(pr.pieces) != 0 {
				fail("ReadFrom returned %d, %v instead of %d, %v; %d pieces left", got, err, len(pr.given), wantErr, len(pr.pieces))
			}
			if got > 0 {
				count()
			}
			model = append(model, pr.given...)
		case op < 11:
			log = append(log, "Reset")
			b.Reset()
			model, writes = nil, 0
		case op < 13:
			log = append(log, "EnsureNewline")
			b.EnsureNewline()
			if len(model) > 0 && model[len(model)-1] != '\n' {
				model = append(model, '\n')
			}
		case op < 14:
			snaps = append(snaps, snap{append([]byte(nil), model...), b.CopyBytes()})
			log = append(log, "CopyBytes")
		default:
			d := time.Duration(r.Int63n(int64(10 * time.Second)))
			log = append(log, "Sleep")
			time.Sleep(d)
		}
		if !bytes.Equal(b.Bytes(), model) {
			fail("contents: %s", firstDiff(model, b.Bytes()))
		}
		if b.Size() != len(model) {
			fail("Size is %d with %d bytes", b.Size(), len(model))
		}
		if b.Writes() != writes {
			fail("Writes is %d after %d writes", b.Writes(), writes)
		}
		wantAge := time.Duration(0)
		if writes > 0 {
			wantAge = time.Since(first)
		}
		if b.Age() != wantAge {
			fail("Age is %v, first write was %v ago", b.Age(), wantAge)
		}
		if b.Remaining() < 0 {
			fail("Remaining is %d", b.Remaining())
		}
		for _, x := range snaps {
			if !bytes.Equal(x.want, x.got) {
				fail("a copy taken earlier changed: %s", firstDiff(x.want, x.got))
			}
		}
		if len(snaps) > 4 {
			snaps = snaps[1:]
		}
		c.Eval(fmt.Sprintf("op %d size class %d cap %d writes %d", op, len(model)/16384, capacity, writes), len(model) > 0)
	}
	if i < 2 {
		c.Sample("capacity %d: %v", capacity, log)
	}
	c.ObsMax("largest batch", len(model))
}

// ---------------------------------------------------------------------
// C31

func checkC31(c *Ctx) {
	for i := 0; i < c.N(4, 12); i++ {
		c.Scenario(fmt.Sprintf("bulk%d", i), func() { c31bulk(c, i) })
	}
	c.Scenario("histories", func() { c31histories(c) })
	c.Scenario("names", func() { c31names(c) })
}

// counters is what both kinds of counters can do.
type counters interface {
	get(i int) uint64
	inc(i int) uint64
	max(i int, v uint64) uint64
	snapshot() map[int]uint64
}

type anonCounters struct{ s *stats.AnonStats }

func (a anonCounters) get(i int) uint64           { return a.s.Get(i) }
func (a anonCounters) inc(i int) uint64           { return a.s.Inc(i) }
func (a anonCounters) max(i int, v uint64) uint64 { return a.s.Max(i, v) }
func (a anonCounters) snapshot() map[int]uint64 {
	out := map[int]uint64{}
	for i, v := range a.s.Snapshot() {
		out[i] = v
	}
	return out
}

type namedCounters struct {
	s     *stats.Stats
	names []string
}

func (a namedCounters) get(i int) uint64           { return a.s.Get(a.names[i]) }
func (a namedCounters) inc(i int) uint64           { return a.s.Inc(a.names[i]) }
func (a namedCounters) max(i int, v uint64) uint64 { return a.s.Max(a.names[i], v) }
func (a namedCounters) snapshot() map[int]uint64 {
	out := map[int]uint64{}
	for _, p := range a.s.Snapshot() {
		for i, n := range a.names {
			if n == p.Name {
				if _, ok := out[i]; ok {
					out[-1] = 1
				}
				out[i] = p.Value
			}
		}
	}
	return out
}

func newCounters(i, n int) counters {
	if i%2 == 0 {
		return anonCounters{stats.NewAnon(n)}
	}
	var names []string
	for k := 0; k < n; k++ {
		names = append(names, fmt.Sprintf("c%d", k))
	}
	return namedCounters{stats.New(names...), names}
}

// c31bulk hammers some counters and checks bounds all the time.
func c31bulk(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("bulk%d", i))
	const nc = 6 // 0-2 are incremented, 3-4 maximised, 5 is left alone
	cs := newCounters(i, nc)
	workers := 4 + r.Intn(12)
	per := c.N(60000, 200000)
	var begun, done [nc]int64 // increments; maxima as the largest value
	returned := make([][][]uint64, workers)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for w := 0; w < workers; w++ {
		seed := r.Int63()
		returned[w] = make([][]uint64, nc)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.guard(func() {
				r := rand.New(rand.NewSource(seed))
				for k := 0; k < per; k++ {
					j := r.Intn(5)
					if j < 3 {
						atomic.AddInt64(&begun[j], 1)
						v := cs.inc(j)
						atomic.AddInt64(&done[j], 1)
						returned[w][j] = append(returned[w][j], v)
						continue
					}
					v := int64(k)*int64(workers) + int64(w) + int64(r.Intn(50))
					raise(&begun[j], v)
					got := cs.max(j, uint64(v))
					if int64(got) < v {
						c.Fatal("Max(%d) returned %d", v, got)
					}
					if hi := atomic.LoadInt64(&begun[j]); int64(got) > hi {
						c.Fatal("Max(%d) returned %d, the largest value so far is %d", v, got, hi)
					}
					raise(&done[j], v)
					if k%512 == 0 {
						runtime.Gosched()
					}
				}
			})
		}()
	}
	var rg sync.WaitGroup
	for w := 0; w < 3; w++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			c.guard(func() {
				var last [nc]uint64
				for n := 0; ; n++ {
					select {
					case <-stop:
						return
					default:
					}
					var lo [nc]int64
					for j := range lo {
						lo[j] = atomic.LoadInt64(&done[j])
					}
					var got map[int]uint64
					if n%2 == 0 {
						got = cs.snapshot()
						if len(got) != nc {
							c.Fatal("snapshot of %d counters: %v", nc, got)
						}
					} else {
						got = map[int]uint64{}
						for j := 0; j < nc; j++ {
							got[j] = cs.get(j)
						}
					}
					for j := 0; j < nc; j++ {
						hi := atomic.LoadInt64(&begun[j])
						if int64(got[j]) < lo[j] || int64(got[j]) > hi {
							c.Fatal("counter %d reads %d, but %d was reached before and at most %d after", j, got[j], lo[j], hi)
						}
						if got[j] < last[j] {
							c.Fatal("counter %d went back from %d to %d", j, last[j], got[j])
						}
						last[j] = got[j]
					}
					c.Obs("concurrent reads", nc)
					c.Eval(fmt.Sprintf("read %d %d", i, n%1000), true)
				}
			})
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	if c.Failed() {
		return
	}
	for j := 0; j < nc; j++ {
		if got := int64(cs.get(j)); got != begun[j] {
			c.Fatal("counter %d ended at %d instead of %d", j, got, begun[j])
		}
	}
	// Every increment returned another value.
	for j := 0; j < 3; j++ {
		var all []uint64
		for w := range returned {
			vs := returned[w][j]
			for k := 1; k < len(vs); k++ {
				if vs[k] <= vs[k-1] {
					c.Fatal("Inc returned %d after %d in one goroutine", vs[k], vs[k-1])
				}
			}
			all = append(all, vs...)
		}
		sort.Slice(all, func(a, b int) bool { return all[a] < all[b] })
		for k, v := range all {
			if v != uint64(k+1) {
				c.Fatal("counter %d: the values returned by Inc aren't 1 to %d: %d at %d", j, len(all), v, k)
			}
		}
		c.Obs("increments", len(all))
	}
	c.Sample("%d goroutines, %d operations each: counters ended at %v", workers, per, cs.snapshot())
}

func raise(p *int64, v int64) {
	for {
		old := atomic.LoadInt64(p)
		if v <= old || atomic.CompareAndSwapInt64(p, old, v) {
			return
		}
	}
}

// An operation of a history.
type c31op struct {
	kind     byte // i, m, g
	arg, ret uint64
	from, to int64
}

// c31histories records short concurrent histories and looks for an order
// that explains them (linearizability).
func c31histories(c *Ctx) {
	r := c.Rand("histories")
	rounds := c.N(15000, 80000)
	distinct := map[string]bool{}
	for k := 0; k < rounds && !c.Failed(); k++ {
		cs := newCounters(k, 2)
		threads := 2 + r.Intn(3)
		ops := make([][]c31op, threads)
		for t := range ops {
			for n := 2 + r.Intn(4); n > 0; n-- {
				o := c31op{kind: "iimmg"[r.Intn(5)]}
				if o.kind == 'm' {
					o.arg = uint64(r.Intn(12))
				}
				ops[t] = append(ops[t], o)
			}
		}
		var clock int64
		var ready int32
		var wg sync.WaitGroup
		for t := range ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for atomic.LoadInt32(&ready) < int32(threads) {
				}
				for j := range ops[t] {
					o := &ops[t][j]
					o.from = atomic.AddInt64(&clock, 1)
					switch o.kind {
					case 'i':
						o.ret = cs.inc(1)
					case 'm':
						o.ret = cs.max(1, o.arg)
					case 'g':
						o.ret = cs.get(1)
					}
					o.to = atomic.AddInt64(&clock, 1)
				}
			}()
		}
		wg.Wait()
		if cs.get(0) != 0 {
			c.Fatal("another counter changed to %d", cs.get(0))
		}
		final := cs.get(1)
		var all []c31op
		sig := ""
		for t := range ops {
			all = append(all, ops[t]...)
			for _, o := range ops[t] {
				sig += fmt.Sprintf("%c%d=%d@%d-%d ", o.kind, o.arg, o.ret, o.from, o.to)
			}
			sig += "| "
		}
		all = append(all, c31op{kind: 'g', ret: final, from: 1 << 40, to: 1<<40 + 1})
		if !explains(all) {
			c.Fatal("no order of the operations explains the results (i: Inc, m: Max, g: Get; result @ begin-end): %s final %d", sig, final)
		}
		overlap := false
		for a := range all {
			for b := range all {
				overlap = overlap || (a != b && all[a].from < all[b].from && all[b].from < all[a].to)
			}
		}
		distinct[sig] = true
		c.Eval(sig, overlap)
		if overlap {
			c.Obs("histories with overlapping operations", 1)
		}
		if k < 2 {
			c.Sample("%s", sig)
		}
	}
	c.Obs("distinct histories", len(distinct))
}

func explains(ops []c31op) bool {
	type state struct {
		done uint32
		v    uint64
	}
	seen := map[state]bool{}
	full := uint32(1)<<uint(len(ops)) - 1
	var try func(done uint32, v uint64) bool
	try = func(done uint32, v uint64) bool {
		if done == full {
			return true
		}
		s := state{done, v}
		if seen[s] {
			return false
		}
		seen[s] = true
		first := int64(1) << 60
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.to < first {
				first = o.to
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.from > first {
				continue
			}
			nv, ret := v, v
			switch o.kind {
			case 'i':
				nv = v + 1
				ret = nv
			case 'm':
				if o.arg > v {
					nv = o.arg
				}
				ret = nv
			}
			if ret == o.ret && try(done|1<<uint(i), nv) {
				return true
			}
		}
		return false
	}
	return try(0, 0)
}

// c31names compares sequential use with a map.
func c31names(c *Ctx) {
	r := c.Rand("names")
	for k := 0; k < c.N(300, 3000); k++ {
		n := 1 + r.Intn(8)
		cs := newCounters(k, n)
		model := map[int]uint64{}
		for j := 0; j < n; j++ {
			model[j] = 0
		}
		for s := 0; s < 60; s++ {
			j := r.Intn(n)
			var got uint64
			switch r.Intn(3) {
			case 0:
				model[j]++
				got = cs.inc(j)
			case 1:
				v := uint64(r.Intn(60))
				if r.Intn(20) == 0 {
					v = r.Uint64() >> 1
				}
				if v > model[j] {
					model[j] = v
				}
				got = cs.max(j, v)
			case 2:
				got = cs.get(j)
			}
			if got != model[j] {
				c.Fatal("counter %d of %d is %d instead of %d", j, n, got, model[j])
			}
		}
		snap := cs.snapshot()
		if fmt.Sprint(snap) != fmt.Sprint(model) {
			c.Fatal("snapshot %v instead of %v", snap, model)
		}
		c.Eval(fmt.Sprintf("sequential %v", model), true)
	}
}
