package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/writer"
)

func init() {
	register("C14", checkC14)
	register("C16", checkC16)
	register("C17", checkC17)
}

// ---------------------------------------------------------------------
// Framed messages

// frame makes a message which can be found and checked in a body. All
// bytes may occur in it; it mostly ends in a newline.
func frame(r *rand.Rand, size int) (int64, []byte) {
	id := nextID()
	if size < 1 {
		size = 1
	}
	payload := make([]byte, size)
	switch r.Intn(3) {
	case 0:
		r.Read(payload)
	default:
		for i := range payload {
			payload[i] = "abcdefgh =,\\\"#\n"[r.Intn(15)]
		}
	}
	payload[size-1] = "\n\n\n\n\x00 \t\r"[r.Intn(8)]
	h := fnv32(payload)
	return id, append([]byte(fmt.Sprintf("#%d,%d,%x:", id, size, h)), payload...)
}

func fnv32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h ^= uint32(c)
		h *= 16777619
	}
	return h
}

// frames takes a body apart. It has to consist of nothing but complete
// frames.
func frames(b []byte) ([]int64, string) {
	var out []int64
	for len(b) > 0 {
		i := bytes.IndexByte(b, ':')
		var id int64
		var size int
		var h uint32
		if i < 0 || b[0] != '#' {
			return out, "not a message: " + short(b)
		}
		if n, _ := fmt.Sscanf(string(b[:i]), "#%d,%d,%x", &id, &size, &h); n != 3 {
			return out, "not a message: " + short(b)
		}
		b = b[i+1:]
		if size > len(b) {
			return out, fmt.Sprintf("message %d is cut short", id)
		}
		if fnv32(b[:size]) != h {
			return out, fmt.Sprintf("message %d is altered: %s", id, short(b[:size]))
		}
		out = append(out, id)
		b = b[size:]
	}
	return out, ""
}

func frameSize(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return 1 + r.Intn(3)
	case 1:
		return 1 + r.Intn(60000)
	case 2:
		if r.Intn(10) == 0 {
			return 1 + r.Intn(900000)
		}
	}
	return 1 + r.Intn(800)
}

// ---------------------------------------------------------------------
// C14

var dbNames = []string{"db", "influx-spout-junk", "two words", "a&b=c", "x+y", "100%", "ünï", "a/b?c#d", "%41", ";semi", "db\"q\"", "a&db=other"}

func checkC14(c *Ctx) {
	c.Pool(4, c.N(24, 80), func(i int) { c14run(c, i) })
	c.Pool(2, c.N(2, 6), func(i int) { c14split(c, i) })
	c.Pool(2, c.N(2, 4), func(i int) { c14backlog(c, i) })
	c.Scenario("slow database", func() { c14slow(c) })
}

// c14slow has InfluxDB take long for some writes, as long as the timeout
// allows, while the writer's queues fill up.
func c14slow(c *Ctx) {
	c.Pool(2, 2, func(i int) {
		n := startNats(c)
		defer n.Stop()
		inf := startInflux(c)
		defer inf.Stop()
		delay := time.Duration(c.N(12, 35)) * time.Second
		var slow int64
		inf.ScriptBody(func(w *Write) Action {
			a := Action{Status: 204}
			if bytes.Contains(w.Body, []byte("slow")) {
				atomic.AddInt64(&slow, 1)
				a.Delay = delay
			}
			return a
		})
		conf := baseConf(n, "writer")
		conf.InfluxDBPort = inf.Port
		conf.Workers = 1 + i
		conf.BatchMaxCount = 1
		conf.BatchMaxAge = dur(time.Hour)
		conf.WriteTimeout = dur(time.Hour)
		comp := c.Start(conf)
		nc := n.Connect()
		defer nc.Close()
		want := map[string]int{}
		for k := 0; k < 3000; k++ {
			l := fmt.Sprintf("m%d v=%d\n", k, nextID())
			if k == 5 || k == 6 {
				l = fmt.Sprintf("slow v=%d\n", nextID())
			}
			want[l]++
			publish(c, nc, "in", []byte(l))
			if k == 6 {
				flush(c, nc)
				c.Must("a worker is writing", func() bool { return atomic.LoadInt64(&slow) > 0 })
			}
		}
		flush(c, nc)
		total := 0
		for l := range want {
			total += len(l)
		}
		UntilProgress(2*delay+longWait, inf.AcceptedSize, func() bool { return inf.AcceptedSize() >= total })
		time.Sleep(50 * time.Millisecond)
		if d := diffCounts(want, countLines(inf.AcceptedBytes(""))); d != "" {
			c.Fatal("InfluxDB takes %v for a write, %d workers: %s", delay, conf.Workers, d)
		}
		c.Eval(fmt.Sprintf("slow database %d workers", conf.Workers), true)
		c.ObsMax("time InfluxDB took for a write (s)", int(delay/time.Second))
		c.StopComp(comp)
	})
}

// c14backlog has InfluxDB hang for a while, during which many messages
// arrive.
func c14backlog(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("backlog%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	hold := make(chan struct{})
	inf.Script(func(w *Write) Action { return Action{Status: 204, Hold: hold} })
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1 + i%2*3
	conf.BatchMaxCount = 100
	conf.BatchMaxAge = dur(50 * time.Millisecond)
	conf.NATSSubject = []string{"a", "b"}
	if i%2 == 1 {
		conf.QueueGroup = "group"
	}
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	sent := map[int64]int{}
	// (The NATS library's default limit is 65536 messages.)
	size := 0
	for m := 75000 + r.Intn(4000); m > 0; m-- {
		id, b := frame(r, 1+r.Intn(20))
		for x := 1 + m%1000/999; x > 0; x-- { // the same once more, now and then
			sent[id]++
			size += len(b)
			publish(c, nc, []string{"a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "a", "b"}[m%16], b)
		}
	}
	flush(c, nc)
	c.Must("all workers are writing", func() bool { return inf.Begun() >= conf.Workers })
	time.Sleep(time.Duration(r.Intn(500)) * time.Millisecond)
	close(hold)
	UntilProgress(longWait, inf.AcceptedSize, func() bool { return inf.AcceptedSize() >= size })
	Until(50*time.Millisecond, func() bool { return false })
	got := map[int64]int{}
	for _, w := range inf.Writes() {
		ids, bad := frames(w.Body)
		if bad != "" {
			c.Fatal("%s", bad)
		}
		for _, id := range ids {
			if got[id]++; got[id] > sent[id] {
				c.Fatal("message %d delivered %d times, sent %d times", id, got[id], sent[id])
			}
		}
	}
	for id := range sent {
		if got[id] != sent[id] {
			c.Fatal("%d of %d messages which arrived while InfluxDB hung were delivered, %d for instance %d times instead of %d", len(got), len(sent), id, got[id], sent[id])
		}
	}
	c.Eval(fmt.Sprintf("backlog %d workers", conf.Workers), true)
	c.Obs("messages which arrived while InfluxDB hung", len(sent))
	c.StopComp(comp)
}

// c14run has several writers with several workers on several subjects.
func c14run(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("run%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	nsub := 1 + r.Intn(4)
	var subjects []string
	for k := 0; k < nsub; k++ {
		subjects = append(subjects, fmt.Sprintf("sub%d", k))
	}
	// Writers: some of them in queue groups.
	type wr struct {
		db, group  string
		subjects   map[string]bool
		user, pass string
		comp       Comp
	}
	var ws []*wr
	nw := 1 + r.Intn(4)
	dbs := r.Perm(len(dbNames))
	var hold sync.Mutex
	dr := c.Rand(fmt.Sprintf("delay%d", i))
	inf.Script(func(w *Write) Action {
		hold.Lock()
		defer hold.Unlock()
		a := Action{Status: 204}
		if dr.Intn(2) == 0 {
			a = Action{Status: []int{200, 201, 202, 203, 206, 226, 299}[dr.Intn(7)], Body: []string{"", "{}"}[dr.Intn(2)]}
		}
		if dr.Intn(3) == 0 {
			a.Delay = time.Duration(dr.Intn(8)) * time.Millisecond
		}
		return a
	})
	for k := 0; k < nw; k++ {
		w := &wr{db: dbNames[dbs[k]], subjects: map[string]bool{}}
		conf := baseConf(n, "writer")
		conf.InfluxDBPort = inf.Port
		if r.Intn(3) == 0 {
			conf.InfluxDBAddress = "localhost"
		}
		var list []string
		if k > 0 && r.Intn(2) == 0 {
			// Shares the group (and subjects) of another one.
			o := ws[r.Intn(k)]
			if o.group != "" {
				w.group = o.group
				for s := range o.subjects {
					w.subjects[s] = true
				}
			}
		} else if r.Intn(2) == 0 {
			w.group = fmt.Sprintf("group%d", k)
		}
		if len(w.subjects) == 0 {
			for _, s := range subjects {
				if r.Intn(3) > 0 {
					w.subjects[s] = true
				}
			}
			w.subjects[subjects[r.Intn(nsub)]] = true
		}
		for _, s := range subjects {
			if w.subjects[s] {
				list = append(list, s)
			}
		}
		r.Shuffle(len(list), func(a, b int) { list[a], list[b] = list[b], list[a] })
		if r.Intn(2) == 0 {
			w.user, w.pass = []string{"user", "us er", "ü:ser"}[r.Intn(2)], []string{"", "secret", "pä:ss w"}[r.Intn(3)]
		}
		conf.NATSSubject = list
		conf.QueueGroup = w.group
		conf.DBName = w.db
		conf.InfluxDBUser, conf.InfluxDBPass = w.user, w.pass
		conf.Workers = []int{1, 2, 4, 8, 16}[r.Intn(5)]
		conf.BatchMaxCount = []int{1, 2, 7, 50, 100000}[r.Intn(5)]
		conf.BatchMaxSize = 100 * datasize.MB
		conf.BatchMaxAge = dur([]time.Duration{time.Millisecond, 200 * time.Millisecond, time.Second}[r.Intn(3)])
		conf.Debug = r.Intn(4) == 0
		conf.WriterRetryBatches = r.Intn(2) * 1000
		conf.WriterRetryInterval = dur(10 * time.Millisecond)
		conf.StatsInterval = dur(50 * time.Millisecond)
		w.comp = c.Start(conf)
		ws = append(ws, w)
		c.Obs("writers", 1)
	}
	sent := map[int64]string{}
	var mu sync.Mutex
	var fs []func()
	for p := 0; p < 3; p++ {
		p := p
		fs = append(fs, func() {
			r := c.Rand(fmt.Sprintf("run%d/%d", i, p))
			nc := n.Connect()
			defer nc.Close()
			for m := 0; m < c.N(120, 600); m++ {
				s := subjects[r.Intn(nsub)]
				id, b := frame(r, frameSize(r))
				mu.Lock()
				sent[id] = s
				mu.Unlock()
				publish(c, nc, s, b)
				if r.Intn(60) == 0 {
					time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
				}
			}
			flush(c, nc)
		})
	}
	c.Go(fs...)
	// What has to arrive, per consumer (a group or a writer).
	consumers := map[string]*wr{}
	members := map[string][]*wr{}
	for k, w := range ws {
		name := w.group
		if name == "" {
			name = fmt.Sprintf("single%d", k)
		}
		consumers[name] = w
		members[name] = append(members[name], w)
	}
	byDB := map[string]*wr{}
	consumerOf := map[string]string{}
	for name, list := range members {
		for _, w := range list {
			byDB[w.db] = w
			consumerOf[w.db] = name
		}
	}
	want := map[string]map[int64]bool{}
	total := 0
	for name, w := range consumers {
		want[name] = map[int64]bool{}
		for id, s := range sent {
			if w.subjects[s] {
				want[name][id] = true
				total++
			}
		}
	}
	got := map[string]map[int64]int{}
	next := 0
	have := 0
	collect := func() bool {
		all := inf.Writes()
		for ; next < len(all); next++ {
			w := all[next]
			name, ok := consumerOf[w.DB]
			if !ok {
				c.Fatal("write to unknown database %q (query %q)", w.DB, w.RawQuery)
			}
			o := byDB[w.DB]
			if w.Method != "POST" || w.Path != "/write" {
				c.Fatal("write with %s %s", w.Method, w.Path)
			}
			if w.Auth != (o.user != "") || w.User != o.user || (o.user != "" && w.Pass != o.pass) {
				c.Fatal("write with credentials %v %q %q instead of %q %q", w.Auth, w.User, w.Pass, o.user, o.pass)
			}
			if strings.Contains(w.RawQuery, "precision") {
				c.Fatal("write with query %q", w.RawQuery)
			}
			if w.BodyErr != "" {
				c.Fatal("body arrived incompletely: %s", w.BodyErr)
			}
			ids, bad := frames(w.Body)
			if bad != "" {
				c.Fatal("write to %q: %s", w.DB, bad)
			}
			if len(ids) == 0 {
				c.Fatal("empty write to %q", w.DB)
			}
			if got[name] == nil {
				got[name] = map[int64]int{}
			}
			for _, id := range ids {
				if got[name][id]++; got[name][id] > 1 {
					c.Fatal("message %d delivered twice to %q (database %q)", id, name, w.DB)
				}
				if !want[name][id] {
					c.Fatal("message %d of subject %q delivered to %q which doesn't consume it", id, sent[id], name)
				}
				have++
			}
			c.Obs("writes", 1)
		}
		return have >= total
	}
	UntilProgress(longWait, inf.Count, collect)
	Until(60*time.Millisecond, func() bool { return false })
	collect()
	for name := range want {
		for id := range want[name] {
			if got[name][id] == 0 {
				c.Fatal("%d of %d messages not delivered, e.g. message %d (subject %q) to %q", total-have, total, id, sent[id], name)
			}
			c.Eval(fmt.Sprintf("%d writers, %d in this group, %d subjects", nw, len(members[name]), len(consumers[name].subjects)), true)
		}
		if len(members[name]) > 1 {
			c.Obs("messages through queue groups of several writers", len(want[name]))
		}
	}
	if i < 4 {
		for _, w := range ws {
			c.Sample("writer db %q group %q subjects %v user %q", w.db, w.group, w.subjects, w.user)
		}
	}
	for _, w := range ws {
		c.StopComp(w.comp)
	}
}

// c14split compares the bytes of one worker when batches get split.
func c14split(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("split%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1
	conf.BatchMaxCount = 20
	conf.BatchMaxSize = datasize.ByteSize(500 + r.Intn(3000))
	large := i%2 == 1
	if large { // as it is by default, and messages as large as they get
		conf.BatchMaxSize = 10 * datasize.MB
		conf.BatchMaxCount = 20000
	}
	conf.InfluxDBUser = "user"
	conf.InfluxDBPass = "päss:word"
	conf.BatchMaxAge = dur(50 * time.Millisecond)
	if large {
		conf.BatchMaxAge = dur(time.Second)
	}
	conf.NATSSubject = []string{"a", "b"}
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	var want []byte
	for m := 0; m < 800; m++ {
		size := 1 + r.Intn(4000)
		if large && m%20 == 7 {
			size = int(config.MaxNATSMsgSize) - 30 - r.Intn(2)*r.Intn(300000)
		}
		_, b := frame(r, size)
		// (One connection: messages arrive in the order of publishing.)
		publish(c, nc, "a", b)
		want = append(want, b...)
		c.Eval("split", true)
	}
	flush(c, nc)
	UntilProgress(longWait, inf.Count, func() bool { return inf.AcceptedSize() >= len(want) })
	Until(30*time.Millisecond, func() bool { return false })
	if got := inf.AcceptedBytes(""); !bytes.Equal(got, want) {
		c.Fatal("batch_max_size %d: %s", conf.BatchMaxSize, firstDiff(want, got))
	}
	for _, w := range inf.Writes() {
		if w.User != conf.InfluxDBUser || w.Pass != conf.InfluxDBPass || !w.Auth {
			c.Fatal("write of %d bytes without the credentials", len(w.Body))
		}
		c.ObsMax("bytes in the largest write", len(w.Body))
	}
	c.StopComp(comp)
}

// ---------------------------------------------------------------------
// C16

func checkC16(c *Ctx) {
	c.Pool(6, c.N(18, 60), func(i int) { c16run(c, i) })
	c.Scenario("busy retry", func() { c.Pool(2, c.N(2, 6), func(i int) { c16busy(c, i) }) })
	c.Scenario("retries in between", func() { c.Pool(3, c.N(3, 9), func(i int) { c16between(c, i) }) })
	c.Scenario("slow answers", func() { c16slow(c) })
	c.Scenario("identical writes", func() { c.Pool(4, c.N(6, 24), func(i int) { c16same(c, i) }) })
}

// c16between has the parts of a large batch fail one by one, slowly, while
// those which failed before are repeated (in vain) very often.
func c16between(c *Ctx, i int) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1
	conf.BatchMaxCount = 1
	conf.BatchMaxAge = dur(time.Hour)
	conf.BatchMaxSize = 1000
	parts := 6 + i
	conf.WriterRetryBatches = parts + 1
	conf.WriterRetryInterval = dur(time.Millisecond)
	conf.WriterRetryTimeout = dur(time.Hour)
	conf.WriteTimeout = dur(time.Hour)
	var mu sync.Mutex
	tries := map[string]int{}
	first, repeated := 0, 0
	inf.ScriptBody(func(w *Write) Action {
		mu.Lock()
		defer mu.Unlock()
		tries[string(w.Body)]++
		switch {
		case tries[string(w.Body)] == 1:
			first++
			return Action{Status: 500, Delay: 60 * time.Millisecond}
		case first%parts != 0:
			repeated++
			return Action{Status: 503}
		}
		return Action{Status: 204}
	})
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	want := map[string]int{}
	total := 0
	for m := 0; m < c.N(4, 15); m++ {
		var msg []byte
		for k := 0; k < parts; k++ {
			l := fmt.Sprintf("m s=\"%s\",v=%d\n", strings.Repeat("x", 900), nextID())
			want[l]++
			msg = append(msg, l...)
		}
		total += len(msg)
		publish(c, nc, "in", msg)
		flush(c, nc)
		if !UntilProgress(longWait, inf.Count, func() bool { return inf.AcceptedSize() >= total }) {
			mu.Lock()
			defer mu.Unlock()
			c.Fatal("batch written in %d parts, each of which failed once and then while the next ones were written: they don't get through; %d parts had their first and %d another attempt", parts, first, repeated)
		}
	}
	time.Sleep(50 * time.Millisecond)
	if d := diffCounts(want, countLines(inf.AcceptedBytes(""))); d != "" {
		c.Fatal("parts of batches which failed while others were repeated: %s", d)
	}
	c.Eval(fmt.Sprintf("%d parts, retries in between", parts), true)
	c.Obs("parts that failed between retries", first)
	c.Obs("retries in between", repeated)
	c.StopComp(comp)
}

// c16slow has InfluxDB take long for writes, though less than
// write_timeout, at the first attempt and at later ones.
func c16slow(c *Ctx) {
	delays := []time.Duration{4 * time.Second, 13 * time.Second}
	if c.Thorough {
		delays = append(delays, 35*time.Second, 100*time.Second)
	}
	c.Pool(4, len(delays), func(i int) {
		n := startNats(c)
		defer n.Stop()
		inf := startInflux(c)
		defer inf.Stop()
		conf := baseConf(n, "writer")
		conf.InfluxDBPort = inf.Port
		conf.Workers = 3
		conf.BatchMaxCount = 1
		conf.BatchMaxAge = dur(time.Hour)
		conf.WriterRetryBatches = 100
		conf.WriterRetryInterval = dur(20 * time.Millisecond)
		conf.WriterRetryTimeout = dur(time.Hour)
		conf.WriteTimeout = dur(time.Hour)
		var mu sync.Mutex
		tries := map[string]int{}
		inf.ScriptBody(func(w *Write) Action {
			mu.Lock()
			defer mu.Unlock()
			k := string(w.Body)
			tries[k]++
			slow, fails := strings.HasPrefix(k, "slow"), 0
			if strings.Contains(k, "retried") {
				fails = 2
			}
			a := Action{Status: 204}
			if tries[k] <= fails {
				a.Status = 503
			} else if slow {
				a.Delay = delays[i]
			}
			return a
		})
		comp := c.Start(conf)
		nc := n.Connect()
		defer nc.Close()
		want := map[string]int{}
		total := 0
		for k := 0; k < 40; k++ {
			l := fmt.Sprintf("%s%s v=%d\n", map[bool]string{true: "slow", false: "fast"}[k == 3 || k == 10], []string{"", "retried"}[k%3%2], nextID())
			want[l]++
			total += len(l)
			publish(c, nc, "in", []byte(l))
			if k%5 == 0 {
				flush(c, nc)
				time.Sleep(20 * time.Millisecond)
			}
		}
		flush(c, nc)
		UntilProgress(4*delays[i]+longWait, inf.AcceptedSize, func() bool { return inf.AcceptedSize() >= total })
		time.Sleep(300 * time.Millisecond)
		if d := diffCounts(want, countLines(inf.AcceptedBytes(""))); d != "" {
			c.Fatal("InfluxDB takes %v to accept some writes (less than write_timeout): %s", delays[i], d)
		}
		mu.Lock()
		defer mu.Unlock()
		for k, t := range tries {
			e := 1
			if strings.Contains(k, "retried") {
				e = 3
			}
			if t != e {
				c.Fatal("InfluxDB takes %v to accept some writes (less than write_timeout): %d attempts instead of %d for %q", delays[i], t, e, k)
			}
			c.Eval(fmt.Sprintf("slow answer after %v: %.4s, %d attempts", delays[i], k, t), true)
		}
		c.Obs("slow answers", 2)
		c.StopComp(comp)
	})
}

// c16same has writes with the very same body fail. Each is a write of its
// own, which has to be accepted once.
func c16same(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("same%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = []int{1, 1, 3}[i%3]
	conf.BatchMaxCount = 1
	conf.BatchMaxAge = dur(time.Hour)
	conf.WriterRetryBatches = 5000
	conf.WriterRetryInterval = dur(time.Duration(1+r.Intn(30)) * time.Millisecond)
	conf.WriterRetryTimeout = dur(time.Hour)
	conf.WriteTimeout = dur(time.Hour)
	bodies := make([]string, 1+r.Intn(4))
	for k := range bodies {
		bodies[k] = fmt.Sprintf("m v=%d\n", nextID())
	}
	const sends = 200
	fails := []int{20, sends, 2 * sends}[r.Intn(3)]
	failed := 0
	var mu sync.Mutex
	inf.ScriptBody(func(w *Write) Action {
		mu.Lock()
		defer mu.Unlock()
		if failed < fails {
			failed++
			return Action{Status: []int{500, 503}[failed%2]}
		}
		return Action{Status: 204}
	})
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	want := map[string]int{}
	total := 0
	for k := 0; k < sends; k++ {
		b := bodies[r.Intn(len(bodies))]
		want[b]++
		total += len(b)
		publish(c, nc, "in", []byte(b))
		if r.Intn(40) == 0 {
			flush(c, nc)
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
	}
	flush(c, nc)
	done := UntilProgress(longWait, inf.Count, func() bool { return inf.AcceptedSize() >= total })
	time.Sleep(80 * time.Millisecond)
	if d := diffCounts(want, countLines(inf.AcceptedBytes(""))); d != "" || !done {
		c.Fatal("%d writes of %d different bodies, the first %d requests fail: not each was accepted exactly once: %s", sends, len(bodies), fails, d)
	}
	c.Eval(fmt.Sprintf("identical writes, %d workers, %d bodies, %d failures", conf.Workers, len(bodies), fails), true)
	c.Obs("identical writes", sends)
	c.StopComp(comp)
}

// c16busy has a retry take long, during which many other writes fail.
func c16busy(c *Ctx, i int) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1 + i
	conf.BatchMaxCount = 1
	conf.BatchMaxAge = dur(time.Hour)
	conf.WriterRetryBatches = 5000
	conf.WriterRetryInterval = dur(time.Millisecond)
	conf.WriterRetryTimeout = dur(time.Hour)
	conf.WriteTimeout = dur(time.Hour)
	const messages = 400
	hold := make(chan struct{})
	var mu sync.Mutex
	tries := map[string]int{}
	held := 0
	inf.ScriptBody(func(w *Write) Action {
		mu.Lock()
		defer mu.Unlock()
		tries[string(w.Body)]++
		switch t := tries[string(w.Body)]; {
		case t == 1:
			return Action{Status: 500}
		case t == 2 && held < conf.Workers:
			held++
			return Action{Status: 204, Hold: hold}
		}
		return Action{Status: 204}
	})
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	want := map[string]int{}
	total := 0
	send := func() {
		l := fmt.Sprintf("m v=%d\n", nextID())
		want[l]++
		total += len(l)
		publish(c, nc, "in", []byte(l))
	}
	for k := 0; k < 8; k++ { // all workers get some
		send()
	}
	flush(c, nc)
	Until(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return held >= conf.Workers })
	for k := 0; k < messages; k++ {
		send()
	}
	flush(c, nc)
	time.Sleep(time.Duration(1500+500*i) * time.Millisecond)
	close(hold)
	done := UntilProgress(longWait, inf.Count, func() bool { return inf.AcceptedSize() >= total })
	time.Sleep(50 * time.Millisecond)
	if d := diffCounts(want, countLines(inf.AcceptedBytes(""))); d != "" || !done {
		c.Fatal("writes which failed while a retry took long weren't all repeated until they succeeded (or too often): %s", d)
	}
	c.Eval(fmt.Sprintf("busy retry %d workers", conf.Workers), true)
	c.Obs("writes that failed during a long retry", messages)
	c.StopComp(comp)
}

type attempt struct {
	kind   string
	status int
}

// c16run lets writes fail in all ways, then lets them succeed, and looks
// at the history of every body.
func c16run(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("run%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = []int{1, 1, 2, 4}[i%4]
	conf.BatchMaxCount = []int{1, 3, 10}[r.Intn(3)]
	conf.BatchMaxSize = 50 * datasize.MB
	conf.BatchMaxAge = dur(100 * time.Millisecond)
	// Batches which are split into several writes: then messages are
	// single lines which fit in one.
	split := i%3 == 1
	if split {
		conf.BatchMaxSize = datasize.ByteSize(1200 + r.Intn(3000))
		conf.BatchMaxCount = 50
	}
	conf.WriterRetryBatches = 10000
	conf.WriterRetryInterval = dur(time.Duration(1+r.Intn(5)) * time.Millisecond)
	conf.WriterRetryTimeout = dur(time.Hour)
	conf.WriteTimeout = dur(3 * time.Second)
	conf.Debug = r.Intn(2) == 0
	stall0 := stalledFor()
	faults := []string{"ok", "ok", "500", "503", "599", "400", []string{"401", "404", "408", "429"}[i%4], []string{"403", "409", "413", "422", "429", "499"}[i%6], "reset", "early503", "304", "cut200", "cut204", "cut500", "301", "302", "303"}
	if i%2 == 0 {
		faults = append(faults, "hang")
	}
	var mu sync.Mutex
	fr := c.Rand(fmt.Sprintf("faults%d", i))
	active := true
	hangs := 0
	pick := func() string {
		mu.Lock()
		defer mu.Unlock()
		if !active {
			return "ok"
		}
		k := faults[fr.Intn(len(faults))]
		if k == "hang" {
			if hangs++; hangs > 3 {
				return "500"
			}
		}
		return k
	}
	never := make(chan struct{})
	act := func(k string) Action {
		switch k {
		case "ok":
			return Action{Status: 204}
		case "reset":
			return Action{Reset: true}
		case "hang":
			return Action{Hold: never}
		case "304":
			return Action{Status: 304}
		case "301", "302", "303":
			var s int
			fmt.Sscan(k, &s)
			return Action{Status: s, To: "/elsewhere"}
		case "early503":
			return Action{Status: 503, Early: true}
		case "cut200", "cut204", "cut500":
			// The status arrives, the rest of the response doesn't.
			var s int
			fmt.Sscanf(k, "cut%d", &s)
			return Action{Status: s, Cut: s != 204, Body: ""}
		}
		var s int
		fmt.Sscan(k, &s)
		return Action{Status: s, Body: `{"error":"no"}`}
	}
	inf.Script(func(w *Write) Action {
		k := pick()
		c.Obs("answers: "+k, 1)
		return act(k)
	})
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	sent := map[int64]bool{}
	send := func(k int) {
		for m := 0; m < k; m++ {
			id, b := frame(r, frameSize(r))
			if split {
				// (A batch is written out as soon as it is larger than a
				// write may be. Several lines come in one message.)
				b = nil
				for x := 1 + r.Intn(40); x > 0; x-- {
					id := nextID()
					p := fmt.Sprintf("%s\n", strings.Repeat("y", r.Intn(900)))
					b = append(b, fmt.Sprintf("#%d,%d,%x:%s", id, len(p), fnv32([]byte(p)), p)...)
					sent[id] = true
				}
				publish(c, nc, "in", b)
				continue
			}
			sent[id] = true
			publish(c, nc, "in", b)
		}
		flush(c, nc)
	}
	send(c.N(80, 300))
	Until(time.Duration(100+r.Intn(300))*time.Millisecond, func() bool { return false })
	refused := i%3 == 0
	if refused {
		// Let answers get to the writer, then close the port.
		inf.Script(func(w *Write) Action { return Action{Hold: never} })
		Until(150*time.Millisecond, func() bool { return false })
		inf.Stop()
		send(20)
		Until(time.Duration(50+r.Intn(200))*time.Millisecond, func() bool { return false })
		inf.Start()
		inf.Script(func(w *Write) Action { return act(pick()) })
		c.Obs("times the port was closed", 1)
		send(20)
		Until(200*time.Millisecond, func() bool { return false })
	}
	mu.Lock()
	active = false
	mu.Unlock()
	send(10)

	// Until all messages were accepted, or refused for good.
	type history struct {
		ids      []int64
		statuses []int
	}
	var order []string
	hist := map[string]*history{}
	owner := map[int64]string{}
	next := 0
	collect := func() {
		all := inf.Writes()
		for ; next < len(all); next++ {
			w := all[next]
			if len(w.Body) == 0 || w.BodyErr != "" {
				continue // answered before it was read, or cut off
			}
			k := string(w.Body)
			h := hist[k]
			if h == nil {
				ids, bad := frames(w.Body)
				if bad != "" {
					c.Fatal("body altered: %s", bad)
				}
				if split {
					c.Obs("bodies of split batches", 1)
				}
				h = &history{ids: ids}
				hist[k] = h
				order = append(order, k)
				for _, id := range ids {
					if !sent[id] {
						c.Fatal("unknown message %d", id)
					}
					if o, ok := owner[id]; ok {
						c.Fatal("message %d was sent in two different bodies: %s and %s", id, short([]byte(o)), short(w.Body))
					}
					owner[id] = k
				}
			}
			h.statuses = append(h.statuses, w.Status)
		}
	}
	settled := func() bool {
		collect()
		for id := range sent {
			h := hist[owner[id]]
			if h == nil {
				return false
			}
			s := h.statuses[len(h.statuses)-1]
			if s/100 != 2 && s/100 != 4 {
				return false
			}
		}
		return true
	}
	done := UntilProgress(longWait, inf.Count, settled)
	// A first 4xx may or may not be repeated; give it the time.
	Until(150*time.Millisecond, func() bool { return false })
	collect()
	if stalledFor()-stall0 > 800*time.Millisecond {
		// Answers may have come too late for the writer.
		c.Infra("the machine stalled for too long")
	}
	if !done {
		lost := 0
		var ex int64
		for id := range sent {
			h := hist[owner[id]]
			if h == nil || h.statuses[len(h.statuses)-1]/100 == 5 || h.statuses[len(h.statuses)-1] == 0 || h.statuses[len(h.statuses)-1]/100 == 3 {
				lost++
				ex = id
			}
		}
		h := hist[owner[ex]]
		var st []int
		if h != nil {
			st = h.statuses
		}
		c.Fatal("%d of %d messages were given up, e.g. message %d with answers %v", lost, len(sent), ex, st)
	}
	for _, k := range order {
		h := hist[k]
		for a, s := range h.statuses {
			last := a == len(h.statuses)-1
			if s/100 == 2 && !last {
				c.Fatal("body sent again after it was accepted (answers %v): %s", h.statuses, short([]byte(k)))
			}
			// With early answers the first attempt may not be known.
			if s/100 == 4 && a >= 1 && !last {
				c.Fatal("body sent again after a retry was answered with %d (answers %v)", s, h.statuses)
			}
		}
		sig := []string{}
		for _, s := range h.statuses {
			sig = append(sig, fmt.Sprint(s))
		}
		c.Eval(fmt.Sprintf("workers %d answers %s", conf.Workers, strings.Join(sig, " ")), len(h.statuses) > 1)
		if len(h.statuses) > 2 {
			c.Sample("body of %d bytes with %d messages: answers %v (0: connection dropped or none)", len(k), len(h.ids), h.statuses)
		}
	}
	c.Obs("bodies", len(order))
	c.StopComp(comp)
}

// ---------------------------------------------------------------------
// C17

func checkC17(c *Ctx) {
	for i := 0; i < c.N(1500, 12000) && !c.Failed(); i++ {
		i := i
		bubble(c, "sim", func() { c17sim(c, i) })
	}
	c.Pool(4, 4, func(i int) {
		switch i {
		case 0, 1:
			c17real(c, i)
		case 2:
			c17queue(c)
		case 3:
			c17timeout(c)
		}
	})
}

type rqItem struct {
	buf string
	ttl time.Time
}

// c17sim runs the retry worker in virtual time.
func c17sim(c *Ctx, i int) {
	c.needHook(writer.VerifAvailable)
	r := c.Rand(fmt.Sprintf("sim%d", i))
	interval := time.Duration(1+r.Int63n(int64(10*time.Second))) + time.Duration(r.Int63n(1000))
	timeout := time.Duration(r.Int63n(int64(20*interval))) + 1
	maxB := 1 + r.Intn(6)
	if r.Intn(8) == 0 {
		maxB = 1 + r.Intn(100)
	}
	conf := &config.Config{
		WriterRetryBatches:  maxB,
		WriterRetryInterval: dur(interval),
		WriterRetryTimeout:  dur(timeout),
	}
	var queue []rqItem // model
	var log []string
	note := func(f string, a ...interface{}) {
		if len(log) < 60 {
			log = append(log, fmt.Sprintf("%v: ", time.Now().UnixNano()%1e12)+fmt.Sprintf(f, a...))
		}
	}
	var mu sync.Mutex
	var nonEmptySince, prevEnd time.Time
	var prevStart time.Time
	bad := ""
	fail := func(f string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	pOK, pPerm := r.Intn(4), r.Intn(3)
	slow := r.Intn(4) == 0
	wr := c.Rand(fmt.Sprintf("outcome%d", i))
	attempts := 0
	writing := false
	write := func(b []byte) error {
		mu.Lock()
		now := time.Now()
		note("attempt %q", b)
		if writing {
			fail("two attempts at the same time")
		}
		writing = true
		attempts++
		if !prevStart.IsZero() && now.Sub(prevStart) < interval {
			fail("attempts %v apart, the interval is %v", now.Sub(prevStart), interval)
		}
		if now.Sub(nonEmptySince) < interval {
			fail("attempt %v after the first batch came, the interval is %v", now.Sub(nonEmptySince), interval)
		}
		from := nonEmptySince
		if prevEnd.After(from) {
			from = prevEnd
		}
		for len(queue) > 0 && queue[0].ttl.Before(now) {
			note("%q expired", queue[0].buf)
			queue = queue[1:]
			c.Obs("batches expired", 1)
		}
		if len(queue) == 0 {
			fail("attempt although no batch is waiting: %q", b)
		} else if queue[0].buf != string(b) {
			fail("attempt with %q, the next one is %q", b, queue[0].buf)
		} else if now.Sub(from) > interval {
			fail("attempt %v after the last one (interval %v)", now.Sub(from), interval)
		}
		prevStart = now
		outcome := wr.Intn(6)
		var d time.Duration
		if slow && wr.Intn(3) == 0 {
			d = time.Duration(wr.Int63n(int64(3 * interval)))
		}
		mu.Unlock()
		time.Sleep(d)
		mu.Lock()
		defer mu.Unlock()
		writing = false
		prevEnd = time.Now()
		switch {
		case outcome < pOK:
			note("success")
			if len(queue) > 0 {
				queue = queue[1:]
			}
			c.Eval(fmt.Sprintf("success, %d waiting of %d", len(queue), maxB), true)
			return nil
		case outcome < pOK+pPerm:
			note("permanent error")
			if len(queue) > 0 {
				queue = queue[1:]
			}
			c.Eval(fmt.Sprintf("permanent error, %d waiting of %d", len(queue), maxB), true)
			return writer.VerifClientError("no", true)
		default:
			note("error")
			if len(queue) > 0 {
				queue = append(queue[1:], queue[0])
			}
			c.Eval(fmt.Sprintf("error, %d waiting of %d", len(queue), maxB), true)
			return writer.VerifClientError("later", false)
		}
	}
	in := make(chan []byte)
	stop, errs := writer.VerifRetryWorker(in, write, conf)
	quit := make(chan struct{})
	go func() {
		for {
			select {
			case <-errs:
			case <-quit:
				return
			}
		}
	}()
	n := 1 + r.Intn(12)
	for k := 0; k < n; k++ {
		if r.Intn(3) > 0 {
			time.Sleep(time.Duration(r.Int63n(int64(4*interval))) + time.Duration(r.Intn(3)))
		} else {
			time.Sleep(time.Duration(r.Int63n(1000)))
		}
		b := fmt.Sprintf("batch%d", k)
		in <- []byte(b) // received at once unless a write goes on
		synctest.Wait()
		mu.Lock()
		now := time.Now()
		// If the next attempt would have been due there was nothing left
		// to attempt.
		due := nonEmptySince
		if prevEnd.After(due) {
			due = prevEnd
		}
		due = due.Add(interval)
		if len(queue) > 0 && now.After(due) {
			for _, q := range queue {
				if q.ttl.After(due) {
					fail("%q was not attempted %v ago, when it was due", q.buf, now.Sub(due))
				}
			}
			note("all expired")
			queue = nil
		}
		wasEmpty := len(queue) == 0
		// The worker drops expired batches when it gets to them; the
		// oldest one goes when there are too many.
		if len(queue) >= maxB {
			old := 0
			for j := range queue {
				if queue[j].ttl.Before(queue[old].ttl) {
					old = j
				}
			}
			note("%q discarded", queue[old].buf)
			queue = append(append([]rqItem(nil), queue[:old]...), queue[old+1:]...)
			c.Obs("batches discarded", 1)
		}
		if wasEmpty {
			nonEmptySince = now
		}
		queue = append(queue, rqItem{b, now.Add(timeout)})
		note("%q added", b)
		mu.Unlock()
	}
	// Let it come to an end: everything expires at last.
	time.Sleep(2*timeout + 30*interval*time.Duration(maxB+2))
	mu.Lock()
	before := attempts
	for _, q := range queue {
		if !q.ttl.Before(time.Now()) {
			fail("harness: %q is still waiting", q.buf)
		}
	}
	last := bad
	mu.Unlock()
	if last == "" {
		time.Sleep(10*interval + timeout)
		mu.Lock()
		if attempts != before {
			fail("attempts after all batches expired")
		}
		last = bad
		mu.Unlock()
	}
	close(quit)
	stop()
	synctest.Wait()
	if last != "" {
		c.Fail("interval %v timeout %v batches %d: %s\n%s", interval, timeout, maxB, last, strings.Join(log, "\n"))
	}
	c.Obs("attempts in virtual time", attempts)
	if i%300 == 2 {
		c.Sample("interval %v timeout %v batches %d: %s", interval, timeout, maxB, strings.Join(log, "; "))
	}
}

// c17real measures the distance of the retries of a complete writer.
func c17real(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("real%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	inf.Script(func(w *Write) Action { return Action{Status: 503} })
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1
	conf.WriterRetryBatches = 1 + r.Intn(5)
	interval := []time.Duration{150, 300}[i%2] * time.Millisecond
	conf.WriterRetryInterval = dur(interval)
	conf.WriterRetryTimeout = dur(time.Hour)
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	for k := 0; k < 12; k++ {
		_, b := frame(r, 10)
		publish(c, nc, "in", b)
		flush(c, nc)
		Until(time.Duration(r.Intn(300))*time.Millisecond, func() bool { return false })
	}
	Until(600*time.Millisecond, func() bool { return false })
	seen := map[string]bool{}
	var prev *Write
	for _, w := range inf.Writes() {
		k := string(w.Body)
		if !seen[k] {
			seen[k] = true
			continue
		}
		if prev != nil {
			if d := w.Start.Sub(prev.Start); d < interval {
				c.Fatal("retries %v apart, writer_retry_interval is %v", d, interval)
			}
		}
		prev = w
		c.Eval("retry in real time", true)
		c.Obs("retries of a complete writer", 1)
	}
	if prev == nil {
		c.Fatal("nothing was retried")
	}
	c.StopComp(comp)
}

// c17queue fails more batches than may wait.
func c17queue(c *Ctx) {
	r := c.Rand("queue")
	for _, max := range []int{1, 3, 8} {
		n := startNats(c)
		inf := startInflux(c)
		inf.Script(func(w *Write) Action { return Action{Status: 503} })
		conf := baseConf(n, "writer")
		conf.InfluxDBPort = inf.Port
		conf.Workers = 1
		conf.WriterRetryBatches = max
		conf.WriterRetryInterval = dur(1200 * time.Millisecond)
		conf.WriterRetryTimeout = dur(time.Hour)
		comp := c.Start(conf)
		nc := n.Connect()
		start := time.Now()
		var bodies []string
		k := max + 1 + r.Intn(8)
		for j := 0; j < k; j++ {
			_, b := frame(r, 10)
			bodies = append(bodies, string(b))
			publish(c, nc, "in", b)
		}
		flush(c, nc)
		c.Must("first attempts", func() bool { return inf.Count() >= k })
		inf.Script(nil)
		if time.Since(start) > 800*time.Millisecond {
			c.Infra("too slow")
		}
		// The distance of attempts is shorter than the test would like.
		conf2 := bodies[k-max:]
		if max > 3 {
			conf2 = conf2[:3]
		}
		Until(1300*time.Millisecond*time.Duration(len(conf2))+400*time.Millisecond, func() bool { return len(inf.Writes()) >= k+len(conf2) })
		ws := inf.Writes()[k:]
		for j, w := range ws {
			if j >= max || string(w.Body) != bodies[k-max+j] {
				c.Fatal("%d batches failed, %d may wait: retry %d has another batch than the one due (%s)", k, max, j, short(w.Body))
			}
		}
		if len(ws) < len(conf2) {
			c.Fatal("%d batches failed, %d may wait: only %d were retried", k, max, len(ws))
		}
		c.Eval(fmt.Sprintf("queue limit %d", max), true)
		c.StopComp(comp)
		nc.Close()
		inf.Stop()
		n.Stop()
	}
}

// c17timeout has an outage which is longer than the time limit.
func c17timeout(c *Ctx) {
	r := c.Rand("timeout")
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	inf.Script(func(w *Write) Action { return Action{Status: 503} })
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1
	conf.WriterRetryBatches = 20
	conf.WriterRetryInterval = dur(40 * time.Millisecond)
	timeout := 900 * time.Millisecond
	conf.WriterRetryTimeout = dur(timeout)
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	for k := 0; k < 6; k++ {
		_, b := frame(r, 10)
		publish(c, nc, "in", b)
	}
	flush(c, nc)
	c.Must("first attempts", func() bool { return inf.Count() >= 6 })
	firsts := map[string]*Write{}
	for _, w := range inf.Writes() {
		if firsts[string(w.Body)] == nil {
			firsts[string(w.Body)] = w
		}
	}
	Until(timeout+1500*time.Millisecond, func() bool { return false })
	inf.Script(nil)
	Until(300*time.Millisecond, func() bool { return false })
	var ends []time.Time
	for _, w := range inf.Writes() {
		f := firsts[string(w.Body)]
		if f == nil {
			c.Fatal("unknown body")
		}
		// The limit starts when the failure is known, a moment after.
		if d := w.Start.Sub(f.End); d > timeout+1200*time.Millisecond {
			c.Fatal("batch attempted %v after it failed, writer_retry_timeout is %v", d, timeout)
		}
		ends = append(ends, w.Start)
	}
	sort.Slice(ends, func(a, b int) bool { return ends[a].Before(ends[b]) })
	c.Eval("time limit", true)
	c.Obs("attempts before the time limit", len(ends))
	c.StopComp(comp)
}

var _ = nats.DefaultURL
