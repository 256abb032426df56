package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/batchsplitter"
	"github.com/jumptrading/influx-spout/v2/config"
)

func init() {
	register("C05", checkC05)
	register("C06", checkC06)
}

// batchRig feeds writes to a component that batches and observes the
// batches it sends.
type batchRig struct {
	c     *Ctx
	mode  string
	write func(b []byte)
	out   func() []Msg // what was sent so far
	done  func()
	conf  *config.Config
}

func newBatchRig(c *Ctx, mode string, mod func(*config.Config)) *batchRig {
	b := &batchRig{c: c, mode: mode}
	if mode != "writer" {
		g := newListenerRig(c, mode, mod)
		b.conf = g.conf
		b.out = func() []Msg { return g.rec.Msgs("") }
		if mode == "listener" {
			s := newUDPSender(c, g.conf.Port)
			b.write = s.send
			b.done = func() {
				s.drain()
				if s.dropped() {
					c.Infra("datagrams dropped by the kernel")
				}
				s.conn.Close()
				g.close()
			}
		} else {
			client := httpClient()
			b.write = func(d []byte) {
				// However its lines are processed, a request is one write.
				q := ""
				if len(d) > 2 && len(d)%2 == 0 {
					q = "precision=ms"
				}
				g.post(client, q, d, false)
			}
			b.done = func() { client.CloseIdleConnections(); g.close() }
		}
		return b
	}
	n := startNats(c)
	inf := startInflux(c)
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1
	conf.StatsInterval = dur(time.Hour)
	mod(conf)
	comp := c.Start(conf)
	nc := n.Connect()
	b.conf = conf
	b.write = func(d []byte) { publish(c, nc, "in", d); flush(c, nc) }
	b.out = func() []Msg {
		var out []Msg
		for _, w := range inf.Writes() {
			out = append(out, Msg{"", w.Body, w.Start})
		}
		return out
	}
	b.done = func() {
		c.StopComp(comp)
		nc.Close()
		inf.Stop()
		n.Stop()
	}
	return b
}

// full says whether a batch with so much in it has to be sent.
func (b *batchRig) full(writes, size int) bool {
	if writes >= b.conf.BatchMaxCount {
		return true
	}
	max := int(b.conf.BatchMaxSize.Bytes())
	if b.mode == "writer" {
		return size >= max
	}
	return max-size <= 65536
}

func (b *batchRig) outSize() int {
	n := 0
	for _, m := range b.out() {
		n += len(m.Data)
	}
	return n
}

func checkC05(c *Ctx) {
	modes := []string{"listener", "listener_http", "writer"}
	var jobs []func()
	for _, mode := range modes {
		mode := mode
		for _, count := range []int{1, 2, 3, 10, 64, 1000000} {
			for _, size := range []datasize.ByteSize{datasize.MB, 200000, 66000} {
				count, size := count, size
				if mode == "writer" && size == 66000 {
					size = 5000
				}
				jobs = append(jobs, func() { c05exact(c, mode, count, size) })
			}
		}
		for i := 0; i < c.N(3, 12); i++ {
			i := i
			jobs = append(jobs, func() { c05age(c, mode, i) })
		}
		jobs = append(jobs, func() { c05late(c, mode, 0, true, 0.5) }, func() { c05late(c, mode, 0, false, 0) }, func() { c05late(c, mode, 6*time.Second, true, 0.96) }, func() { c05constant(c, mode) }, func() { c05idle(c, mode) })
	}
	// The slow ones first.
	for i, j := 0, len(jobs)-1; i < j; i, j = i+1, j-1 {
		jobs[i], jobs[j] = jobs[j], jobs[i]
	}
	c.Pool(12, len(jobs), func(i int) { jobs[i]() })
}

// c05exact compares the messages with a model which never gets old.
func c05exact(c *Ctx, mode string, count int, size datasize.ByteSize) {
	name := fmt.Sprintf("%s count=%d size=%d", mode, count, size)
	r := c.Rand(name)
	b := newBatchRig(c, mode, func(conf *config.Config) {
		conf.BatchMaxCount = count
		conf.BatchMaxSize = size
		conf.BatchMaxAge = dur(time.Hour)
	})
	defer b.done()
	var want [][]byte
	var cur []byte
	writes := 0
	total := c.N(150, 400)
	if count > 1000 {
		total *= 3
	}
	trigCount, trigSize := 0, 0
	for i := 0; i < total; i++ {
		n := 10 + r.Intn(200)
		switch r.Intn(8) {
		case 0:
			n = 2000 + r.Intn(8000)
		case 1:
			if count > 10 {
				n = 20000 + r.Intn(45000)
			}
		case 2:
			n = 1
		}
		// Hit the threshold to the byte now and then.
		limit := int(size)
		if mode != "writer" {
			limit -= 65536
		}
		if left := limit - len(cur); left > 2 && left < 60000 && r.Intn(3) == 0 {
			n = left + r.Intn(3) - 1
		}
		d := bytes.Repeat([]byte{byte('a' + i%26)}, n)
		d[n-1] = '\n'
		for k := 3; k < n-3; k += 7 + i%50 {
			d[k] = '\n' // several lines
		}
		b.write(d)
		cur = append(cur, d...)
		writes++
		if b.full(writes, len(cur)) {
			if writes >= count {
				trigCount++
			} else {
				trigSize++
			}
			want = append(want, cur)
			cur, writes = nil, 0
		}
		c.Eval(fmt.Sprintf("%s %d/%d", name, writes, len(cur)), true)
		// Without looking too early the monitor sees whether the batch is
		// sent without further input.
		if i%37 == 36 {
			if !Until(longWait, func() bool { return len(b.out()) >= len(want) }) {
				c.Fatal("%s: a full batch isn't sent: %d sent, %d expected after %d writes", name, len(b.out()), len(want), i+1)
			}
		}
	}
	if !Until(longWait, func() bool { return b.outSize() >= sumLen(want) && len(b.out()) >= countParts(want, size, mode) }) {
		c.Fatal("%s: %d messages with %d bytes sent, expected %d with %d bytes", name, len(b.out()), b.outSize(), len(want), sumLen(want))
	}
	time.Sleep(20 * time.Millisecond)
	got := b.out()
	i := 0
	for k, w := range want {
		var g []byte
		for len(g) < len(w) && i < len(got) {
			if len(got[i].Data) == 0 {
				c.Fatal("%s: empty message", name)
			}
			g = append(g, got[i].Data...)
			i++
		}
		if !bytes.Equal(g, w) {
			c.Fatal("%s: batch %d has %d bytes, expected %d", name, k, len(g), len(w))
		}
	}
	if i != len(got) {
		c.Fatal("%s: %d more messages than full batches", name, len(got)-i)
	}
	c.Obs("batches sent because of count", trigCount)
	c.Obs("batches sent because of size", trigSize)
	c.Sample("%s: %d writes gave %d batches (%d by count, %d by size), %d bytes rightly held back", name, total, len(want), trigCount, trigSize, len(cur))
}

func sumLen(bs [][]byte) int {
	n := 0
	for _, b := range bs {
		n += len(b)
	}
	return n
}

func countParts(bs [][]byte, size datasize.ByteSize, mode string) int { return len(bs) }

// c05age replays a random schedule with a short maximum age and checks
// every batch sent against the writes it holds.
func c05age(c *Ctx, mode string, i int) {
	r := c.Rand(fmt.Sprintf("age%s%d", mode, i))
	age := time.Duration(200+r.Intn(400)) * time.Millisecond
	count := []int{4, 20, 1000000}[i%3]
	b := newBatchRig(c, mode, func(conf *config.Config) {
		conf.BatchMaxCount = count
		conf.BatchMaxSize = 150000
		conf.BatchMaxAge = dur(age)
	})
	defer b.done()
	type wr struct {
		at   time.Time
		line []byte
	}
	var ws []wr
	end := time.Now().Add(time.Duration(c.N(4, 12)) * time.Second)
	for n := 0; time.Now().Before(end); n++ {
		l := []byte(fmt.Sprintf("w%d %s\n", n, strings.Repeat("x", r.Intn(400))))
		ws = append(ws, wr{time.Now(), l})
		b.write(l)
		switch r.Intn(6) {
		case 0:
			time.Sleep(time.Duration(r.Intn(900)) * time.Millisecond)
		case 1, 2:
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
	}
	total := 0
	for _, w := range ws {
		total += len(w.line)
	}
	if !Until(longWait, func() bool { return b.outSize() >= total }) {
		c.Fatal("%s age=%s count=%d: data stays behind: %d of %d bytes sent", mode, age, count, b.outSize(), total)
	}
	k := 0
	byAge := 0
	for _, m := range b.out() {
		first := k
		size := 0
		for size < len(m.Data) && k < len(ws) {
			if !bytes.HasPrefix(m.Data[size:], ws[k].line) {
				c.Fatal("%s: unexpected content %s", mode, short(m.Data[size:]))
			}
			size += len(ws[k].line)
			k++
			if size < len(m.Data) && b.full(k-first, size) {
				c.Fatal("%s count=%d: a batch of %d writes, %d bytes wasn't sent when full", mode, count, k-first, size)
			}
		}
		if size == 0 || size != len(m.Data) {
			c.Fatal("%s: message of %d bytes doesn't end with a write", mode, len(m.Data))
		}
		held := m.At.Sub(ws[first].at)
		if !b.full(k-first, size) {
			byAge++
			if held < age {
				c.Fatal("%s age=%s count=%d: a batch of %d writes (%d bytes) was sent %s after its first write although no limit was reached", mode, age, count, k-first, size, held)
			}
		}
		c.Eval(fmt.Sprintf("%s %s n=%d full=%v", mode, age, k-first, b.full(k-first, size)), true)
	}
	c.Obs("batches sent because of age", byAge)
}

// c05late checks that a batch isn't held much longer than its maximum
// age. What counts as late allows for the components' one second polling.
// With pair, a second write comes after that part of the age.
func c05late(c *Ctx, mode string, age time.Duration, pair bool, part float64) {
	const tries = 3
	if age == 0 {
		age = 2600 * time.Millisecond
		if mode == "listener_http" {
			age = 3 * time.Second
		}
	}
	worst := time.Duration(0)
	for try := 0; try < tries; try++ {
		b := newBatchRig(c, mode, func(conf *config.Config) {
			conf.BatchMaxCount = 1000
			conf.BatchMaxAge = dur(age)
		})
		time.Sleep(time.Duration(100+300*try) * time.Millisecond)
		start := eff()
		b.write([]byte("first x=1\n"))
		second := !pair
		if !Until(longWait, func() bool {
			if !second && eff()-start > time.Duration(part*float64(age)) {
				second = true
				b.write([]byte("second x=1\n"))
			}
			return len(b.out()) > 0
		}) {
			c.Fatal("%s: nothing sent %s after a write with maximum age %s", mode, longWait, age)
		}
		late := eff() - start - age
		b.done()
		c.Eval(fmt.Sprintf("late %s %v %v %v %d", mode, age, pair, part, try), true)
		if late <= 2200*time.Millisecond {
			c.ObsMax("milliseconds beyond the maximum age, "+mode, int(late/time.Millisecond))
			return
		}
		if late > worst {
			worst = late
		}
	}
	c.Fatal("%s: batches with maximum age %s are held %s longer", mode, age, worst)
}

// c05constant checks that steady input doesn't keep a batch from ageing.
func c05constant(c *Ctx, mode string) {
	age := 600 * time.Millisecond
	b := newBatchRig(c, mode, func(conf *config.Config) {
		conf.BatchMaxCount = 1000000
		conf.BatchMaxAge = dur(age)
	})
	defer b.done()
	n := 0
	start := eff()
	for eff()-start < longWait && len(b.out()) < 3 {
		b.write([]byte(fmt.Sprintf("steady%d x=1\n", n)))
		n++
		time.Sleep(20 * time.Millisecond)
	}
	if len(b.out()) < 3 {
		c.Fatal("%s: with steady input only %d batches were sent in %s (maximum age %s)", mode, len(b.out()), longWait, age)
	}
	c.Eval("constant "+mode, true)
}

// c05idle checks that nothing is sent while there is nothing to send and
// that a batch's age starts at its first write.
func c05idle(c *Ctx, mode string) {
	age := 700 * time.Millisecond
	b := newBatchRig(c, mode, func(conf *config.Config) {
		conf.BatchMaxCount = 3
		conf.BatchMaxAge = dur(age)
	})
	defer b.done()
	for i := 0; i < c.N(3, 6); i++ {
		before := len(b.out())
		time.Sleep(age + 600*time.Millisecond)
		if len(b.out()) != before {
			c.Fatal("%s: %d messages sent without input", mode, len(b.out())-before)
		}
		at := time.Now()
		b.write([]byte(fmt.Sprintf("late%d x=1\n", i)))
		if i == 1 { // full right away
			b.write([]byte("l2 x=1\n"))
			b.write([]byte("l3 x=1\n"))
			if !Until(longWait, func() bool { return len(b.out()) > before }) {
				c.Fatal("%s: full batch not sent after an idle time", mode)
			}
			continue
		}
		if !Until(longWait, func() bool { return len(b.out()) > before }) {
			c.Fatal("%s: batch not sent", mode)
		}
		m := b.out()[before]
		if m.At.Sub(at) < age {
			c.Fatal("%s: after an idle time a batch was sent %s after its only write, maximum age %s", mode, m.At.Sub(at), age)
		}
		if len(m.Data) == 0 {
			c.Fatal("%s: empty message", mode)
		}
		c.Eval(fmt.Sprintf("idle %s %d", mode, i), true)
	}
}

// ---------------------------------------------------------------------
// C06

func checkSplit(c *Ctx, what string, whole []byte, parts [][]byte, limit int) {
	var all []byte
	for i, p := range parts {
		if len(p) == 0 {
			c.Fatal("%s: empty part", what)
		}
		if len(p) > limit {
			c.Fatal("%s: part %d has %d bytes, limit %d", what, i, len(p), limit)
		}
		all = append(all, p...)
		if i < len(parts)-1 && p[len(p)-1] != '\n' {
			// Only a line that's longer than the limit may be cut, and only
			// when it has the part for itself.
			if bytes.IndexByte(p, '\n') >= 0 || len(p) != limit {
				c.Fatal("%s: part %d is cut inside a line: %s (limit %d)", what, i, short(p), limit)
			}
		}
	}
	if !bytes.Equal(all, whole) {
		c.Fatal("%s: parts aren't the batch: %s", what, firstDiff(whole, all))
	}
}

func checkC06(c *Ctx) {
	c.Go(
		func() { c.Scenario("splitter", func() { c06splitter(c) }) },
		func() { c06listener(c) },
		func() { c06udp(c) },
		func() { c06writer(c) },
		func() { c06downsampler(c) },
	)
}

func c06splitter(c *Ctx) {
	one := func(buf []byte, limit int) {
		orig := append([]byte(nil), buf...)
		s := batchsplitter.New(buf, datasize.ByteSize(limit))
		var parts [][]byte
		for s.Next() {
			parts = append(parts, append([]byte(nil), s.Chunk()...))
			if len(parts) > len(buf)+2 {
				c.Fatal("splitter doesn't end for %s limit %d", short(buf), limit)
			}
		}
		if s.Next() {
			c.Fatal("splitter starts again after its end")
		}
		checkSplit(c, fmt.Sprintf("splitter(%s, %d)", short(orig), limit), orig, parts, limit)
		if !bytes.Equal(buf, orig) {
			c.Fatal("splitter modified its input %s", short(orig))
		}
	}
	maxLen := c.N(11, 14)
	n := 0
	for l := 0; l <= maxLen; l++ {
		for bits := 0; bits < 1<<uint(l); bits++ {
			buf := make([]byte, l)
			for i := range buf {
				buf[i] = 'a'
				if bits>>uint(i)&1 == 1 {
					buf[i] = '\n'
				}
			}
			for limit := 1; limit <= l+1; limit++ {
				one(buf, limit)
				n++
			}
		}
		c.Eval(fmt.Sprintf("all strings of length %d", l), true)
	}
	c.Obs("small strings and limits, exhaustively", n)
	r := c.Rand("splitter")
	for i := 0; i < c.N(400, 3000); i++ {
		limit := 1 + r.Intn(3000)
		buf := make([]byte, r.Intn(12000))
		density := 1 + r.Intn(2*limit)
		for j := range buf {
			buf[j] = byte('a' + r.Intn(26))
			if r.Intn(density) == 0 {
				buf[j] = '\n'
			}
		}
		one(buf, limit)
		c.Eval(fmt.Sprintf("random %d/%d", len(buf), limit), len(buf) > limit)
	}
	// Around the real limit.
	const mb = 1048576
	for _, at := range []int{mb - 2, mb - 1, mb, mb + 1} {
		for _, l := range []int{mb - 1, mb, mb + 1, 2 * mb, 2*mb + 1} {
			buf := bytes.Repeat([]byte{'q'}, l)
			if at < l {
				buf[at] = '\n'
			}
			one(buf, mb)
			c.Eval(fmt.Sprintf("1MB %d/%d", at, l), true)
		}
	}
}

func bigLines(r *rand.Rand, tag string, total, maxLine int) []byte {
	var b []byte
	for i := 0; len(b) < total; i++ {
		n := r.Intn(maxLine)
		l := fmt.Sprintf("%s i=%d,s=\"%s\"\n", tag, i, strings.Repeat(string(rune('a'+r.Intn(26))), n))
		if len(b)+len(l) > total {
			l = strings.Repeat("x", total-len(b)-1) + "\n"
		}
		b = append(b, l...)
	}
	return b
}

func c06listener(c *Ctx) {
	r := c.Rand("http")
	const mb = 1048576
	for i := 0; i < c.N(5, 20); i++ {
		n := startNats(c)
		// A server which takes more, so that too large messages are seen.
		n.Stop()
		big := i%2 == 0
		if big {
			n.opts = natsBig
		}
		n.Start()
		conf := baseConf(n, "listener_http")
		conf.Port = freePort()
		conf.BatchMaxCount = 1 + r.Intn(6)
		conf.BatchMaxSize = []datasize.ByteSize{datasize.MB, 100000}[i%2]
		conf.BatchMaxAge = dur(200 * time.Millisecond)
		rec := n.Record("in")
		comp := c.Start(conf)
		g := &listenerRig{c: c, n: n, conf: conf, rec: rec, comp: comp}
		client := httpClient()
		var want []byte
		for j := 0; j < 8; j++ {
			var body []byte
			switch j {
			case 0:
				body = bigLines(r, "a", mb, 500)
			case 1:
				body = bigLines(r, "b", mb+1, 500)
			case 2:
				body = bigLines(r, "c", mb-1, 5000)
			case 3: // one line which is too long, between others
				body = bigLines(r, "d", 5000, 100)
				body = append(body, bytes.Repeat([]byte{'L'}, mb+5000+r.Intn(mb))...)
				body = append(body, '\n')
				body = append(body, bigLines(r, "e", 5000, 100)...)
			case 4: // a line of exactly the limit
				body = append(bytes.Repeat([]byte{'E'}, mb-1), '\n')
			case 5:
				body = append(bytes.Repeat([]byte{'F'}, mb), '\n')
			default:
				body = bigLines(r, "z", 1000+r.Intn(3*mb), 1+r.Intn(100000))
			}
			g.post(client, []string{"", "precision=s"}[j%2], body, false)
			want = append(want, body...)
			c.Eval(fmt.Sprintf("http body %d of %d", j, len(body)>>10), true)
		}
		UntilProgress(longWait, rec.Count, func() bool { return rec.Size() >= len(want) })
		var parts [][]byte
		for _, m := range rec.Msgs("") {
			parts = append(parts, m.Data)
			c.ObsMax("largest listener message", len(m.Data))
		}
		checkListenerParts(c, "HTTP listener", want, parts)
		client.CloseIdleConnections()
		g.close()
	}
}

// checkListenerParts is checkSplit for a sequence of batches: a cut line
// only has to have no newline in its part.
func checkListenerParts(c *Ctx, what string, whole []byte, parts [][]byte) {
	checkSplit(c, what, whole, parts, 1048576)
}

func c06udp(c *Ctx) {
	for i := 0; i < c.N(3, 10); i++ {
		r := c.Rand(fmt.Sprintf("udp%d", i))
		n := startNats(c)
		n.Stop()
		n.opts = natsBig
		n.Start()
		conf := baseConf(n, "listener")
		conf.Port = freePort()
		conf.BatchMaxCount = 1000000
		conf.BatchMaxSize = []datasize.ByteSize{datasize.MB, datasize.MB, 500000}[i%3]
		conf.BatchMaxAge = dur(150 * time.Millisecond)
		rec := n.Record("in")
		comp := c.Start(conf)
		s := newUDPSender(c, conf.Port)
		var want []byte
		for j := 0; j < c.N(60, 200); j++ {
			l := 65507
			if r.Intn(3) == 0 {
				l = 1 + r.Intn(65507)
			}
			d := bigLines(r, "u", l, 300)
			if r.Intn(2) == 0 {
				d[len(d)-1] = 'n' // the listener has to add one
			}
			s.send(d)
			want = append(want, withNL(d)...)
			c.Eval(fmt.Sprintf("udp %d", l>>8), true)
		}
		UntilProgress(longWait, rec.Count, func() bool { return rec.Size() >= len(want) })
		s.drain()
		if s.dropped() {
			c.Infra("datagrams dropped by the kernel")
		}
		var parts [][]byte
		for _, m := range rec.Msgs("") {
			parts = append(parts, m.Data)
			c.ObsMax("largest listener message", len(m.Data))
		}
		checkListenerParts(c, "UDP listener", want, parts)
		s.conn.Close()
		c.StopComp(comp)
		rec.Close()
		n.Stop()
	}
}

func c06writer(c *Ctx) {
	limits := []datasize.ByteSize{1, 7, 100, 1000, 4096, 131072, 131073, 300000, datasize.MB, 3 * datasize.MB}
	c.Pool(4, len(limits), func(i int) {
		limit := limits[i]
		r := c.Rand(fmt.Sprintf("writer%d", i))
		n := startNats(c)
		defer n.Stop()
		inf := startInflux(c)
		defer inf.Stop()
		failing := i%3 == 2
		if failing {
			var mu sync.Mutex
			fr := c.Rand(fmt.Sprintf("fail%d", i))
			inf.Script(func(w *Write) Action {
				mu.Lock()
				defer mu.Unlock()
				return Action{Status: []int{204, 204, 400}[fr.Intn(3)]}
			})
		}
		conf := baseConf(n, "writer")
		conf.InfluxDBPort = inf.Port
		conf.Workers = 1
		conf.BatchMaxSize = limit
		conf.BatchMaxCount = []int{1, 3, 50, 1000000}[r.Intn(4)]
		conf.BatchMaxAge = dur(100 * time.Millisecond)
		conf.WriterRetryBatches = 0
		comp := c.Start(conf)
		nc := n.Connect()
		defer nc.Close()
		var want []byte
		total := 200000
		if limit < 10 {
			total = 3000
		} else if limit < 200 {
			total = 20000
		} else if limit > 200000 {
			total = 5000000
		}
		for len(want) < total {
			sz := 1 + r.Intn(5000)
			switch r.Intn(6) {
			case 0:
				sz = 1 + r.Intn(3*int(limit))
			case 1:
				sz = int(limit) + r.Intn(3) - 1
			}
			if sz > 900000 {
				sz = 900000
			}
			if sz < 1 {
				sz = 1
			}
			m := bigLines(r, "w", sz, 1+r.Intn(2000))
			if limit < 200 {
				m = bigLines(r, "w", sz, 30)
			}
			if r.Intn(20) == 0 {
				m = append(bytes.Repeat([]byte{'Q'}, int(limit)%800000+r.Intn(5)), '\n')
			}
			publish(c, nc, "in", m)
			want = append(want, m...)
			c.Eval(fmt.Sprintf("writer %d %d", limit, len(m)), true)
		}
		flush(c, nc)
		size := func() int {
			s := 0
			for _, w := range inf.Writes() {
				s += len(w.Body)
			}
			return s
		}
		UntilProgress(longWait, inf.Count, func() bool { return size() >= len(want) })
		var parts [][]byte
		for _, w := range inf.Writes() {
			parts = append(parts, w.Body)
		}
		checkSplit(c, fmt.Sprintf("writer batch_max_size=%d count=%d", limit, conf.BatchMaxCount), want, parts, int(limit))
		c.Obs("writer requests", len(parts))
		c.StopComp(comp)
	})
}

func natsBig(o *natsOptions) { o.MaxPayload = 8 << 20 }

func c06downsampler(c *Ctx) {
	n := startNats(c)
	n.Stop()
	n.opts = natsBig
	n.Start()
	defer n.Stop()
	conf := baseConf(n, "downsampler")
	period := 2 * time.Second
	conf.DownsamplePeriod = dur(period)
	rec := n.Record("in-archive")
	defer rec.Close()
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	series := 14000
	pad := strings.Repeat("p", 150)
	var buf []byte
	for i := 0; i < series; i++ {
		buf = append(buf, fmt.Sprintf("ds,n=%d,pad=%s v=%di\n", i, pad, i)...)
		if len(buf) > 500000 {
			publish(c, nc, "in", buf)
			buf = nil
		}
	}
	publish(c, nc, "in", buf)
	flush(c, nc)
	lines := func() map[string]int {
		m := map[string]int{}
		for _, l := range splitLines(rec.Bytes("")) {
			if i := bytes.LastIndexByte(l, ' '); i > 0 {
				m[string(l[:i])]++
			}
		}
		return m
	}
	UntilProgress(longWait, rec.Count, func() bool { return len(lines()) >= series })
	got := lines()
	want := map[string]int{}
	for i := 0; i < series; i++ {
		want[fmt.Sprintf("ds,n=%d,pad=%s v=%di", i, pad, i)] = 1
	}
	if len(got) == len(want) {
		// The lines may have been spread over two periods.
		for l := range got {
			if want[l] == 1 && got[l] <= 2 {
				got[l] = 1
			}
		}
	}
	if d := diffCounts(want, got); d != "" {
		c.Fatal("downsampler output over 1MB: %s", d)
	}
	for _, m := range rec.Msgs("") {
		c.ObsMax("largest downsampler message", len(m.Data))
		c.Obs("downsampler messages", 1)
		if len(m.Data) > 1048576 {
			c.Fatal("downsampler published a message of %d bytes", len(m.Data))
		}
		if m.Data[len(m.Data)-1] != '\n' {
			c.Fatal("a downsampler message ends inside a line: %s", short(m.Data))
		}
	}
	c.Eval("downsampler output over 1MB", true)
	c.StopComp(comp)
}

var _ = http.StatusOK
var _ = nats.DefaultURL
