package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C26", checkC26) }

// The driver builds this check with a NATS client library which tries to
// reconnect every 20 ms instead of every 2 s.
var fastNATS = os.Getenv("VH_FASTNATS") != ""

func checkC26(c *Ctx) {
	if !fastNATS {
		c.Sample("the NATS client library isn't accelerated: reconnecting takes 2 s")
	}
	c.Scenario("all", func() {
		c.Go(
			func() { c.Pool(3, len(allModes)*c.N(3, 20), func(i int) { c26restart(c, i) }) },
			func() { c.Pool(3, len(allModes)*c.N(2, 12), func(i int) { c26cut(c, i) }) },
			func() { c.Pool(2, len(allModes)*c.N(1, 6), func(i int) { c26hole(c, i) }) },
			func() { c26programs(c) },
		)
	})
	c.Scenario("busy", func() { c.Pool(2, c.N(2, 8), func(i int) { c26busy(c, i) }) })
	c.Scenario("large", func() { c.Pool(4, c.N(4, 12), func(i int) { c26large(c, i) }) })
}

// ---------------------------------------------------------------------

// cutProxy is a network between a component and NATS which can fail.
type cutProxy struct {
	c      *Ctx
	port   int
	target string
	mu     sync.Mutex
	ln     net.Listener
	conns  map[net.Conn]bool
	hole   atomic.Bool // swallow everything
	begun  int64       // connections accepted
}

func newCutProxy(c *Ctx, target string) *cutProxy {
	p := &cutProxy{c: c, port: freePort(), target: target, conns: map[net.Conn]bool{}}
	p.resume()
	return p
}

func (p *cutProxy) url() string { return fmt.Sprintf("nats://127.0.0.1:%d", p.port) }

func (p *cutProxy) resume() {
	var ln net.Listener
	var err error
	for try := 0; try < 100; try++ {
		ln, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p.port))
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		p.c.Infra("%v", err)
	}
	p.mu.Lock()
	p.ln = ln
	p.mu.Unlock()
	go func() {
		for {
			a, err := ln.Accept()
			if err != nil {
				return
			}
			atomic.AddInt64(&p.begun, 1)
			if !p.keep(a, ln) {
				a.Close()
				continue
			}
			if p.hole.Load() {
				continue
			}
			b, err := net.Dial("tcp", p.target)
			if err != nil || !p.keep(b, ln) {
				a.Close()
				if b != nil {
					b.Close()
				}
				continue
			}
			go p.pump(a, b)
			go p.pump(b, a)
		}
	}()
}

func (p *cutProxy) keep(conn net.Conn, ln net.Listener) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.ln != ln {
		return false
	}
	p.conns[conn] = true
	return true
}

func (p *cutProxy) pump(from, to net.Conn) {
	buf := make([]byte, 65536)
	for {
		n, err := from.Read(buf)
		if n > 0 && !p.hole.Load() {
			to.Write(buf[:n])
		}
		if err != nil {
			if p.hole.Load() { // not even this gets through
				return
			}
			break
		}
	}
	from.Close()
	to.Close()
}

// cut ends all connections and refuses new ones.
func (p *cutProxy) cut(reset bool) {
	p.mu.Lock()
	ln := p.ln
	p.ln = nil
	conns := p.conns
	p.conns = map[net.Conn]bool{}
	p.mu.Unlock()
	if ln != nil {
		ln.Close()
	}
	for conn := range conns {
		if reset {
			noLinger(conn)
		}
		conn.Close()
	}
}

// ---------------------------------------------------------------------

// c26rig is a component with its monitors.
type c26rig struct {
	*works
	id    int
	given map[int]string // what was sent -> when
	mon   *Recorder
	quit  chan struct{}
	wg    sync.WaitGroup
	polls int64
}

func newC26rig(c *Ctx, n *Nats, inf *Influx, r *rand.Rand, mode, name string, mod func(conf *config.Config)) *c26rig {
	g := &c26rig{given: map[int]string{}, quit: make(chan struct{})}
	g.works = newWorks(c, n, inf, mode, name, func(conf *config.Config) {
		c25vary(r, conf)
		conf.StatsInterval = dur(20 * time.Millisecond)
		switch mode {
		case "writer", "downsampler":
			for k := r.Intn(3); k > 0; k-- {
				conf.NATSSubject = append(conf.NATSSubject, fmt.Sprintf("in%d.%s", k, name))
			}
		}
		if mod != nil {
			mod(conf)
		}
	})
	g.mon = n.Record(g.conf.NATSSubjectMonitor)
	return g
}

// watch polls the probes; they have to be positive all the time.
func (g *c26rig) watch() {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		none := 0
		for !isClosed(g.quit) {
			for _, path := range []string{"healthz", "readyz"} {
				code := probe(g.conf.ProbePort, path)
				switch code {
				case 200:
					none = 0
				case 0:
					none++
				}
				if code != 200 && code != 0 || none > 3 {
					g.c.Fail("%s: /%s answers %d while NATS is away", g.conf.Mode, path, code)
					return
				}
				atomic.AddInt64(&g.polls, 1)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}()
}

func (g *c26rig) unwatch() {
	if !isClosed(g.quit) {
		close(g.quit)
		g.wg.Wait()
		g.c.Obs("probe answers during outages", int(g.polls))
	}
}

func (g *c26rig) end() {
	g.unwatch()
	g.mon.Close()
	g.close()
}

// give sends a new input.
func (g *c26rig) give(when string) int {
	g.id++
	if err := g.send(g.id); err != nil {
		g.c.Infra("%s: input refused: %v", g.conf.Mode, err)
	}
	g.given[g.id] = when
	return g.id
}

// resumed waits until the component processes input, then gives it more,
// all of which has to come out exactly once.
func (g *c26rig) resumed(when string) {
	c, mode := g.c, g.conf.Mode
	for _, nc := range []*nats.Conn{g.nc, g.mon.nc} {
		nc := nc
		if !Until(longWait, func() bool { return nc.FlushTimeout(5*time.Second) == nil }) {
			c.Infra("the harness doesn't reconnect")
		}
	}
	if g.rec != nil && !Until(longWait, func() bool { return g.rec.nc.FlushTimeout(5*time.Second) == nil }) {
		c.Infra("the harness doesn't reconnect")
	}
	subjects := 1
	if mode == "writer" || mode == "downsampler" {
		subjects = len(g.conf.NATSSubject)
	}
	for s := 0; s < subjects; s++ {
		for (g.id+1)%subjects != s {
			g.id++
		}
		end := eff() + longWait
		back := false
		var ids []int
		for !back && eff() < end {
			ids = append(ids, g.give("sync"))
			g.id += subjects - 1
			back = Until(200*time.Millisecond, func() bool {
				for k := len(ids) - 1; k >= 0; k-- {
					if g.seen(ids[k]) {
						return true
					}
					if mode == "monitor" { // shows the last one only
						break
					}
				}
				return false
			})
		}
		if !back {
			c.Fatal("%s (%s, subject %d of %d): input isn't processed although NATS is back", mode, when, s+1, subjects)
		}
	}
	g.mon.Reset()
	g.strictly(when, 5*subjects)
	if mode != "monitor" {
		if !Until(longWait, func() bool { return g.mon.Count() > 0 }) {
			c.Fatal("%s (%s): no metrics are published although NATS is back", mode, when)
		}
	}
}

// strictly gives input which has to come out exactly once.
func (g *c26rig) strictly(when string, n int) {
	var ids []int
	for k := 0; k < n; k++ {
		id := g.give(when)
		ids = append(ids, id)
		if g.conf.Mode == "monitor" && !Until(longWait, func() bool { return g.seen(id) }) {
			g.c.Fatal("monitor (%s): a metric isn't shown", when)
		}
	}
	if g.conf.Mode != "monitor" {
		for _, id := range ids {
			id := id
			if !Until(longWait, func() bool { return g.seen(id) }) {
				g.c.Fatal("%s (%s): input %d of %v isn't processed; metrics: %s", g.conf.Mode, when, id, ids, g.lastMetrics())
			}
		}
	}
	g.c.Obs("inputs which had to be processed once", n)
}

// judge looks at everything that came out: nothing may be there twice.
func (g *c26rig) judge(when string) {
	if g.conf.Mode == "monitor" {
		return
	}
	time.Sleep(100 * time.Millisecond)
	var all []byte
	if g.conf.Mode == "writer" {
		all = g.inf.AcceptedBytes(g.conf.DBName)
	} else {
		all = g.rec.Bytes("")
	}
	for _, l := range bytes.Split(bytes.TrimSuffix(all, []byte("\n")), []byte("\n")) {
		var id int
		if _, err := fmt.Sscanf(string(l), "cpu,id=%d. v=1", &id); err != nil || (g.given[id] == "" && !bytes.Contains(l, []byte("id=x"))) {
			g.c.Fatal("%s (%s): unexpected output %q", g.conf.Mode, when, short(l))
		}
	}
	for id, w := range g.given {
		tag := []byte(fmt.Sprintf("cpu,id=%d. ", id))
		if k := bytes.Count(all, tag); k > 1 {
			g.c.Fatal("%s (%s): input given in phase %q came out %d times", g.conf.Mode, when, w, k)
		}
	}
}

func (g *c26rig) wantOutage(r *rand.Rand) time.Duration {
	d := []time.Duration{0, 30 * time.Millisecond, 200 * time.Millisecond, time.Second}[r.Intn(4)]
	if fastNATS && r.Intn(3) == 0 {
		d = 3 * time.Second // more than 100 attempts
	}
	return d
}

// c26restart restarts the server a few times.
func c26restart(c *Ctx, i int) {
	mode := allModes[i%len(allModes)]
	r := c.Rand(fmt.Sprint("restart", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	g := newC26rig(c, n, inf, r, mode, fmt.Sprintf("re%d", i), nil)
	defer g.end()
	comp, err := startComp(g.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	g.strictly("before any outage", 3)
	g.watch()
	var total time.Duration
	outages := 1 + r.Intn(4)
	for k := 0; k < outages; k++ {
		d := g.wantOutage(r)
		if i/len(allModes)%3 == 0 && k == 0 && fastNATS {
			d = 3 * time.Second
		}
		total += d
		n.Stop()
		if mode == "listener" || mode == "listener_http" {
			for j := 0; j < 5; j++ {
				g.give("during the outage")
				time.Sleep(d / 5)
			}
		} else {
			time.Sleep(d)
		}
		n.Start()
		g.resumed(fmt.Sprintf("outage %d, %v", k+1, d))
		c.Eval(fmt.Sprintf("restart/%s/%d/%v", mode, k, d), true)
		c.Obs("outages (server restarts)", 1)
		c.ObsMax("milliseconds of the longest outage", int(d.Milliseconds()))
	}
	g.judge("server restarts")
	g.unwatch()
	c.StopComp(comp)
	c.Sample("%s: %d server restarts, away for %v in total", mode, outages, total)
}

func (g *c26rig) lastMetrics() string {
	ms := g.mon.Msgs("")
	if len(ms) > 4 {
		ms = ms[len(ms)-4:]
	}
	var b strings.Builder
	for _, m := range ms {
		b.Write(m.Data)
	}
	return b.String()
}

// counter returns the highest value a component's metric was published
// with.
func (g *c26rig) counter(name string) int {
	max := -1
	for _, m := range g.mon.Msgs("") {
		for _, l := range strings.Split(string(m.Data), "\n") {
			if !strings.HasPrefix(l, name+"{") {
				continue
			}
			var v int
			f := strings.Fields(l)
			if len(f) < 2 {
				continue
			}
			fmt.Sscan(f[1], &v)
			if v > max {
				max = v
			}
		}
	}
	return max
}

// c26cut cuts the component off while the server and everyone else go on,
// so that all it publishes is seen.
func c26cut(c *Ctx, i int) {
	mode := allModes[i%len(allModes)]
	r := c.Rand(fmt.Sprint("cut", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	p := newCutProxy(c, fmt.Sprintf("127.0.0.1:%d", n.Port))
	defer p.cut(true)
	g := newC26rig(c, n, inf, r, mode, fmt.Sprintf("cu%d", i), func(conf *config.Config) {
		conf.NATSAddress = p.url()
		if mode == "writer" {
			// Batches last for a while so that an outage falls into them.
			conf.BatchMaxCount = 1000
			conf.BatchMaxAge = dur(700 * time.Millisecond)
		}
		if mode == "downsampler" {
			conf.DownsamplePeriod = dur(time.Second)
		}
	})
	defer g.end()
	comp, err := startComp(g.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	g.watch()
	g.strictly("before any outage", 2)
	for k := 0; k < c.N(3, 6); k++ {
		// What the component got before the outage isn't lost.
		var before []int
		if mode != "monitor" {
			name := "received"
			if mode == "filter" {
				name = "processed"
			}
			want := len(g.given)
			Until(time.Second, func() bool { return g.counter(name) >= want })
			base := g.counter(name)
			m := 1 + r.Intn(8)
			for j := 0; j < m; j++ {
				before = append(before, g.give("right before the outage"))
			}
			if !Until(longWait, func() bool { return g.counter(name) >= base+m }) {
				c.Fatal("%s: it got %d more inputs but its metric %s is %d after %d", mode, m, name, g.counter(name), base)
			}
		}
		// A listener may be about to publish; the end of a connection is
		// only harmless once all is published.
		if mode == "listener" || mode == "listener_http" || mode == "filter" {
			for _, id := range before {
				id := id
				if !Until(longWait, func() bool { return g.seen(id) }) {
					c.Fatal("%s: input isn't processed before the outage", mode)
				}
			}
		}
		flaps := 1
		if r.Intn(2) == 0 {
			flaps = 1 + r.Intn(6)
		}
		for f := 0; f < flaps; f++ {
			p.cut(r.Intn(2) == 0)
			if f < flaps-1 {
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
				p.resume()
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
				continue
			}
		}
		d := g.wantOutage(r)
		c.Must("the component notices", func() bool { return n.others() == 0 })
		if mode == "writer" { // it can still write
			for _, id := range before {
				id := id
				if !Until(longWait, func() bool { return g.seen(id) }) {
					c.Fatal("writer: what it got before the outage isn't written during it")
				}
			}
		}
		if mode == "listener" || mode == "listener_http" {
			time.Sleep(500 * time.Millisecond)
			stall := stalledFor()
			m := 1 + r.Intn(8)
			var during []int
			for j := 0; j < m; j++ {
				if k%2 == 1 {
					g.pad = 60000
				}
				during = append(during, g.give("during the outage"))
				g.pad = 0
			}
			if stalledFor() == stall {
				before = append(before, during...)
			}
		}
		time.Sleep(d)
		p.resume()
		for _, id := range before {
			id := id
			if !Until(longWait, func() bool { return g.seen(id) }) {
				c.Fatal("%s: input given %s never came out", mode, g.given[id])
			}
		}
		c.Obs("inputs given before or during an outage which came out", len(before))
		g.resumed(fmt.Sprintf("network outage %d, %v", k+1, d))
		c.Eval(fmt.Sprintf("cut/%s/%d/%v/%d", mode, k, d, flaps), true)
		c.Obs("outages (network)", flaps)
	}
	g.judge("network outages")
	g.unwatch()
	c.StopComp(comp)
}

// c26hole makes the network swallow everything without closing anything.
func c26hole(c *Ctx, i int) {
	if !fastNATS {
		return // the client library finds out after 6 minutes
	}
	mode := allModes[i%len(allModes)]
	r := c.Rand(fmt.Sprint("hole", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	p := newCutProxy(c, fmt.Sprintf("127.0.0.1:%d", n.Port))
	defer p.cut(true)
	g := newC26rig(c, n, inf, r, mode, fmt.Sprintf("ho%d", i), func(conf *config.Config) { conf.NATSAddress = p.url() })
	defer g.end()
	comp, err := startComp(g.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	g.strictly("before the outage", 2)
	g.watch()
	begun := atomic.LoadInt64(&p.begun)
	p.hole.Store(true)
	// The component gives its connection up and tries new ones.
	if !Until(60*time.Second, func() bool { return atomic.LoadInt64(&p.begun) > begun }) {
		c.Fatal("%s: doesn't notice that NATS doesn't answer any more", mode)
	}
	if mode == "listener" || mode == "listener_http" {
		g.give("during the outage")
	}
	time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
	p.cut(r.Intn(2) == 0)
	p.hole.Store(false)
	p.resume()
	g.resumed("silent outage")
	g.judge("silent outage")
	g.unwatch()
	c.StopComp(comp)
	c.Eval("hole/"+mode, true)
	c.Obs("outages (silent)", 1)
}

// c26busy cuts a filter off while its worker is busy with a message, with
// others waiting behind. What they lead to is published during the outage
// and has to come out after it.
func c26busy(c *Ctx, i int) {
	r := c.Rand(fmt.Sprint("busy", i))
	n := startNats(c)
	defer n.Stop()
	p := newCutProxy(c, fmt.Sprintf("127.0.0.1:%d", n.Port))
	defer p.cut(true)
	g := newC26rig(c, n, nil, r, "filter", fmt.Sprintf("bu%d", i), func(conf *config.Config) {
		conf.NATSAddress = p.url()
		conf.Workers = 1
		cpu := conf.Rule[0]
		conf.Rule = nil
		for k := 0; k < 8; k++ {
			conf.Rule = append(conf.Rule, config.Rule{Rtype: "regex", Match: fmt.Sprintf("(a|b|x+[0-9]*)+(never%d|x[a-w]{3}y)", k), Subject: "none." + conf.Name})
		}
		conf.Rule = append(conf.Rule, cpu)
	})
	defer g.end()
	comp, err := startComp(g.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	defer c.StopComp(comp)
	g.strictly("before any outage", 1)
	junk := n.Record(g.conf.NATSSubjectJunkyard)
	defer junk.Close()
	size := 20
	slow := func(tag string) []byte {
		var b strings.Builder
		for k := 0; k < size; k++ {
			fmt.Fprintf(&b, "%s,k=%d v=\"%s\"\n", tag, k, strings.Repeat("x1x", 300))
		}
		return []byte(b.String())
	}
	round := 0
	// How long a message of some size takes.
	measure := func() time.Duration {
		round++
		tag := fmt.Sprintf("slow%d", round)
		t := time.Now()
		publish(c, g.nc, g.conf.NATSSubject[0], slow(tag))
		flush(c, g.nc)
		c.Must("a slow message is processed", func() bool { return bytes.Contains(junk.Bytes(""), []byte(tag+",")) })
		return time.Since(t)
	}
	for size < 900 && measure() < 700*time.Millisecond {
		size = size * 3 / 2
	}
	good, losses := 0, 0
	for try := 0; try < 6 && (good < c.N(2, 6) || losses == 1); try++ {
		// (If the worker is much faster than measured then what it
		// publishes goes into the very end of the connection. So a loss
		// has to happen twice.)
		took := measure()
		round++
		tag := fmt.Sprintf("slow%d", round)
		at := time.Now()
		publish(c, g.nc, g.conf.NATSSubject[0], slow(tag))
		var ids []int
		for k := 3 + r.Intn(20); k > 0; k-- {
			g.pad = []int{0, 0, 60000, 100000}[r.Intn(4)]
			ids = append(ids, g.give("behind a slow message"))
		}
		g.pad = 0
		flush(c, g.nc)
		time.Sleep(took / 6) // they're in the filter's queue by now
		stall := stalledFor()
		p.cut(false)
		c.Must("the component notices", func() bool { return n.others() == 0 })
		if time.Since(at) > took/2 || stalledFor() != stall {
			p.resume()
			g.resumed("busy, too late")
			continue
		}
		time.Sleep(2*took + 200*time.Millisecond)
		again := bytes.Contains(junk.Bytes(""), []byte(tag+","))
		p.resume()
		g.resumed("busy")
		if again { // it was through before
			continue
		}
		good++
		for _, id := range ids {
			id := id
			if !Until(longWait/2, func() bool { return g.seen(id) }) {
				if losses++; losses > 1 || bytes.Contains(junk.Bytes(""), []byte(tag+",")) {
					c.Fatal("filter: a line it got %v before an outage, behind a message which took it %v, never came out", took/6, took)
				}
				break
			}
		}
		c.Obs("lines a busy filter published during an outage", len(ids))
		c.Eval(fmt.Sprintf("busy/%d", len(ids)), true)
	}
	g.judge("busy")
}

// c26large publishes more than the NATS client keeps during an outage.
func c26large(c *Ctx, i int) {
	mode := []string{"listener", "listener_http", "downsampler", "filter"}[i%4]
	r := c.Rand(fmt.Sprint("large", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	p := newCutProxy(c, fmt.Sprintf("127.0.0.1:%d", n.Port))
	defer p.cut(true)
	g := newC26rig(c, n, inf, r, mode, fmt.Sprintf("la%d", i), func(conf *config.Config) {
		conf.NATSAddress = p.url()
		conf.DownsamplePeriod = dur(100 * time.Millisecond)
	})
	defer g.end()
	comp, err := startComp(g.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	g.strictly("before the outage", 2)
	g.watch()
	pad := strings.Repeat("p", 500)
	body := func() string {
		var b strings.Builder
		for k := 0; k < 80; k++ {
			fmt.Fprintf(&b, "cpu,id=x%d,pad=%s v=1i\n", r.Intn(1000000), pad)
		}
		return b.String()
	}
	// For these two what's in the queue is processed during the outage.
	if mode == "filter" || mode == "downsampler" {
		for k := 0; k < 400; k++ {
			publish(c, g.nc, g.conf.NATSSubject[0], []byte(body()))
		}
		time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
	}
	p.cut(false)
	switch mode {
	case "listener":
		conn := udpDial(c, g.conf.Port)
		for k := 0; k < 500; k++ {
			conn.Write([]byte(body()))
			if k%20 == 0 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		conn.Close()
	case "listener_http":
		for k := 0; k < 50; k++ {
			var b strings.Builder
			for j := 0; j < 10; j++ {
				b.WriteString(body())
			}
			resp, err := g.cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write", g.conf.Port), "text/plain", strings.NewReader(b.String()))
			if err != nil {
				c.Fatal("HTTP listener: during an outage /write fails: %v", err)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			if resp.StatusCode != 204 {
				c.Fatal("HTTP listener: during an outage /write answers %d", resp.StatusCode)
			}
		}
	}
	time.Sleep(500 * time.Millisecond)
	p.resume()
	g.resumed("outage with much output")
	g.unwatch()
	c.StopComp(comp)
	c.Eval("large/"+mode, true)
	c.Obs("outages with more output than is kept", 1)
}

// c26programs runs a small deployment of real processes through outages.
func c26programs(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	r := c.Rand("programs")
	confs := deployment(r, n, inf.Port)
	var kids []*Child
	defer func() {
		for _, ch := range kids {
			ch.Stop()
		}
	}()
	var udp, web *config.Config
	var mu sync.Mutex
	var fs []func()
	for _, conf := range confs {
		conf := conf
		conf.BatchMaxCount = 1
		conf.QueueGroup = ""
		conf.InfluxDBUser, conf.InfluxDBPass = "", ""
		conf.WriteTimeout = dur(10 * time.Second)
		conf.WriterRetryTimeout = dur(time.Minute)
		switch conf.Mode {
		case "listener":
			udp = conf
		case "listener_http":
			web = conf
		}
		fs = append(fs, func() {
			ch := startSpout(c, conf)
			mu.Lock()
			kids = append(kids, ch)
			mu.Unlock()
		})
	}
	c.Go(fs...)
	if c.Failed() {
		return
	}
	cl := httpClient()
	defer cl.CloseIdleConnections()
	id := 0
	give := func() string {
		id++
		tag := fmt.Sprintf("id=e%d.", id)
		line := fmt.Sprintf("mem,cls=server,env=prod,%s v=1i\n", tag)
		if id%2 == 0 {
			conn := udpDial(c, udp.Port)
			conn.Write([]byte(line))
			conn.Close()
		} else {
			resp, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write", web.Port), "text/plain", strings.NewReader(line))
			if err != nil {
				c.Fatal("HTTP listener program: %v", err)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
		return tag
	}
	flows := func(when string) {
		end := eff() + longWait + 15*time.Second
		ok := 0
		for ok < 6 {
			tag := []byte(give())
			if Until(700*time.Millisecond, func() bool { return bytes.Contains(inf.AcceptedBytes("db0"), tag) }) {
				ok++
			} else if ok > 0 {
				ok = 0
			}
			for _, ch := range kids {
				ch.MustLive(when)
			}
			if eff() > end {
				c.Fatal("programs: %s lines don't reach InfluxDB; logs:\n%s", when, kids[0].Log())
			}
		}
	}
	flows("before the outage")
	for k := 0; k < c.N(2, 5); k++ {
		n.Stop()
		d := []time.Duration{0, 5 * time.Second, 500 * time.Millisecond, 12 * time.Second}[k%4]
		for j := 0; j < 10; j++ {
			give()
			time.Sleep(d / 10)
		}
		for _, ch := range kids {
			ch.MustLive("during an outage")
		}
		n.Start()
		flows(fmt.Sprintf("after outage %d (%v)", k+1, d))
		for _, conf := range confs {
			if code := probe(conf.ProbePort, "readyz"); code != 200 {
				c.Fatal("%s program: after an outage /readyz answers %d", conf.Mode, code)
			}
		}
		c.Eval(fmt.Sprintf("programs/%v", d), true)
		c.Obs("outages of a deployment of programs", 1)
	}
}
