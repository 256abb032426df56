package harness

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nats-io/nats-server/v2/server"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C25", checkC25) }

func checkC25(c *Ctx) {
	c.Scenario("any moment", func() {
		c.Pool(6, len(allModes)*c.N(6, 60), func(i int) { c25cycle(c, i) })
		c25nothingRuns(c, "start/stop cycles")
	})
	c.Scenario("difficult moments", func() {
		n := c.N(1, 6)
		c.Pool(6, n*len(c25moments), func(i int) { c25moment(c, i%len(c25moments), i/len(c25moments)) })
		c25nothingRuns(c, "stops under load and with faults")
	})
	c.Scenario("failed starts", func() {
		n := c.N(1, 5)
		c.Pool(6, n*len(allModes)*len(c25failures), func(i int) {
			c25failure(c, allModes[i%len(allModes)], i/len(allModes)%len(c25failures), i/len(allModes)/len(c25failures))
		})
		c25nothingRuns(c, "failed starts")
	})
	c.Scenario("outage", func() {
		c.Pool(6, len(allModes)*c.N(1, 4), func(i int) { c25outage(c, i) })
		c25nothingRuns(c, "stops during an outage")
	})
	c.Scenario("resources", func() { c25resources(c) })
}

// others counts the connections which aren't the harness's.
func (n *Nats) others() int {
	z, err := n.srv.Connz(&server.ConnzOptions{Limit: 100000})
	if err != nil {
		n.c.Infra("connz: %v", err)
	}
	k := 0
	for _, ci := range z.Conns {
		if ci.Name != "harness" {
			k++
		}
	}
	return k
}

func c25nothingRuns(c *Ctx, after string) {
	if c.Failed() {
		return
	}
	if !Until(longWait, func() bool { return len(repoGoroutines()) == 0 }) {
		c.Fatal("after %s these goroutines are left:\n%s", after, joinShort(repoGoroutines()))
	}
	c.Obs("times no goroutine was left", 1)
}

// ports lists what the component occupies.
func (w *works) ports() []int {
	switch w.conf.Mode {
	case "listener", "listener_http", "monitor":
		return []int{w.conf.ProbePort, w.conf.Port}
	}
	return []int{w.conf.ProbePort}
}

// gone fails unless everything the component had is free: its ports at
// once, the connections as soon as the other ends noticed.
func (w *works) gone(when string) {
	c := w.c
	for _, p := range w.ports() {
		if !portFree(p) {
			c.Fatal("%s, %s: port %d (probes: %v) isn't free", w.conf.Mode, when, p, p == w.conf.ProbePort)
		}
	}
	if w.n.srv != nil && !Until(longWait, func() bool { return w.n.others() == 0 }) {
		c.Fatal("%s, %s: %d connections to NATS are left", w.conf.Mode, when, w.n.others())
	}
	if !Until(longWait, func() bool { return w.inf.Open() == 0 }) {
		c.Fatal("%s, %s: %d connections to InfluxDB are left", w.conf.Mode, when, w.inf.Open())
	}
}

// again starts the component, has it process something and stops it.
func (w *works) again(id int, when string) {
	comp, err := startComp(w.conf)
	if err != nil {
		w.c.Fatal("%s, %s: can't be started: %v", w.conf.Mode, when, err)
	}
	w.processes(id, when)
	if code := probe(w.conf.ProbePort, "readyz"); code != 200 {
		w.c.Fatal("%s, %s: works but /readyz answers %d", w.conf.Mode, when, code)
	}
	w.c.StopComp(comp)
	w.gone(when + " and stopping")
}

// load sends input until it's closed, however it's received.
func (w *works) load(r *rand.Rand) (stop func()) {
	quit := make(chan struct{})
	var wg sync.WaitGroup
	run := func(r *rand.Rand, f func(r *rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !isClosed(quit) {
				f(r)
			}
		}()
	}
	body := func(r *rand.Rand, n int) []byte {
		var b bytes.Buffer
		for k := 1 + r.Intn(n); k > 0; k-- {
			fmt.Fprintf(&b, "cpu,id=x%d,host=h%d v=%di\n", r.Intn(50), r.Intn(5), r.Intn(100))
		}
		return b.Bytes()
	}
	for k := 0; k < 2; k++ {
		r := rand.New(rand.NewSource(r.Int63()))
		switch w.conf.Mode {
		case "listener":
			conn := udpDial(w.c, w.conf.Port)
			run(r, func(r *rand.Rand) {
				conn.Write(body(r, 30))
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				if isClosed(quit) {
					conn.Close()
				}
			})
		case "listener_http":
			cl := &http.Client{Timeout: time.Second, Transport: &http.Transport{DialContext: dialNoLinger}}
			run(r, func(r *rand.Rand) {
				u := fmt.Sprintf("http://127.0.0.1:%d/write", w.conf.Port)
				if r.Intn(3) == 0 {
					u += "?precision=s"
				}
				resp, err := cl.Post(u, "text/plain", bytes.NewReader(body(r, 30)))
				if err == nil {
					resp.Body.Close()
				} else {
					time.Sleep(time.Millisecond)
				}
				if isClosed(quit) {
					cl.CloseIdleConnections()
				}
			})
		case "monitor":
			cl := &http.Client{Timeout: time.Second, Transport: &http.Transport{DialContext: dialNoLinger}}
			run(r, func(r *rand.Rand) {
				for k := 0; k < 5; k++ {
					w.nc.Publish(w.conf.NATSSubjectMonitor, []byte(fmt.Sprintf("m%d{a=\"%d\"} %d\n", r.Intn(9), r.Intn(30), r.Intn(100))))
				}
				w.nc.FlushTimeout(time.Second)
				httpGet(cl, fmt.Sprintf("http://127.0.0.1:%d/metrics", w.conf.Port))
				if isClosed(quit) {
					cl.CloseIdleConnections()
				}
			})
		default:
			run(r, func(r *rand.Rand) {
				for k := r.Intn(40); k >= 0; k-- {
					w.nc.Publish(w.conf.NATSSubject[0], body(r, 30))
				}
				w.nc.FlushTimeout(time.Second)
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			})
		}
	}
	return func() {
		close(quit)
		wg.Wait()
	}
}

func c25vary(r *rand.Rand, conf *config.Config) {
	conf.Workers = 1 + r.Intn(5)
	conf.StatsInterval = dur(time.Duration(1+r.Intn(50)) * time.Millisecond)
	conf.BatchMaxCount = []int{1, 1, 3}[r.Intn(3)]
	conf.BatchMaxAge = dur(50 * time.Millisecond)
	conf.WriterRetryBatches = r.Intn(3)
	conf.WriterRetryInterval = dur(10 * time.Millisecond)
	conf.WriteTimeout = dur(400 * time.Millisecond)
	if conf.Mode == "writer" && r.Intn(2) == 0 {
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu"}}
	}
	if conf.Mode == "writer" && r.Intn(2) == 0 {
		conf.QueueGroup = "q"
	}
}

// c25cycle stops a component at random moments after its start while it
// gets input, and starts it again at once.
func c25cycle(c *Ctx, i int) {
	mode := allModes[i%len(allModes)]
	r := c.Rand(fmt.Sprint("cycle", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	w := newWorks(c, n, inf, mode, fmt.Sprintf("cy%d", i), func(conf *config.Config) { c25vary(r, conf) })
	defer w.close()
	stopLoad := w.load(r)
	for k := 0; k < 4; k++ {
		when := fmt.Sprintf("start %d", k+1)
		comp, err := startComp(w.conf)
		if err != nil {
			stopLoad()
			if k == 0 && strings.Contains(err.Error(), "in use") {
				c.Infra("%v", err)
			}
			c.Fatal("%s can't be started again right after it was stopped (%s): %v", mode, when, err)
		}
		pause := time.Duration(0)
		switch r.Intn(4) {
		case 0:
			pause = time.Duration(r.Intn(200)) * time.Microsecond
		case 1, 2:
			pause = time.Duration(r.Intn(20)) * time.Millisecond
		}
		time.Sleep(pause)
		c.StopComp(comp)
		for _, p := range w.ports() {
			if !portFree(p) {
				c.Fatal("%s: after Stop() port %d (probes: %v) isn't free", mode, p, p == w.conf.ProbePort)
			}
		}
		c.Eval(fmt.Sprintf("cycle/%s/%d/%v", mode, k, pause.Round(time.Millisecond)), true)
		c.Obs("stops under load", 1)
	}
	stopLoad()
	w.gone("stopped under load")
	w.again(1, "after being stopped under load")
}

// c25moments are situations a component is stopped in.
var c25moments = []struct {
	name string
	mode string
	conf func(r *rand.Rand, conf *config.Config)
	// prepare brings it about; undo ends what is outside the component.
	prepare func(c *Ctx, w *works, r *rand.Rand) (undo func())
}{
	{"InfluxDB hangs, one worker", "writer", func(r *rand.Rand, conf *config.Config) { conf.Workers = 1; conf.BatchMaxCount = 1 }, c25hang(100)},
	{"InfluxDB hangs, no retries", "writer", func(r *rand.Rand, conf *config.Config) { conf.WriterRetryBatches = 0 }, c25hang(100)},
	{"InfluxDB hangs, queues full", "writer", func(r *rand.Rand, conf *config.Config) { conf.BatchMaxCount = 1; conf.WriterRetryBatches = 2 }, c25hang(3000)},
	{"InfluxDB hangs, batches in pieces", "writer", func(r *rand.Rand, conf *config.Config) {
		conf.BatchMaxCount = 10
		conf.BatchMaxSize = 200
	}, c25hang(3000)},
	{"InfluxDB hangs, rules", "writer", func(r *rand.Rand, conf *config.Config) {
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu"}}
	}, c25hang(2000)},
	{"InfluxDB down", "writer", nil, func(c *Ctx, w *works, r *rand.Rand) func() {
		w.inf.Stop()
		c25pump(w, r, 500)
		return w.inf.Start
	}},
	{"InfluxDB resets connections", "writer", nil, c25answer(Action{Reset: true})},
	{"InfluxDB fails", "writer", nil, c25answer(Action{Status: 500})},
	{"InfluxDB is slow", "writer", nil, c25answer(Action{Status: 204, Delay: 50 * time.Millisecond})},
	{"retries waiting", "writer", func(r *rand.Rand, conf *config.Config) {
		conf.WriterRetryBatches = 50
		conf.WriterRetryInterval = dur(time.Hour)
		conf.WriterRetryTimeout = dur(24 * time.Hour)
		conf.BatchMaxCount = 1
	}, c25answer(Action{Status: 503})},
	{"retries go on while the workers are busy", "writer", func(r *rand.Rand, conf *config.Config) {
		conf.Rule = nil
		conf.Workers = 4
		conf.BatchMaxCount = 1
		conf.WriterRetryBatches = 10
		conf.WriterRetryInterval = dur(4 * time.Millisecond)
		conf.WriterRetryTimeout = dur(time.Hour)
	}, func(c *Ctx, w *works, r *rand.Rand) func() {
		ok := r.Intn(2) == 0
		var busy atomic.Bool
		w.inf.Script(func(wr *Write) Action {
			switch {
			case bytes.Contains(wr.Body, []byte("hold")):
				return Action{Status: 204, Delay: 1200 * time.Millisecond}
			case ok && busy.Load():
				return Action{Status: 204}
			}
			return Action{Status: 503}
		})
		c25pump(w, r, 60)
		b := w.inf.Begun()
		c.Must("batches are tried again", func() bool { return w.inf.Begun() > b+30 })
		for k := 0; k < 8; k++ {
			w.nc.Publish(w.conf.NATSSubject[0], []byte("cpu,id=hold v=1i\n"))
		}
		w.nc.FlushTimeout(10 * time.Second)
		busy.Store(true)
		time.Sleep(time.Duration(300+r.Intn(400)) * time.Millisecond)
		return func() { w.inf.Script(nil) }
	}},
	{"data in the batch", "writer", func(r *rand.Rand, conf *config.Config) {
		conf.BatchMaxCount = 1000000
		conf.BatchMaxAge = dur(time.Second)
	}, func(c *Ctx, w *works, r *rand.Rand) func() { c25pump(w, r, 100); return nil }},
	{"stalled clients", "listener_http", nil, c25stalled},
	{"stalled clients and data in the batch", "listener_http", func(r *rand.Rand, conf *config.Config) {
		conf.BatchMaxCount = 1000000
		conf.BatchMaxAge = dur(time.Second)
	}, c25stalled},
	{"stalled clients", "monitor", nil, c25stalled},
	{"queues full", "filter", func(r *rand.Rand, conf *config.Config) {
		conf.Workers = 1
		conf.Rule = append([]config.Rule{{Rtype: "regex", Match: "(x+x+)+y", Subject: "never"}}, conf.Rule...)
	}, func(c *Ctx, w *works, r *rand.Rand) func() { c25pump(w, r, 4000); return nil }},
	{"queues full", "downsampler", func(r *rand.Rand, conf *config.Config) {
		conf.NATSSubject = append(conf.NATSSubject, "second", "third")
	}, func(c *Ctx, w *works, r *rand.Rand) func() { c25pump(w, r, 4000); return nil }},
	{"flood", "listener", nil, func(c *Ctx, w *works, r *rand.Rand) func() { return w.load(r) }},
	{"nothing happens", "listener", nil, nil},
	{"long intervals", "listener_http", c25long, nil},
	{"long intervals", "filter", c25long, nil},
	{"long intervals", "writer", c25long, nil},
	{"long intervals", "downsampler", c25long, nil},
	{"long intervals", "monitor", c25long, nil},
}

func c25long(r *rand.Rand, conf *config.Config) {
	conf.StatsInterval = dur(time.Hour)
	conf.BatchMaxAge = dur(time.Hour)
	conf.BatchMaxCount = 1
	conf.DownsamplePeriod = dur(time.Second)
}

func c25pump(w *works, r *rand.Rand, msgs int) {
	for k := 0; k < msgs; k++ {
		w.nc.Publish(w.conf.NATSSubject[0], []byte(strings.Repeat(fmt.Sprintf("cpu,id=p%d,host=x v=%di\n", k%7, k), 1+r.Intn(60))))
	}
	w.nc.FlushTimeout(10 * time.Second)
}

func c25hang(msgs int) func(c *Ctx, w *works, r *rand.Rand) func() {
	return func(c *Ctx, w *works, r *rand.Rand) func() {
		hold := make(chan struct{})
		b := w.inf.Begun()
		w.inf.Script(func(*Write) Action { return Action{Hold: hold} })
		c25pump(w, r, msgs)
		if !Until(longWait, func() bool { return w.inf.Begun() > b }) {
			c.Fatal("writer: nothing is written")
		}
		time.Sleep(time.Duration(r.Intn(600)) * time.Millisecond)
		return func() { close(hold); w.inf.Script(nil) }
	}
}

func c25answer(a Action) func(c *Ctx, w *works, r *rand.Rand) func() {
	return func(c *Ctx, w *works, r *rand.Rand) func() {
		w.inf.Script(func(*Write) Action { return a })
		c25pump(w, r, 500)
		time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
		return func() { w.inf.Script(nil) }
	}
}

// c25stalled connects clients which stopped in all phases of a request.
func c25stalled(c *Ctx, w *works, r *rand.Rand) func() {
	if w.conf.Mode == "monitor" {
		pad := strings.Repeat("p", 20000)
		for k := 0; k < 400; k++ {
			w.nc.Publish(w.conf.NATSSubjectMonitor, []byte(fmt.Sprintf("big{pad=\"%s\",i=\"%d\"} 1\n", pad, k)))
		}
		w.nc.FlushTimeout(10 * time.Second)
		c.Must("the metrics arrive", func() bool {
			_, b, err := httpGet(w.cl, fmt.Sprintf("http://127.0.0.1:%d/metrics", w.conf.Port))
			return err == nil && len(b) > 400*20000
		})
	}
	var conns []net.Conn
	for _, port := range w.ports() {
		for _, req := range []string{
			"", "GE", "GET /metrics HTTP/1.1\r\nHost: x\r\n",
			"POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\ncpu v=1\ncpu v",
			"POST /write?precision=s HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\ncpu v=1 1\ncpu v",
			"POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n8\r\ncpu v=1\n\r\n",
			"GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n", "GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n",
			"GET /readyz HTTP/1.1\r\nHost: x\r\n\r\n",
		} {
			conn, err := dialNoLinger(context.Background(), "tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				c.Fatal("%s: can't connect: %v", w.conf.Mode, err)
			}
			conn.(*net.TCPConn).SetReadBuffer(4096)
			fmt.Fprint(conn, req)
			conns = append(conns, conn)
		}
	}
	time.Sleep(100 * time.Millisecond)
	return func() {
		for _, conn := range conns {
			conn.Close()
		}
	}
}

func c25moment(c *Ctx, k, round int) {
	m := c25moments[k]
	r := c.Rand(fmt.Sprint("moment", k, round))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	w := newWorks(c, n, inf, m.mode, fmt.Sprintf("mo%d_%d", k, round), func(conf *config.Config) {
		c25vary(r, conf)
		conf.Rule = nil
		if m.mode == "filter" {
			conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: "out." + conf.Name}}
		}
		if m.conf != nil {
			m.conf(r, conf)
		}
	})
	defer w.close()
	comp, err := startComp(w.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	w.processes(1, "before: "+m.name)
	var undo func()
	if m.prepare != nil {
		undo = m.prepare(c, w, r)
	}
	begin := eff()
	c.StopComp(comp)
	took := eff() - begin
	when := "stopped when: " + m.name
	for _, p := range w.ports() {
		if !portFree(p) {
			c.Fatal("%s, %s: port %d (probes: %v) isn't free", m.mode, when, p, p == w.conf.ProbePort)
		}
	}
	if undo != nil {
		undo()
	}
	w.gone(when)
	w.again(2, "restarted after it was "+when)
	c.ObsMax("milliseconds of the longest Stop()", int(took.Milliseconds()))
	c.Eval("moment/"+m.mode+"/"+m.name, true)
	c.Sample("%s stopped when: %s (took %v)", m.mode, m.name, took.Round(time.Millisecond))
}

// c25failures make a start impossible.
var c25failures = []string{
	"NATS refuses", "NATS is silent", "NATS hangs up", "NATS is full", "port taken", "bad subject", "bad second subject", "bad rule",
}

func c25failure(c *Ctx, mode string, f, round int) {
	what := c25failures[f]
	r := c.Rand(fmt.Sprint("failure", mode, f, round))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	w := newWorks(c, n, inf, mode, fmt.Sprintf("f%s%d_%d", strings.Replace(mode, "_", "", -1), f, round), func(conf *config.Config) {
		c25vary(r, conf)
		conf.Rule = nil
		if mode == "filter" {
			conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: "out." + conf.Name}}
		}
		conf.Workers = 1 + r.Intn(5)
	})
	defer w.close()
	good := *w.conf
	undo := func() {}
	bad := []string{"a b", "", "a..b", ".a", "a."}[r.Intn(5)]
	switch what {
	case "NATS refuses":
		w.conf.NATSAddress = fmt.Sprintf("nats://127.0.0.1:%d", freePort())
	case "NATS is silent":
		p := newSlowProxy(c, "", 0, true)
		w.conf.NATSAddress = p.url()
		undo = p.Close
	case "NATS hangs up":
		p := newSlowProxy(c, fmt.Sprintf("127.0.0.1:%d", freePort()), 0, false)
		w.conf.NATSAddress = p.url()
		undo = p.Close
	case "NATS is full":
		allowed := n.Clients()
		if mode == "filter" { // one connection plus one per worker
			allowed += r.Intn(w.conf.Workers + 1)
		}
		w.close()
		n.opts = func(o *server.Options) { o.MaxConn = allowed }
		n.Stop()
		n.Start()
		// (The harness's own connections count too.)
		name := w.conf.Name
		conf := w.conf
		w = newWorks(c, n, inf, mode, name, nil)
		w.conf = conf
		good.ProbePort, good.Port = conf.ProbePort, conf.Port
		if n.Clients() > allowed {
			c.Infra("%d clients, %d allowed", n.Clients(), allowed)
		}
		undo = func() {
			w.close()
			n.opts = nil
			n.Stop()
			n.Start()
			w = newWorks(c, n, inf, mode, name, nil)
		}
	case "port taken":
		var err error
		var cl interface{ Close() error }
		switch mode {
		case "listener":
			cl, err = net.ListenPacket("udp", fmt.Sprintf(":%d", w.conf.Port))
		case "listener_http", "monitor":
			cl, err = net.Listen("tcp", fmt.Sprintf(":%d", w.conf.Port))
		default:
			return
		}
		if err != nil {
			c.Infra("%v", err)
		}
		undo = func() { cl.Close() }
	case "bad subject":
		switch mode {
		case "filter", "writer", "downsampler":
			w.conf.NATSSubject = []string{bad}
		case "monitor":
			w.conf.NATSSubjectMonitor = bad
		default:
			return
		}
	case "bad second subject":
		switch mode {
		case "writer", "downsampler":
			w.conf.NATSSubject = []string{"good", bad, "good2"}
		default:
			return
		}
	case "bad rule":
		switch mode {
		case "filter", "writer":
			w.conf.Rule = []config.Rule{{Rtype: "basic", Match: "x", Subject: "s"}, {Rtype: "what", Match: "x", Subject: "s"}}
		default:
			return
		}
	}
	var comp Comp
	var err error
	if !Within(longWait+20*time.Second, func() { comp, err = startComp(w.conf) }) {
		c.Fatal("%s: starting doesn't end when: %s; goroutines:\n%s", mode, what, joinShort(repoGoroutines()))
	}
	if err == nil {
		comp.Stop()
		c.Fatal("%s: no error when: %s", mode, what)
	}
	if !portFree(w.conf.ProbePort) {
		c.Fatal("%s: after a failed start (%s) the probe port isn't free", mode, what)
	}
	if what != "port taken" && !portFree(w.ports()[len(w.ports())-1]) {
		c.Fatal("%s: after a failed start (%s) its port isn't free", mode, what)
	}
	if !Until(longWait, func() bool { return n.others() == 0 }) {
		c.Fatal("%s: after a failed start (%s) %d connections to NATS are left", mode, what, n.others())
	}
	undo()
	*w.conf = good
	w.again(1, "after a failed start ("+what+")")
	c.Eval(fmt.Sprintf("failure/%s/%s/%d", mode, what, w.conf.Workers), true)
	c.Obs("failed starts", 1)
}

// c25outage stops components while NATS is away; they must not come back
// with it.
func c25outage(c *Ctx, i int) {
	mode := allModes[i%len(allModes)]
	r := c.Rand(fmt.Sprint("outage", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	name := fmt.Sprintf("ou%d", i)
	w := newWorks(c, n, inf, mode, name, func(conf *config.Config) { c25vary(r, conf) })
	defer func() { w.close() }()
	comp, err := startComp(w.conf)
	if err != nil {
		c.Infra("%v", err)
	}
	w.processes(1, "before the outage")
	conf := w.conf
	w.close()
	n.Stop()
	time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
	begin := eff()
	if !Within(100*time.Second, comp.Stop) {
		c.Fatal("%s: Stop() doesn't return while NATS is away; goroutines:\n%s", mode, joinShort(repoGoroutines()))
	}
	c.ObsMax("milliseconds of the longest Stop() without NATS", int((eff() - begin).Milliseconds()))
	for _, p := range w.ports() {
		if !portFree(p) {
			c.Fatal("%s: stopped without NATS, port %d (probes: %v) isn't free", mode, p, p == w.conf.ProbePort)
		}
	}
	n.Start()
	// Clients reconnect after 2 s.
	end := eff() + 3*time.Second
	for eff() < end {
		if k := n.others(); k > 0 {
			c.Fatal("%s: it was stopped while NATS was away, but %d connections came back with NATS", mode, k)
		}
		time.Sleep(20 * time.Millisecond)
	}
	w = newWorks(c, n, inf, mode, name, nil)
	w.conf = conf
	w.again(2, "after it was stopped without NATS")
	c.Eval("outage/"+mode, true)
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// c25resources counts everything the process holds over many cycles.
func c25resources(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	cycles := c.N(12, 60)
	for _, mode := range allModes {
		if mode == "listener" && !c.Thorough {
			continue // each stop takes a second
		}
		r := c.Rand("res" + mode)
		w := newWorks(c, n, inf, mode, "res"+strings.Replace(mode, "_", "", -1), func(conf *config.Config) { c25vary(r, conf) })
		measure := func() (int, int) {
			w.cl.CloseIdleConnections()
			probeClient.CloseIdleConnections()
			var f, g int
			last := -1
			Until(5*time.Second, func() bool {
				f, g = openFiles(), runtime.NumGoroutine()
				same := f*100000+g == last
				last = f*100000 + g
				time.Sleep(30 * time.Millisecond)
				return same
			})
			return f, g
		}
		var f0, g0 int
		for k := 0; k < cycles; k++ {
			comp, err := startComp(w.conf)
			if err != nil {
				c.Fatal("%s: start %d: %v", mode, k, err)
			}
			w.processes(k, fmt.Sprintf("cycle %d", k))
			c.StopComp(comp)
			if k == 2 {
				f0, g0 = measure()
			}
		}
		per := cycles - 3
		var f1, g1 int
		ok := Until(longWait, func() bool {
			f1, g1 = measure()
			return f1-f0 < per && g1-g0 < per
		})
		if !ok {
			c.Fatal("%s: %d starts and stops left %d more open files and %d more goroutines\n%s", mode, per, f1-f0, g1-g0, joinShort(strings.Split(goroutineDump(), "\n\n")))
		}
		w.close()
		c.Eval("resources/"+mode, true)
		c.Obs("cycles with resources counted", cycles)
	}
}
