package harness

import (
	"bufio"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C19", checkC19) }

func checkC19(c *Ctx) {
	var jobs []func()
	jobs = append(jobs, func() { c19dropped(c) }, func() { c19two(c) }, func() { c19blocked(c) })
	for i := 0; i < c.N(2, 6); i++ {
		jobs = append(jobs,
			func() { c19writer(c, i) },
			func() { c19downsampler(c, i) },
			func() { c19udp(c, i) },
			func() { c19http(c, i) },
			func() { c19filter(c, i) })
	}
	c.Pool(5, len(jobs), func(i int) { jobs[i]() })
}

// metricWatch follows what a component publishes about itself.
type metricWatch struct {
	c       *Ctx
	rec     *Recorder
	labels  []KV // what every metric has to carry
	extra   map[string]string
	subject string
	read    int
	last    map[string]int64 // by name and label of its own
	seen    map[string]int   // how often it was reported
}

// watchMetrics checks labels and monotonicity of everything published.
// extra gives the label that metrics of some names have in addition.
func watchMetrics(c *Ctx, rec *Recorder, conf *config.Config, component string, extra map[string]string) *metricWatch {
	host, _ := os.Hostname()
	w := &metricWatch{c: c, rec: rec, subject: "mon", extra: extra, last: map[string]int64{}, seen: map[string]int{},
		labels: []KV{{"component", component}, {"name", conf.Name}, {"host", host}}}
	if component == "writer" {
		w.labels = append(w.labels, KV{"influxdb_address", conf.InfluxDBAddress},
			KV{"influxdb_port", fmt.Sprint(conf.InfluxDBPort)}, KV{"influxdb_dbname", conf.DBName})
	}
	return w
}

func (w *metricWatch) update() {
	ms := w.rec.Msgs(w.subject)
	for ; w.read < len(ms); w.read++ {
		for _, l := range strings.Split(string(ms[w.read].Data), "\n") {
			if l == "" {
				continue
			}
			m, err := parsePM(l)
			if err != nil {
				w.c.Fatal("malformed metric published: %q (%v)", l, err)
			}
			have := map[string]string{}
			for _, kv := range m.Labels {
				if _, ok := have[kv.K]; ok {
					w.c.Fatal("label twice in %q", l)
				}
				have[kv.K] = kv.V
			}
			for _, kv := range w.labels {
				if v, ok := have[kv.K]; !ok || v != kv.V {
					w.c.Fatal("metric %q lacks the label %s=%q", l, kv.K, kv.V)
				}
			}
			key := m.Name
			if e := w.extra[m.Name]; e != "" {
				v, ok := have[e]
				if !ok {
					w.c.Fatal("metric %q lacks the label %s", l, e)
				}
				key += " " + v
			}
			if old, ok := w.last[key]; ok && m.Value < old {
				w.c.Fatal("metric %s went from %d to %d", key, old, m.Value)
			}
			if m.Value < 0 {
				w.c.Fatal("metric %s is %d", key, m.Value)
			}
			w.last[key] = m.Value
			w.seen[key]++
			w.c.Obs("metrics seen", 1)
		}
	}
}

// expect waits until the component is idle with exactly these counts.
func (w *metricWatch) expect(what string, want map[string]int64) {
	diff := ""
	ok := Until(longWait, func() bool {
		w.update()
		diff = ""
		for k, v := range want {
			got, have := w.last[k]
			if !have {
				diff = fmt.Sprintf("metric %s isn't published; there are %v", k, w.last)
			} else if got > v {
				w.c.Fatal("%s: metric %s is %d, should be %d; all: %v, should be %v", what, k, got, v, w.last, want)
			} else if got < v {
				diff = fmt.Sprintf("metric %s is %d, should be %d; all: %v", k, got, v, w.last)
			}
		}
		return diff == ""
	})
	if !ok {
		w.c.Fatal("%s: %s", what, diff)
	}
	// And it stays like that.
	n := w.total()
	if !Until(longWait, func() bool { w.update(); return w.total() > n+2*len(w.last) }) {
		w.c.Fatal("%s: no more metrics are published", what)
	}
	for k, v := range want {
		if w.last[k] != v {
			w.c.Fatal("%s: metric %s is %d, should be %d (when idle)", what, k, w.last[k], v)
		}
	}
	for k := range w.last {
		if _, ok := want[k]; !ok {
			w.c.Obs("metrics without a model: "+k, 1)
		}
	}
	w.c.Eval(fmt.Sprintf("%s %v", what, want), true)
	w.c.Sample("%s: %v", what, want)
}

func (w *metricWatch) total() (n int) {
	for _, k := range w.seen {
		n += k
	}
	return
}

func c19conf(r *rand.Rand, conf *config.Config) {
	conf.StatsInterval = dur(time.Duration(10+r.Intn(60)) * time.Millisecond)
	conf.Name = []string{"some", "per%cent%d", "with space", "ümläut", "a-b.c", "x,y"}[r.Intn(6)]
}

// smallPayload limits what the server takes so that publishing fails.
func smallPayload(n int32) func(*natsOptions) {
	return func(o *natsOptions) { o.MaxPayload = n }
}

func c19udp(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("udp%d", i))
	n := &Nats{c: c, opts: smallPayload(2000)}
	n.Start()
	defer n.Stop()
	conf := baseConf(n, "listener")
	c19conf(r, conf)
	conf.Port = freePort()
	conf.BatchMaxCount = 1
	rec, mon := n.Record("in"), n.Record("mon")
	defer rec.Close()
	defer mon.Close()
	w := watchMetrics(c, mon, conf, "listener", nil)
	comp := c.Start(conf)
	defer c.StopComp(comp)
	w.expect("listener at start", map[string]int64{"received": 0, "sent": 0, "read_errors": 0, "failed_nats_publish": 0})

	s := newUDPSender(c, conf.Port)
	var sent, failed int64
	for k := 0; k < c.N(600, 3000); k++ {
		d := genDatagram(r, k)
		if r.Intn(10) == 0 {
			d = bigLines(r, "m", 1900+r.Intn(2500), 100)
		}
		// With its newline.
		size := len(d)
		if d[len(d)-1] != '\n' {
			size++
		}
		if size > 2000 {
			failed++
		}
		s.send(d)
		sent++
		w.update()
	}
	s.drain()
	if s.dropped() {
		c.Infra("the kernel dropped datagrams")
	}
	w.expect("listener", map[string]int64{"received": sent, "sent": sent, "read_errors": 0, "failed_nats_publish": failed})
	c.Must("all other batches arrive", func() bool { return int64(rec.Count()) >= sent-failed })
	if int64(rec.Count()) != sent-failed {
		c.Fatal("%d batches were published, counted %d", rec.Count(), sent-failed)
	}
	c.Obs("datagrams", int(sent))
	c.Obs("failed publishes", int(failed))
}

func c19http(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("http%d", i))
	n := &Nats{c: c, opts: smallPayload(60000)}
	n.Start()
	defer n.Stop()
	conf := baseConf(n, "listener_http")
	c19conf(r, conf)
	conf.Port = freePort()
	per := []int{1, 3, 10}[r.Intn(3)]
	conf.BatchMaxCount = per
	rec, mon := n.Record("in"), n.Record("mon")
	defer rec.Close()
	defer mon.Close()
	w := watchMetrics(c, mon, conf, "listener", nil)
	comp := c.Start(conf)
	defer c.StopComp(comp)
	w.expect("HTTP listener at start", map[string]int64{"received": 0, "sent": 0, "read_errors": 0, "failed_nats_publish": 0})

	var mu sync.Mutex
	var received, readErrors int64
	clients := 1 + r.Intn(5)
	total := c.N(40, 200)
	seeds := make([]int64, clients)
	for j := range seeds {
		seeds[j] = r.Int63()
	}
	var fs []func()
	for j := 0; j < clients; j++ {
		fs = append(fs, func() {
			r := rand.New(rand.NewSource(seeds[j]))
			cl := httpClient()
			defer cl.CloseIdleConnections()
			for k := 0; k < total; k++ {
				query := []string{"", "precision=ns", "precision=s", "precision=ms", "precision=x"}[r.Intn(5)]
				body, _ := genBody(r, "m", 5)
				switch r.Intn(8) {
				case 0: // nothing in it
					resp, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write?%s", conf.Port, query), "", strings.NewReader(""))
					if err != nil {
						c.Fatal("request failed: %v", err)
					}
					resp.Body.Close()
				case 1: // cut off after some complete lines
					line := "m f=1i 1\n"
					keep := r.Intn(3)
					conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
					if err != nil {
						c.Fatal("can't connect: %v", err)
					}
					fmt.Fprintf(conn, "POST /write?%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", query, 1000, strings.Repeat(line, keep)+"m f=")
					conn.(*net.TCPConn).CloseWrite()
					// The answer comes when the request was handled.
					conn.SetReadDeadline(time.Now().Add(longWait))
					bufio.NewReader(conn).ReadString('\n')
					conn.Close()
					mu.Lock()
					readErrors++
					if keep > 0 {
						received++
					}
					mu.Unlock()
				default:
					if len(body) > 0 {
						mu.Lock()
						received++
						mu.Unlock()
					}
					resp, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write?%s", conf.Port, query), "", strings.NewReader(string(body)))
					if err != nil {
						c.Fatal("request failed: %v", err)
					}
					resp.Body.Close()
				}
			}
		})
	}
	c.Go(fs...)
	// The number of batches is only known without concurrency.
	want := map[string]int64{"received": received, "read_errors": readErrors, "failed_nats_publish": 0}
	if clients == 1 {
		want["sent"] = received / int64(per)
	}
	w.expect(fmt.Sprintf("HTTP listener with %d clients, batches of %d", clients, per), want)
	if got := int64(rec.Count()); got != w.last["sent"] {
		c.Must("all batches arrive", func() bool { return int64(rec.Count()) >= w.last["sent"] })
		if got = int64(rec.Count()); got != w.last["sent"] {
			c.Fatal("%d batches were published, sent is %d", got, w.last["sent"])
		}
	}
	// One that's too large for the server.
	before := w.last["sent"]
	cl := httpClient()
	defer cl.CloseIdleConnections()
	for k := 0; k < per; k++ {
		resp, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write", conf.Port), "", strings.NewReader(string(bigLines(r, "m", 61000, 200))))
		if err != nil {
			c.Fatal("request failed: %v", err)
		}
		resp.Body.Close()
	}
	want = map[string]int64{"received": received + int64(per), "read_errors": readErrors, "failed_nats_publish": 1}
	if clients == 1 {
		want["sent"] = before + 1
	}
	w.expect("HTTP listener, failing", want)
	c.Obs("HTTP requests", clients*total)
}

func c19filter(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("filter%d", i))
	n := &Nats{c: c, opts: smallPayload(300000)}
	n.Start()
	defer n.Stop()
	conf := baseConf(n, "filter")
	c19conf(r, conf)
	conf.Workers = 1 + r.Intn(5)
	conf.Rule = genRules(r, false)
	subjects := []string{"junk"}
	for j := range conf.Rule {
		conf.Rule[j].Subject = fmt.Sprintf("out%d", j)
		subjects = append(subjects, conf.Rule[j].Subject)
	}
	model := modelRules(conf.Rule)
	rec, mon := n.Record(subjects...), n.Record("mon")
	defer rec.Close()
	defer mon.Close()
	w := watchMetrics(c, mon, conf, "filter", map[string]string{"triggered": "rule"})
	comp := c.Start(conf)
	defer c.StopComp(comp)
	want := map[string]int64{"processed": 0, "passed": 0, "rejected": 0, "invalid_time": 0, "failed_nats_publish": 0, "nats_dropped": 0}
	for j := range conf.Rule {
		want[fmt.Sprintf("triggered out%d", j)] = 0
	}
	w.expect("filter at start", want)

	nc := n.Connect()
	defer nc.Close()
	for k := 0; k < c.N(400, 2000); k++ {
		var msg strings.Builder
		for j := 1 + r.Intn(20); j > 0; j-- {
			ts := nowTS(r)
			kind := r.Intn(12)
			if kind == 0 {
				ts = fmt.Sprint(r.Int63n(1e18))
			}
			if kind == 1 {
				msg.WriteString("BAD,x y=1\n") // a tag without a value
				want["processed"]++
				continue
			}
			l := genRuleLine(r, conf.Rule, ts)
			if !lineOK(l) || (kind == 0 && !strings.HasSuffix(l.Rest, " "+ts)) {
				continue
			}
			msg.WriteString(l.String() + "\n")
			want["processed"]++
			if kind == 0 {
				want["invalid_time"]++
				continue
			}
			if m := firstMatch(model, l); m >= 0 {
				want["passed"]++
				want[fmt.Sprintf("triggered out%d", m)]++
			} else {
				want["rejected"]++
			}
		}
		publish(c, nc, "in", []byte(msg.String()))
		w.update()
	}
	flush(c, nc)
	w.expect(fmt.Sprintf("filter with %d workers and %d rules", conf.Workers, len(conf.Rule)), want)
	c.Obs("lines through a filter", int(want["processed"]))
}

func c19writer(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("writer%d", i))
	n := startNats(c)
	defer n.Stop()
	f := startInflux(c)
	defer f.Stop()
	conf := baseConf(n, "writer")
	c19conf(r, conf)
	conf.Workers = 1 + r.Intn(4)
	conf.InfluxDBPort = f.Port
	conf.DBName = []string{"db", "my db", "a%b"}[r.Intn(3)]
	conf.NATSSubject = []string{"in", "in2"}
	conf.BatchMaxCount = 1 + r.Intn(3)
	conf.WriterRetryBatches = 50
	conf.WriterRetryInterval = dur(60 * time.Millisecond)
	conf.WriterRetryTimeout = dur(time.Minute)
	if i%2 == 1 {
		conf.WriterRetryBatches = 0
	}
	if r.Intn(2) == 0 {
		conf.BatchMaxSize = 300
	}
	conf.BatchMaxAge = dur(1500 * time.Millisecond)
	mon := n.Record("mon")
	defer mon.Close()
	w := watchMetrics(c, mon, conf, "writer", map[string]string{"nats_dropped": "subject"})
	comp := c.Start(conf)
	defer c.StopComp(comp)
	want := map[string]int64{"received": 0, "write_requests": 0, "failed_writes": 0, "nats_dropped in": 0, "nats_dropped in2": 0}
	w.expect("writer at start", want)

	var mu sync.Mutex
	fr := rand.New(rand.NewSource(r.Int63()))
	failing := true
	f.Script(func(*Write) Action {
		mu.Lock()
		defer mu.Unlock()
		if !failing {
			return Action{Status: 204}
		}
		switch fr.Intn(6) {
		case 0:
			return Action{Status: 500}
		case 1:
			return Action{Reset: true}
		case 2:
			return Action{Status: 400, Body: `{"error":"partial write"}`}
		case 3:
			return Action{Status: 503, Delay: time.Duration(fr.Intn(20)) * time.Millisecond}
		}
		return Action{Status: 204}
	})
	nc := n.Connect()
	defer nc.Close()
	total := c.N(60, 200)
	for k := 0; k < total; k++ {
		publish(c, nc, conf.NATSSubject[r.Intn(2)], bigLines(r, "m", 10+r.Intn(400), 80))
		if r.Intn(4) == 0 {
			time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
		}
		w.update()
	}
	flush(c, nc)
	mu.Lock()
	failing = false
	mu.Unlock()
	// Idle when nothing was attempted for a while.
	want["received"] = int64(total)
	end := eff() + longWait
	for {
		begun := f.Begun()
		if Until(3500*time.Millisecond, func() bool { return f.Begun() != begun }) == false {
			break
		}
		if eff() > end+longWait {
			c.Fatal("the writer doesn't come to rest")
		}
	}
	failed := 0
	for _, x := range f.Writes() {
		if x.Status/100 != 2 {
			failed++
		}
	}
	want["write_requests"] = int64(f.Begun())
	want["failed_writes"] = int64(failed)
	w.expect(fmt.Sprintf("writer with %d workers", conf.Workers), want)
	c.Obs("write requests", f.Begun())
	c.Obs("failed write requests", failed)

	// Connections refused: those are attempts too.
	if conf.WriterRetryBatches == 0 {
		f.Stop()
		msgs := conf.Workers * 3 * conf.BatchMaxCount
		before := w.last["write_requests"]
		w.expect("before refusing", want)
		for k := 0; k < msgs; k++ {
			publish(c, nc, "in", []byte("m f=1i 1\n"))
		}
		flush(c, nc)
		want["received"] += int64(msgs)
		delete(want, "write_requests")
		delete(want, "failed_writes")
		w.expect("writer without InfluxDB", want)
		if !Until(longWait, func() bool {
			w.update()
			return w.last["write_requests"]-before == w.last["failed_writes"]-int64(failed) && w.last["write_requests"] > before
		}) {
			c.Fatal("%d writes were attempted without InfluxDB, %d failed", w.last["write_requests"]-before, w.last["failed_writes"]-int64(failed))
		}
	}
}

// c19blocked: retries fail while the worker itself waits for a write.
func c19blocked(c *Ctx) {
	r := c.Rand("blocked")
	n := startNats(c)
	defer n.Stop()
	f := startInflux(c)
	defer f.Stop()
	conf := baseConf(n, "writer")
	conf.StatsInterval = dur(50 * time.Millisecond)
	conf.Workers = 1
	conf.InfluxDBPort = f.Port
	conf.BatchMaxCount = 1
	conf.WriterRetryBatches = 1 + r.Intn(2)
	conf.WriterRetryInterval = dur(20 * time.Millisecond)
	conf.WriterRetryTimeout = dur(time.Minute)
	mon := n.Record("mon")
	defer mon.Close()
	w := watchMetrics(c, mon, conf, "writer", map[string]string{"nats_dropped": "subject"})
	comp := c.Start(conf)
	defer c.StopComp(comp)
	var failing atomic.Bool
	failing.Store(true)
	f.ScriptBody(func(x *Write) Action {
		if strings.HasPrefix(string(x.Body), "slow") {
			return Action{Status: 204, Delay: 2500 * time.Millisecond}
		}
		if failing.Load() {
			return Action{Status: 500}
		}
		return Action{Status: 204}
	})
	nc := n.Connect()
	defer nc.Close()
	publish(c, nc, "in", []byte("fails f=1i\n"))
	flush(c, nc)
	if !Until(longWait, func() bool { return f.Begun() > 1 }) {
		c.Fatal("a failed write isn't retried")
	}
	publish(c, nc, "in", []byte("slow f=1i\n"))
	flush(c, nc)
	slow := func() bool {
		for _, x := range f.Writes() {
			if strings.HasPrefix(string(x.Body), "slow") {
				return true
			}
		}
		return false
	}
	if !Until(longWait, slow) {
		c.Fatal("a write is not delivered while another one is retried")
	}
	failing.Store(false)
	for begun := -1; begun != f.Begun(); {
		begun = f.Begun()
		time.Sleep(1500 * time.Millisecond)
	}
	failed := 0
	for _, x := range f.Writes() {
		if x.Status/100 != 2 {
			failed++
		}
	}
	w.expect("writer with retries during a slow write", map[string]int64{"received": 2, "write_requests": int64(f.Begun()), "failed_writes": int64(failed), "nats_dropped in": 0})
	c.Obs("retries during a slow write", failed)
	c.Eval(fmt.Sprintf("blocked %d", conf.WriterRetryBatches), failed > 10)
}

func c19downsampler(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("downsampler%d", i))
	n := startNats(c)
	defer n.Stop()
	conf := baseConf(n, "downsampler")
	c19conf(r, conf)
	period := 2 * time.Second
	conf.DownsamplePeriod = dur(period)
	conf.NATSSubject = []string{"in", "in2", "in3"}[:1+r.Intn(3)]
	var outs []string
	for _, s := range conf.NATSSubject {
		outs = append(outs, s+"-archive")
	}
	rec, mon := n.Record(outs...), n.Record("mon")
	defer rec.Close()
	defer mon.Close()
	w := watchMetrics(c, mon, conf, "downsampler", map[string]string{"nats_dropped": "subject"})
	comp := c.Start(conf)
	defer c.StopComp(comp)
	want := map[string]int64{"received": 0, "sent": 0, "invalid_lines": 0, "invalid_timestamps": 0, "failed_nats_publish": 0}
	for _, s := range conf.NATSSubject {
		want["nats_dropped "+s] = 0
	}
	w.expect("downsampler at start", want)
	nc := n.Connect()
	defer nc.Close()
	for p := 0; p < c.N(2, 5); p++ {
		// Start early in a period so that all lines are within it.
		now := time.Now()
		next := now.Truncate(period).Add(period)
		time.Sleep(next.Sub(now) + 50*time.Millisecond)
		ts := next.Add(time.Second).UnixNano() - int64(r.Intn(1000))
		for _, s := range conf.NATSSubject {
			if r.Intn(4) == 0 {
				continue // nothing for this one in this period
			}
			for k := 0; k < 30; k++ {
				var msg strings.Builder
				for j := 1 + r.Intn(10); j > 0; j-- {
					switch r.Intn(6) {
					case 0:
						msg.WriteString(fmt.Sprintf("m%d f=1 %d\n", r.Intn(5), 1e15+r.Int63n(1e15)))
						want["invalid_timestamps"]++
					case 1:
						fmt.Fprintf(&msg, "%s\n", []string{"m novalue", "m f=", "x,a=b f", "m f=\"a"}[r.Intn(4)])
						want["invalid_lines"]++
					default:
						fmt.Fprintf(&msg, "m%d f=%di,g=%d.5 %d\n", r.Intn(5), r.Intn(100), r.Intn(100), ts)
					}
				}
				publish(c, nc, s, []byte(msg.String()))
				want["received"]++
			}
		}
		flush(c, nc)
		c.Must("messages are received", func() bool { w.update(); return w.last["received"] >= want["received"] })
		if time.Now().After(next.Add(period - 200*time.Millisecond)) {
			c.Infra("messages took too long")
		}
	}
	// Until nothing more can come out.
	time.Sleep(3*period + 500*time.Millisecond)
	want["sent"] = int64(rec.Count())
	w.expect("downsampler", want)
	c.Obs("messages to a downsampler", int(want["received"]))
}

// c19dropped has components that can't keep up: what isn't received has
// to be counted as dropped.
func c19dropped(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	f := startInflux(c)
	defer f.Stop()
	mon := n.Record("mon")
	defer mon.Close()

	conf := baseConf(n, "writer")
	conf.StatsInterval = dur(40 * time.Millisecond)
	conf.InfluxDBPort = f.Port
	conf.Workers = 1
	conf.NATSSubject = []string{"in", "in2"}
	conf.NATSMaxPendingSize = 20000
	conf.BatchMaxCount = 1
	w := watchMetrics(c, mon, conf, "writer", map[string]string{"nats_dropped": "subject"})
	hold := make(chan struct{})
	f.Script(func(*Write) Action { return Action{Status: 204, Hold: hold} })
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	const msgs = 2000
	line := []byte("m f=\"" + strings.Repeat("x", 300) + "\" 1\n")
	publish(c, nc, "in", line)
	flush(c, nc)
	c.Must("first write", func() bool { return f.Begun() == 1 })
	for k := 1; k < msgs; k++ {
		publish(c, nc, "in", line)
	}
	for k := 0; k < msgs/2; k++ {
		publish(c, nc, "in2", line)
	}
	flush(c, nc)
	c.Must("drops are reported", func() bool {
		w.update()
		return w.last["nats_dropped in"] > 0 && w.last["nats_dropped in2"] > 0
	})
	time.Sleep(300 * time.Millisecond)
	close(hold)
	if !Until(longWait+35*time.Second, func() bool {
		w.update()
		return w.last["received"]+w.last["nats_dropped in"]+w.last["nats_dropped in2"] == msgs+msgs/2
	}) {
		c.Fatal("writer: %d messages received, %d and %d dropped, of %d and %d", w.last["received"], w.last["nats_dropped in"], w.last["nats_dropped in2"], msgs, msgs/2)
	}
	c.Must("all received are written", func() bool { return f.Count() >= int(w.last["received"]) })
	time.Sleep(200 * time.Millisecond)
	w.expect("writer with drops", map[string]int64{"received": int64(f.Count()), "write_requests": int64(f.Count()), "failed_writes": 0})
	if w.last["nats_dropped in"] > msgs || w.last["nats_dropped in2"] > msgs/2 {
		c.Fatal("more messages dropped than sent: %v", w.last)
	}
	c.Obs("messages dropped by a writer", int(w.last["nats_dropped in"]+w.last["nats_dropped in2"]))
	c.StopComp(comp)

	// The filter: large messages arrive faster than they're processed.
	mon2 := n.Record("mon")
	defer mon2.Close()
	fconf := baseConf(n, "filter")
	fconf.StatsInterval = dur(40 * time.Millisecond)
	fconf.Workers = 1
	fconf.NATSSubject = []string{"fin"}
	fconf.NATSMaxPendingSize = 20000
	fconf.Rule = []config.Rule{{Rtype: "regex", Match: "^(a+)+(b|c)*(d+)$", Subject: "out0"}}
	w2 := watchMetrics(c, mon2, fconf, "filter", map[string]string{"triggered": "rule"})
	comp2 := c.Start(fconf)
	defer c.StopComp(comp2)
	nc2 := n.Connect()
	defer nc2.Close()
	msg := []byte(strings.Repeat(strings.Repeat("a", 50)+" f=1\n", 30))
	const fmsgs = 4000
	for k := 0; k < fmsgs; k++ {
		publish(c, nc2, "fin", msg)
	}
	flush(c, nc2)
	if !UntilProgress(longWait, func() int { w2.update(); return int(w2.last["processed"]) }, func() bool {
		w2.update()
		return w2.last["processed"]+30*w2.last["nats_dropped"] == fmsgs*30
	}) {
		c.Fatal("filter: %d lines processed, %d messages of 30 dropped, of %d messages", w2.last["processed"], w2.last["nats_dropped"], fmsgs)
	}
	w2.expect("filter with drops", map[string]int64{"processed": (fmsgs - w2.last["nats_dropped"]) * 30, "rejected": (fmsgs - w2.last["nats_dropped"]) * 30, "passed": 0, "invalid_time": 0, "nats_dropped": w2.last["nats_dropped"]})
	c.Obs("messages dropped by a filter", int(w2.last["nats_dropped"]))
}

// c19two runs two filters of a group: together they count everything.
func c19two(c *Ctx) {
	r := c.Rand("two")
	n := startNats(c)
	defer n.Stop()
	var ws []*metricWatch
	var nc *nats.Conn
	for k := 0; k < 2; k++ {
		conf := baseConf(n, "filter")
		conf.Name = fmt.Sprintf("f%d", k)
		conf.NATSSubjectMonitor = "mon"
		conf.StatsInterval = dur(30 * time.Millisecond)
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: "out0"}}
		mon := &Recorder{nc: n.Connect(), own: true}
		mon.subscribe(c, []string{"mon" + conf.Name})
		defer mon.Close()
		conf.NATSSubjectMonitor = "mon" + conf.Name
		w := watchMetrics(c, mon, conf, "filter", map[string]string{"triggered": "rule"})
		w.subject = conf.NATSSubjectMonitor
		ws = append(ws, w)
		comp := c.Start(conf)
		defer c.StopComp(comp)
	}
	nc = n.Connect()
	defer nc.Close()
	var lines, cpu int64
	for k := 0; k < 500; k++ {
		var msg strings.Builder
		for j := r.Intn(10); j >= 0; j-- {
			if r.Intn(2) == 0 {
				msg.WriteString("cpu f=1\n")
				cpu++
			} else {
				msg.WriteString("mem f=1\n")
			}
			lines++
		}
		publish(c, nc, "in", []byte(msg.String()))
	}
	flush(c, nc)
	sum := func(k string) int64 { return ws[0].last[k] + ws[1].last[k] }
	good := func() bool {
		ws[0].update()
		ws[1].update()
		return sum("processed") == lines && sum("passed") == cpu && sum("rejected") == lines-cpu && sum("triggered out0") == cpu
	}
	if !Until(longWait, good) {
		c.Fatal("two filters counted %v and %v for %d lines, %d of them matching", ws[0].last, ws[1].last, lines, cpu)
	}
	c.Eval("two filters", true)
}
