package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C34", checkC34) }

// ---------------------------------------------------------------------
// C34: what a component holds on to doesn't grow with what it processed,
// and it's idle when there's nothing to do.

func checkC34(c *Ctx) {
	c.Scenario("steady", func() { c.Pool(4, len(steadyLoads), func(i int) { c34steady(c, i) }) })
	c.Scenario("idle", func() { c.Pool(4, 4*len(allModes), func(i int) { c34idle(c, i) }) })
}

// footprint is what a process holds on to.
type footprint struct {
	heap, goroutines, files int
}

func (f footprint) String() string {
	return fmt.Sprintf("%d KB, %d goroutines, %d files", f.heap>>10, f.goroutines, f.files)
}

var (
	heapRE       = regexp.MustCompile(`(?m)^# HeapAlloc = (\d+)$`)
	goroutinesRE = regexp.MustCompile(`^goroutine profile: total (\d+)\n`)
)

// measure asks a process that the harness started (through its profiles)
// for its footprint, after garbage collections.
func measure(c *Ctx, ch *Child, cl *http.Client, pprof int) footprint {
	get := func(path string, re *regexp.Regexp) int {
		_, b, err := httpGet(cl, fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/%s", pprof, path))
		if err != nil {
			ch.MustLive("measuring")
			c.Infra("profile of %s: %v", ch.name, err)
		}
		m := re.FindSubmatch(b)
		if m == nil {
			c.Infra("profile of %s: %s", ch.name, short(b))
		}
		n, _ := strconv.Atoi(string(m[1]))
		return n
	}
	var f footprint
	// Finalizers and pools need several collections.
	for k := 0; k < 3; k++ {
		f.heap = get("heap?gc=1&debug=1", heapRE)
	}
	f.goroutines = get("goroutine?debug=1", goroutinesRE)
	fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", ch.cmd.Process.Pid))
	if err != nil {
		c.Infra("%v", err)
	}
	f.files = len(fds)
	return f
}

// cpuTime returns the CPU time that a process (which the harness started)
// used.
func cpuTime(c *Ctx, ch *Child) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", ch.cmd.Process.Pid))
	if err != nil {
		c.Infra("%v", err)
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	u, _ := strconv.Atoi(f[11])
	s, _ := strconv.Atoi(f[12])
	return time.Duration(u+s) * 10 * time.Millisecond
}

// steadyLoad is a kind of work. run does a round of it and returns the
// number of operations.
type steadyLoad struct {
	name, mode string
	mod        func(*config.Config)
	run        func(w *works, r *rand.Rand, ch *Child) int
}

// waitIdle waits until a process doesn't use CPU time any more.
func waitIdle(c *Ctx, ch *Child) {
	last := cpuTime(c, ch)
	quiet := 0
	Until(longWait, func() bool {
		time.Sleep(100 * time.Millisecond)
		now := cpuTime(c, ch)
		if now-last <= 40*time.Millisecond {
			quiet++
		} else {
			quiet = 0
		}
		last = now
		return quiet >= 3
	})
}

func c34steady(c *Ctx, i int) {
	load := steadyLoads[i]
	r := c.Rand("steady " + load.name)
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	pprof := 0
	w := newWorks(c, n, inf, load.mode, "st"+strings.ReplaceAll(load.name, " ", ""), func(conf *config.Config) {
		conf.StatsInterval = dur(time.Second)
		conf.PprofPort = freePort()
		pprof = conf.PprofPort
		if load.mod != nil {
			load.mod(conf)
		}
	})
	defer w.close()
	if w.rec != nil {
		w.rec.Close() // it would only store a lot
	}
	ch := startSpout(c, w.conf)
	defer ch.Stop()
	cl := httpClient()
	cl.Timeout = longWait
	defer cl.CloseIdleConnections()

	var all []footprint
	ops := 0
	round := func() {
		ops = load.run(w, r, ch)
		flush(c, w.nc)
		waitIdle(c, ch)
		ch.MustLive("under load")
		all = append(all, measure(c, ch, cl, pprof))
		inf.Forget()
		c.Eval(fmt.Sprintf("steady %s %d %d %d", load.name, all[len(all)-1].heap>>16, all[len(all)-1].goroutines, all[len(all)-1].files), true)
		c.Obs("operations between measurements", ops)
	}
	// grows says whether something grew in each of the last rounds.
	grows := func(n int) string {
		l := all[len(all)-n-1:]
		grown := func(get func(footprint) int, each, sum int) bool {
			for k := 1; k < len(l); k++ {
				if get(l[k])-get(l[k-1]) < each {
					return false
				}
			}
			return get(l[len(l)-1])-get(l[0]) >= sum
		}
		switch {
		case grown(func(f footprint) int { return f.heap }, 40<<10, n*100<<10):
			return "memory"
		case grown(func(f footprint) int { return f.goroutines }, 1, 2*n):
			return "the number of goroutines"
		case grown(func(f footprint) int { return f.files }, 1, 2*n):
			return "the number of open files"
		}
		return ""
	}
	for k := 0; k < c.N(4, 8); k++ { // the first one warms up
		round()
	}
	if grows(3) != "" {
		// Whatever is bounded has reached its bound soon.
		for k := 0; k < 5; k++ {
			round()
		}
		if what := grows(5); what != "" {
			c.Fatal("%s: %s of the process grows with every round of %d operations: %v", load.name, what, ops, all)
		}
	}
	c.Sample("%s, rounds of %d operations: %v", load.name, ops, all)
}

// steadyHTTP makes requests on connections of their own or shared ones.
func steadyHTTP(w *works, r *rand.Rand, n int) int {
	shared := httpClient()
	defer shared.CloseIdleConnections()
	addr := fmt.Sprintf("127.0.0.1:%d", w.conf.Port)
	for k := 0; k < n; k++ {
		id := nextID()
		line := fmt.Sprintf("cpu,id=%d v=1i %d\n", id, 1500000000+id)
		switch x := r.Intn(20); {
		case x < 12:
			u := "http://" + addr + "/write" + []string{"", "?precision=s", "?precision=ms", "?precision=u", "?precision=h", fmt.Sprintf("?precision=x%d", id), fmt.Sprintf("?db=d%d", id)}[r.Intn(7)]
			resp, err := shared.Post(u, "text/plain", strings.NewReader(line))
			if err != nil {
				continue
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		case x < 14:
			httpGet(shared, fmt.Sprintf("http://%s/other%d", addr, id))
		default:
			conn, err := net.DialTimeout("tcp", addr, time.Second)
			if err != nil {
				continue
			}
			noLinger(conn)
			switch x {
			case 14: // complete
				fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(line), line)
				conn.SetReadDeadline(time.Now().Add(5 * time.Second))
				io.Copy(io.Discard, conn)
			case 15: // within a line
				fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", 5*len(line), line)
				time.Sleep(time.Millisecond)
			case 16: // within a chunk, with precision
				fmt.Fprintf(conn, "POST /write?precision=s HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n1000\r\n%s", line)
				time.Sleep(time.Millisecond)
			case 17: // a bad chunk
				fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n%s", line)
				conn.SetReadDeadline(time.Now().Add(5 * time.Second))
				conn.Read(make([]byte, 1000))
			case 18: // not HTTP
				fmt.Fprintf(conn, "%s\r\n\r\n", line)
				conn.SetReadDeadline(time.Now().Add(5 * time.Second))
				conn.Read(make([]byte, 1000))
			}
			conn.Close()
		}
	}
	return n
}

// steadyNATS publishes messages to the first subject and makes pauses so
// that they don't pile up.
func steadyNATS(w *works, n int, subject string, msg func(k int) string) int {
	for k := 0; k < n; k++ {
		publish(w.c, w.nc, subject, []byte(msg(k)))
		if k%200 == 199 {
			flush(w.c, w.nc)
			time.Sleep(3 * time.Millisecond)
		}
	}
	return n
}

// steadyFailures lets writes fail in many ways.
func steadyFailures(w *works, r *rand.Rand, slow bool) int {
	seed := r.Int63()
	w.inf.Script(func(x *Write) Action {
		rr := rand.New(rand.NewSource(seed + x.Start.UnixNano()))
		switch rr.Intn(12) {
		case 0, 1:
			return Action{Status: 500, Body: strings.Repeat("e", rr.Intn(3000))}
		case 2:
			return Action{Status: 400, Body: `{"error":"bad"}`}
		case 3:
			return Action{Reset: true}
		case 4:
			return Action{Status: 503, Early: true}
		case 5:
			return Action{Status: 200, Cut: true}
		case 6:
			return Action{Status: 302, To: "/elsewhere"}
		case 7:
			return Action{Status: 200, Body: strings.Repeat("r", rr.Intn(3000))}
		case 8:
			if slow && rr.Intn(8) == 0 {
				return Action{Delay: 200 * time.Millisecond}
			}
		}
		return Action{Status: 204}
	})
	steadyNATS(w, 2500, w.conf.NATSSubject[0], func(int) string {
		return strings.Repeat(fmt.Sprintf("m%d v=1i\n", nextID()), 20)
	})
	// What is retried is gone after its timeout.
	last := -1
	Until(longWait, func() bool {
		time.Sleep(700 * time.Millisecond)
		same := w.inf.Begun() == last
		last = w.inf.Begun()
		return same
	})
	return 2500
}

var steadyLoads = []steadyLoad{
	{"UDP listener", "listener", func(conf *config.Config) { conf.BatchMaxCount = 3 }, func(w *works, r *rand.Rand, ch *Child) int {
		conn := udpDial(w.c, w.conf.Port)
		defer conn.Close()
		for k := 0; k < 8000; k++ {
			conn.Write([]byte(strings.Repeat(fmt.Sprintf("cpu,id=%d v=1i\n", nextID()), 1+r.Intn(20))))
			if k%100 == 99 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		return 8000
	}},
	{"HTTP listener", "listener_http", func(conf *config.Config) { conf.BatchMaxCount = 5; conf.BatchMaxAge = dur(100 * time.Millisecond) },
		func(w *works, r *rand.Rand, ch *Child) int {
			n := steadyHTTP(w, r, 4000)
			time.Sleep(time.Second) // after errors connections linger
			return n
		}},
	{"filter", "filter", func(conf *config.Config) {
		conf.Workers = 3
		conf.Rule = append(conf.Rule, config.Rule{Rtype: "regex", Match: "^re.*[02468] ", Subject: "out.re"},
			config.Rule{Rtype: "tags", Tags: [][]string{{"dc", "nyc"}}, Subject: "out.tags"})
	}, func(w *works, r *rand.Rand, ch *Child) int {
		return steadyNATS(w, 3000, w.conf.NATSSubject[0], func(int) string {
			var b strings.Builder
			for j := 0; j < 8; j++ {
				id := nextID()
				switch r.Intn(6) {
				case 0:
					fmt.Fprintf(&b, "cpu,id=%d v=1i\n", id)
				case 1:
					fmt.Fprintf(&b, "re%d v=1i\n", id)
				case 2:
					fmt.Fprintf(&b, "m%d,z%d=1,dc=nyc,b=%d v=1i,f%d=2\n", id, id, id, id)
				case 3:
					fmt.Fprintf(&b, "junk%d,z=1,a=2 v=\"%d\" %d\n", id, id, time.Now().UnixNano()+int64(id))
				case 4:
					fmt.Fprintf(&b, "old%d v=1 %d\n", id, 1000000+id)
				case 5:
					fmt.Fprintf(&b, "bad%d,,=\\\n", id)
				}
			}
			return b.String()
		})
	}},
	{"writer", "writer", func(conf *config.Config) {
		conf.Workers = 3
		conf.BatchMaxCount = 2
		conf.Rule = []config.Rule{{Rtype: "regex", Match: "[0-8] "}, {Rtype: "basic", Match: "cpu"}}
	}, func(w *works, r *rand.Rand, ch *Child) int {
		return steadyNATS(w, 6000, w.conf.NATSSubject[0], func(int) string {
			return fmt.Sprintf("m%d,id=%d v=1i\nother v=%d\n", nextID(), nextID(), nextID())
		})
	}},
	{"writer with failures", "writer", func(conf *config.Config) {
		conf.Workers = 4
		conf.BatchMaxCount = 1
		conf.WriteTimeout = dur(100 * time.Millisecond)
		conf.WriterRetryBatches = 3
		conf.WriterRetryInterval = dur(5 * time.Millisecond)
		conf.WriterRetryTimeout = dur(300 * time.Millisecond)
		conf.Debug = true
	}, func(w *works, r *rand.Rand, ch *Child) int { return steadyFailures(w, r, true) }},
	{"writer with error answers", "writer", func(conf *config.Config) {
		conf.Workers = 4
		conf.BatchMaxCount = 1
		conf.WriteTimeout = dur(longWait)
		conf.WriterRetryBatches = 3
		conf.WriterRetryInterval = dur(5 * time.Millisecond)
		conf.WriterRetryTimeout = dur(300 * time.Millisecond)
	}, func(w *works, r *rand.Rand, ch *Child) int { return steadyFailures(w, r, false) }},
	{"downsampler", "downsampler", nil, func(w *works, r *rand.Rand, ch *Child) int {
		n := steadyNATS(w, 2000, w.conf.NATSSubject[0], func(int) string {
			var b strings.Builder
			for j := 0; j < 5; j++ {
				fmt.Fprintf(&b, "m%d,id=%d f%d=%di,s=\"x\"\n", nextID(), nextID(), r.Intn(5), r.Intn(1000))
			}
			fmt.Fprintf(&b, "bad%d v\nold v=1 %d\n", nextID(), 1000000+nextID())
			return b.String()
		})
		time.Sleep(4 * w.conf.DownsamplePeriod.Duration) // until all of it is out
		return n
	}},
	{"monitor", "monitor", nil, func(w *works, r *rand.Rand, ch *Child) int {
		addr := fmt.Sprintf("127.0.0.1:%d", w.conf.Port)
		cl := httpClient()
		defer cl.CloseIdleConnections()
		return steadyNATS(w, 5000, w.conf.NATSSubjectMonitor, func(k int) string {
			if k%25 == 0 {
				switch r.Intn(3) {
				case 0:
					httpGet(cl, "http://"+addr+"/metrics")
				case 1:
					httpGet(cl, fmt.Sprintf("http://%s/x%d", addr, nextID()))
				case 2:
					if conn, err := net.Dial("tcp", addr); err == nil {
						noLinger(conn)
						fmt.Fprintf(conn, "GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n")
						conn.Close()
					}
				}
			}
			if k%10 == 0 {
				return fmt.Sprintf("bad%d{x=\"1\" 1 2\n", nextID())
			}
			m := fmt.Sprintf("triggered{component=\"filter\",rule=\"r%d\"} %d %d\n", r.Intn(50), nextID(), 1500000000000+nextID())
			// Labels in another order are the same metric.
			return m + fmt.Sprintf("triggered{rule=\"r%d\",component=\"filter\"} %d\nreceived %d\n", r.Intn(50), nextID(), nextID())
		})
	}},
}

// c34idle measures the CPU time of a component which has nothing to do:
// before it got anything, while it waits with an incomplete batch, or after
// input which there's nothing in.
func c34idle(c *Ctx, i int) {
	mode := allModes[i%len(allModes)]
	after := []string{"nothing", "pending input", "empty input", "nothing with a batch_max_age of 0"}[i/len(allModes)]
	pending := after == "pending input"
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	inf.Script(func(w *Write) Action { return Action{Status: 500} })
	w := newWorks(c, n, inf, mode, fmt.Sprintf("idle%d", i), func(conf *config.Config) {
		conf.StatsInterval = dur(300 * time.Millisecond)
		if pending {
			conf.BatchMaxCount = 1000
			conf.BatchMaxAge = dur(time.Hour)
			if mode == "writer" { // the batch waits for its retry
				conf.BatchMaxCount = 1
				conf.WriterRetryInterval = dur(time.Hour)
				conf.WriterRetryTimeout = dur(2 * time.Hour)
			}
			if mode == "downsampler" {
				conf.DownsamplePeriod = dur(time.Hour)
			}
		} else {
			conf.BatchMaxAge = dur(50 * time.Millisecond)
			if strings.HasSuffix(after, "of 0") {
				conf.BatchMaxAge = dur(0)
			}
		}
	})
	defer w.close()
	ch := startSpout(c, w.conf)
	defer ch.Stop()
	if pending {
		for k := 0; k < 3; k++ {
			if err := w.send(k); err != nil {
				c.Infra("%v", err)
			}
		}
	}
	if after == "empty input" {
		for k := 0; k < 5; k++ {
			for _, data := range []string{"\n\n", "\n", ""} {
				switch mode {
				case "listener":
					conn := udpDial(c, w.conf.Port)
					conn.Write([]byte(data))
					conn.Close()
				case "listener_http":
					for _, q := range []string{"", "?precision=s"} {
						resp, err := w.cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write%s", w.conf.Port, q), "text/plain", strings.NewReader(data))
						if err != nil {
							ch.MustLive("given empty input")
							c.Infra("%v", err)
						}
						resp.Body.Close()
					}
				case "monitor":
					publish(c, w.nc, w.conf.NATSSubjectMonitor, []byte(data))
				default:
					publish(c, w.nc, w.conf.NATSSubject[0], []byte(data))
				}
			}
		}
		flush(c, w.nc)
	}
	// Several tries, as it is about to become idle in the first.
	var used, worst time.Duration
	for k := 0; k < 4; k++ {
		time.Sleep(300 * time.Millisecond)
		start, t := cpuTime(c, ch), time.Now()
		time.Sleep(time.Second)
		used = cpuTime(c, ch) - start
		used = used * time.Second / time.Since(t)
		if used > worst {
			worst = used
		}
		if used < 500*time.Millisecond {
			break
		}
	}
	ch.MustLive("idle")
	if used >= 500*time.Millisecond {
		c.Fatal("idle %s after %s uses %v of CPU time per second", mode, after, used)
	}
	c.ObsMax("CPU time per second while idle (ms)", int(used/time.Millisecond))
	c.Eval(fmt.Sprintf("idle %s %s", mode, after), true)
}
