package harness

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/probes"
)

func init() { register("C24", checkC24) }

func checkC24(c *Ctx) {
	c.Scenario("api", func() { c.Pool(4, c.N(8, 60), func(i int) { c24api(c, i) }) })
	c.Scenario("api concurrent", func() { c.Pool(3, c.N(6, 40), func(i int) { c24concurrent(c, i) }) })
	c.Scenario("first ready", func() { c24ready(c, false, c.N(8, 60)) })
	c.Scenario("first ready, slow network", func() { c24ready(c, true, c.N(3, 20)) })
	c.Scenario("silent NATS", func() { c24silent(c) })
	c.Scenario("shutdown", func() { c24shutdown(c) })
	c.Scenario("shutdown, stalled NATS", func() { c24stalled(c) })
	c.Scenario("stop at once", func() { c24atOnce(c) })
}

// c24api walks the states; every answer has to be the last state set.
func c24api(c *Ctx, i int) {
	r := c.Rand(fmt.Sprint("api", i))
	port := freePort()
	if i%8 == 0 { // disabled probes do nothing
		p := probes.Listen([]int{0, -1}[r.Intn(2)])
		p.SetAlive(true)
		p.SetReady(true)
		p.Close()
	}
	var cl *http.Client
	if i%2 == 0 {
		cl = httpClient()
	} else {
		cl = probeClient
	}
	for round := 0; round < 3; round++ {
		p := probes.Listen(port)
		alive, ready := true, false
		ask := func(path string, want bool) {
			var err error
			var code int
			ok := Until(longWait, func() bool { // (the port is opened in the background)
				u := fmt.Sprintf("http://127.0.0.1:%d/%s", port, path)
				if r.Intn(4) != 0 {
					code, _, err = httpGet(cl, u)
					return err == nil
				}
				var resp *http.Response
				if resp, err = cl.Head(u); err == nil {
					resp.Body.Close()
					code = resp.StatusCode
				}
				return err == nil
			})
			if !ok {
				c.Fatal("/%s doesn't answer: %v", path, err)
			}
			exp := 503
			if want {
				exp = 200
			}
			if code != exp {
				c.Fatal("alive=%v ready=%v: /%s answers %d", alive, ready, path, code)
			}
			c.Eval(fmt.Sprintf("api/%v/%v/%s/%d", alive, ready, path, round), true)
		}
		for k := 0; k < 40; k++ {
			switch r.Intn(4) {
			case 0:
				alive = r.Intn(2) == 0
				p.SetAlive(alive)
			case 1:
				ready = r.Intn(2) == 0
				p.SetReady(ready)
			}
			if r.Intn(2) == 0 {
				ask("healthz", alive)
			} else {
				ask("readyz", ready)
			}
		}
		if !Within(longWait, p.Close) {
			c.Fatal("Close() of the probes doesn't return")
		}
		if tcpOpen(port) {
			c.Fatal("the probe port is open after Close()")
		}
	}
}

// c24concurrent has one goroutine per state which changes it, and readers
// which may only see a state that was set before the request ended and
// not replaced before it began.
func c24concurrent(c *Ctx, i int) {
	port := freePort()
	p := probes.Listen(port)
	defer p.Close()
	c.Must("the probe port opens", func() bool { return tcpOpen(port) })
	type log struct {
		begun, done int64 // number of sets
	}
	var logs [2]log
	logs[0].begun, logs[0].done = 1, 1 // alive: starts true; ready starts false
	// After k sets, the state is odd(k).
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for s := 0; s < 2; s++ {
		s := s
		r := c.Rand(fmt.Sprint("set", i, s))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				k := atomic.AddInt64(&logs[s].begun, 1)
				if s == 0 {
					p.SetAlive(k%2 == 1)
				} else {
					p.SetReady(k%2 == 1)
				}
				atomic.AddInt64(&logs[s].done, 1)
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			}
		}()
	}
	cl := httpClient()
	defer cl.CloseIdleConnections()
	c.Pool(4, c.N(400, 3000), func(j int) {
		s := j % 2
		path := []string{"healthz", "readyz"}[s]
		from := atomic.LoadInt64(&logs[s].done)
		code, _, err := httpGet(cl, fmt.Sprintf("http://127.0.0.1:%d/%s", port, path))
		to := atomic.LoadInt64(&logs[s].begun)
		if err != nil {
			c.Fatal("/%s: %v", path, err)
		}
		if code != 200 && code != 503 {
			c.Fatal("/%s answers %d", path, code)
		}
		if from == to {
			if (code == 200) != (from%2 == 1) {
				c.Fatal("/%s answers %d although the state was %v from before the request until after the answer", path, code, from%2 == 1)
			}
			c.Eval(fmt.Sprintf("settled/%s/%d", path, code), true)
			c.Obs("answers with a settled state", 1)
		}
	})
	close(stop)
	wg.Wait()
}

// slowProxy forwards TCP connections, holding every byte back for a while.
type slowProxy struct {
	ln    net.Listener
	delay time.Duration
	mute  bool        // never forward anything
	stall atomic.Bool // forward nothing to the target for now
	mu    sync.Mutex
	conns []net.Conn
}

func newSlowProxy(c *Ctx, target string, delay time.Duration, mute bool) *slowProxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Infra("%v", err)
	}
	p := &slowProxy{ln: ln, delay: delay, mute: mute}
	go func() {
		for {
			a, err := ln.Accept()
			if err != nil {
				return
			}
			p.keep(a)
			if mute {
				continue
			}
			b, err := net.Dial("tcp", target)
			if err != nil {
				a.Close()
				continue
			}
			p.keep(b)
			go p.pump(a, b, &p.stall)
			go p.pump(b, a, nil)
		}
	}()
	return p
}

func (p *slowProxy) keep(conn net.Conn) {
	p.mu.Lock()
	p.conns = append(p.conns, conn)
	p.mu.Unlock()
}

func (p *slowProxy) pump(from, to net.Conn, stall *atomic.Bool) {
	type chunk struct {
		b  []byte
		at time.Time
	}
	ch := make(chan chunk, 10000)
	go func() {
		for k := range ch {
			time.Sleep(time.Until(k.at.Add(p.delay)))
			to.Write(k.b)
		}
		to.Close()
	}()
	for {
		for stall != nil && stall.Load() {
			time.Sleep(time.Millisecond)
		}
		buf := make([]byte, 4096)
		n, err := from.Read(buf)
		if n > 0 {
			ch <- chunk{buf[:n], time.Now()}
		}
		if err != nil {
			close(ch)
			return
		}
	}
}

func (p *slowProxy) Close() {
	p.ln.Close()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, conn := range p.conns {
		conn.Close()
	}
}

func (p *slowProxy) url() string { return "nats://" + p.ln.Addr().String() }

// c24ready: input sent right after the first positive answer has to be
// processed.
func c24ready(c *Ctx, slow bool, rounds int) {
	c.Sample("component started while /readyz is polled; input is sent at its first 200 (NATS delayed by 60 ms: %v)", slow)
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	c.Pool(6, rounds*len(allModes), func(i int) {
		mode := allModes[i%len(allModes)]
		w := newWorks(c, n, inf, mode, fmt.Sprintf("r%v%d", slow, i), nil)
		defer w.close()
		if slow {
			p := newSlowProxy(c, fmt.Sprintf("127.0.0.1:%d", n.Port), 60*time.Millisecond, false)
			defer p.Close()
			w.conf.NATSAddress = p.url()
		}
		var comp Comp
		var err error
		started := make(chan struct{})
		go func() {
			comp, err = startComp(w.conf)
			close(started)
		}()
		end := eff() + longWait
		probesSeen := 0
		for {
			code := probe(w.conf.ProbePort, "readyz")
			if code == 200 {
				break
			}
			if code == 503 {
				probesSeen++
			}
			if code != 0 && code != 503 {
				c.Fatal("%s: /readyz answers %d", mode, code)
			}
			if eff() > end {
				c.Fatal("%s never becomes ready", mode)
			}
			time.Sleep(time.Duration(i%7) * 300 * time.Microsecond)
		}
		if err := w.send(1); err != nil {
			c.Fatal("%s: input sent after the first positive /readyz is refused: %v", mode, err)
		}
		if h := probe(w.conf.ProbePort, "healthz"); h != 200 {
			c.Fatal("%s: ready but /healthz answers %d", mode, h)
		}
		if !Until(longWait, func() bool { return w.seen(1) }) {
			c.Fatal("%s: input sent after the first positive /readyz isn't processed (slow network: %v)", mode, slow)
		}
		<-started
		if err != nil {
			c.Fatal("%s doesn't start: %v", mode, err)
		}
		if code := probe(w.conf.ProbePort, "readyz"); code != 200 {
			c.Fatal("%s: /readyz answers %d while running", mode, code)
		}
		c.StopComp(comp)
		if tcpOpen(w.conf.ProbePort) {
			c.Fatal("%s: the probe port is open after Stop()", mode)
		}
		c.Eval(fmt.Sprintf("ready/%s/slow=%v/notyet=%v", mode, slow, probesSeen > 0), true)
		c.Obs("starts observed", 1)
		c.Obs("negative /readyz answers before the first positive one", probesSeen)
	})
}

// c24silent: a NATS server which accepts the connection but never says
// anything. The component is alive but not ready until it gives up.
func c24silent(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	c.Pool(6, len(allModes), func(i int) {
		mode := allModes[i]
		w := newWorks(c, n, inf, mode, fmt.Sprintf("s%d", i), nil)
		defer w.close()
		p := newSlowProxy(c, "", 0, true)
		defer p.Close()
		w.conf.NATSAddress = p.url()
		var err error
		var comp Comp
		done := make(chan struct{})
		go func() {
			comp, err = startComp(w.conf)
			close(done)
		}()
		answers := 0
		end := eff() + longWait + 20*time.Second
		for over := false; !over; {
			select {
			case <-done:
				over = true
				continue
			default:
			}
			h, rd := probe(w.conf.ProbePort, "healthz"), probe(w.conf.ProbePort, "readyz")
			select {
			case <-done: // these answers may be of the shutdown
				over = true
				continue
			default:
			}
			if rd == 200 {
				c.Fatal("%s: /readyz answers 200 without a connection to NATS", mode)
			}
			if h == 200 && rd == 503 {
				answers++
			}
			if eff() > end {
				c.Fatal("%s: starting with a silent NATS server doesn't end", mode)
			}
			time.Sleep(20 * time.Millisecond)
		}
		if err == nil {
			comp.Stop()
			c.Fatal("%s starts without NATS", mode)
		}
		if answers == 0 {
			c.Fatal("%s: the probes didn't answer 200 (/healthz) and 503 (/readyz) while it was starting", mode)
		}
		if tcpOpen(w.conf.ProbePort) {
			c.Fatal("%s: the probe port is open after a failed start", mode)
		}
		c.Eval("silent/"+mode, true)
		c.Obs("answers while starting", answers)
	})
}

// c24shutdown: components whose shutdown takes some time.
func c24shutdown(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	c.Pool(8, c.N(12, 60), func(i int) {
		mode := []string{"writer", "writer", "listener", "listener"}[i%4]
		inf := startInflux(c)
		defer inf.Stop()
		hold := make(chan struct{})
		var once sync.Once
		release := func() { once.Do(func() { close(hold) }) }
		defer release()
		w := newWorks(c, n, inf, mode, fmt.Sprintf("sd%d", i), func(conf *config.Config) {
			conf.WriterRetryBatches = i / 4 % 2
			conf.Workers = 1 + i%3
		})
		defer w.close()
		comp := c.Start(w.conf)
		w.processes(1, "before the shutdown")
		if mode == "writer" {
			inf.Script(func(*Write) Action { return Action{Hold: hold} })
			b := inf.Begun()
			w.send(2)
			c.Must("the writer writes", func() bool { return inf.Begun() > b })
		}
		if probe(w.conf.ProbePort, "readyz") != 200 || probe(w.conf.ProbePort, "healthz") != 200 {
			c.Fatal("%s: not alive and ready while running", mode)
		}
		// For a while the UDP listener waits for the next datagram.
		if mode == "listener" {
			time.Sleep(time.Duration(i%5) * 30 * time.Millisecond)
			w.processes(3, "before the shutdown")
		}
		done := make(chan struct{})
		begin := eff()
		go func() {
			comp.Stop()
			close(done)
		}()
		if mode == "writer" {
			go func() {
				time.Sleep(800 * time.Millisecond)
				release()
			}()
		}
		// Whoever asks some time after that gets a 503 from both until
		// Stop() returned.
		time.Sleep(100 * time.Millisecond)
		seen := 0
		for !isClosed(done) {
			// Stop() had started for sure as soon as one answer was 503.
			h, rd := probe(w.conf.ProbePort, "healthz"), probe(w.conf.ProbePort, "readyz")
			if isClosed(done) {
				break
			}
			// The port is closed at the very end of Stop().
			if h == 0 || rd == 0 {
				if !Until(longWait, func() bool { return isClosed(done) }) {
					c.Fatal("%s: the probes don't answer during shutdown", mode)
				}
				if mode == "writer" && seen == 0 {
					c.Fatal("%s: the probe port was closed before the shutdown was over", mode)
				}
				break
			}
			if h != 503 || rd != 503 {
				if seen == 0 && eff()-begin < 400*time.Millisecond {
					time.Sleep(5 * time.Millisecond) // Stop() may not have got going
					continue
				}
				c.Fatal("%s: during shutdown /healthz answers %d, /readyz %d", mode, h, rd)
			}
			seen++
		}
		<-done
		if tcpOpen(w.conf.ProbePort) {
			c.Fatal("%s: the probe port is open after Stop()", mode)
		}
		c.Eval(fmt.Sprintf("shutdown/%s/%v", mode, seen > 0), true)
		c.Obs("answers during shutdown", seen)
	})
}

// c24stalled: components which are stopped while a NATS server takes nothing.
func c24stalled(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	c.Pool(4, c.N(8, 40), func(i int) {
		mode := []string{"filter", "downsampler", "listener_http", "listener"}[i%4]
		p := newSlowProxy(c, fmt.Sprintf("127.0.0.1:%d", n.Port), 0, false)
		defer p.Close()
		defer p.stall.Store(false)
		w := newWorks(c, n, inf, mode, fmt.Sprintf("st%d", i), func(conf *config.Config) {
			conf.NATSAddress = p.url()
			conf.Workers = 1 + i%3
		})
		defer w.close()
		comp := c.Start(w.conf)
		w.processes(1, "before the shutdown")
		p.stall.Store(true)
		// More than the buffers on the way take.
		var feeders sync.WaitGroup
		cl := &http.Client{Timeout: 3 * time.Second}
		defer cl.CloseIdleConnections()
		for k := 0; k < 16; k++ {
			var b bytes.Buffer
			for j := 0; b.Len() < 900000; j++ {
				fmt.Fprintf(&b, "cpu,id=%d.,k=%d,host=abcdefghijklmnopqrstuvwxyz v=1i\n", i, 100000*k+j)
			}
			switch mode {
			case "listener_http":
				feeders.Add(1)
				go func() {
					defer feeders.Done()
					resp, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write", w.conf.Port), "text/plain", &b)
					if err == nil {
						resp.Body.Close()
					}
				}()
			case "listener":
				conn := udpDial(c, w.conf.Port)
				for b.Len() > 0 {
					conn.Write(b.Next(60000))
					time.Sleep(100 * time.Microsecond)
				}
				conn.Close()
			default:
				publish(c, w.nc, w.conf.NATSSubject[0], b.Bytes())
			}
		}
		flush(c, w.nc)
		time.Sleep(time.Second)
		if mode == "downsampler" {
			time.Sleep(2 * time.Second) // it has much to work out
		}
		done := make(chan struct{})
		begin := eff()
		go func() {
			comp.Stop()
			close(done)
		}()
		go func() {
			time.Sleep(time.Second)
			p.stall.Store(false)
		}()
		seen := 0
		for !isClosed(done) {
			h, rd := probe(w.conf.ProbePort, "healthz"), probe(w.conf.ProbePort, "readyz")
			if isClosed(done) {
				break
			}
			if h == 0 || rd == 0 { // The port is closed at the very end.
				if !Until(longWait, func() bool { return isClosed(done) }) {
					c.Fatal("%s: stopped while NATS is stalled, the probes don't answer during shutdown", mode)
				}
				break
			}
			if h != 503 || rd != 503 {
				if seen == 0 && eff()-begin < 500*time.Millisecond {
					time.Sleep(5 * time.Millisecond) // Stop() may not have got going
					continue
				}
				c.Fatal("%s: during shutdown with a stalled NATS server /healthz answers %d, /readyz %d", mode, h, rd)
			}
			seen++
			if eff()-begin > longWait {
				c.Fatal("%s: Stop() doesn't return although NATS goes on; goroutines:\n%s", mode, joinShort(repoGoroutines()))
			}
		}
		feeders.Wait()
		if tcpOpen(w.conf.ProbePort) {
			c.Fatal("%s: the probe port is open after Stop()", mode)
		}
		c.Eval(fmt.Sprintf("stalled/%s/%v", mode, seen > 0), true)
		c.Obs("answers during shutdown with stalled NATS: "+mode, seen)
	})
}

func isClosed(ch chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// c24atOnce stops components right after they were started. Once Stop()
// was called there is no positive answer any more.
func c24atOnce(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	c.Pool(6, len(allModes)*c.N(4, 40), func(i int) {
		mode := allModes[i%len(allModes)]
		w := newWorks(c, n, inf, mode, fmt.Sprintf("o%d", i), nil)
		defer w.close()
		comp, err := startComp(w.conf)
		if err != nil {
			c.Fatal("%s doesn't start: %v", mode, err)
		}
		done := make(chan struct{})
		go func() {
			comp.Stop()
			close(done)
		}()
		var off [2]bool
		end := eff() + longWait
		for !isClosed(done) {
			for k, path := range []string{"healthz", "readyz"} {
				code := probe(w.conf.ProbePort, path)
				if code == 503 && (k == 0 || off[0]) {
					off[k] = true
				}
				if code == 200 && off[k] {
					c.Fatal("%s: /%s answers 200 again after Stop()", mode, path)
				}
			}
			if eff() > end {
				c.Fatal("%s: Stop() right after the start doesn't return", mode)
			}
		}
		if tcpOpen(w.conf.ProbePort) {
			c.Fatal("%s: the probe port is open after Stop()", mode)
		}
		c.Eval("atonce/"+mode, true)
	})
}
