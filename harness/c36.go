package harness

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"
)

// C36: slowinfluxd is met by many clients at the same time; the time
// from when a request was sent to when its answer came is measured.

func init() { register("C36", checkC36) }

func checkC36(c *Ctx) {
	c.Scenario("delays", func() { c.Pool(4, c.N(10, 60), func(i int) { c36run(c, i) }) })
	c.Scenario("defaults", func() { c36defaults(c) })
}

type c36res struct {
	took time.Duration
	code int
	body []byte
	err  error
}

func c36do(hc *http.Client, method, url string, body []byte) (x c36res) {
	req, err := http.NewRequest(method, url, bytes.NewReader(body))
	if err != nil {
		x.err = err
		return
	}
	t := time.Now()
	resp, err := hc.Do(req)
	x.took = time.Since(t)
	if err != nil {
		x.err = err
		return
	}
	defer resp.Body.Close()
	x.code = resp.StatusCode
	x.body, x.err = io.ReadAll(resp.Body)
	return
}

// c36up waits for the program to listen.
func c36up(c *Ctx, ch *Child, port int) {
	c.Must("slowinfluxd accepts connections on its port", func() bool {
		ch.MustLive("slowinfluxd starting")
		return tcpOpen(port)
	})
}

func c36run(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("delays%d", i))
	delay := []time.Duration{0, 50 * time.Millisecond, 300 * time.Millisecond, time.Second, 2 * time.Second}[i%5]
	if c.Thorough && i%20 == 7 {
		delay = 70 * time.Second
	}
	port := freePort()
	args := []string{fmt.Sprintf("-port=%d", port), fmt.Sprintf("-delay=%v", delay)}
	if r.Intn(2) == 0 {
		args[0], args[1] = args[1], args[0]
	}
	ch := startChild(c, "slowinfluxd", "slowinfluxd", args)
	defer ch.Stop()
	c36up(c, ch, port)
	base := fmt.Sprintf("http://127.0.0.1:%d", port)
	hc := &http.Client{Timeout: 120 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 200}}
	defer hc.CloseIdleConnections()

	// Answers to be waited for must not be held up by others: with K of
	// them at the same time, one after another takes K times the delay.
	for round := 0; round < 3; round++ {
		k := []int{1, 30, 120}[round]
		all := make([]c36res, k)
		urls := make([]string, k)
		start := time.Now()
		var wg sync.WaitGroup
		for j := 0; j < k; j++ {
			url := base + "/write"
			if r.Intn(3) > 0 {
				url += "?db=" + []string{"spout", "a%20b", "", "x&precision=s&u=me&p=secret"}[r.Intn(4)]
			}
			method := []string{"POST", "POST", "POST", "PUT", "GET"}[r.Intn(5)]
			var body []byte
			if method != "GET" {
				body = bytes.Repeat([]byte("cpu,host=a value=1 1\n"), []int{0, 1, 50, 1000, 10000}[r.Intn(5)])
			}
			urls[j] = fmt.Sprintf("%s %s with %d bytes", method, strings.TrimPrefix(url, base), len(body))
			wg.Add(1)
			go func() {
				defer wg.Done()
				all[j] = c36do(hc, method, url, body)
			}()
		}
		// Something else is answered at once, in the meantime.
		other := []string{"/", "/ping", "/query?q=SHOW+DATABASES", "/write/", "/writes", "/Write"}[r.Intn(6)]
		o := c36do(hc, []string{"GET", "POST"}[r.Intn(2)], base+other, nil)
		if o.err != nil || o.code != 404 {
			c.Fatal("slowinfluxd %v: %s is answered with %d %v, not 404", args, other, o.code, o.err)
		}
		wg.Wait()
		took := time.Since(start)
		c.Obs("delayed answers", k)
		ch.MustLive("slowinfluxd serving")
		ch.NoPanic("slowinfluxd serving")
		for j, x := range all {
			if x.err != nil {
				c.Fatal("slowinfluxd %v: %s isn't answered: %v", args, urls[j], x.err)
			}
			if x.code != 204 || len(x.body) != 0 {
				c.Fatal("slowinfluxd %v: %s is answered with %d %q, not an empty 204", args, urls[j], x.code, short(x.body))
			}
			if x.took < delay {
				c.Fatal("slowinfluxd %v: %s is answered after %v", args, urls[j], x.took)
			}
			c.Sample("%v: %s answered %d after %v, with %d others", args, urls[j], x.code, x.took, k-1)
			c.Eval(fmt.Sprintf("%s delay %v of %d", urls[j], delay, k), true)
		}
		// Generous: with 10 at a time, 120 would take 12 delays.
		if max := 4*delay + 15*time.Second; k == 120 && took > max && took > time.Duration(k/12)*delay {
			c.Fatal("slowinfluxd %v: %d requests at the same time take %v in total", args, k, took)
		}
		if delay >= time.Second && k > 1 {
			// Judged more closely, unless the machine is busy.
			late := 0
			for _, x := range all {
				if x.took > delay+delay*3/4 {
					late++
				}
			}
			if late > 0 {
				c36again(c, hc, base, args, delay)
			}
			c.Obs("waits judged closely", k)
		}
	}

	// A client may close its side of the connection after the request.
	for _, body := range []string{"", "m v=1\n"} {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			c.Fatal("slowinfluxd %v doesn't accept connections: %v", args, err)
		}
		start := time.Now()
		fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
		conn.(*net.TCPConn).CloseWrite()
		conn.SetReadDeadline(time.Now().Add(delay + longWait))
		b, err := io.ReadAll(conn)
		if took := time.Since(start); err != nil || !bytes.HasPrefix(b, []byte("HTTP/1.1 204 ")) || took < delay {
			c.Fatal("slowinfluxd %v: a client that closes its side after the request gets %q %v after %v", args, short(b), err, took)
		}
		conn.Close()
		c.Eval("half closed", true)
	}

	// Clients which go away don't matter.
	for j := 0; j < 20; j++ {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			c.Fatal("slowinfluxd %v doesn't accept connections: %v", args, err)
		}
		io.WriteString(conn, []string{
			"POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\n0123456789",
			"POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n0123456789",
			"POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 999999999999\r\n\r\n0123456789",
			"garbage\r\n\r\n",
		}[j%4])
		if j%3 == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		conn.Close()
	}
	x := c36do(hc, "POST", base+"/write?db=x", []byte("cpu a=1 1\n"))
	if x.err != nil || x.code != 204 || x.took < delay {
		c.Fatal("slowinfluxd %v: after clients which went away a write gets %d %v after %v", args, x.code, x.err, x.took)
	}
	ch.MustLive("slowinfluxd serving")
	ch.NoPanic("slowinfluxd serving")
	c.Eval("clients which go away", true)
}

// c36again decides whether answers are held up by others: that of one
// sent when many wait already takes about the delay, at least in one of
// several tries.
func c36again(c *Ctx, hc *http.Client, base string, args []string, delay time.Duration) {
	best := time.Hour
	for try := 0; try < 5; try++ {
		var wg sync.WaitGroup
		for j := 0; j < 119; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c36do(hc, "POST", base+"/write?db=x", []byte("cpu a=1 1\n"))
			}()
		}
		time.Sleep(delay / 4)
		x := c36do(hc, "POST", base+"/write?db=x", []byte("cpu a=1 1\n"))
		wg.Wait()
		if x.err == nil && x.took < best {
			best = x.took
		}
		if best < delay+delay/2 {
			return
		}
	}
	c.Fatal("slowinfluxd %v: a write sent while 119 others wait is answered after %v at best", args, best)
}

// c36defaults: port 8086 and 30 s.
func c36defaults(c *Ctx) {
	// If something else uses the port, only the delay can be observed.
	port, args := 8086, []string{}
	if l, err := net.Listen("tcp", ":8086"); err != nil {
		port = freePort()
		args = append(args, fmt.Sprintf("-port=%d", port))
	} else {
		l.Close()
	}
	ch := startChild(c, "slowinfluxd", "slowinfluxd", args)
	defer ch.Stop()
	c36up(c, ch, port)
	hc := &http.Client{Timeout: 100 * time.Second}
	x := c36do(hc, "POST", fmt.Sprintf("http://127.0.0.1:%d/write?db=x", port), []byte("cpu a=1 1\n"))
	if x.err != nil || x.code != 204 || x.took < 30*time.Second {
		c.Fatal("slowinfluxd %v: a write gets %d %v after %v", args, x.code, x.err, x.took)
	}
	c.Eval("defaults", true)

	// A second one on the same port, and wrong arguments, are errors.
	for _, a := range [][]string{
		{fmt.Sprintf("-port=%d", port)},
		{"-port=x"}, {"-delay=10"}, {"-delay=soon"}, {"-unknown"}, {"-port=99999999"},
	} {
		ch2 := startChild(c, "slowinfluxd", "slowinfluxd", a)
		select {
		case <-ch2.done:
		case <-time.After(30 * time.Second):
			ch2.Stop()
			c.Fatal("slowinfluxd %v keeps running", a)
		}
		if st := ch2.cmd.ProcessState.ExitCode(); st <= 0 {
			c.Fatal("slowinfluxd %v ends with status %d", a, st)
		}
		if s := ch2.Log(); strings.TrimSpace(s) == "" || strings.Contains(s, "goroutine ") {
			c.Fatal("slowinfluxd %v: no proper message about what's wrong: %s", a, s)
		}
		c.Obs("errors", 1)
		c.Eval("error "+strings.SplitN(a[0], "=", 2)[0], true)
	}
	ch.MustLive("slowinfluxd")
}
