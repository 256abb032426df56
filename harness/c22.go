package harness

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C22", checkC22) }

// Every component runs as a process of its own, so that whatever ends it
// is seen (and doesn't end the harness).
func checkC22(c *Ctx) {
	all := []struct {
		name string
		f    func(*Ctx)
	}{
		{"udp", c22udp}, {"http", c22http}, {"filter", c22filter}, {"writer", c22writer},
		{"writer with rules", c22writerRules}, {"downsampler", c22downsampler}, {"monitor", c22monitor}, {"influxdb", c22influx},
		{"probes", c22probes}, {"heavy lines", c22heavy},
	}
	garbageSamples(c)
	for k := 0; k < c.N(1, 3); k++ {
		c.Scenario(fmt.Sprintf("all%d", k), func() {
			var fs []func()
			for _, s := range all {
				s := s
				fs = append(fs, func() { s.f(c) })
			}
			c.Go(fs...)
		})
	}
}

// ---------------------------------------------------------------------
// Garbage

var gTokens = []string{",", "=", " ", `\`, `"`, "\t", "\x00", "\r", "i", "t", "true", "-", "+", ".", "e", "1", "99999999999999999999", "NaN", "-9223372036854775808", "9223372036854775807i",
	`\ `, `\,`, `\=`, `\\`, `\"`, "mut", "é", "\xff", "\xc3", "日", "#", "{", "}", "%", "$", "1500000000000000000", "=i", "==", ",,", "  ", `""`, `"\`, "u", "\v", "\u2028"}

// garbageLine makes something without newline which isn't a good line.
func garbageLine(r *rand.Rand) (string, string) {
	switch r.Intn(9) {
	case 0: // random bytes
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return strings.ReplaceAll(string(b), "\n", ""), "bytes"
	case 1, 2: // random tokens
		var b strings.Builder
		for n := r.Intn(12); n >= 0; n-- {
			b.WriteString(gTokens[r.Intn(len(gTokens))])
		}
		return b.String(), "tokens"
	case 3, 4, 5: // a mutated line
		l, _ := genLine(r, []string{"", fmt.Sprint(time.Now().UnixNano()), "1", "123456789012345678901234567890"}[r.Intn(4)], r.Intn(2) == 0)
		l.Meas = "mut" + l.Meas
		b := []byte(l.String())
		for n := r.Intn(4); n >= 0 && len(b) > 0; n-- {
			p := r.Intn(len(b))
			switch r.Intn(5) {
			case 0:
				b = append(b[:p:p], b[p+1:]...)
			case 1:
				b = append(append(append([]byte(nil), b[:p]...), gTokens[r.Intn(len(gTokens))]...), b[p:]...)
			case 2:
				b = b[:p]
			case 3:
				b[p] = byte(r.Intn(256))
			case 4:
				q := p + r.Intn(len(b)-p)
				b = append(b[:q:q], b[p:]...)
			}
		}
		return strings.ReplaceAll(string(b), "\n", ""), "mutated"
	case 6: // long things
		n := []int{100, 1000, 5000, 20000}[r.Intn(4)]
		unit := gTokens[r.Intn(len(gTokens))]
		return "mut" + strings.Repeat(unit, n/len(unit)), "long"
	case 7: // many tags or fields
		var b strings.Builder
		b.WriteString("mut")
		for n := r.Intn(300); n > 0; n-- {
			fmt.Fprintf(&b, ",t%d=%d", r.Intn(1000), n)
		}
		b.WriteString(" ")
		for n := r.Intn(300); n > 0; n-- {
			fmt.Fprintf(&b, "f%d=%di,", r.Intn(1000), n)
		}
		return b.String(), "wide"
	}
	return []string{"", " ", ",", "=", "mut", "mut ", "mut,", "mut x", "mut x=", "mut x=\"", "mut x=1 2 3", "mut,=,= =", "mut,a=b", "mut,a=b ", "mut \x00=1", "mut x=1i2", "mut x=i",
		"mut x=t,y=f,z=", "mut x=1 -1", "mut x=1 9223372036854775808", "mut x=\"\\\"", "mut x=\"a\",", "\\", "\\ \\", "mut\\", "mut,a\\=b=c\\ d x=1"}[r.Intn(26)], "short"
}

// soup mixes good lines and garbage, in lines of their own.
func soup(r *rand.Rand, good func() string, n int, ev func(kind string, l int)) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			b = append(b, good()...)
		} else {
			g, kind := garbageLine(r)
			ev(kind, len(g))
			b = append(b, g...)
		}
		b = append(b, '\n')
	}
	return b
}

// garbageSamples shows what garbage looks like.
func garbageSamples(c *Ctx) {
	r := c.Rand("samples")
	for i := 0; i < 8; i++ {
		g, kind := garbageLine(r)
		c.Sample("%s: %s", kind, short([]byte(g)))
	}
}

func (c *Ctx) evGarbage(where, kind string, n int) {
	size := 0
	for n > 0 {
		n /= 4
		size++
	}
	c.Eval(fmt.Sprintf("%s/%s/%d", where, kind, size), true)
	c.Obs("garbage inputs to "+where, 1)
}

// goodLines makes unique lines and remembers them.
type goodLines struct {
	mu   sync.Mutex
	tag  string
	ts   bool
	n    int
	want map[string]int
}

func (g *goodLines) next() string {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.n++
	l := fmt.Sprintf("good,a=%s,b=%d v=%di,s=\"x y\"", g.tag, g.n, g.n)
	if g.ts {
		l += fmt.Sprintf(" %d", time.Now().UnixNano())
	}
	g.want[l+"\n"]++
	return l
}

func newGood(tag string, ts bool) *goodLines {
	return &goodLines{tag: tag, ts: ts, want: map[string]int{}}
}

// goodIn counts the good lines in some output.
func goodIn(out []byte) map[string]int {
	m := map[string]int{}
	for l, n := range countLines(out) {
		if strings.HasPrefix(l, "good,") {
			m[l] = n
		}
	}
	return m
}

// await waits until exactly the good lines came out.
func (g *goodLines) await(c *Ctx, ch *Child, what string, out func() []byte) {
	size := 0
	UntilProgress(longWait, func() int { n := len(out()); return n }, func() bool {
		b := out()
		size = len(b)
		return !ch.Alive() || len(goodIn(b)) >= len(g.want)
	})
	ch.MustLive(what)
	got := goodIn(out())
	g.mu.Lock()
	defer g.mu.Unlock()
	if d := diffCounts(g.want, got); d != "" {
		c.Fatal("%s: good lines sent with garbage: %s (%d bytes of output)", what, d, size)
	}
	c.Obs("good lines checked", len(g.want))
}

// ---------------------------------------------------------------------

func c22udp(c *Ctx) {
	r := c.Rand("udp")
	n := startNats(c)
	defer n.Stop()
	rec := n.Record("in")
	defer rec.Close()
	conf := baseConf(n, "listener")
	conf.Port = freePort()
	conf.BatchMaxCount = 3
	conf.BatchMaxAge = dur(50 * time.Millisecond)
	ch := startSpout(c, conf)
	defer ch.Stop()
	s := newUDPSender(c, conf.Port)
	var want []byte
	send := func(b []byte) {
		s.send(b)
		want = append(want, b...)
		if len(b) > 0 && b[len(b)-1] != '\n' {
			want = append(want, '\n')
		}
	}
	for i := 0; i < c.N(3000, 8000) && ch.Alive(); i++ {
		send([]byte(fmt.Sprintf("good,i=%d v=1", i)))
		g, kind := garbageLine(r)
		b := []byte(g)
		switch r.Intn(12) {
		case 0:
			b, kind = make([]byte, 65507), "largest"
			r.Read(b)
		case 1:
			b, kind = nil, "empty"
		case 2:
			b, kind = bytes.Repeat([]byte{'\n'}, 1+r.Intn(5)), "newlines"
		case 3:
			b = append(b, "\n\n\r\n"...)
		case 4:
			b, kind = make([]byte, r.Intn(3000)), "zeros"
		}
		send(b)
		c.evGarbage("the UDP listener", kind, len(b))
	}
	UntilProgress(longWait, rec.Size, func() bool { return rec.Size() >= len(want) || !ch.Alive() })
	ch.MustLive("garbage datagrams")
	if s.dropped() {
		c.Infra("datagrams dropped by the kernel")
	}
	if got := rec.Bytes(""); !bytes.Equal(got, want) {
		c.Fatal("UDP listener, garbage datagrams: %s", firstDiff(want, got))
	}
}

var badHTTP = []string{
	"", "\r\n\r\n", "GET", "GET / HTTP/1.1\r\n\r\n", "POST /write HTTP/1.1\r\n\r\n", "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n",
	"POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 99999999999999999999\r\n\r\nabc", "POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\nabc",
	"POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\nabc", "POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nxyz\r\n",
	"POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: gzip\r\n\r\nabc", "POST /write?precision=%zz HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc",
	"POST /write?precision=s HTTP/1.1\r\nHost: x\r\nContent-Length: 1152921504606846976\r\n\r\nabc 1\n", "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 9223372036854775807\r\n\r\nabc 1\n",
	"GET /metrics HTTP/1.1\r\nHost: x\r\nContent-Length: 1152921504606846976\r\n\r\nabc", "GET /readyz HTTP/1.1\r\nHost: x\r\nContent-Length: 1152921504606846976\r\n\r\nabc",
	"POST /write?precision=s HTTP/1.1\r\nHost: x\r\nContent-Length: 30\r\n\r\nabc 1\ncut of", "POST //write HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n",
	"POST /%2e%2e/write HTTP/1.1\r\nHost: x\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "DELETE /write HTTP/1.0\r\n\r\n", "OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",
	"POST /write HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\n", "POST /write HTTP/1.1\r\nHost: x\r\nConnection: upgrade\r\nUpgrade: h2c\r\nContent-Length: 0\r\n\r\n",
	"POST /write HTTP/9.9\r\nHost: x\r\n\r\n", "GET /write?precision=s&precision=x HTTP/1.1\r\nHost: x\r\n\r\n", "HEAD /metrics HTTP/1.1\r\nHost: x\r\n\r\n", "GET /metrics HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\n",
	"GET /readyz HTTP/1.1\r\nHost: x\r\nRange: bytes=0-\r\n\r\n", "POST /healthz HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n",
}

// rawGarbage opens a connection, sends something and goes away.
func rawGarbage(r *rand.Rand, port int) (string, int) {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 10*time.Second)
	if err != nil {
		return "refused", 0
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(2 * time.Second))
	req, kind := badHTTP[r.Intn(len(badHTTP))], "request"
	switch r.Intn(8) {
	case 0:
		b := make([]byte, r.Intn(2000))
		r.Read(b)
		req, kind = string(b), "random"
	case 1:
		req, kind = "POST /write HTTP/1.1\r\nHost: x\r\nX: "+strings.Repeat("h", []int{1000, 100000, 2000000}[r.Intn(3)])+"\r\n\r\n", "huge header"
	case 2:
		req, kind = "POST /write?precision="+strings.Repeat("s", r.Intn(50000))+" HTTP/1.1\r\nHost: x\r\nContent-Length: 2\r\n\r\na\n", "long query"
	case 3:
		req = req[:r.Intn(len(req)+1)]
	}
	io.WriteString(conn, req)
	if r.Intn(3) == 0 {
		conn.(*net.TCPConn).SetLinger(0)
	} else {
		conn.(*net.TCPConn).CloseWrite()
		io.Copy(io.Discard, io.LimitReader(conn, 100))
	}
	return kind, len(req)
}

func c22http(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	rec := n.Record("in")
	defer rec.Close()
	conf := baseConf(n, "listener_http")
	conf.Port = freePort()
	conf.BatchMaxCount = 3
	conf.BatchMaxAge = dur(50 * time.Millisecond)
	ch := startSpout(c, conf)
	defer ch.Stop()
	g := newGood("http", false)
	client := httpClient()
	client.Timeout = longWait + 10*time.Second
	defer client.CloseIdleConnections()
	c.Pool(4, c.N(1500, 4000), func(i int) {
		r := c.Rand(fmt.Sprint("http", i))
		if !ch.Alive() {
			ch.MustLive("garbage requests")
		}
		if r.Intn(2) == 0 {
			kind, l := rawGarbage(r, conf.Port)
			c.evGarbage("the HTTP listener", kind, l)
		}
		body := soup(r, g.next, 1+r.Intn(30), func(kind string, l int) { c.evGarbage("the HTTP listener", kind, l) })
		q := []string{"", "?precision=s", "?precision=ns", "?precision=xx", "?precision=h&db=%00", "?precision=u", "?precision=ms&precision=s"}[r.Intn(7)]
		resp, err := client.Post(fmt.Sprintf("http://127.0.0.1:%d/write%s", conf.Port, q), "text/plain", bytes.NewReader(body))
		ch.MustLive(fmt.Sprintf("request with body %s", short(body)))
		if err != nil {
			c.Fatal("HTTP listener doesn't accept a write among garbage: %v", err)
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		if resp.StatusCode != 204 {
			c.Fatal("write of garbage and good lines answered with %s", resp.Status)
		}
	})
	if !c.Failed() {
		g.await(c, ch, "HTTP listener", func() []byte { return normMsgs(rec.Msgs("")) })
	}
	ch.NoPanic("garbage requests")
}

func c22filter(c *Ctx) {
	r := c.Rand("filter")
	n := startNats(c)
	defer n.Stop()
	rec := n.Record("good")
	defer rec.Close()
	nc := n.Connect()
	defer nc.Close()
	conf := baseConf(n, "filter")
	conf.Workers = 3
	conf.Rule = []config.Rule{
		{Rtype: "tags", Tags: [][]string{{"x", "y"}, {"", ""}}, Subject: "t"},
		{Rtype: "basic", Match: "mut", Subject: "m"},
		{Rtype: "regex", Match: "^(good,a=filter,b=[0-9]+ v=[0-9]+i,s=|grow,)", Subject: "good"},
		{Rtype: "negregex", Match: "a", Subject: "nota"},
	}
	ch := startSpout(c, conf)
	defer ch.Stop()
	g := newGood("filter", false)
	for i := 0; i < c.N(4000, 10000) && ch.Alive(); i++ {
		b := soup(r, func() string { return g.next() }, 1+r.Intn(30), func(kind string, l int) { c.evGarbage("the filter", kind, l) })
		if r.Intn(4) == 0 { // without final newline
			x, kind := garbageLine(r)
			c.evGarbage("the filter", kind, len(x))
			b = append(b, x...)
		}
		publish(c, nc, "in", b)
		if i%20 == 0 {
			publish(c, nc, "in", nil)
			flush(c, nc)
		}
	}
	// Garbage that gets longer when it's passed on, in messages that are
	// about as large as NATS allows.
	for i := 0; i < c.N(12, 40) && ch.Alive(); i++ {
		var b []byte
		lines := 1 << uint(r.Intn(12)) // of 250 bytes and more
		for k := 0; k < lines; k++ {
			for n := r.Intn(3); n > 0; n-- {
				b = append(b, g.next()+"\n"...)
			}
			b = append(b, fmt.Sprintf("grow,z=%s,a=1 v=1\n", strings.Repeat("=", 750000/lines-50))...)
			c.evGarbage("the filter", "grows", 750000/lines)
		}
		b = append(b, g.next()+"\n"...)
		if len(b) <= 1<<20 {
			publish(c, nc, "in", b)
		} else {
			c.Infra("message too large")
		}
		flush(c, nc)
	}
	flush(c, nc)
	g.await(c, ch, "filter", func() []byte { return normMsgs(rec.Msgs("")) })
}

func c22writer(c *Ctx) {
	r := c.Rand("writer")
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	nc := n.Connect()
	defer nc.Close()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 1
	conf.BatchMaxCount = 5
	conf.BatchMaxAge = dur(100 * time.Millisecond)
	conf.BatchMaxSize = datasize.ByteSize(3000)
	ch := startSpout(c, conf)
	defer ch.Stop()
	var want []byte
	for i := 0; i < c.N(2000, 5000) && ch.Alive(); i++ {
		b := []byte(fmt.Sprintf("good,i=%d v=1\n", i))
		b = soup(r, func() string { return "good,x=y z=1" }, r.Intn(30), func(kind string, l int) { c.evGarbage("the writer", kind, l) })
		want = append(want, b...)
		publish(c, nc, "in", b)
		if i%50 == 0 {
			publish(c, nc, "in", nil)
		}
	}
	flush(c, nc)
	UntilProgress(longWait, inf.AcceptedSize, func() bool { return inf.AcceptedSize() >= len(want) || !ch.Alive() })
	ch.MustLive("garbage messages")
	if got := inf.AcceptedBytes(""); !bytes.Equal(got, want) {
		c.Fatal("writer, garbage messages: %s", firstDiff(want, got))
	}
}

func c22writerRules(c *Ctx) {
	r := c.Rand("writer with rules")
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	nc := n.Connect()
	defer nc.Close()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Workers = 2
	conf.BatchMaxCount = 20
	conf.BatchMaxAge = dur(100 * time.Millisecond)
	conf.Rule = []config.Rule{
		{Rtype: "tags", Tags: [][]string{{"a", "wr"}, {"b", "1"}}},
		{Rtype: "basic", Match: "mutcpu"},
		{Rtype: "basic", Match: "good"},
		{Rtype: "regex", Match: "x=1$"},
	}
	ch := startSpout(c, conf)
	defer ch.Stop()
	g := newGood("wr", false)
	for i := 0; i < c.N(2500, 8000) && ch.Alive(); i++ {
		publish(c, nc, "in", soup(r, g.next, r.Intn(30), func(kind string, l int) { c.evGarbage("the writer with rules", kind, l) }))
	}
	flush(c, nc)
	g.await(c, ch, "writer with rules", func() []byte { return inf.AcceptedBytes("") })
}

func c22downsampler(c *Ctx) {
	r := c.Rand("downsampler")
	n := startNats(c)
	defer n.Stop()
	rec := n.Record("in-archive")
	defer rec.Close()
	nc := n.Connect()
	defer nc.Close()
	conf := baseConf(n, "downsampler")
	conf.DownsamplePeriod = dur(3 * time.Second)
	ch := startSpout(c, conf)
	defer ch.Stop()
	// Every good line is a series of its own which gets two values; the
	// sum tells whether both were counted.
	num := 0
	want := map[string]int{}
	var second []string
	good := func() string {
		if len(second) > 0 && r.Intn(2) == 0 {
			l := second[0]
			second = second[1:]
			return l
		}
		num++
		ts := time.Now().Truncate(3 * time.Second).Add(time.Millisecond)
		end := ts.Truncate(3 * time.Second).Add(3 * time.Second)
		second = append(second, fmt.Sprintf("good,a=ds,b=%d v=%di %d", num, 3*num, ts.UnixNano()))
		want[fmt.Sprintf("good,a=ds,b=%d v=%di %d\n", num, 2*num, end.UnixNano())]++
		return fmt.Sprintf("good,a=ds,b=%d v=%di %d", num, num, ts.UnixNano())
	}
	lastRound := c.N(6, 20)
	for round := 0; round < lastRound && ch.Alive(); round++ {
		for i := 0; i < 200 && ch.Alive(); i++ {
			publish(c, nc, "in", soup(r, good, 1+r.Intn(30), func(kind string, l int) {
				c.evGarbage("the downsampler", kind, l)
			}))
		}
		for len(second) > 0 {
			publish(c, nc, "in", []byte(second[0]+"\n"))
			second = second[1:]
		}
		flush(c, nc)
		if stalledFor() > 0 {
			c.Obs("milliseconds stalled", int(stalledFor()/time.Millisecond))
		}
		time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
	}
	stall0 := stalledFor()
	out := func() []byte { return normMsgs(rec.Msgs("")) }
	UntilProgress(longWait, rec.Size, func() bool { return !ch.Alive() || len(goodIn(out())) >= len(want) })
	ch.MustLive("garbage lines to the downsampler")
	got := goodIn(out())
	if d := diffCounts(want, got); d != "" {
		if stall0 > time.Second {
			c.Infra("the machine was stalled for %v", stall0)
		}
		c.Fatal("downsampler, good series sent with garbage: %s", d)
	}
	c.Obs("good lines checked", len(want))
}

func c22monitor(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	nc := n.Connect()
	defer nc.Close()
	conf := baseConf(n, "monitor")
	conf.Port = freePort()
	ch := startSpout(c, conf)
	defer ch.Stop()
	client := httpClient()
	client.Timeout = longWait
	defer client.CloseIdleConnections()
	r := c.Rand("monitor")
	for i := 0; i < c.N(120, 500) && ch.Alive(); i++ {
		for k := 0; k < 30; k++ {
			var b []byte
			kind := "malformed metric"
			switch r.Intn(4) {
			case 0:
				g, kd := garbageLine(r)
				b, kind = []byte(g), kd
			case 1:
				b = []byte(genPM(r).String() + "\n" + breakPM(r, genPM(r)))
			case 2:
				for m := r.Intn(5); m >= 0; m-- {
					b = append(b, breakPM(r, genPM(r))...)
					b = append(b, '\n')
				}
			case 3:
				b = []byte(genPM(r).String())
				b = b[:r.Intn(len(b)+1)]
				kind = "truncated metric"
			}
			publish(c, nc, "mon", b)
			c.evGarbage("the monitor", kind, len(b))
		}
		publish(c, nc, "mon", []byte(fmt.Sprintf("good_metric{n=\"x\"} %d\n", i)))
		flush(c, nc)
		if r.Intn(3) == 0 {
			kind, l := rawGarbage(r, conf.Port)
			c.evGarbage("the monitor", kind, l)
		}
		want := fmt.Sprintf("good_metric{n=\"x\"} %d\n", i)
		var last []byte
		ok := Until(longWait, func() bool {
			if !ch.Alive() {
				return true
			}
			var err error
			_, last, err = httpGet(client, fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port))
			return err == nil && bytes.Contains(last, []byte(want))
		})
		ch.MustLive("malformed metrics")
		if !ok {
			c.Fatal("monitor: a good metric sent after malformed ones isn't served; /metrics: %s", short(last))
		}
	}
	ch.NoPanic("garbage")
}

// c22influx answers the writer's requests with nonsense.
func c22influx(c *Ctx) {
	r := c.Rand("influx")
	n := startNats(c)
	defer n.Stop()
	nc := n.Connect()
	defer nc.Close()
	var mu sync.Mutex
	var accepted []byte
	var asked int64
	sane := atomic.Bool{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Infra("%v", err)
	}
	defer ln.Close()
	answers := []string{"", "HTTP/1.1", "HTTP/1.1 abc\r\n\r\n", "\x00\x01", "HTTP/1.1 99999 X\r\n\r\n", "HTTP/1.1 204 No Content\r\nContent-Length: 10\r\n\r\nxyz", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
		"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/1.1 500 X\r\nContent-Length: 999999\r\n\r\nshort", "HTTP/1.1 400 Bad\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffff\r\n", "HTTP/1.1 100 Continue\r\n\r\n",
		"HTTP/1.1 500 X\r\nX: " + strings.Repeat("y", 2000000) + "\r\n\r\n", "HTTP/1.1 302 Found\r\nLocation: ::bad::\r\n\r\n", "HTTP/1.1 307 R\r\nLocation: /write\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 503 \r\nContent-Length: 3\r\n\r\n{\"e",
		"HTTP/1.1 500 X\r\nContent-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc", "HTTP/1.1 401 U\r\nWWW-Authenticate: \x01\r\nContent-Length: 0\r\n\r\n", "220 smtp ready\r\n"}
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				conn.SetDeadline(time.Now().Add(2 * time.Minute))
				br := bufio.NewReader(conn)
				for {
					req, err := http.ReadRequest(br)
					if err != nil {
						return
					}
					body, err := io.ReadAll(req.Body)
					if err != nil {
						return
					}
					k := atomic.AddInt64(&asked, 1)
					if sane.Load() {
						mu.Lock()
						accepted = append(accepted, body...)
						mu.Unlock()
						io.WriteString(conn, "HTTP/1.1 204 No Content\r\n\r\n")
						continue
					}
					io.WriteString(conn, answers[int(k)%len(answers)])
					if k%2 == 0 {
						return
					}
				}
			}()
		}
	}()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = ln.Addr().(*net.TCPAddr).Port
	conf.Workers = 3
	conf.BatchMaxCount = 1
	conf.WriteTimeout = dur(300 * time.Millisecond)
	conf.WriterRetryBatches = 2
	conf.WriterRetryInterval = dur(20 * time.Millisecond)
	conf.WriterRetryTimeout = dur(200 * time.Millisecond)
	conf.Debug = true
	ch := startSpout(c, conf)
	defer ch.Stop()
	for i := 0; i < c.N(3, 12); i++ {
		sane.Store(false)
		for k := 0; k < 40; k++ {
			publish(c, nc, "in", []byte(fmt.Sprintf("bad,i=%d x=%d\n", k, r.Int())))
			c.evGarbage("the writer as InfluxDB's answer", fmt.Sprint(k%len(answers)), 0)
		}
		flush(c, nc)
		time.Sleep(400 * time.Millisecond)
		sane.Store(true)
		g := newGood("influx", false)
		mu.Lock()
		accepted = nil
		mu.Unlock()
		for k := 0; k < 20; k++ {
			publish(c, nc, "in", []byte(g.next()+"\n"))
		}
		flush(c, nc)
		// Bad answers can hold the workers up for some write timeouts.
		g.await(c, ch, "writer after nonsensical answers", func() []byte {
			mu.Lock()
			defer mu.Unlock()
			return append([]byte(nil), accepted...)
		})
	}
}

func c22probes(c *Ctx) {
	r := c.Rand("probes")
	n := startNats(c)
	defer n.Stop()
	conf := baseConf(n, "filter")
	ch := startSpout(c, conf)
	defer ch.Stop()
	for i := 0; i < c.N(150, 1500) && ch.Alive(); i++ {
		kind, l := rawGarbage(r, conf.ProbePort)
		c.evGarbage("a probe port", kind, l)
		if i%10 == 0 {
			if !Until(longWait, func() bool {
				return probe(conf.ProbePort, "readyz") == 200 && probe(conf.ProbePort, "healthz") == 200 || !ch.Alive()
			}) {
				c.Fatal("the probe port doesn't answer any more after garbage")
			}
		}
	}
	ch.MustLive("garbage on the probe port")
	ch.NoPanic("garbage")
}

// heavyLines returns lines which are legal or not, are about as long as a
// message may be, and have one thing very often.
func heavyLines(k int) (string, string) {
	const size = 900000
	ts := fmt.Sprintf(" %d", time.Now().UnixNano())
	rep := func(x string) string { return strings.Repeat(x, size/len(x)) }
	many := func(f string, tail string) string {
		var b strings.Builder
		for i := 0; b.Len() < size; i++ {
			fmt.Fprintf(&b, f, strconv.FormatInt(int64(i*7919%1000003), 36))
		}
		return strings.TrimSuffix(b.String(), tail)
	}
	switch k % 14 {
	case 0:
		return `heavy s="` + rep(`\"`) + `"` + ts, "escaped quotes"
	case 1:
		return "heavy" + rep(`\ `) + "x v=1" + ts, "escaped spaces"
	case 2:
		return "heavy" + many(",%s=v", "") + " v=1i" + ts, "tags"
	case 3:
		return "heavy,a=b " + many("a%s=1i,", ",") + ts, "fields"
	case 4:
		return "heavy,a=b " + many("b%s=2i,", ",") + ts, "fields"
	case 5:
		return "heavy,a=b " + many("c%s=1,", ",") + ts, "fields"
	case 6:
		return "heavy,a=" + rep(`\=`) + " v=1" + ts, "escaped equals signs"
	case 7:
		return strings.TrimSuffix(rep("x\n"), "\n"), "short lines"
	case 8:
		return "heavy,a=b" + rep(",a=b") + " v=1" + ts, "the same tag"
	case 9:
		return `heavy s="` + rep(`\`), "backslashes"
	case 10:
		return "heavy" + rep(","), "commas"
	case 11:
		return "heavy v=1" + rep(" "), "spaces"
	case 12:
		return "heavy v=1" + rep(",v=1") + ts, "the same field"
	}
	return "heavy v=" + rep("1") + ts, "digits"
}

// c22heavy has lines which take time that grows with the square of their
// length if one isn't careful, and looks whether the others get through.
func c22heavy(c *Ctx) {
	rules := []config.Rule{
		{Rtype: "tags", Tags: [][]string{{"x", "y"}, {"a", "c"}}, Subject: "t"},
		{Rtype: "basic", Match: "heavier", Subject: "m"},
		{Rtype: "negregex", Match: "h|good|x", Subject: "not"},
		{Rtype: "regex", Match: "^good,", Subject: "good"},
	}
	rounds := c.N(14, 28)
	feed := func(mode string, g *goodLines, pub func([]byte), flush func()) {
		for k := 0; k < rounds; k++ {
			l, kind := heavyLines(k)
			pub([]byte(l + "\n"))
			c.Eval(fmt.Sprintf("heavy/%s/%s", mode, kind), true)
			if g != nil {
				pub([]byte(g.next() + "\n"))
			}
		}
		flush()
	}
	var fs []func()
	for _, mode := range []string{"filter", "writer", "downsampler"} {
		fs = append(fs, func() {
			n := startNats(c)
			defer n.Stop()
			inf := startInflux(c)
			defer inf.Stop()
			rec := n.Record(map[string]string{"filter": "good", "writer": "none", "downsampler": "in-archive"}[mode])
			defer rec.Close()
			nc := n.Connect()
			defer nc.Close()
			conf := baseConf(n, mode)
			conf.InfluxDBPort = inf.Port
			conf.Workers = 1
			conf.BatchMaxCount = 1
			switch mode {
			case "downsampler":
				conf.DownsamplePeriod = dur(2 * time.Second)
			default:
				conf.Rule = append(conf.Rule, rules...)
				for k := range conf.Rule {
					if mode == "writer" {
						conf.Rule[k].Subject = ""
					}
				}
			}
			ch := startSpout(c, conf)
			defer ch.Stop()
			pub := func(b []byte) { publish(c, nc, "in", b) }
			if mode != "downsampler" {
				g := newGood("heavy", false)
				feed(mode, g, pub, func() { flush(c, nc) })
				t0 := time.Now()
				g.await(c, ch, mode+", heavy lines", func() []byte {
					if mode == "writer" {
						return inf.AcceptedBytes("")
					}
					return normMsgs(rec.Msgs(""))
				})
				c.ObsMax("milliseconds for heavy lines, "+mode, int(time.Since(t0)/time.Millisecond))
				return
			}
			feed(mode, nil, pub, func() { flush(c, nc) })
			// The series of a later time comes out at its end.
			t0 := time.Now()
			id := nextID()
			got := UntilProgress(longWait, rec.Count, func() bool {
				publish(c, nc, "in", []byte(fmt.Sprintf("good,id=%d v=1i %d\n", id, time.Now().UnixNano())))
				flush(c, nc)
				time.Sleep(50 * time.Millisecond)
				return !ch.Alive() || bytes.Contains(normMsgs(rec.Msgs("")), []byte(fmt.Sprintf("good,id=%d v=1i ", id)))
			})
			ch.MustLive("heavy lines")
			if !got {
				c.Fatal("the downsampler doesn't get over heavy lines")
			}
			c.ObsMax("milliseconds for heavy lines, "+mode, int(time.Since(t0)/time.Millisecond))
		})
	}
	c.Go(fs...)
}
