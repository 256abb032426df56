package harness

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() {
	register("C02", checkC02)
	register("C03", checkC03)
	register("C04", checkC04)
}

func (g *listenerRig) url(query string) string {
	u := fmt.Sprintf("http://127.0.0.1:%d/write", g.conf.Port)
	if query != "" {
		u += "?" + query
	}
	return u
}

// post sends a request and checks the answer.
func (g *listenerRig) post(cl *http.Client, query string, body []byte, chunked bool) {
	var rd io.Reader = bytes.NewReader(body)
	if chunked {
		rd = struct{ io.Reader }{rd} // hides the length
	}
	req, err := http.NewRequest("POST", g.url(query), rd)
	if err != nil {
		panic(err)
	}
	// What clients of InfluxDB send varies.
	v := len(body) + 7*len(query)
	if h := []string{"text/plain", "text/plain; charset=utf-8", "", "application/octet-stream", "application/x-www-form-urlencoded"}[v%5]; h != "" {
		req.Header.Set("Content-Type", h)
	}
	if v%3 == 0 {
		req.Header.Set("Content-Encoding", "identity")
	}
	if v%7 < 2 {
		req.Header.Set("User-Agent", "telegraf")
	}
	if v%4 == 1 {
		req.Header.Set("Accept-Encoding", "gzip")
		req.SetBasicAuth("user", "secret")
	}
	if v%11 == 3 {
		// (Go's server accepts a megabyte.)
		req.Header.Set("Cookie", "c="+strings.Repeat("x", 1<<(10+v%8)))
	}
	if v%13 == 5 {
		req.Method = "PUT"
	}
	resp, err := cl.Do(req)
	if err != nil {
		g.c.Fatal("write of %d bytes failed: %v", len(body), err)
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	if resp.StatusCode != 204 {
		g.c.Fatal("write of %d bytes answered with %s", len(body), resp.Status)
	}
}

// normMsgs joins messages, terminating each one's last line.
func normMsgs(ms []Msg) []byte {
	var out []byte
	for _, m := range ms {
		out = append(out, m.Data...)
		if len(out) > 0 && out[len(out)-1] != '\n' {
			out = append(out, '\n')
		}
	}
	return out
}

func withNL(b []byte) []byte {
	if len(b) > 0 && b[len(b)-1] != '\n' {
		return append(append([]byte(nil), b...), '\n')
	}
	return b
}

// waitQuiet waits until the recorder has at least n bytes or nothing
// more comes.
func (g *listenerRig) waitBytes(n int) {
	UntilProgress(longWait, g.rec.Count, func() bool { return len(normMsgs(g.rec.Msgs(""))) >= n })
}

func genBody(r *rand.Rand, tag string, maxLines int) (body []byte, lines []string) {
	n := 1 + r.Intn(maxLines)
	if r.Intn(25) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		ts := 1500000000000000000 + r.Int63n(1e17)
		if r.Intn(2) == 0 {
			ts /= 1e9
		}
		l, _ := genLine(r, fmt.Sprint(ts), true)
		s := fmt.Sprintf("%s,seq=%d,%s", tag, i, l.String())
		switch r.Intn(30) {
		case 0:
			s += "\r"
		case 4:
			s = fmt.Sprintf("%s,seq=%d,text=%s %s", tag, i, strings.Repeat("t", r.Intn(9000)), l.String())
		case 1:
			s += strings.Repeat("x", r.Intn(5000))
		case 2:
			s += " "
		case 3:
			s += "\x00\xff\xfe"
		}
		lines = append(lines, s)
		body = append(body, s...)
		body = append(body, '\n')
		if r.Intn(40) == 0 {
			body = append(body, '\n')
		}
	}
	if len(body) > 0 && r.Intn(2) == 0 {
		body = bytes.TrimRight(body, "\n")
	}
	return body, lines
}

func checkC02(c *Ctx) {
	type cfg struct {
		count   int
		size    datasize.ByteSize
		age     time.Duration
		clients int
	}
	var cfgs []cfg
	for _, clients := range []int{1, 3, 16} {
		for _, count := range []int{1, 2, 7, 1000000} {
			for _, size := range []datasize.ByteSize{datasize.MB, 100000, 1} {
				cfgs = append(cfgs, cfg{count, size, 30 * time.Millisecond, clients})
			}
		}
		cfgs = append(cfgs, cfg{5, datasize.MB, time.Hour, clients})
	}
	r := c.Rand("cfg")
	r.Shuffle(len(cfgs), func(i, j int) { cfgs[i], cfgs[j] = cfgs[j], cfgs[i] })
	c.Go(func() {
		c.Scenario("slow requests", func() { c02slow(c) })
	}, func() {
		c.Pool(4, c.N(20, len(cfgs)), func(i int) {
			k := cfgs[i%len(cfgs)]
			c.Scenario(fmt.Sprintf("clients=%d count=%d size=%d age=%s", k.clients, k.count, k.size, k.age), func() {
				c02concurrent(c, fmt.Sprintf("conc%d", i), k.clients, k.count, k.size, k.age, c.N(60, 200))
			})
		})
		c.Pool(4, c.N(8, 24), func(i int) {
			c.Scenario("sequential", func() { c02sequential(c, i) })
		})
		c.Scenario("large bodies", func() { c02large(c) })
		c.Scenario("raw requests", func() { c02raw(c) })
	})
}

// c02slow makes requests which take half a minute or longer.
func c02slow(c *Ctx) {
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxCount = 2
		conf.BatchMaxAge = dur(50 * time.Millisecond)
	})
	defer g.close()
	pieces := c.N(32, 75) // one per second
	var mu sync.Mutex
	want := map[string]int{}
	total := 0
	var fs []func()
	for k := 0; k < 4; k++ {
		k := k
		fs = append(fs, func() {
			conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", g.conf.Port))
			if err != nil {
				c.Infra("dial: %v", err)
			}
			defer conn.Close()
			q, chunked, ts := "", k%2 == 1, ""
			if k >= 2 {
				q, ts = "?precision=s", " 1500000000"
			}
			var lines []string
			for j := 0; j < pieces; j++ {
				lines = append(lines, fmt.Sprintf("slow%d,line=%d v=%di%s\n", k, j, nextID(), ts))
			}
			write := func(s string) {
				if _, err := conn.Write([]byte(s)); err != nil {
					c.Fatal("listener closed the connection of a slow client: %v", err)
				}
			}
			write("POST /write" + q + " HTTP/1.1\r\nHost: x\r\n")
			time.Sleep(1500 * time.Millisecond)
			if chunked {
				write("Transfer-Encoding: chunked\r\n\r\n")
			} else {
				write(fmt.Sprintf("Content-Length: %d\r\n\r\n", len(strings.Join(lines, ""))))
			}
			for _, l := range lines {
				cut := len(l) / 2
				for _, part := range []string{l[:cut], l[cut:]} {
					if chunked {
						part = fmt.Sprintf("%x\r\n%s\r\n", len(part), part)
					}
					write(part)
					time.Sleep(500 * time.Millisecond)
				}
			}
			if chunked {
				write("0\r\n\r\n")
			}
			conn.SetReadDeadline(time.Now().Add(longWait))
			resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
			if err != nil {
				c.Fatal("no answer for a write which took %d s: %v", pieces, err)
			}
			if resp.StatusCode != 204 {
				c.Fatal("a write which took %d s was answered with %s", pieces, resp.Status)
			}
			mu.Lock()
			defer mu.Unlock()
			for _, l := range lines {
				l = strings.Replace(l, " 1500000000", " 1500000000000000000", 1)
				want[l]++
				total += len(l)
			}
			c.Eval(fmt.Sprintf("slow request %d", k), true)
		})
	}
	c.Go(fs...)
	g.waitBytes(total)
	if d := diffCounts(want, countLines(g.rec.Bytes(""))); d != "" {
		c.Fatal("of writes which took %d s: %s", pieces, d)
	}
	c.ObsMax("duration of a request (s)", pieces)
}

func c02concurrent(c *Ctx, name string, clients, count int, size datasize.ByteSize, age time.Duration, reqs int) {
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxCount = count
		conf.BatchMaxSize = size
		conf.BatchMaxAge = dur(age)
	})
	defer g.close()
	want := map[string]int{} // line -> request
	type pos struct{ req, seq int }
	where := map[string]pos{}
	var mu sync.Mutex
	var reqNo int64
	var fs []func()
	for cl := 0; cl < clients; cl++ {
		cl := cl
		fs = append(fs, func() {
			r := c.Rand(fmt.Sprintf("%s/%d", name, cl))
			client := httpClient()
			defer client.CloseIdleConnections()
			for i := 0; i < reqs/clients+1; i++ {
				maxLines := 20
				if r.Intn(10) == 0 {
					maxLines = 600
				}
				rn := int(atomic.AddInt64(&reqNo, 1))
				body, lines := genBody(r, fmt.Sprintf("c%d,r=%d", cl, rn), maxLines)
				query := []string{"", "db=x", "precision=ns", "precision=", "precision=s", "db=x&precision=ms"}[r.Intn(6)]
				if p := query[strings.LastIndexByte(query, '=')+1:]; precisions[p] != 0 {
					for i := range lines {
						lines[i] = strings.TrimSuffix(refConvert(lines[i], p), "\n")
					}
				}
				mu.Lock()
				for seq, l := range lines {
					want[l]++
					where[l] = pos{rn, seq}
				}
				mu.Unlock()
				chunked := r.Intn(2) == 0
				g.post(client, query, body, chunked)
				c.Eval(fmt.Sprintf("%d/%d/%d chunked=%v nl=%v lines%d", clients, count, size, chunked, bytes.HasSuffix(body, []byte{'\n'}), len(lines)), true)
				if i == 1 {
					c.Sample("request body %s chunked=%v query=%q", short(body), chunked, query)
				}
				if r.Intn(8) == 0 {
					client.CloseIdleConnections()
				}
				if r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
				}
			}
		})
	}
	c.Go(fs...)
	if c.Failed() {
		return
	}
	if age == time.Hour {
		// Push the rest out.
		client := httpClient()
		for i := 0; i <= count; i++ {
			g.post(client, "", []byte(fmt.Sprintf("filler%d x=1\n", i)), false)
		}
		client.CloseIdleConnections()
	}
	collect := func() map[string]int {
		got := map[string]int{}
		for _, l := range splitLines(normMsgs(g.rec.Msgs(""))) {
			s := strings.TrimSuffix(string(l), "\n")
			if s != "" && !strings.HasPrefix(s, "filler") {
				got[s]++
			}
		}
		return got
	}
	if !UntilProgress(longWait, g.rec.Count, func() bool { return len(collect()) >= len(want) }) {
		c.Fatal("lines missing: %s", diffCounts(want, collect()))
	}
	Until(40*time.Millisecond, func() bool { return false })
	if d := diffCounts(want, collect()); d != "" {
		c.Fatal("%s", d)
	}
	last := map[int]int{}
	for _, l := range splitLines(normMsgs(g.rec.Msgs(""))) {
		s := strings.TrimSuffix(string(l), "\n")
		p, ok := where[s]
		if !ok {
			continue
		}
		if p.seq < last[p.req] {
			c.Fatal("lines of one request out of order: %s", short(l))
		}
		last[p.req] = p.seq
	}
	c.Obs("requests", int(reqNo))
	c.Obs("lines", len(want))
	c.Obs("messages", g.rec.Count())
}

func c02sequential(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("seq%d", i))
	count := []int{1, 2, 5, 50}[i%4]
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxCount = count
		conf.BatchMaxAge = dur(time.Hour)
	})
	defer g.close()
	client := httpClient()
	defer client.CloseIdleConnections()
	var want, prev []byte
	writes := 0
	for n := 0; n < 100 || writes%count != 0; n++ {
		body, _ := genBody(r, fmt.Sprintf("s%d", n), 30)
		if n%9 == 4 {
			body = prev // once more
		}
		prev = body
		if n == 10 {
			body = []byte("\n")
		}
		g.post(client, []string{"", "precision=ns"}[r.Intn(2)], body, r.Intn(2) == 0)
		want = append(want, withNL(body)...)
		if len(body) > 0 {
			writes++
		}
		c.Eval(fmt.Sprintf("seq count%d len%d", count, len(body)), len(body) > 0)
	}
	g.waitBytes(len(want))
	if got := normMsgs(g.rec.Msgs("")); !bytes.Equal(got, want) {
		c.Fatal("published bytes aren't the bodies sent: %s", firstDiff(want, got))
	}
	c.Obs("sequential requests", 100)
}

func c02large(c *Ctx) {
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxCount = 3
		conf.BatchMaxAge = dur(50 * time.Millisecond)
	})
	defer g.close()
	client := httpClient()
	defer client.CloseIdleConnections()
	r := c.Rand("large")
	var want []byte
	for i := 0; i < c.N(8, 30); i++ {
		var body []byte
		target := 300000 + r.Intn(4000000)
		if i == 5 {
			target = 40000000
		}
		for j := 0; len(body) < target; j++ {
			body = append(body, fmt.Sprintf("big%d,l=%d v=\"", i, j)...)
			body = append(body, bytes.Repeat([]byte{byte('a' + r.Intn(26))}, r.Intn(3000))...)
			body = append(body, "\" 1500000000\n"...)
		}
		if i%4 < 2 {
			g.post(client, "", body, i%2 == 0)
		} else {
			g.post(client, "precision=s", body, i%2 == 0)
			body = bytes.ReplaceAll(body, []byte("\" 1500000000\n"), []byte("\" 1500000000000000000\n"))
		}
		want = append(want, body...)
		c.Eval(fmt.Sprintf("large %d", len(body)>>16), true)
	}
	g.waitBytes(len(want))
	if got := g.rec.Bytes(""); !bytes.Equal(got, want) {
		c.Fatal("published bytes aren't the bodies sent: %s", firstDiff(want, got))
	}
	for _, m := range g.rec.Msgs("") {
		if m.Data[len(m.Data)-1] != '\n' {
			c.Fatal("a message of %d bytes ends inside a line", len(m.Data))
		}
		c.ObsMax("largest message", len(m.Data))
	}
	c.Obs("bytes in large bodies", len(want))
}

// c02raw sends requests over plain TCP: pipelined, in odd pieces, with
// HTTP/1.0 and with Expect: 100-continue.
func c02raw(c *Ctx) {
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxCount = 4
		conf.BatchMaxAge = dur(30 * time.Millisecond)
	})
	defer g.close()
	r := c.Rand("raw")
	var want []byte
	send := func(raw []byte, answers int, what string) {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", g.conf.Port))
		if err != nil {
			c.Infra("dial: %v", err)
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(time.Minute))
		for len(raw) > 0 {
			n := 1 + r.Intn(len(raw))
			if r.Intn(3) == 0 {
				n = len(raw)
			}
			if _, err := conn.Write(raw[:n]); err != nil {
				c.Fatal("%s: %v", what, err)
			}
			raw = raw[n:]
			if r.Intn(3) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		var in []byte
		buf := make([]byte, 4096)
		for bytes.Count(in, []byte(" 204 No Content")) < answers {
			n, err := conn.Read(buf)
			in = append(in, buf[:n]...)
			if err != nil {
				break
			}
		}
		if bytes.Count(in, []byte(" 204 No Content")) != answers {
			c.Fatal("%s: answered with %s", what, short(in))
		}
		c.Eval("raw "+what, true)
	}
	for i := 0; i < c.N(15, 60); i++ {
		var raw []byte
		n := 1 + r.Intn(6)
		for j := 0; j < n; j++ {
			body, _ := genBody(r, fmt.Sprintf("p%d_%d", i, j), 10)
			raw = append(raw, fmt.Sprintf("POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", len(body))...)
			raw = append(raw, body...)
			want = append(want, withNL(body)...)
		}
		send(raw, n, "pipelined")

		body, _ := genBody(r, fmt.Sprintf("h10_%d", i), 10)
		send(append([]byte(fmt.Sprintf("POST /write?db=y HTTP/1.0\r\nContent-Length: %d\r\n\r\n", len(body))), body...), 1, "HTTP/1.0")
		want = append(want, withNL(body)...)

		body, _ = genBody(r, fmt.Sprintf("ch_%d", i), 10)
		raw = []byte("POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n")
		for rest := body; ; {
			n := len(rest)
			if n > 0 {
				n = 1 + r.Intn(n)
			}
			raw = append(raw, fmt.Sprintf("%x\r\n", n)...)
			raw = append(raw, rest[:n]...)
			raw = append(raw, "\r\n"...)
			rest = rest[n:]
			if n == 0 {
				break
			}
		}
		send(raw, 1, "chunked")
		want = append(want, withNL(body)...)

		body, _ = genBody(r, fmt.Sprintf("ex_%d", i), 10)
		send(append([]byte(fmt.Sprintf("POST /write HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n", len(body))), body...), 1, "expect")
		want = append(want, withNL(body)...)
	}
	g.waitBytes(len(want))
	if got := normMsgs(g.rec.Msgs("")); !bytes.Equal(got, want) {
		c.Fatal("published bytes aren't the bodies sent: %s", firstDiff(want, got))
	}
}

// ---------------------------------------------------------------------
// C03

var precisions = map[string]int64{"u": 1000, "ms": 1000000, "s": 1000000000, "m": 60000000000, "h": 3600000000000}

var (
	minTS = new(big.Int).Add(big.NewInt(-1<<63), big.NewInt(2))
	maxTS = big.NewInt(1<<63 - 2)
)

// refConvert is what the listener should make of a line.
func refConvert(line string, precision string) string {
	i := strings.LastIndexByte(line, ' ')
	if i < 0 {
		return line
	}
	tok := line[i+1:]
	digits := strings.TrimPrefix(tok, "-")
	if digits == "" || strings.Trim(digits, "0123456789") != "" {
		return line
	}
	n, ok := new(big.Int).SetString(tok, 10)
	if !ok {
		return line
	}
	n.Mul(n, big.NewInt(precisions[precision]))
	if n.Cmp(minTS) < 0 || n.Cmp(maxTS) > 0 {
		return line
	}
	return line[:i+1] + n.String()
}

func genTS(r *rand.Rand, mult int64) string {
	limit := int64(1<<63-1)/mult - 1
	var v int64
	switch r.Intn(10) {
	case 0:
		v = limit + int64(r.Intn(7)) - 2
	case 1:
		v = -limit + int64(r.Intn(7)) - 4
	case 2:
		v = int64(r.Intn(21)) - 10
	case 3:
		return fmt.Sprint(r.Uint64() / 10) // often out of range
	case 4:
		return fmt.Sprintf("%d", r.Int63())
	case 5:
		v = 1600000000000000000/mult + r.Int63n(1000000000000000000/mult+1)
	case 6:
		// powers of ten and neighbours
		v = 1
		for n := r.Intn(19); n > 0; n-- {
			v *= 10
		}
		v += int64(r.Intn(3)) - 1
	case 7:
		v = r.Int63n(limit + 1)
	case 8:
		v = -r.Int63n(limit + 1)
	case 9:
		// values whose product wraps around to something small
		v = int64((uint64(1)<<63/uint64(mult))*uint64(2+r.Intn(5))) + int64(r.Intn(3)) - 1
	}
	return fmt.Sprint(v)
}

func genPrecisionLine(r *rand.Rand, mult int64) string {
	l, _ := genLine(r, "", true)
	s := l.String()
	switch r.Intn(14) {
	case 0: // no timestamp
	case 1:
		s += ` s="a 12345"`
	case 2:
		s += " 12345x"
	case 3:
		s += " " + genTS(r, mult) + "\r"
	case 4:
		s += " " + genTS(r, mult) + " "
	case 5:
		s += ` ,s="` + strings.Repeat("y", 60000+r.Intn(20000)) + `" ` + genTS(r, mult)
	case 6:
		s += " +5"
	case 7:
		s += " 1.5"
	case 8:
		s += "  " + genTS(r, mult)
	case 9:
		s += " -"
	case 10:
		s = "m " + fmt.Sprintf("%s=", word(r, false)) + genTS(r, 1) // the digits belong to a field
	default:
		s += " " + genTS(r, mult)
	}
	if len(s) < 8 {
		s = "measurement" + s
	}
	return s
}

func checkC03(c *Ctx) {
	var names []string
	for p := range precisions {
		names = append(names, p)
	}
	c.Pool(5, c.N(25, 150), func(i int) {
		p := []string{"u", "ms", "s", "m", "h"}[i%5]
		c.Scenario("precision "+p, func() { c03run(c, i, p) })
	})
	c.Scenario("nanoseconds", func() {
		g := newListenerRig(c, "listener_http", func(conf *config.Config) {})
		defer g.close()
		client := httpClient()
		defer client.CloseIdleConnections()
		r := c.Rand("ns")
		var want []byte
		for i := 0; i < 60; i++ {
			var body []byte
			for j := 0; j < 50; j++ {
				body = append(body, genPrecisionLine(r, 1)...)
				body = append(body, '\n')
				if r.Intn(10) == 0 {
					body = append(body, '\n')
				}
			}
			g.post(client, []string{"", "precision=ns", "db=a", "precision="}[i%4], body, i%3 == 0)
			want = append(want, body...)
			c.Eval(fmt.Sprintf("ns%d", i), true)
		}
		g.waitBytes(len(want))
		if got := g.rec.Bytes(""); !bytes.Equal(got, want) {
			c.Fatal("body changed: %s", firstDiff(want, got))
		}
	})
}

func c03run(c *Ctx, i int, p string) {
	r := c.Rand(fmt.Sprintf("run%d", i))
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxAge = dur(time.Hour)
	})
	defer g.close()
	client := httpClient()
	defer client.CloseIdleConnections()
	var want []byte
	n := 0
	converted := 0
	for req := 0; req < 12; req++ {
		var body []byte
		lines := 100
		if req == 0 {
			lines = 1
		}
		for j := 0; j < lines; j++ {
			l := genPrecisionLine(r, precisions[p])
			body = append(body, l...)
			body = append(body, '\n')
			out := refConvert(l, p)
			want = append(want, out...)
			want = append(want, '\n')
			n++
			tok := l[strings.LastIndexByte(l, ' ')+1:]
			if len(tok) > 24 {
				tok = "long"
			}
			c.Eval(p+tok, true)
			if out != l {
				converted++
				if j < 2 && req == 3 {
					c.Sample("precision %s: ...%s -> ...%s", p, l[strings.LastIndexByte(l, ' '):], out[strings.LastIndexByte(out, ' '):])
				}
			}
			if r.Intn(50) == 0 && j+1 < lines {
				body = append(body, '\n') // blank line: carries nothing
			}
		}
		if r.Intn(2) == 0 {
			body = body[:len(body)-1]
		}
		g.post(client, []string{"precision=" + p, "precision=" + p + "&db=x", "db=metrics&rp=&precision=" + p, "u=a&p=b%26&precision=" + p + "&consistency=all"}[r.Intn(4)], body, r.Intn(2) == 0)
	}
	strip := func(b []byte) []byte {
		for bytes.Contains(b, []byte("\n\n")) {
			b = bytes.ReplaceAll(b, []byte("\n\n"), []byte("\n"))
		}
		return bytes.TrimLeft(b, "\n")
	}
	UntilProgress(longWait, g.rec.Count, func() bool { return len(strip(normMsgs(g.rec.Msgs("")))) >= len(want) })
	if got := strip(normMsgs(g.rec.Msgs(""))); !bytes.Equal(got, want) {
		c.Fatal("precision %s: %s", p, firstDiff(want, got))
	}
	c.Obs("lines", n)
	c.Obs("timestamps converted", converted)
}

// ---------------------------------------------------------------------
// C04

type rawClient struct {
	conn *net.TCPConn
	sent []byte // body bytes sent so far
	body []byte
	chnk bool
	prec bool
	huge bool // announces far more than will be sent
	name string
}

func (g *listenerRig) rawOpen(query string, body []byte, chunked, huge bool, name string) *rawClient {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", g.conf.Port))
	if err != nil {
		g.c.Infra("dial: %v", err)
	}
	conn.SetDeadline(time.Now().Add(3 * time.Minute))
	rc := &rawClient{huge: huge && !chunked, conn: conn.(*net.TCPConn), body: body, chnk: chunked, name: name, prec: strings.Contains(query, "precision=")}
	hdr := fmt.Sprintf("POST /write?%s HTTP/1.1\r\nHost: x\r\n", query)
	if chunked {
		hdr += "Transfer-Encoding: chunked\r\n\r\n"
	} else {
		l := uint64(len(body))
		if huge { // which won't ever be sent
			l = 1 << 60
		}
		hdr += fmt.Sprintf("Content-Length: %d\r\n\r\n", l)
	}
	if _, err := io.WriteString(conn, hdr); err != nil {
		g.c.Fatal("client can't send a header: %v", err)
	}
	return rc
}

// more sends the body up to offset n.
func (rc *rawClient) more(n int) error {
	part := rc.body[len(rc.sent):n]
	if len(part) == 0 {
		return nil
	}
	var raw []byte
	if rc.chnk {
		raw = append([]byte(fmt.Sprintf("%x\r\n", len(part))), part...)
		raw = append(raw, "\r\n"...)
	} else {
		raw = part
	}
	_, err := rc.conn.Write(raw)
	rc.sent = rc.body[:n]
	return err
}

func (rc *rawClient) finish() (string, error) {
	if err := rc.more(len(rc.body)); err != nil {
		return "", err
	}
	if rc.chnk {
		if _, err := io.WriteString(rc.conn, "0\r\n\r\n"); err != nil {
			return "", err
		}
	}
	buf := make([]byte, 200)
	n, err := rc.conn.Read(buf)
	rc.conn.Close()
	return string(buf[:n]), err
}

func (rc *rawClient) abort(how int) {
	switch how % 4 {
	case 0: // RST
		rc.conn.SetLinger(0)
	case 1: // orderly half close, then close
		rc.conn.CloseWrite()
		time.Sleep(time.Millisecond)
	case 2: // broken chunk
		if rc.chnk {
			io.WriteString(rc.conn, "zz\r\n")
			time.Sleep(time.Millisecond)
		}
	}
	rc.conn.Close()
}

func checkC04(c *Ctx) {
	for i := 0; i < c.N(6, 30); i++ {
		c.Scenario(fmt.Sprintf("round%d", i), func() { c04round(c, i) })
	}
}

func c04round(c *Ctx, round int) {
	r := c.Rand(fmt.Sprintf("round%d", round))
	count := []int{1, 4, 1000000}[round%3]
	age := 150 * time.Millisecond
	g := newListenerRig(c, "listener_http", func(conf *config.Config) {
		conf.BatchMaxCount = count
		conf.BatchMaxAge = dur(age)
	})
	defer g.close()
	client := httpClient()
	client.Timeout = longWait + 10*time.Second
	defer client.CloseIdleConnections()

	must := map[string]int{} // lines which have to be published exactly once
	may := map[string]int{}  // lines of aborted requests
	mkBody := func(tag string, n int) ([]byte, []string) {
		var body []byte
		var ls []string
		for i := 0; i < n; i++ {
			l := fmt.Sprintf("%s,i=%d v=%d,s=\"%s\"", tag, i, r.Int63(), strings.Repeat("z", r.Intn(60)))
			ls = append(ls, l)
			body = append(body, l...)
			body = append(body, '\n')
		}
		return body, ls
	}

	// Clients which send a part of their request and then nothing.
	nStalled := []int{1, 3, 8, 20, 60, 300}[r.Intn(6)]
	var stalled []*rawClient
	for i := 0; i < nStalled; i++ {
		n := 1 + r.Intn(30)
		if r.Intn(15) == 0 {
			n = 20000
		}
		body, _ := mkBody(fmt.Sprintf("st%d_%d", round, i), n)
		query := []string{"db=x", "precision=s", "precision=ns"}[r.Intn(3)]
		rc := g.rawOpen(query, body, r.Intn(2) == 0, r.Intn(8) == 0, fmt.Sprintf("st%d", i))
		cutAt := r.Intn(len(body))
		switch r.Intn(5) {
		case 0:
			cutAt = 0
		case 1: // right after a line
			cutAt = bytes.LastIndexByte(body[:cutAt], '\n') + 1
		}
		if err := rc.more(cutAt); err != nil && !rc.huge {
			c.Fatal("stalled client %d can't send: %v", i, err)
		}
		stalled = append(stalled, rc)
	}
	time.Sleep(20 * time.Millisecond)

	normal := func(phase string, n int) {
		for i := 0; i < n; i++ {
			body, ls := mkBody(fmt.Sprintf("ok%d_%s_%d", round, phase, i), 1+r.Intn(20))
			q := []string{"", "precision=s", "precision=ms"}[r.Intn(3)]
			g.post(client, q, body, r.Intn(2) == 0)
			for _, l := range ls {
				must[l]++
			}
			c.Eval(fmt.Sprintf("normal write, %d stalled, query %q count %d", nStalled, q, count), true)
		}
	}
	gotLines := func() map[string]int {
		got := map[string]int{}
		for _, l := range splitLines(normMsgs(g.rec.Msgs(""))) {
			got[strings.TrimSuffix(string(l), "\n")]++
		}
		return got
	}
	allMust := func() bool {
		got := gotLines()
		for l := range must {
			if got[l] == 0 {
				return false
			}
		}
		return true
	}
	verify := func(phase string) {
		if !Until(longWait, allMust) {
			c.Fatal("%s, %d stalled clients: accepted lines aren't published although they reached the maximum age: %s", phase, nStalled, diffCounts(must, gotLines()))
		}
		for l, n := range gotLines() {
			switch {
			case must[l] == n:
			case may[l] > 0 && n == 1:
			default:
				c.Fatal("%s: line %s published %d times (accepted writes had it %d times; complete line of an aborted request: %v)", phase, short([]byte(l)), n, must[l], may[l] > 0)
			}
		}
	}
	normal("a", 5+r.Intn(10))
	verify("with stalled clients")

	// Some go away in the middle, some trickle on, some finish.
	for i, rc := range stalled {
		if rc.huge || r.Intn(3) != 2 {
			complete := rc.sent[:bytes.LastIndexByte(rc.sent, '\n')+1]
			for _, l := range splitLines(complete) {
				may[strings.TrimSuffix(string(l), "\n")]++
			}
			rc.abort(r.Intn(4))
			c.Eval(fmt.Sprintf("aborted at %d of %d chunked=%v prec=%v", len(rc.sent)%50, len(rc.body)%50, rc.chnk, rc.prec), true)
			if i < 2 {
				c.Sample("client aborts after %d of %d body bytes (chunked=%v, precision=%v), sent tail %s", len(rc.sent), len(rc.body), rc.chnk, rc.prec, short(rc.sent))
			}
			rc.conn = nil
		}
	}
	normal("b", 5+r.Intn(10))
	verify("after aborts")
	for _, rc := range stalled {
		if rc.conn == nil {
			continue
		}
		for len(rc.sent) < len(rc.body) && r.Intn(3) != 0 {
			if err := rc.more(len(rc.sent) + 1 + r.Intn(len(rc.body)-len(rc.sent))); err != nil {
				c.Fatal("resuming client can't send: %v", err)
			}
		}
		ans, err := rc.finish()
		if !strings.Contains(ans, " 204 ") {
			c.Fatal("resumed request answered with %q %v", ans, err)
		}
		for _, l := range splitLines(rc.body) {
			must[strings.TrimSuffix(string(l), "\n")]++
		}
		c.Eval(fmt.Sprintf("resumed len%d", len(rc.body)%50), true)
	}
	normal("c", 3)
	verify("at the end")
	time.Sleep(2 * age)
	verify("at the end, later")
	c.Obs("stalled clients", nStalled)
	c.Obs("lines published", len(must))
}
