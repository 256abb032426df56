package harness

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/prometheus"
	"github.com/jumptrading/influx-spout/v2/stats"
)

func init() {
	register("C18", checkC18)
	register("C20", checkC20)
}

// ---------------------------------------------------------------------
// A model of the metrics text format

// PM is a metric.
type PM struct {
	Name   string
	Labels []KV // sorted by name
	Value  int64
	Millis int64 // 0: none
}

func (m PM) sorted() PM {
	m.Labels = append([]KV(nil), m.Labels...)
	sort.SliceStable(m.Labels, func(i, j int) bool { return m.Labels[i].K < m.Labels[j].K })
	return m
}

func (m PM) key() string {
	m = m.sorted()
	return fmt.Sprintf("%q %q", m.Name, m.Labels)
}

// String renders the metric with its labels in the order they have.
func (m PM) String() string {
	var b strings.Builder
	b.WriteString(m.Name)
	if len(m.Labels) > 0 {
		b.WriteByte('{')
		for i, l := range m.Labels {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(l.K + `="` + l.V + `"`)
		}
		b.WriteByte('}')
	}
	b.WriteString(" " + strconv.FormatInt(m.Value, 10))
	if m.Millis != 0 {
		b.WriteString(" " + strconv.FormatInt(m.Millis, 10))
	}
	return b.String()
}

func refInt(s string) (int64, error) {
	t := strings.TrimPrefix(s, "-")
	if t == "" {
		return 0, errors.New("empty")
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, errors.New("not a number")
		}
	}
	return strconv.ParseInt(s, 10, 64)
}

// parsePM is a strict parser for one metric.
func parsePM(s string) (PM, error) {
	var m PM
	i := strings.IndexAny(s, "{ ")
	if i < 1 {
		return m, errors.New("no name or no value")
	}
	m.Name = s[:i]
	if strings.ContainsAny(m.Name, "\"},=\n") {
		return m, errors.New("bad name")
	}
	s = s[i:]
	if s[0] == '{' {
		s = s[1:]
		for first := true; ; first = false {
			if strings.HasPrefix(s, "}") {
				if !first {
					return m, errors.New("label missing")
				}
				s = s[1:]
				break
			}
			j := strings.IndexAny(s, "=\",{} \n")
			if j < 1 || s[j] != '=' || !strings.HasPrefix(s[j:], `="`) {
				return m, errors.New("bad label name")
			}
			k := s[:j]
			s = s[j+2:]
			j = strings.IndexByte(s, '"')
			if j < 0 {
				return m, errors.New("quote missing")
			}
			m.Labels = append(m.Labels, KV{k, s[:j]})
			s = s[j+1:]
			if strings.HasPrefix(s, "}") {
				s = s[1:]
				break
			}
			if !strings.HasPrefix(s, ",") {
				return m, errors.New("bad separator")
			}
			s = s[1:]
		}
	}
	if !strings.HasPrefix(s, " ") {
		return m, errors.New("no value")
	}
	f := strings.Split(s[1:], " ")
	if len(f) > 2 {
		return m, errors.New("trailing garbage")
	}
	var err error
	if m.Value, err = refInt(f[0]); err != nil {
		return m, err
	}
	if len(f) == 2 {
		if m.Millis, err = refInt(f[1]); err != nil {
			return m, err
		}
	}
	return m, nil
}

var (
	pmNames  = []string{"received", "sent", "triggered", "nats_dropped", "a", "ab", "a_b", "a:b", "b", "_x", "received2", "sent_total", "Received"}
	pmLabels = []string{"component", "name", "host", "rule", "subject", "influxdb_port", "a", "b", "ab", "z", "Host"}
	pmValues = []string{"listener", "filter", "", "x", "y", "nyc01", "a b", "a,b", "{x}", "}", "a=b", "per%cent", "%d%s", "back\\slash", "ümläut", "日本", "x y z", " ", ",", "=", "\t", "\xff\xfe", "host-1.example.com", "8086", "{", "# HELP"}
)

func genValue64(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 9, 10, 99, 100, -10, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, 1 << 53, -(1 << 53)}[r.Intn(16)]
	case 1:
		return int64(r.Uint64())
	case 2:
		return -r.Int63n(1000)
	case 3:
		return r.Int63()
	}
	return r.Int63n(1 << uint(1+r.Intn(40)))
}

func genPM(r *rand.Rand) PM {
	m := PM{Name: pmNames[r.Intn(len(pmNames))], Value: genValue64(r)}
	n := r.Intn(5)
	if r.Intn(10) == 0 {
		n = len(pmLabels)
	}
	for _, i := range r.Perm(len(pmLabels))[:n] {
		v := pmValues[r.Intn(len(pmValues))]
		if r.Intn(40) == 0 {
			v = strings.Repeat(v+"v", 1+r.Intn(500))
		}
		m.Labels = append(m.Labels, KV{pmLabels[i], v})
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		m.Millis = []int64{1, math.MaxInt64, 10, 1e15, -1, -1e15, math.MinInt64}[r.Intn(7)]
	default:
		m.Millis = time.Now().UnixNano()/1e6 + int64(r.Intn(1000))
	}
	return m
}

// breakPM makes a malformed line from a metric.
func breakPM(r *rand.Rand, m PM) string {
	for {
		s := m.String()
		switch r.Intn(9) {
		case 0, 1: // cut off
			s = s[:r.Intn(len(s))]
		case 2: // one byte missing
			i := r.Intn(len(s))
			s = s[:i] + s[i+1:]
		case 3: // one byte more
			i := r.Intn(len(s) + 1)
			s = s[:i] + string("{}\", =x.-\t\r"[r.Intn(11)]) + s[i:]
		case 4: // one byte different
			i := r.Intn(len(s))
			s = s[:i] + string("{}\", =x.-\t\r"[r.Intn(11)]) + s[i+1:]
		case 5:
			v := []string{"1.5", "1e3", "NaN", "+Inf", "0x10", "+1", "--1", "-", "9223372036854775808", "-9223372036854775809", "18446744073709551617", "1_000", "abc", "1i", "٣"}[r.Intn(15)]
			m2 := m
			m2.Value, m2.Millis = 0, 0
			s = strings.TrimSuffix(m2.String(), "0") + v
			if r.Intn(2) == 0 {
				s = m2.String() + " " + v
			}
		case 6:
			s = s + []string{" ", "  ", " 1 2", "}", "\r"}[r.Intn(5)]
		case 7: // its beginning missing
			s = s[r.Intn(len(s)):]
		case 8:
			s = []string{"x", "xy", "{", "{}", "a{", "a{}", "a{} ", "a{b", `a{b="`, `a{b="c`, `a{b="c"`, `a{b="c",`, `a{b="c"}`, `a{b="c"} `, `a{b="c"}1`, `a{b="c"}x 1`, `{a="b"} 1`, " 1", "  1", `a{="x"} 1`, `a{b="c",} 1`, `a{,b="c"} 1`, `a{b} c="d"} 1`, `a {b="c"} 1`, `a{b='c'} 1`, "# HELP a b", "a 1 2 3", "a 1  2", "a  1", "\x00\x00\x00", "a{b=\"c\"", "\xff\xff\xff\xff"}[r.Intn(32)]
		}
		if s == "" || strings.Contains(s, "\n") {
			continue
		}
		if _, err := parsePM(s); err != nil {
			return s
		}
	}
}

// permuted returns the metric with its labels in another order.
func (m PM) permuted(r *rand.Rand) PM {
	m.Labels = append([]KV(nil), m.Labels...)
	r.Shuffle(len(m.Labels), func(i, j int) { m.Labels[i], m.Labels[j] = m.Labels[j], m.Labels[i] })
	return m
}

// scrape takes a /metrics response apart: metric by key.
func parseScrape(b []byte) (map[string]PM, string) {
	out := map[string]PM{}
	if len(b) > 0 && b[len(b)-1] != '\n' {
		return nil, "the response doesn't end with a newline: " + short(b)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		m, err := parsePM(l)
		if err != nil {
			return nil, fmt.Sprintf("malformed line in the response: %q (%v)", l, err)
		}
		k := m.key()
		if _, ok := out[k]; ok {
			return nil, fmt.Sprintf("metric listed twice: %q", l)
		}
		out[k] = m
	}
	return out, ""
}

func diffPM(want, got map[string]PM) string {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("metric missing: %q", w.sorted().String())
		}
		if g.Value != w.Value || g.Millis != w.Millis {
			return fmt.Sprintf("metric has value %d and timestamp %d, the last message said %d and %d: %q", g.Value, g.Millis, w.Value, w.Millis, k)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("metric that was never sent: %q", g.String())
		}
	}
	return ""
}

// ---------------------------------------------------------------------
// C18

func checkC18(c *Ctx) {
	var old *monRig
	var oldModel map[string]PM
	var born time.Time
	c.Scenario("long life", func() {
		r := c.Rand("old")
		old = startMonRig(c)
		oldModel = map[string]PM{}
		for k := 0; k < 500; k++ {
			m := genPM(r)
			oldModel[m.key()] = m
			publish(c, old.nc, "mon", []byte(m.String()+"\n"))
		}
		if d := diffPM(oldModel, old.scrape(old.mark())); d != "" {
			c.Fatal("%s", d)
		}
		born = time.Now()
	})
	if old != nil {
		defer old.close()
	}
	c18idle(c)
	for i := 0; i < c.N(3, 8); i++ {
		c.Scenario(fmt.Sprintf("model%d", i), func() { c18model(c, i) })
	}
	c.Scenario("concurrent", func() { c18concurrent(c) })
	c.Scenario("stalled", func() { c18stalled(c) })
	c.Scenario("many", func() { c18many(c) })
	c.Scenario("long life", func() {
		if born.IsZero() {
			return
		}
		// What isn't updated stays.
		age := time.Duration(c.N(40, 200)) * time.Second
		Until(time.Until(born.Add(age)), func() bool { return false })
		for k := 0; k < 2; k++ {
			if d := diffPM(oldModel, old.scrape(old.mark())); d != "" {
				c.Fatal("%v after the last update: %s", time.Since(born), d)
			}
		}
		c.Eval(fmt.Sprintf("after %v", age), true)
	})
}

// c18idle has sets of metrics which aren't updated for days.
func c18idle(c *Ctx) {
	bubble(c, "idle", func() {
		r := c.Rand("idle")
		for i := 0; i < c.N(60, 600); i++ {
			set := prometheus.NewMetricSet()
			model := map[string]PM{}
			for step := 0; step < 6; step++ {
				for k := r.Intn(10); k > 0; k-- {
					m := genPM(r)
					if r.Intn(2) == 0 {
						m.Millis = time.Now().UnixNano() / 1e6
					}
					model[m.key()] = m
					set.Update(fromPM(m))
				}
				time.Sleep(time.Duration(r.Int63n([]int64{1e9, 6e10, 36e11, 1e15}[r.Intn(4)])))
				got, bad := parseScrape(set.ToBytes())
				if bad != "" {
					c.Fatal("idle: %s", bad)
				}
				if d := diffPM(model, got); d != "" {
					c.Fatal("idle set: %s", d)
				}
			}
			c.Eval(fmt.Sprintf("idle/%d", len(model)), true)
		}
	})
}

// c18many has very many different metrics, in messages of up to 1 MB, some
// of which are updated afterwards.
func c18many(c *Ctx) {
	r := c.Rand("many")
	g := startMonRig(c)
	defer g.close()
	model := map[string]PM{}
	names := []string{"triggered", "nats_dropped", "received", "t"}
	metric := func(j int) PM {
		m := PM{Name: names[j%len(names)], Labels: []KV{{"component", "filter"}, {"name", fmt.Sprintf("f%d", j%7)}, {"rule", fmt.Sprint(j / len(names))}}}
		if j%3 == 0 {
			m.Labels = m.Labels[2:]
		}
		return m
	}
	n := c.N(150000, 400000)
	send := func(idx []int, max int) {
		for len(idx) > 0 {
			var b bytes.Buffer
			for len(idx) > 0 && b.Len() < max-200 {
				m := metric(idx[0]).withValue(genValue64(r))
				m.Millis = 1500000000000 + int64(r.Intn(1000000000))
				model[m.key()] = m
				b.WriteString(m.permuted(r).String() + "\n")
				idx = idx[1:]
			}
			publish(c, g.nc, "mon", b.Bytes())
			c.Obs("messages with many metrics", 1)
		}
	}
	half := r.Perm(n)
	send(half[:n/2], 1<<20)
	if d := diffPM(model, g.scrape(g.mark())); d != "" {
		c.Fatal("with %d metrics: %s", n/2, d)
	}
	send(half[n/2:], 20000)
	send(r.Perm(n)[:n/10], 1<<20) // updates
	for k := 0; k < 300; k++ {
		send([]int{r.Intn(n)}, 300)
	}
	got := g.scrape(g.mark())
	if d := diffPM(model, got); d != "" {
		c.Fatal("with %d metrics: %s", n, d)
	}
	c.Eval(fmt.Sprintf("many %d", len(got)), true)
	c.ObsMax("metrics in a scrape", len(got))
	c.Sample("%d different metrics, a tenth of them updated", n)
}

type monRig struct {
	c    *Ctx
	n    *Nats
	conf *config.Config
	comp Comp
	nc   *nats.Conn
	seq  int64
}

func startMonRig(c *Ctx) *monRig {
	g := &monRig{c: c, n: startNats(c)}
	g.conf = baseConf(g.n, "monitor")
	g.conf.Port = freePort()
	g.comp = c.Start(g.conf)
	g.nc = g.n.Connect()
	return g
}

func (g *monRig) close() {
	g.c.StopComp(g.comp)
	g.nc.Close()
	g.n.Stop()
}

func (g *monRig) url() string { return fmt.Sprintf("http://127.0.0.1:%d/metrics", g.conf.Port) }

// mark publishes the end marker of what was sent so far.
func (g *monRig) mark() int64 {
	g.seq++
	publish(g.c, g.nc, "mon", []byte(fmt.Sprintf("zz_marker %d", g.seq)))
	flush(g.c, g.nc)
	return g.seq
}

var markerKey = PM{Name: "zz_marker"}.key()

// scrape waits until the monitor has everything up to the marker.
func (g *monRig) scrape(seq int64) map[string]PM {
	cl := httpClient()
	defer cl.CloseIdleConnections()
	var got map[string]PM
	ok := Until(longWait, func() bool {
		status, b, err := httpGet(cl, g.url())
		if err != nil || status != 200 {
			return false
		}
		if len(b) > 1<<20 && !bytes.Contains(b, []byte(fmt.Sprintf("zz_marker %d", seq))) {
			return false // Parsing it would take a while.
		}
		var bad string
		got, bad = parseScrape(b)
		if bad != "" {
			g.c.Fatal("%s", bad)
		}
		return got[markerKey].Value >= seq
	})
	if !ok {
		g.c.Fatal("the monitor doesn't show the metrics sent: marker %d instead of %d; goroutines:\n%s", got[markerKey].Value, seq, joinShort(repoGoroutines()))
	}
	delete(got, markerKey)
	return got
}

func c18model(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("model%d", i))
	g := startMonRig(c)
	defer g.close()
	model := map[string]PM{}
	var pool []PM
	for j := 0; j < 10+r.Intn(60); j++ {
		pool = append(pool, genPM(r))
	}
	if got := g.scrape(g.mark()); len(got) != 0 {
		c.Fatal("metrics in a new monitor: %v", got)
	}
	steps := c.N(60, 300)
	for s := 0; s < steps; s++ {
		for k := 1 + r.Intn(12); k > 0; k-- {
			var lines []string
			var ms []PM
			for j := 1 + r.Intn(12); j > 0; j-- {
				m := pool[r.Intn(len(pool))]
				m.Value = genValue64(r)
				if r.Intn(3) == 0 {
					m.Millis = genPM(r).Millis
				}
				m = m.permuted(r)
				if r.Intn(200) == 0 {
					m = genPM(r)
				}
				ms = append(ms, m)
				lines = append(lines, m.String())
				if r.Intn(10) == 0 {
					lines = append(lines, "") // blank lines are fine
				}
			}
			bad := r.Intn(4) == 0
			if bad {
				at := r.Intn(len(lines) + 1)
				b := breakPM(r, ms[r.Intn(len(ms))])
				lines = append(lines[:at], append([]string{b}, lines[at:]...)...)
				c.Obs("malformed messages", 1)
				if s < 3 {
					c.Sample("malformed line %q in a message of %d", b, len(lines))
				}
			}
			text := strings.Join(lines, "\n")
			if r.Intn(2) == 0 {
				text += "\n"
			}
			publish(c, g.nc, "mon", []byte(text))
			c.Eval(fmt.Sprintf("msg %d %v %d", len(ms), bad, len(lines[0])), true)
			if bad {
				continue
			}
			for _, m := range ms {
				model[m.key()] = m
			}
			c.Obs("valid metric lines", len(ms))
		}
		if r.Intn(40) == 0 {
			publish(c, g.nc, "mon", nil) // empty
		}
		if r.Intn(20) == 0 {
			junk := make([]byte, r.Intn(2000))
			r.Read(junk)
			junk = append(junk, "\nx"...)
			publish(c, g.nc, "mon", junk)
			c.Obs("malformed messages", 1)
		}
		if s%4 == 3 || s == steps-1 {
			got := g.scrape(g.mark())
			if d := diffPM(model, got); d != "" {
				c.Fatal("after %d steps: %s", s+1, d)
			}
			c.Obs("scrapes compared", 1)
			c.ObsMax("metrics in a scrape", len(got))
		}
	}
}

// c18concurrent scrapes while metrics arrive. Every value seen must be
// between the ones sent before and after the scrape.
func c18concurrent(c *Ctx) {
	r := c.Rand("concurrent")
	g := startMonRig(c)
	defer g.close()
	const series = 40
	var keys []string
	var base []PM
	for len(base) < series {
		m := genPM(r)
		m.Name = fmt.Sprintf("m%d", len(base))
		m.Millis = 0
		base = append(base, m)
		keys = append(keys, m.key())
	}
	var sent int64 // rounds that were begun
	for j := range base {
		publish(c, g.nc, "mon", []byte(base[j].permuted(r).withValue(1).String()))
	}
	sent = 1
	g.scrape(g.mark())
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var confirmed int64 = 1 // rounds seen to be complete
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.guard(func() {
				cl := httpClient()
				defer cl.CloseIdleConnections()
				last := make([]int64, series)
				for n := 0; ; n++ {
					select {
					case <-stop:
						return
					default:
					}
					lo := atomic.LoadInt64(&confirmed)
					status, b, err := httpGet(cl, g.url())
					hi := atomic.LoadInt64(&sent)
					if err != nil || status != 200 {
						c.Fatal("scrape failed: %d %v", status, err)
					}
					got, bad := parseScrape(b)
					if bad != "" {
						c.Fatal("%s", bad)
					}
					if len(got) != series+1 {
						c.Fatal("%d metrics instead of %d", len(got), series+1)
					}
					min := int64(math.MaxInt64)
					for j, k := range keys {
						v := got[k].Value
						if v < lo || v > hi || v < last[j] {
							c.Fatal("metric %s has value %d; %d was confirmed before, %d sent after the scrape, %d seen earlier", k, v, lo, hi, last[j])
						}
						last[j] = v
						if v < min {
							min = v
						}
					}
					for {
						cur := atomic.LoadInt64(&confirmed)
						if min <= cur || atomic.CompareAndSwapInt64(&confirmed, cur, min) {
							break
						}
					}
					c.Eval(fmt.Sprintf("concurrent %d", min%100), true)
					c.Obs("concurrent scrapes", 1)
				}
			})
		}()
	}
	rounds := c.N(150, 1000)
	for k := 2; k <= rounds && !c.Failed(); k++ {
		atomic.StoreInt64(&sent, int64(k))
		var msg []string
		for _, j := range r.Perm(series) {
			msg = append(msg, base[j].permuted(r).withValue(int64(k)).String())
			if r.Intn(8) == 0 {
				publish(c, g.nc, "mon", []byte(strings.Join(msg, "\n")))
				msg = nil
			}
		}
		publish(c, g.nc, "mon", []byte(strings.Join(msg, "\n")))
		if k%10 == 0 {
			flush(c, g.nc)
			time.Sleep(5 * time.Millisecond)
		}
	}
	got := g.scrape(g.mark())
	close(stop)
	wg.Wait()
	for j, k := range keys {
		if got[k].Value != int64(rounds) {
			c.Fatal("metric %d ended with value %d instead of %d", j, got[k].Value, rounds)
		}
	}
}

func (m PM) withValue(v int64) PM { m.Value = v; return m }

// c18stalled has clients which don't read their (large) responses.
func c18stalled(c *Ctx) {
	r := c.Rand("stalled")
	g := startMonRig(c)
	defer g.close()
	model := map[string]PM{}
	pad := strings.Repeat("p", 900)
	n := 9000
	for j := 0; j < n; {
		var b bytes.Buffer
		for k := 0; k < 100; k++ {
			m := PM{Name: "big", Labels: []KV{{"i", fmt.Sprint(j)}, {"pad", pad}}, Value: int64(j)}
			model[m.key()] = m
			b.WriteString(m.String() + "\n")
			j++
		}
		publish(c, g.nc, "mon", b.Bytes())
	}
	if d := diffPM(model, g.scrape(g.mark())); d != "" {
		c.Fatal("%s", d)
	}
	var conns []net.Conn
	for j := 0; j < 8; j++ {
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", g.conf.Port))
		if err != nil {
			c.Fatal("can't connect: %v", err)
		}
		defer conn.Close()
		if j < 6 {
			conn.(*net.TCPConn).SetReadBuffer(4096)
		}
		switch j {
		case 4: // an unfinished request
			fmt.Fprintf(conn, "GET /metrics HT")
		case 5: // a body that's announced but doesn't arrive
			fmt.Fprintf(conn, "POST /metrics HTTP/1.1\r\nHost: x\r\nContent-Length: 1000000\r\n\r\nabc")
		default:
			fmt.Fprintf(conn, "GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n")
		}
		conns = append(conns, conn)
	}
	asked := time.Now()
	time.Sleep(1500 * time.Millisecond)
	for k := 0; k < 4; k++ {
		for j := 0; j < 50; j++ {
			m := PM{Name: "big", Labels: []KV{{"pad", pad}, {"i", fmt.Sprint(r.Intn(n))}}, Value: genValue64(r)}
			model[m.key()] = m
			publish(c, g.nc, "mon", []byte(m.String()))
		}
		if d := diffPM(model, g.scrape(g.mark())); d != "" {
			c.Fatal("with stalled clients: %s", d)
		}
		c.Eval(fmt.Sprintf("stalled %d", k), true)
	}
	// Clients that go on reading in the end get a complete response.
	if d := time.Duration(c.N(12, 70))*time.Second - time.Since(asked); d > 0 {
		time.Sleep(d)
	}
	for j, conn := range conns[6:] {
		conn.SetReadDeadline(time.Now().Add(2 * longWait))
		var b []byte
		resp, err := http.ReadResponse(bufio.NewReaderSize(conn, 1<<20), nil)
		if err == nil {
			b, err = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		if err != nil {
			c.Fatal("a client that starts to read after %v gets only %d bytes: %v", time.Since(asked), len(b), err)
		}
		got, bad := parseScrape(b)
		if bad != "" {
			c.Fatal("%s", bad)
		}
		for k := range model {
			if _, ok := got[k]; !ok {
				c.Fatal("a client that starts to read after %v doesn't get %s", time.Since(asked), short([]byte(k)))
			}
		}
		c.Eval(fmt.Sprintf("late reader %d", j), true)
	}
	c.Obs("stalled clients", len(conns))
	c.Sample("%d clients which don't read their 9 MB responses while 200 metrics are updated", len(conns))
}

// ---------------------------------------------------------------------
// C20

func toPM(m *prometheus.Metric) PM {
	out := PM{Name: string(m.Name), Value: m.Value, Millis: m.Milliseconds}
	for _, l := range m.Labels {
		out.Labels = append(out.Labels, KV{string(l.Name), string(l.Value)})
	}
	return out
}

func fromPM(m PM) *prometheus.Metric {
	out := &prometheus.Metric{Name: []byte(m.Name), Value: m.Value, Milliseconds: m.Millis}
	for _, l := range m.Labels {
		out.Labels = append(out.Labels, prometheus.NewLabel(l.K, l.V))
	}
	return out
}

func samePM(a, b PM) bool {
	return a.key() == b.key() && a.Value == b.Value && a.Millis == b.Millis
}

func checkC20(c *Ctx) {
	c.Scenario("roundtrip", func() { c20roundtrip(c) })
	c.Scenario("sets", func() { c20sets(c) })
	c.Scenario("malformed", func() { c20malformed(c) })
	c.Scenario("small", func() { c20small(c) })
	c.Scenario("labels", func() { c20labels(c) })
	c.Scenario("stats", func() { c20stats(c) })
}

func c20roundtrip(c *Ctx) {
	r := c.Rand("roundtrip")
	for i := 0; i < c.N(20000, 200000) && !c.Failed(); i++ {
		m := genPM(r)
		p := fromPM(m)
		text := p.ToBytes()
		if string(text) != m.sorted().String() {
			c.Fatal("rendered %q instead of %q", text, m.sorted().String())
		}
		if again := p.ToBytes(); !bytes.Equal(again, text) {
			c.Fatal("rendered differently a second time: %q, %q", text, again)
		}
		if perm := fromPM(m.permuted(r)).ToBytes(); !bytes.Equal(perm, text) {
			c.Fatal("rendering depends on the order of labels: %q, %q", text, perm)
		}
		// The parser gets a slice of something larger, like a NATS message.
		in := []byte(m.permuted(r).String())
		buf := append(append([]byte("before 1\n"), in...), "\nafter 2 3\n"...)
		orig := append([]byte(nil), buf...)
		q, err := prometheus.ParseMetric(buf[9 : 9+len(in)])
		if err != nil {
			c.Fatal("valid metric %q rejected: %v", in, err)
		}
		if !samePM(toPM(q), m) {
			c.Fatal("%q parsed as %v", in, q)
		}
		for k := 0; k < 2; k++ {
			if got := q.ToBytes(); !bytes.Equal(got, text) {
				c.Fatal("%q rendered as %q after parsing, instead of %q", in, got, text)
			}
		}
		if !bytes.Equal(buf, orig) {
			c.Fatal("parsing or rendering %q changed the memory around it: %s", in, firstDiff(orig, buf))
		}
		_ = q.String()
		c.Eval(fmt.Sprintf("rt %d %v %d", len(m.Labels), m.Millis != 0, len(text)), len(m.Labels) > 0)
		if i < 3 {
			c.Sample("%q", text)
		}
	}
}

func c20sets(c *Ctx) {
	r := c.Rand("sets")
	for i := 0; i < c.N(800, 8000) && !c.Failed(); i++ {
		set := prometheus.NewMetricSet()
		model := map[string]PM{}
		var text []string
		for j := r.Intn(40); j > 0; j-- {
			m := genPM(r)
			model[m.key()] = m
			switch r.Intn(3) {
			case 0:
				set.Update(fromPM(m))
			case 1:
				other := prometheus.NewMetricSet()
				other.Update(fromPM(m))
				set.UpdateFromSet(other)
			case 2:
				q, err := prometheus.ParseMetric([]byte(m.String()))
				if err != nil {
					c.Fatal("valid metric %q rejected: %v", m.String(), err)
				}
				set.Update(q)
			}
			text = append(text, m.String())
			if r.Intn(8) == 0 {
				text = append(text, "")
			}
		}
		check := func(what string, set *prometheus.MetricSet) []byte {
			out := set.ToBytes()
			if again := set.ToBytes(); !bytes.Equal(out, again) {
				c.Fatal("%s: rendering isn't repeatable: %s", what, firstDiff(out, again))
			}
			got, bad := parseScrape(out)
			if bad != "" {
				c.Fatal("%s: %s", what, bad)
			}
			if d := diffPM(model, got); d != "" {
				c.Fatal("%s: %s", what, d)
			}
			all := map[string]PM{}
			for _, m := range set.All() {
				all[toPM(m).key()] = toPM(m)
			}
			if d := diffPM(model, all); d != "" || len(set.All()) != len(all) {
				c.Fatal("%s: All(): %s", what, d)
			}
			// Sorted by name and labels.
			last := ""
			for _, l := range strings.Split(strings.TrimSuffix(string(out), "\n"), "\n") {
				m, _ := parsePM(l)
				k := m.Name + "{"
				for j, x := range m.Labels {
					if j > 0 {
						k += ","
					}
					k += x.K + `="` + x.V + `"`
				}
				k += "}"
				if len(model) > 0 && k <= last {
					c.Fatal("%s: not sorted: %q after %q", what, k, last)
				}
				last = k
			}
			return out
		}
		a := check("built", set)
		parsed, err := prometheus.ParseMetrics([]byte(strings.Join(text, "\n")))
		if err != nil {
			c.Fatal("valid metrics rejected: %v\n%s", err, strings.Join(text, "\n"))
		}
		b := check("parsed", parsed)
		again, err := prometheus.ParseMetrics(append([]byte(nil), a...))
		if err != nil {
			c.Fatal("rendered metrics rejected: %v\n%s", err, a)
		}
		d := check("parsed again", again)
		if !bytes.Equal(a, b) || !bytes.Equal(a, d) {
			c.Fatal("the same set is rendered in different ways: %s", firstDiff(a, b))
		}
		c.Eval(fmt.Sprintf("set %d %d", len(model), len(text)), len(model) > 1)
	}
}

// bothParse compares the parser with the reference.
func bothParse(c *Ctx, s string) (valid bool) {
	in := []byte(s)
	want, werr := parsePM(s)
	got, err := prometheus.ParseMetric(in)
	if string(in) != s {
		c.Fatal("parsing %q changed it", s)
	}
	if werr != nil && err == nil {
		c.Fatal("malformed metric %q (%v) accepted as %q", s, werr, got.ToBytes())
	}
	if werr == nil {
		if err != nil {
			c.Fatal("valid metric %q rejected: %v", s, err)
		}
		if !samePM(toPM(got), want) {
			c.Fatal("%q parsed as %q", s, got.ToBytes())
		}
	}
	return werr == nil
}

func c20malformed(c *Ctx) {
	r := c.Rand("malformed")
	for i := 0; i < c.N(40000, 400000) && !c.Failed(); i++ {
		m := genPM(r)
		s := breakPM(r, m)
		bothParse(c, s)
		if set, err := prometheus.ParseMetrics([]byte("a 1\n" + s + "\nb 2\n")); err == nil {
			c.Fatal("metrics with the malformed line %q accepted: %q", s, set.ToBytes())
		}
		c.Eval("bad "+s, true)
		if i < 5 {
			c.Sample("malformed %q", s)
		}
	}
	// Every cut and every two adjacent pieces of some metrics.
	for i := 0; i < c.N(200, 2000) && !c.Failed(); i++ {
		s := genPM(r).String()
		for j := 0; j <= len(s); j++ {
			for _, cut := range []string{s[:j], s[j:]} {
				bothParse(c, cut)
				c.Eval("cut "+cut, true)
			}
		}
	}
}

// c20small goes through all short strings over a small alphabet.
func c20small(c *Ctx) {
	alphabet := "a{}=\", 1-"
	max := c.N(6, 7)
	buf := make([]byte, max)
	var rec func(n int)
	count := 0
	rec = func(n int) {
		if n > 0 {
			if bothParse(c, string(buf[:n])) {
				c.Obs("valid short strings", 1)
			}
			count++
		}
		if n == max {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			buf[n] = alphabet[i]
			rec(n + 1)
		}
	}
	rec(0)
	// Labels need more room: all strings in between braces.
	inner := []string{`a`, `="`, `"`, `,`, `}`, `{`, ` `, `b="c"`, `=`}
	var rec2 func(s string, n int)
	rec2 = func(s string, n int) {
		for _, end := range []string{"} 1", "}1", "", "} 1 2"} {
			bothParse(c, "m{"+s+end)
			count++
		}
		if n == 0 {
			return
		}
		for _, p := range inner {
			rec2(s+p, n-1)
		}
	}
	rec2("", c.N(4, 5))
	c.Obs("short strings enumerated", count)
	c.Eval("enumeration", true)
}

// c20labels derives labels from common ones, as the components do.
func c20labels(c *Ctx) {
	r := c.Rand("labels")
	for i := 0; i < c.N(2000, 20000) && !c.Failed(); i++ {
		type node struct {
			l prometheus.Labels
			m []KV
		}
		var nodes []node
		var root node
		for j := r.Intn(4); j > 0; j-- {
			k := KV{fmt.Sprintf("%c%d", 'a'+r.Intn(26), j), pmValues[r.Intn(len(pmValues))]}
			root.l = append(root.l, prometheus.NewLabel(k.K, k.V))
			root.m = append(root.m, k)
		}
		nodes = append(nodes, root)
		for j := 0; j < 12; j++ {
			n := nodes[r.Intn(len(nodes))]
			k := KV{fmt.Sprintf("%c%d", 'a'+r.Intn(26), 10+j), pmValues[r.Intn(len(pmValues))]}
			nodes = append(nodes, node{n.l.With(k.K, k.V), append(append([]KV(nil), n.m...), k)})
			if r.Intn(3) == 0 {
				n.l.ToBytes()
			}
		}
		for _, j := range r.Perm(len(nodes)) {
			n := nodes[j]
			for k := 0; k < 2; k++ {
				m := PM{Name: "x", Labels: n.m}
				got := (&prometheus.Metric{Name: []byte("x"), Labels: n.l}).ToBytes()
				if string(got) != m.sorted().String() {
					c.Fatal("labels %v are rendered as %q (%d sets of labels were derived)", n.m, got, len(nodes))
				}
			}
		}
		c.Eval(fmt.Sprintf("labels %d %d", len(root.m), i%50), true)
	}
}

func c20stats(c *Ctx) {
	r := c.Rand("stats")
	for i := 0; i < c.N(500, 5000) && !c.Failed(); i++ {
		comp, name := pmValues[r.Intn(len(pmValues))], pmValues[r.Intn(len(pmValues))]
		labels := stats.NewLabels(comp, name)
		now := time.Unix(r.Int63n(4e9), r.Int63n(1e9))
		ms := now.Unix()*1000 + int64(now.Nanosecond()/1e6)
		model := map[string]PM{}
		var snap stats.Snapshot
		base := append([]KV{{"component", comp}, {"name", name}}, hostLabel(labels))
		for _, j := range r.Perm(len(pmNames))[:r.Intn(len(pmNames))] {
			v := uint64(r.Int63())
			snap = append(snap, stats.CounterPair{Name: pmNames[j], Value: v})
			m := PM{Name: pmNames[j], Labels: base, Value: int64(v), Millis: ms}
			model[m.key()] = m
		}
		got, bad := parseScrape(stats.SnapshotToPrometheus(snap, now, labels))
		if bad != "" {
			c.Fatal("%s", bad)
		}
		if d := diffPM(model, got); d != "" {
			c.Fatal("snapshot: %s", d)
		}
		v := int(r.Int63n(1 << 40))
		rule := pmValues[r.Intn(len(pmValues))]
		one := stats.CounterToPrometheus("triggered", v, now, labels.With("rule", rule))
		want := PM{Name: "triggered", Labels: append(append([]KV(nil), base...), KV{"rule", rule}), Value: int64(v), Millis: ms}
		m, err := parsePM(strings.TrimSuffix(string(one), "\n"))
		if err != nil || !samePM(m, want) {
			c.Fatal("counter rendered as %q instead of %q (%v)", one, want.sorted().String(), err)
		}
		c.Eval(fmt.Sprintf("stats %d", len(snap)), len(snap) > 0)
	}
}

func hostLabel(ls prometheus.Labels) KV {
	for _, l := range ls {
		if string(l.Name) == "host" {
			return KV{"host", string(l.Value)}
		}
	}
	return KV{"host", "?"}
}
