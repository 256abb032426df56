package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C30", checkC30) }

func checkC30(c *Ctx) {
	c.Pool(4, c.N(6, 40), func(i int) {
		c.Scenario(fmt.Sprintf("deployment %d", i), func() { c30deployment(c, i) })
	})
	c.Scenario("unterminated", func() { c30unterminated(c) })
}

// c30stage is a filter stage: one or more filters with the same rules.
type c30stage struct {
	in, junk string
	rules    []config.Rule
	model    []ruleModel
}

// c30sink is what writes to one database.
type c30sink struct {
	db       string
	subjects []string
	group    string
	writers  int
	rules    []config.Rule
	model    []ruleModel
}

func (s *c30sink) takes(subject string, l LP) int {
	n := 0
	for _, x := range s.subjects {
		if x == subject {
			n++
		}
	}
	if n > 0 && len(s.model) > 0 && firstMatch(s.model, l) < 0 {
		return 0
	}
	return n
}

type c30sent struct {
	l  LP // as it should end up
	ts bool
}

// c30deployment is a complete deployment of random shape, made of the
// built programs.
func c30deployment(c *Ctx, i int) {
	r := c.Rand(fmt.Sprint("deployment", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	var procs []*Child
	start := func(conf *config.Config) {
		conf.Name = fmt.Sprintf("%s%d", conf.Mode, len(procs))
		if i%2 == 0 { // names needn't differ
			conf.Name = conf.Mode
		}
		conf.ProbePort = freePort()
		conf.Debug = r.Intn(4) == 0
		ch := startSpout(c, conf)
		procs = append(procs, ch)
	}
	defer func() {
		for _, p := range procs {
			p.Stop()
		}
	}()
	limits := func(conf *config.Config) {
		conf.BatchMaxCount = []int{1, 2, 5, 20, 1000}[r.Intn(5)]
		conf.BatchMaxSize = []datasize.ByteSize{datasize.MB, 200000, 20000}[r.Intn(3)]
		conf.BatchMaxAge = dur(time.Duration(20+r.Intn(200)) * time.Millisecond)
	}

	// The rules, and what they lead to.
	stages := []*c30stage{{in: "lines", junk: "junkyard", rules: genRules(r, true)}}
	var subjects []string // where lines end
	seen := map[string]bool{}
	for _, rule := range stages[0].rules {
		if !seen[rule.Subject] {
			seen[rule.Subject] = true
			subjects = append(subjects, rule.Subject)
		}
	}
	if r.Intn(2) == 0 {
		// Another filter looks at what the first one put on a subject
		// (or at its junk).
		st := &c30stage{in: append(subjects, "junkyard")[r.Intn(len(subjects)+1)], junk: "second.junk", rules: genRules(r, true)}
		for k := range st.rules {
			st.rules[k].Subject = "second." + st.rules[k].Subject
			if !seen[st.rules[k].Subject] {
				seen[st.rules[k].Subject] = true
				subjects = append(subjects, st.rules[k].Subject)
			}
		}
		stages = append(stages, st)
		subjects = append(subjects, st.junk)
	}
	for _, st := range stages {
		st.model = modelRules(st.rules)
	}
	route := func(l LP) []string { // all subjects the line is published on
		var out []string
		in := "lines"
		for _, st := range stages {
			if st.in != in {
				continue
			}
			if k := firstMatch(st.model, l); k >= 0 {
				in = st.rules[k].Subject
			} else {
				in = st.junk
			}
			out = append(out, in)
		}
		return out
	}

	// Writers.
	sinks := []*c30sink{{db: "junk", subjects: []string{"junkyard"}, writers: 1}}
	for k := 1 + r.Intn(3); k > 0; k-- {
		s := &c30sink{db: fmt.Sprintf("db%d", len(sinks)), writers: 1}
		perm := r.Perm(len(subjects))
		for _, x := range perm[:1+r.Intn(len(subjects))] {
			s.subjects = append(s.subjects, subjects[x])
		}
		if r.Intn(2) == 0 {
			s.group, s.writers = "group"+s.db, 1+r.Intn(2)
		}
		if r.Intn(3) == 0 {
			for _, rule := range genRules(r, false) {
				if rule.Rtype == "basic" || rule.Rtype == "tags" {
					s.rules = append(s.rules, rule)
				}
			}
			s.model = modelRules(s.rules)
		}
		sinks = append(sinks, s)
	}
	const period = 2 * time.Second
	sampled := subjects[r.Intn(len(subjects))]
	for _, s := range sinks {
		for k := 0; k < s.writers; k++ {
			conf := baseConf(n, "writer")
			limits(conf)
			conf.Workers = 1 + r.Intn(4)
			conf.InfluxDBPort = inf.Port
			conf.DBName = s.db
			conf.NATSSubject = s.subjects
			conf.QueueGroup = s.group
			conf.Rule = s.rules
			conf.WriterRetryBatches = 10000
			conf.WriterRetryInterval = dur(5 * time.Millisecond)
			conf.WriterRetryTimeout = dur(time.Hour)
			start(conf)
		}
	}
	{
		conf := baseConf(n, "writer")
		limits(conf)
		conf.InfluxDBPort = inf.Port
		conf.DBName = "archive"
		conf.NATSSubject = []string{sampled + "-archive"}
		conf.WriterRetryBatches = 10000
		conf.WriterRetryInterval = dur(5 * time.Millisecond)
		start(conf)
		conf = baseConf(n, "downsampler")
		conf.DownsamplePeriod = dur(period)
		conf.NATSSubject = []string{sampled}
		start(conf)
	}
	// Filters.
	for _, st := range stages {
		for k := 1 + r.Intn(2); k > 0; k-- {
			conf := baseConf(n, "filter")
			conf.NATSSubject = []string{st.in}
			conf.NATSSubjectJunkyard = st.junk
			conf.Rule = st.rules
			conf.Workers = 1 + r.Intn(4)
			conf.MaxTimeDelta = dur(time.Hour)
			start(conf)
		}
	}
	// Listeners.
	var udp, web []int
	for k := 1 + r.Intn(2); k > 0; k-- {
		conf := baseConf(n, "listener")
		limits(conf)
		conf.NATSSubject = []string{"lines"}
		conf.Port = freePort()
		start(conf)
		udp = append(udp, conf.Port)
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		conf := baseConf(n, "listener_http")
		limits(conf)
		conf.NATSSubject = []string{"lines"}
		conf.Port = freePort()
		start(conf)
		web = append(web, conf.Port)
	}
	for _, p := range web {
		p := p
		c.Must("HTTP listener accepts connections", func() bool { return tcpOpen(p) })
	}
	if i < 3 {
		c.Sample("%d processes: %d UDP and %d HTTP listeners, %d filter stages with rules %v, sinks %v, downsampled %s", len(procs), len(udp), len(web), len(stages), stages[0].rules, len(sinks), sampled)
	}

	// InfluxDB fails now and then.
	faulty := i%2 == 1
	var stable atomic.Bool
	if faulty {
		var mu sync.Mutex
		fr := c.Rand(fmt.Sprint("faults", i))
		inf.ScriptBody(func(w *Write) Action {
			mu.Lock()
			defer mu.Unlock()
			if !stable.Load() && fr.Intn(6) == 0 {
				if fr.Intn(3) == 0 {
					return Action{Reset: true}
				}
				return Action{Status: 500 + fr.Intn(4)}
			}
			return Action{Status: 204}
		})
	}

	// Lines.
	var mu sync.Mutex
	sent := map[int64]c30sent{}
	gen := func(r *rand.Rand, prec string) string {
		for {
			ts, want := "", ""
			if r.Intn(2) == 0 {
				at := time.Now().UnixNano() + r.Int63n(int64(20*time.Minute)) - int64(10*time.Minute)
				mult := int64(1)
				if prec != "" {
					mult = precisions[prec]
				}
				v := at / mult
				ts, want = fmt.Sprint(v), fmt.Sprint(v*mult)
			}
			st := stages[r.Intn(len(stages))]
			l := genRuleLine(r, st.rules, "")
			if l.Bare || !lineOK(l) || !strings.HasPrefix(l.Rest, "id=") {
				continue
			}
			var id int64
			fmt.Sscanf(l.Rest, "id=%di", &id)
			w := l.sorted()
			text := l.String()
			if ts != "" {
				w.Rest += " " + want
				text += " " + ts
			}
			mu.Lock()
			sent[id] = c30sent{w, ts != ""}
			mu.Unlock()
			return text + "\n"
		}
	}
	total := c.N(1500, 4000)
	var lost atomic.Bool
	var fs []func()
	for k, port := range udp {
		k, port := k, port
		fs = append(fs, func() {
			r := c.Rand(fmt.Sprint("udp", i, k))
			s := newUDPSender(c, port)
			defer s.conn.Close()
			for left := total; left > 0 && !c.Failed(); {
				var d []byte
				for x := 1 + r.Intn(6); x > 0; x-- {
					l := gen(r, "")
					if len(d)+len(l) > 60000 {
						mu.Lock() // (not sent)
						p, _ := parseLP(strings.TrimSuffix(l, "\n"))
						var id int64
						fmt.Sscanf(p.Rest, "id=%di", &id)
						delete(sent, id)
						mu.Unlock()
						break
					}
					d = append(d, l...)
					left--
				}
				if len(d) == 0 {
					continue
				}
				if r.Intn(3) == 0 {
					d = d[:len(d)-1] // the listener adds it
				}
				s.send(d)
				if r.Intn(50) == 0 {
					time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
				}
			}
			s.drain()
			if s.dropped() {
				lost.Store(true)
			}
		})
	}
	precs := []string{"", "", "ns", "u", "ms", "s", "n"}
	for k := 0; k < 2+len(web); k++ {
		k := k
		port := web[k%len(web)]
		fs = append(fs, func() {
			r := c.Rand(fmt.Sprint("http", i, k))
			cl := httpClient()
			cl.Timeout = longWait
			defer cl.CloseIdleConnections()
			for left := total; left > 0 && !c.Failed(); {
				prec := precs[r.Intn(len(precs))]
				if _, ok := precisions[prec]; !ok && prec != "" && prec != "ns" && prec != "n" {
					prec = ""
				}
				conv := prec
				if prec == "ns" || prec == "n" {
					conv = ""
				}
				var b []byte
				for x := 1 + r.Intn(40); x > 0; x-- {
					b = append(b, gen(r, conv)...)
					left--
				}
				u := fmt.Sprintf("http://127.0.0.1:%d/write?db=x", port)
				if prec != "" {
					u += "&precision=" + prec
				}
				var rd io.Reader = bytes.NewReader(b)
				if r.Intn(3) == 0 {
					rd = io.MultiReader(bytes.NewReader(b[:len(b)/2]), bytes.NewReader(b[len(b)/2:]))
				}
				resp, err := cl.Post(u, "text/plain", rd)
				if err != nil {
					c.Fatal("HTTP write: %v", err)
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if resp.StatusCode != http.StatusNoContent {
					c.Fatal("HTTP write answered with %s", resp.Status)
				}
			}
		})
	}
	c.Go(fs...)
	if c.Failed() {
		return
	}
	if lost.Load() {
		c.Infra("the kernel dropped datagrams")
	}
	inputDone := time.Now()
	stable.Store(true)

	// What has to be where.
	want := map[string]map[int64]int{}
	goal := 0
	series := map[string]bool{}
	due := map[string]bool{}
	sinkOf := map[string]*c30sink{}
	for _, s := range sinks {
		want[s.db] = map[int64]int{}
		sinkOf[s.db] = s
	}
	for id, s := range sent {
		path := route(s.l)
		for _, subject := range path {
			for _, sink := range sinks {
				if k := sink.takes(subject, s.l); k > 0 {
					want[sink.db][id] += k
					goal += k
				}
			}
			if subject == sampled {
				key := LP{Meas: s.l.Meas, Tags: s.l.Tags, Bare: true}.String()
				series[key] = true
				if !s.ts {
					due[key] = true
				}
			}
		}
		c.Eval(fmt.Sprintf("route/%v/tags%d/ts%v/faults%v", path, len(s.l.Tags), s.ts, faulty), true)
	}

	got := map[string]map[int64]int{}
	for db := range want {
		got[db] = map[int64]int{}
	}
	archived := map[string]bool{}
	emitted := map[string]bool{}
	have, next := 0, 0
	collect := func() {
		all := inf.Writes()
		for ; next < len(all); next++ {
			w := all[next]
			if w.Status/100 != 2 {
				c.Obs("writes that failed", 1)
				continue
			}
			c.Obs("writes", 1)
			if _, ok := want[w.DB]; !ok && w.DB != "archive" {
				c.Fatal("write to database %q (query %q)", w.DB, w.RawQuery)
			}
			for _, raw := range splitLines(w.Body) {
				if raw[len(raw)-1] != '\n' {
					c.Fatal("database %q: body ends in %s", w.DB, short(raw))
				}
				line := strings.TrimSuffix(string(raw), "\n")
				l, err := parseLP(line)
				if err != nil {
					c.Fatal("database %q got the line %s", w.DB, short(raw))
				}
				if w.DB == "archive" {
					key := LP{Meas: l.Meas, Tags: l.Tags, Bare: true}.sorted().String()
					if !series[key] {
						c.Fatal("the archive got %s, which belongs to none of the series on %s", short(raw), sampled)
					}
					k := strings.LastIndexByte(l.Rest, ' ')
					var ts int64
					fmt.Sscanf(l.Rest[k+1:], "%d", &ts)
					if ts == 0 || ts%int64(period) != 0 {
						c.Fatal("the archive got %s, not stamped with the end of a period", short(raw))
					}
					if e := key + " " + l.Rest[k+1:]; emitted[e] {
						c.Fatal("the archive got the series of %s twice for the same period", short(raw))
					} else {
						emitted[e] = true
					}
					archived[key] = true
					c.Obs("archived lines", 1)
					continue
				}
				var id int64
				if _, err := fmt.Sscanf(l.Rest, "id=%di", &id); err != nil {
					c.Fatal("database %q got the line %s", w.DB, short(raw))
				}
				s, ok := sent[id]
				if !ok {
					c.Fatal("database %q got %s, which was never sent", w.DB, short(raw))
				}
				if want[w.DB][id] == 0 {
					c.Fatal("database %q (subjects %v, rules %v) got %s, which belongs to %v", w.DB, sinkOf[w.DB].subjects, sinkOf[w.DB].rules, short(raw), route(s.l))
				}
				if !sameLP(l.sorted(), s.l) {
					c.Fatal("database %q got %s instead of %s", w.DB, short(raw), short([]byte(s.l.String())))
				}
				if got[w.DB][id]++; got[w.DB][id] > want[w.DB][id] {
					c.Fatal("database %q got %s %d times instead of %d", w.DB, short(raw), got[w.DB][id], want[w.DB][id])
				}
				have++
			}
		}
	}
	missing := func() int {
		k := 0
		for key := range due {
			if !archived[key] {
				k++
			}
		}
		return k
	}
	UntilProgress(longWait, inf.Count, func() bool { collect(); return have >= goal && missing() == 0 })
	// Everything that has to come did; nothing else may.
	if d := 3*period + 300*time.Millisecond - time.Since(inputDone); d > 0 && d < 4*period {
		time.Sleep(d)
	}
	collect()
	for _, p := range procs {
		p.MustLive("end to end")
	}
	if have != goal {
		for db := range want {
			for id, k := range want[db] {
				if got[db][id] != k {
					c.Fatal("%d of %d deliveries missing, e.g. %s (subjects %v), which database %q (subjects %v) got %d times instead of %d", goal-have, goal, short([]byte(sent[id].l.String())), route(sent[id].l), db, sinkOf[db].subjects, got[db][id], k)
				}
			}
		}
	}
	if missing() > 0 {
		for key := range due {
			if !archived[key] {
				c.Fatal("%d of %d series of the subject %s never reached the archive, e.g. %s", missing(), len(due), sampled, short([]byte(key)))
			}
		}
	}
	c.Obs("lines sent", len(sent))
	c.Obs("deliveries checked", goal)
	c.Obs("processes", len(procs))
}

// c30unterminated follows lines which no newline terminates: HTTP bodies
// may end like that. (What several of them become is a known finding.)
func c30unterminated(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	var procs []*Child
	start := func(mode string, mod func(conf *config.Config)) *config.Config {
		conf := baseConf(n, mode)
		conf.Name = fmt.Sprintf("u%d", len(procs))
		mod(conf)
		procs = append(procs, startSpout(c, conf))
		return conf
	}
	defer func() {
		for _, p := range procs {
			p.Stop()
		}
	}()
	for _, count := range []int{1, 2} {
		start("writer", func(conf *config.Config) {
			conf.NATSSubject = []string{"out"}
			conf.InfluxDBPort = inf.Port
			conf.DBName = fmt.Sprint("count", count)
			conf.BatchMaxCount = count
			conf.Workers = 1
		})
	}
	start("filter", func(conf *config.Config) {
		conf.NATSSubject = []string{"lines"}
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: "out"}}
	})
	conf := start("listener_http", func(conf *config.Config) {
		conf.NATSSubject = []string{"lines"}
		conf.Port = freePort()
	})
	c.Must("HTTP listener accepts connections", func() bool { return tcpOpen(conf.Port) })
	nc := n.Connect()
	defer nc.Close()
	got := make(chan *nats.Msg, 10)
	if _, err := nc.ChanSubscribe("out", got); err != nil {
		c.Infra("%v", err)
	}
	flush(c, nc)
	cl := httpClient()
	defer cl.CloseIdleConnections()
	lines := []string{"cpu,k=a v=1", "cpu,k=b v=2"}
	for _, l := range lines {
		resp, err := cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write", conf.Port), "text/plain", strings.NewReader(l))
		if err != nil {
			c.Fatal("HTTP write: %v", err)
		}
		resp.Body.Close()
		select {
		case <-got:
		case <-time.After(longWait):
			c.Fatal("the line %q doesn't reach its subject", l)
		}
	}
	c.Must("the lines reach InfluxDB", func() bool {
		return len(inf.AcceptedBytes("count1")) >= len(lines[0])+len(lines[1]) && len(inf.AcceptedBytes("count2")) >= len(lines[0])+len(lines[1])
	})
	// Each body is a write of its own where batches hold one message.
	for k, w := range inf.Accepted("count1") {
		if k >= 2 || strings.TrimSuffix(string(w.Body), "\n") != lines[k] {
			c.Fatal("writes of one message each: body %d is %s", k, short(w.Body))
		}
	}
	switch all := string(inf.AcceptedBytes("count2")); strings.TrimSuffix(all, "\n") {
	case lines[0] + "\n" + lines[1]:
	case lines[0] + lines[1]:
		c.KnownFinding("unterminated-message-glued")
	default:
		c.Fatal("two lines became %q", all)
	}
	c.Eval("unterminated", true)
}
