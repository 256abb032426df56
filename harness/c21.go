package harness

import (
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C21", checkC21) }

// The deciding oracle is the race detector (the driver reads its
// reports); this makes everything happen at the same time.
func checkC21(c *Ctx) {
	n := c.N(4, 24)
	for i := 0; i < n; i++ {
		c.Scenario(fmt.Sprintf("pipeline%d", i), func() { c21pipeline(c, i) })
	}
}

// deployment returns the configurations of a complete deployment.
func deployment(r *rand.Rand, n *Nats, influxPort int) []*config.Config {
	var confs []*config.Config
	add := func(mode, name string, mod func(*config.Config)) {
		conf := baseConf(n, mode)
		conf.Name = name
		conf.NATSSubject = []string{"lines"}
		conf.StatsInterval = dur(time.Duration(1+r.Intn(20)) * time.Millisecond)
		conf.ProbePort = freePort()
		conf.Debug = r.Intn(3) == 0
		conf.BatchMaxCount = []int{1, 2, 7, 50, 1000000}[r.Intn(5)]
		conf.BatchMaxAge = dur([]time.Duration{time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond}[r.Intn(3)])
		conf.Workers = 1 + r.Intn(8)
		conf.InfluxDBPort = influxPort
		conf.WriterRetryBatches = r.Intn(4)
		conf.WriterRetryInterval = dur(time.Duration(1+r.Intn(20)) * time.Millisecond)
		conf.WriterRetryTimeout = dur(time.Duration(20+r.Intn(400)) * time.Millisecond)
		conf.WriteTimeout = dur(time.Duration(50+r.Intn(150)) * time.Millisecond)
		mod(conf)
		confs = append(confs, conf)
	}
	for i := 0; i < 2; i++ {
		add("listener", fmt.Sprintf("udp%d", i), func(conf *config.Config) {
			conf.Port = freePort()
			conf.BatchMaxSize = datasize.ByteSize([]int{1 << 20, 100000, 70000}[r.Intn(3)])
		})
		add("listener_http", fmt.Sprintf("http%d", i), func(conf *config.Config) {
			conf.Port = freePort()
			conf.BatchMaxSize = datasize.ByteSize([]int{1 << 20, 100000, 70000}[r.Intn(3)])
		})
		add("filter", fmt.Sprintf("filter%d", i), func(conf *config.Config) {
			conf.Rule = []config.Rule{
				{Rtype: "tags", Tags: [][]string{{"cls", "server"}, {"env", "prod"}}, Subject: "tagged"},
				{Rtype: "basic", Match: "cpu", Subject: "cpu"},
				{Rtype: "regex", Match: "host=web.+", Subject: "web"},
				{Rtype: "negregex", Match: "v=", Subject: "nov"},
			}
		})
		add("writer", fmt.Sprintf("w%d", i), func(conf *config.Config) {
			conf.NATSSubject = []string{"tagged", "cpu", "web", "junk"}
			conf.DBName = fmt.Sprintf("db%d", i)
			if r.Intn(2) == 0 {
				conf.QueueGroup = "q"
			}
			if i == 1 {
				conf.Rule = []config.Rule{
					{Rtype: "basic", Match: "cpu"}, {Rtype: "regex", Match: "web|mem"},
					{Rtype: "tags", Tags: [][]string{{"env", "prod"}}},
				}
				conf.BatchMaxSize = datasize.ByteSize(2000 + r.Intn(3000))
			}
			if r.Intn(2) == 0 {
				conf.InfluxDBUser, conf.InfluxDBPass = "u", "p"
			}
		})
	}
	add("downsampler", "ds", func(conf *config.Config) {
		conf.NATSSubject = []string{"tagged", "cpu", "web"}
		conf.DownsamplePeriod = dur(time.Duration(50+r.Intn(400)) * time.Millisecond)
	})
	add("writer", "archive", func(conf *config.Config) {
		conf.NATSSubject = []string{"tagged-archive", "cpu-archive", "web-archive"}
		conf.DBName = "archive"
	})
	add("monitor", "monitor", func(conf *config.Config) { conf.Port = freePort() })
	return confs
}

// c21line makes a line (sometimes a malformed one).
func c21line(r *rand.Rand) string {
	ts := ""
	switch r.Intn(4) {
	case 0:
		ts = fmt.Sprint(time.Now().UnixNano() + r.Int63n(2e9) - 1e9)
	case 1:
		ts = fmt.Sprint(r.Int63())
	}
	l := []string{
		"cpu,env=prod,cls=server,host=web%d v=%di,s=\"a b\"",
		"cpu,host=web%d v=%d",
		"mem,z=1,a=web%d used=%di,free=3.5",
		"disk,host=web%d free=%d,ok=t",
		"junk,a=%d x=%d",
		"bad line %d %d",
		"cpu,host=web%d,, v=%d",
		"cpu v=\"unterminated %d %d",
	}[r.Intn(8)]
	l = fmt.Sprintf(l, r.Intn(5), r.Intn(1000))
	if ts != "" {
		l += " " + ts
	}
	return l
}

func c21body(r *rand.Rand, max int) []byte {
	var b []byte
	for k := 1 + r.Intn(max); k > 0; k-- {
		b = append(b, c21line(r)...)
		if k > 1 || r.Intn(4) != 0 {
			b = append(b, '\n')
		}
	}
	return b
}

func c21pipeline(c *Ctx, i int) {
	r := c.Rand(fmt.Sprint("pipeline", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()

	mood := int32(0) // how InfluxDB behaves at the moment
	var rmu sync.Mutex
	ri := c.Rand(fmt.Sprint("influx", i))
	inf.Script(func(w *Write) Action {
		rmu.Lock()
		defer rmu.Unlock()
		switch atomic.LoadInt32(&mood) {
		case 0:
			return Action{Status: 204}
		case 1:
			return Action{Status: []int{500, 400, 204}[ri.Intn(3)], Body: `{"error":"x"}`}
		case 2:
			return Action{Reset: true, Early: ri.Intn(2) == 0}
		case 3:
			return Action{Status: []int{204, 503, 413}[ri.Intn(3)], Early: true}
		case 4:
			return Action{Status: 204, Delay: time.Duration(ri.Intn(250)) * time.Millisecond}
		}
		return Action{Status: 204}
	})

	confs := deployment(r, n, inf.Port)
	comps := make([]Comp, len(confs))
	// Everything starts at once.
	var fs []func()
	for k := range confs {
		k := k
		fs = append(fs, func() { comps[k] = c.Start(confs[k]) })
	}
	c.Go(fs...)
	if c.Failed() {
		return
	}
	sig := ""
	for _, conf := range confs {
		sig += fmt.Sprintf("%s:%d:%d:%d ", conf.Mode[:1], conf.BatchMaxCount, conf.Workers, conf.WriterRetryBatches)
	}

	stop := make(chan struct{})
	var wg sync.WaitGroup
	var loads int64
	load := func(name string, f func(r *rand.Rand)) {
		r := c.Rand(fmt.Sprint("load", i, name))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				f(r)
				atomic.AddInt64(&loads, 1)
				time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			}
		}()
	}
	var gets int64
	client := httpClient()
	client.Timeout = 2 * time.Second
	defer client.CloseIdleConnections()
	get := func(u string) {
		method := "GET"
		switch atomic.AddInt64(&gets, 1) % 8 {
		case 0:
			method = "HEAD"
		case 1:
			method = "POST"
		case 2:
			method = "OPTIONS"
		}
		req, err := http.NewRequest(method, u, nil)
		if err != nil {
			return
		}
		resp, err := client.Do(req)
		if err == nil {
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	}
	pub := n.Connect()
	defer pub.Close()
	for k, conf := range confs {
		conf := conf
		name := fmt.Sprint(conf.Name, k)
		switch conf.Mode {
		case "listener":
			for x := 0; x < 2; x++ {
				conn := udpDial(c, conf.Port)
				defer conn.Close()
				load(fmt.Sprint(name, x), func(r *rand.Rand) { conn.Write(c21body(r, 20)) })
			}
		case "listener_http":
			for x := 0; x < 3; x++ {
				load(fmt.Sprint(name, x), func(r *rand.Rand) {
					b := c21body(r, 60)
					u := fmt.Sprintf("http://127.0.0.1:%d/write%s", conf.Port, []string{"", "?precision=s", "?precision=ns", "?precision=ms"}[r.Intn(4)])
					var rd io.Reader = strings.NewReader(string(b))
					if r.Intn(3) == 0 {
						rd = struct{ io.Reader }{rd}
					}
					if r.Intn(8) == 0 { // break off
						rd = io.MultiReader(rd, errReader{})
					}
					req, _ := http.NewRequest("POST", u, rd)
					resp, err := client.Do(req)
					if err == nil {
						io.Copy(io.Discard, resp.Body)
						resp.Body.Close()
					}
				})
			}
		case "monitor":
			for x := 0; x < 2; x++ {
				load(fmt.Sprint(name, x), func(r *rand.Rand) { get(fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port)) })
			}
			load(name+"metrics", func(r *rand.Rand) {
				pub.Publish("mon", []byte(genPM(r).String()+"\n"))
				pub.Publish("mon", []byte(breakPM(r, genPM(r))))
			})
		}
		load(name+"probe", func(r *rand.Rand) {
			time.Sleep(5 * time.Millisecond)
			get(fmt.Sprintf("http://127.0.0.1:%d/%s", conf.ProbePort, []string{"healthz", "readyz"}[r.Intn(2)]))
		})
	}
	load("direct", func(r *rand.Rand) {
		pub.Publish([]string{"lines", "tagged", "cpu", "web", "junk", "cpu-archive"}[r.Intn(6)], c21body(r, 100))
	})

	phase := time.Duration(c.N(350, 700)) * time.Millisecond
	for m := int32(0); m < 5; m++ {
		atomic.StoreInt32(&mood, m)
		time.Sleep(phase)
		if m == 2 {
			inf.Stop()
			time.Sleep(100 * time.Millisecond)
			inf.Start()
		}
	}
	if i%2 == 1 {
		// NATS goes away for a moment.
		n.Stop()
		time.Sleep(200 * time.Millisecond)
		n.Start()
		time.Sleep(2500 * time.Millisecond)
	}
	atomic.StoreInt32(&mood, int32(r.Intn(5)))

	// Components stop, some are started again, all under load.
	order := r.Perm(len(comps))
	half := len(order) / 2
	fs = nil
	for _, k := range order[:half] {
		k := k
		fs = append(fs, func() {
			c.StopComp(comps[k])
			comps[k] = nil
			if k%2 == 0 {
				comp, err := startComp(confs[k])
				if err == nil {
					comps[k] = comp
				}
			}
		})
	}
	c.Go(fs...)
	time.Sleep(100 * time.Millisecond)
	fs = nil
	for k := range comps {
		if comps[k] != nil {
			comp := comps[k]
			fs = append(fs, func() { c.StopComp(comp) })
		}
	}
	c.Go(fs...)
	close(stop)
	wg.Wait()
	for _, conf := range confs {
		c.Eval(fmt.Sprintf("%s count=%d size=%d workers=%d retries=%d rules=%d debug=%v queue=%s", conf.Mode, conf.BatchMaxCount,
			conf.BatchMaxSize, conf.Workers, conf.WriterRetryBatches, len(conf.Rule), conf.Debug, conf.QueueGroup), true)
	}
	c.Obs("requests, datagrams and messages sent under load", int(atomic.LoadInt64(&loads)))
	c.Obs("InfluxDB requests", inf.Begun())
	c.Obs("components started and stopped", len(comps)+half/2)
	c.Sample("deployment %d: %s", i, sig)
}

// errReader breaks a request off.
type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, fmt.Errorf("client gives up") }
