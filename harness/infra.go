package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/downsampler"
	"github.com/jumptrading/influx-spout/v2/filter"
	"github.com/jumptrading/influx-spout/v2/listener"
	"github.com/jumptrading/influx-spout/v2/monitor"
	"github.com/jumptrading/influx-spout/v2/writer"
)

// ---------------------------------------------------------------------
// Ports

var (
	portMu   sync.Mutex
	portNext int
)

// freePort returns a port which was free for TCP and UDP just now. It
// lies below the range the kernel picks ephemeral ports from.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	if portNext == 0 {
		r := rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
		portNext = 12000 + r.Intn(19000)
	}
	for i := 0; i < 20000; i++ {
		portNext++
		if portNext >= 32000 {
			portNext = 12000
		}
		if portFree(portNext) {
			return portNext
		}
	}
	panic("no free port")
}

func portFree(p int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
	if err != nil {
		return false
	}
	l.Close()
	u, err := net.ListenPacket("udp", fmt.Sprintf(":%d", p))
	if err != nil {
		return false
	}
	u.Close()
	return true
}

func tcpOpen(p int) bool {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p), 2*time.Second)
	if err != nil {
		return false
	}
	noLinger(conn)
	conn.Close()
	return true
}

// noLinger makes a connection disappear at once when it's closed; others
// keep a port busy for a minute.
func noLinger(conn net.Conn) {
	if tc, ok := conn.(*net.TCPConn); ok {
		tc.SetLinger(0)
	}
}

// dialNoLinger is for clients which close connections only when they have
// got all they wanted.
func dialNoLinger(ctx context.Context, network, addr string) (net.Conn, error) {
	var d net.Dialer
	conn, err := d.DialContext(ctx, network, addr)
	if err == nil {
		noLinger(conn)
	}
	return conn, err
}

// ---------------------------------------------------------------------
// NATS

// Nats is a NATS server which can be taken down and brought back.
type Nats struct {
	c    *Ctx
	Port int
	srv  *server.Server
	opts func(*server.Options)
}

func startNats(c *Ctx) *Nats {
	n := &Nats{c: c}
	n.Start()
	return n
}

// Start starts the server (on the same port if it ran before).
func (n *Nats) Start() {
	for try := 0; ; try++ {
		port := n.Port
		if port == 0 {
			port = freePort()
		}
		opts := &server.Options{
			Host: "127.0.0.1", Port: port, NoLog: true, NoSigs: true,
			MaxPending: 1 << 30, WriteDeadline: time.Minute,
		}
		if n.opts != nil {
			n.opts(opts)
		}
		srv, err := server.NewServer(opts)
		if err != nil {
			n.c.Infra("NATS server: %v", err)
		}
		go srv.Start()
		if srv.ReadyForConnections(20 * time.Second) {
			n.srv, n.Port = srv, port
			return
		}
		srv.Shutdown()
		if try > 5 {
			n.c.Infra("NATS server doesn't start")
		}
	}
}

func (n *Nats) Stop() {
	if n.srv != nil {
		n.srv.Shutdown()
		n.srv.WaitForShutdown()
		n.srv = nil
	}
}

func (n *Nats) URL() string { return fmt.Sprintf("nats://127.0.0.1:%d", n.Port) }

// Clients returns the number of connections the server has.
func (n *Nats) Clients() int { return n.srv.NumClients() }

// Connect opens a client of the harness.
func (n *Nats) Connect() *nats.Conn {
	var err error
	for try := 0; try < 5; try++ {
		var nc *nats.Conn
		nc, err = nats.Connect(n.URL(), nats.MaxReconnects(-1), nats.ReconnectWait(50*time.Millisecond),
			nats.Timeout(20*time.Second), nats.Name("harness"))
		if err == nil {
			return nc
		}
	}
	n.c.Infra("NATS connect: %v", err)
	return nil
}

// Msg is a recorded message.
type Msg struct {
	Subject string
	Data    []byte
	At      time.Time
}

// Recorder records everything published on some subjects.
type Recorder struct {
	nc  *nats.Conn
	own bool
	mu  sync.Mutex
	all []Msg
}

// Record starts recording.
func (n *Nats) Record(subjects ...string) *Recorder {
	r := &Recorder{nc: n.Connect(), own: true}
	r.subscribe(n.c, subjects)
	return r
}

func (r *Recorder) subscribe(c *Ctx, subjects []string) {
	for _, s := range subjects {
		sub, err := r.nc.Subscribe(s, func(m *nats.Msg) {
			at := time.Now()
			r.mu.Lock()
			r.all = append(r.all, Msg{m.Subject, append([]byte(nil), m.Data...), at})
			r.mu.Unlock()
		})
		if err != nil {
			c.Infra("subscribe: %v", err)
		}
		sub.SetPendingLimits(-1, -1)
	}
	if err := r.nc.FlushTimeout(30 * time.Second); err != nil {
		c.Infra("flush: %v", err)
	}
}

func (r *Recorder) Close() { r.nc.Close() }

// Count returns the number of messages so far.
func (r *Recorder) Count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.all)
}

// Size returns the number of bytes so far.
func (r *Recorder) Size() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, m := range r.all {
		n += len(m.Data)
	}
	return n
}

// Msgs returns the messages (of one subject if it isn't empty).
func (r *Recorder) Msgs(subject string) []Msg {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []Msg
	for _, m := range r.all {
		if subject == "" || m.Subject == subject {
			out = append(out, m)
		}
	}
	return out
}

// Bytes returns everything published on a subject, joined.
func (r *Recorder) Bytes(subject string) []byte {
	var out []byte
	for _, m := range r.Msgs(subject) {
		out = append(out, m.Data...)
	}
	return out
}

func (r *Recorder) Reset() {
	r.mu.Lock()
	r.all = nil
	r.mu.Unlock()
}

// publish sends a message and makes sure the server has it.
func publish(c *Ctx, nc *nats.Conn, subject string, data []byte) {
	if err := nc.Publish(subject, data); err != nil {
		c.Infra("publish: %v", err)
	}
}

func flush(c *Ctx, nc *nats.Conn) {
	if err := nc.FlushTimeout(60 * time.Second); err != nil {
		c.Infra("NATS flush: %v", err)
	}
}

// ---------------------------------------------------------------------
// InfluxDB

// Write is one request the fake InfluxDB got.
type Write struct {
	N        int
	Method   string
	Path     string
	RawQuery string
	DB       string
	Auth     bool
	User     string
	Pass     string
	CT       string
	Body     []byte
	BodyErr  string
	Start    time.Time
	End      time.Time
	Eff      time.Duration
	Status   int // what it was answered with, 0 if it wasn't
	Writer   string
}

// Action decides how a request is answered.
type Action struct {
	Status int           // HTTP status to respond with
	Delay  time.Duration // wait before that
	Reset  bool          // drop the connection instead
	Early  bool          // respond before reading the body
	Hold   chan struct{} // wait for this (or the client going away) first
	Body   string
	Cut    bool   // drop the connection inside the response's body
	To     string // where a redirection leads
}

// Influx is a fake InfluxDB.
type Influx struct {
	c      *Ctx
	Port   int
	ln     net.Listener
	srv    *http.Server
	mu     sync.Mutex
	script func(w *Write) Action
	byBody func(w *Write) Action
	all    []*Write
	begun  int64
	open   int64
}

// connState counts the connections and makes those which are idle when
// they're closed leave nothing behind.
func (f *Influx) connState(conn net.Conn, st http.ConnState) {
	switch st {
	case http.StateNew:
		atomic.AddInt64(&f.open, 1)
	case http.StateIdle:
		noLinger(conn)
	case http.StateActive:
		if tc, ok := conn.(*net.TCPConn); ok {
			tc.SetLinger(-1)
		}
	case http.StateClosed, http.StateHijacked:
		atomic.AddInt64(&f.open, -1)
	}
}

// Open is the number of connections clients have open.
func (f *Influx) Open() int { return int(atomic.LoadInt64(&f.open)) }

func startInflux(c *Ctx) *Influx {
	f := &Influx{c: c}
	f.Start()
	return f
}

// Start (re)opens the port.
func (f *Influx) Start() {
	var ln net.Listener
	var err error
	for try := 0; try < 200; try++ {
		port := f.Port
		if port == 0 {
			port = freePort()
		}
		ln, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			f.Port = port
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		f.c.Infra("fake InfluxDB: %v", err)
	}
	f.ln = ln
	f.srv = &http.Server{Handler: http.HandlerFunc(f.handle), ConnState: f.connState}
	go f.srv.Serve(ln)
}

// Stop closes the port and all connections.
func (f *Influx) Stop() { f.srv.Close() }

// Script sets how requests are answered from now on (nil: all succeed).
func (f *Influx) Script(s func(w *Write) Action) {
	f.mu.Lock()
	f.script = s
	f.mu.Unlock()
}

// ScriptBody does the same, with functions that see the body.
func (f *Influx) ScriptBody(s func(w *Write) Action) {
	f.mu.Lock()
	f.byBody = s
	f.mu.Unlock()
}

func (f *Influx) handle(rw http.ResponseWriter, r *http.Request) {
	if r.URL.Path == "/elsewhere" { // the target of redirections, a page
		rw.WriteHeader(200)
		io.WriteString(rw, "<html></html>")
		return
	}
	atomic.AddInt64(&f.begun, 1)
	w := &Write{Method: r.Method, Path: r.URL.Path, RawQuery: r.URL.RawQuery, Start: time.Now(), Eff: eff(),
		CT: r.Header.Get("Content-Type")}
	if q, err := url.ParseQuery(r.URL.RawQuery); err == nil {
		w.DB = q.Get("db")
	}
	w.User, w.Pass, w.Auth = r.BasicAuth()

	f.mu.Lock()
	w.N = len(f.all)
	script, byBody := f.script, f.byBody
	f.mu.Unlock()

	var act Action
	early := false
	if script != nil {
		probe := *w
		probe.Body = nil
		act = script(&probe)
		early = act.Early
	}
	if !early {
		body, err := io.ReadAll(r.Body)
		w.Body = body
		if err != nil {
			w.BodyErr = err.Error()
		}
	}
	if byBody != nil && !early && w.BodyErr == "" {
		act = byBody(w)
	} else if script == nil {
		act.Status = 204
	}
	done := func(status int) {
		w.Status = status
		w.End = time.Now()
		f.mu.Lock()
		w.N = len(f.all)
		f.all = append(f.all, w)
		f.mu.Unlock()
	}
	if act.Hold != nil {
		select {
		case <-act.Hold:
		case <-r.Context().Done():
			done(0)
			return
		}
	}
	if act.Delay > 0 {
		select {
		case <-time.After(act.Delay):
		case <-r.Context().Done():
			done(0)
			return
		}
	}
	if act.Reset {
		done(0)
		if hj, ok := rw.(http.Hijacker); ok {
			conn, _, err := hj.Hijack()
			if err == nil {
				if tc, ok := conn.(*net.TCPConn); ok {
					tc.SetLinger(0)
				}
				conn.Close()
			}
		}
		return
	}
	if act.Status == 0 {
		act.Status = 204
	}
	// A body that didn't arrive completely was not accepted.
	if w.BodyErr != "" {
		done(0)
		return
	}
	done(act.Status)
	if act.To != "" {
		rw.Header().Set("Location", act.To)
	}
	if act.Cut {
		rw.Header().Set("Content-Length", "1000")
		rw.WriteHeader(act.Status)
		io.WriteString(rw, "{")
		rw.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	}
	if act.Body != "" {
		rw.Header().Set("Content-Type", "application/json")
	}
	rw.WriteHeader(act.Status)
	if act.Body != "" {
		io.WriteString(rw, act.Body)
	}
}

// Forget drops what is known of the requests so far.
func (f *Influx) Forget() {
	f.mu.Lock()
	f.all = nil
	f.mu.Unlock()
}

// Begun returns the number of requests seen, answered or not.
func (f *Influx) Begun() int { return int(atomic.LoadInt64(&f.begun)) }

// Writes returns the requests so far.
func (f *Influx) Writes() []*Write {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*Write(nil), f.all...)
}

// Count returns the number of requests so far.
func (f *Influx) Count() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.all)
}

// Accepted returns the bodies which were answered with a 2xx, by database.
func (f *Influx) Accepted(db string) []*Write {
	var out []*Write
	for _, w := range f.Writes() {
		if w.Status/100 == 2 && (db == "" || w.DB == db) {
			out = append(out, w)
		}
	}
	return out
}

// AcceptedBytes returns all accepted bodies joined.
func (f *Influx) AcceptedBytes(db string) []byte {
	var out []byte
	for _, w := range f.Accepted(db) {
		out = append(out, w.Body...)
	}
	return out
}

func (f *Influx) AcceptedSize() int {
	n := 0
	for _, w := range f.Accepted("") {
		n += len(w.Body)
	}
	return n
}

// ---------------------------------------------------------------------
// Components

// Comp is a running component.
type Comp interface{ Stop() }

func dur(d time.Duration) config.Duration { return config.NewDuration(d) }

// baseConf returns a configuration with the documented defaults and
// limits that keep everything quiet unless a scenario changes them.
func baseConf(n *Nats, mode string) *config.Config {
	return &config.Config{
		Name:                mode,
		Mode:                mode,
		NATSAddress:         n.URL(),
		NATSSubject:         []string{"in"},
		NATSSubjectMonitor:  "mon",
		NATSSubjectJunkyard: "junk",
		InfluxDBAddress:     "127.0.0.1",
		InfluxDBProtocol:    "http",
		InfluxDBPort:        8086,
		DBName:              "db",
		BatchMaxCount:       1,
		BatchMaxSize:        datasize.MB,
		BatchMaxAge:         dur(time.Hour),
		Workers:             2,
		WriteTimeout:        dur(60 * time.Second),
		WriterRetryBatches:  1,
		WriterRetryInterval: dur(10 * time.Second),
		WriterRetryTimeout:  dur(time.Minute),
		ReadBufferSize:      4 * datasize.MB,
		NATSMaxPendingSize:  500 * datasize.MB,
		MaxTimeDelta:        dur(10 * time.Minute),
		DownsampleSuffix:    "-archive",
		StatsInterval:       dur(200 * time.Millisecond),
	}
}

func startComp(conf *config.Config) (Comp, error) {
	switch conf.Mode {
	case "listener":
		l, err := listener.StartListener(conf)
		if err != nil {
			return nil, err
		}
		return l, nil
	case "listener_http":
		l, err := listener.StartHTTPListener(conf)
		if err != nil {
			return nil, err
		}
		return l, nil
	case "filter":
		f, err := filter.StartFilter(conf)
		if err != nil {
			return nil, err
		}
		return f, nil
	case "writer":
		w, err := writer.StartWriter(conf)
		if err != nil {
			return nil, err
		}
		return w, nil
	case "downsampler":
		d, err := downsampler.StartDownsampler(conf)
		if err != nil {
			return nil, err
		}
		return d, nil
	case "monitor":
		m, err := monitor.Start(conf)
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	return nil, errors.New("unknown mode " + conf.Mode)
}

// Start starts a component which has to start, and waits for the TCP
// port of those which have one.
func (c *Ctx) Start(conf *config.Config) Comp {
	comp, err := startComp(conf)
	if err != nil {
		c.Fatal("%s doesn't start: %v", conf.Mode, err)
	}
	if conf.Mode == "listener_http" || conf.Mode == "monitor" {
		c.Must(conf.Mode+" accepts connections", func() bool { return tcpOpen(conf.Port) })
	}
	return comp
}

// StopComp stops a component, which has to happen in bounded time.
func (c *Ctx) StopComp(comp Comp) {
	if !Within(longWait+20*time.Second, comp.Stop) {
		c.Fatal("Stop() doesn't return; goroutines:\n%s", joinShort(repoGoroutines()))
	}
}

func joinShort(gs []string) string {
	var b bytes.Buffer
	for i, g := range gs {
		if i >= 6 {
			break
		}
		if len(g) > 900 {
			g = g[:900]
		}
		b.WriteString(g)
		b.WriteString("\n\n")
	}
	return b.String()
}

// ---------------------------------------------------------------------
// UDP

func udpDial(c *Ctx, port int) net.Conn {
	conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		c.Infra("UDP: %v", err)
	}
	return conn
}

// udpQueue returns the bytes waiting in, and the datagrams dropped by,
// the socket bound to the port.
func udpQueue(port int) (queued, drops int) {
	for _, name := range []string{"/proc/net/udp6", "/proc/net/udp"} {
		b, err := os.ReadFile(name)
		if err != nil {
			continue
		}
		for _, l := range bytes.Split(b, []byte("\n")) {
			f := bytes.Fields(l)
			if len(f) < 13 {
				continue
			}
			i := bytes.LastIndexByte(f[1], ':')
			if i < 0 {
				continue
			}
			var p int
			fmt.Sscanf(string(f[1][i+1:]), "%X", &p)
			if p != port {
				continue
			}
			var tx, rx, d int
			fmt.Sscanf(string(f[4]), "%x:%x", &tx, &rx)
			fmt.Sscanf(string(f[12]), "%d", &d)
			queued += rx
			drops += d
		}
	}
	return
}

// ---------------------------------------------------------------------
// HTTP

// httpClient returns a client with its own connections.
func httpClient() *http.Client {
	return &http.Client{
		Timeout:   2 * time.Minute,
		Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true, DialContext: dialNoLinger},
	}
}

func httpGet(cl *http.Client, u string) (int, []byte, error) {
	resp, err := cl.Get(u)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

type natsOptions = server.Options
