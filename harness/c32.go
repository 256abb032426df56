package harness

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { register("C32", checkC32) }

// pki is a certificate authority.
type pki struct {
	c    *Ctx
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	der  []byte
}

func newPKI(c *Ctx, name string) *pki {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		c.Infra("%v", err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		c.Infra("%v", err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		c.Infra("%v", err)
	}
	return &pki{c, cert, key, der}
}

// issue makes a server's certificate.
func (p *pki) issue(host string, from, to time.Time) *tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		p.c.Infra("%v", err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: host},
		NotBefore: from, NotAfter: to,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	if ip := net.ParseIP(host); ip != nil {
		t.IPAddresses = []net.IP{ip}
	} else {
		t.DNSNames = []string{host}
	}
	der, err := x509.CreateCertificate(crand.Reader, t, p.cert, &key.PublicKey, p.key)
	if err != nil {
		p.c.Infra("%v", err)
	}
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// secureInflux is a fake InfluxDB which may use TLS; everything clients
// send is recorded as it comes over the wire.
type secureInflux struct {
	c     *Ctx
	port  int
	srv   *http.Server
	mu    sync.Mutex
	wire  bytes.Buffer
	conns int
	reqs  []*Write
	tls   int // requests over TLS
	act   func(rw http.ResponseWriter) bool
}

type wireConn struct {
	net.Conn
	s *secureInflux
}

func (w wireConn) Read(b []byte) (int, error) {
	n, err := w.Conn.Read(b)
	w.s.mu.Lock()
	w.s.wire.Write(b[:n])
	w.s.mu.Unlock()
	return n, err
}

type wireListener struct {
	net.Listener
	s *secureInflux
}

func (l wireListener) Accept() (net.Conn, error) {
	conn, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	noLinger(conn)
	l.s.mu.Lock()
	l.s.conns++
	l.s.mu.Unlock()
	return wireConn{conn, l.s}, nil
}

// start opens the port; without a certificate it's plain HTTP.
func (s *secureInflux) start(cert *tls.Certificate) {
	var ln net.Listener
	var err error
	for try := 0; try < 200; try++ {
		port := s.port
		if port == 0 {
			port = freePort()
		}
		if ln, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
			s.port = port
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		s.c.Infra("fake InfluxDB: %v", err)
	}
	s.srv = &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0)}
	ln = wireListener{ln, s}
	if cert != nil {
		ln = tls.NewListener(ln, &tls.Config{Certificates: []tls.Certificate{*cert}})
	}
	go s.srv.Serve(ln)
}

func (s *secureInflux) stop() { s.srv.Close() }

func (s *secureInflux) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	w := &Write{Method: r.Method, Path: r.URL.Path, RawQuery: r.URL.RawQuery, DB: r.URL.Query().Get("db"), Body: body}
	if err != nil {
		w.BodyErr = err.Error()
	}
	w.User, w.Pass, w.Auth = r.BasicAuth()
	s.mu.Lock()
	s.reqs = append(s.reqs, w)
	if r.TLS != nil {
		s.tls++
	}
	act := s.act
	s.mu.Unlock()
	if act == nil || !act(rw) {
		rw.WriteHeader(204)
	}
}

func (s *secureInflux) script(f func(rw http.ResponseWriter) bool) {
	s.mu.Lock()
	s.act = f
	s.mu.Unlock()
}

func (s *secureInflux) state() (conns, reqs, overTLS int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns, len(s.reqs), s.tls
}

func (s *secureInflux) writes() []*Write {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Write(nil), s.reqs...)
}

// secrets are the ways credentials may be written.
func secrets(user, pass string) []string {
	return []string{pass, url.QueryEscape(pass), url.PathEscape(pass), url.UserPassword(user, pass).String(),
		base64.StdEncoding.EncodeToString([]byte(user + ":" + pass)), base64.URLEncoding.EncodeToString([]byte(user + ":" + pass))}
}

func leaked(b []byte, secrets []string) string {
	for _, s := range secrets {
		if i := bytes.Index(b, []byte(s)); i >= 0 {
			from := i - 80
			if from < 0 {
				from = 0
			}
			return short(b[from : i+len(s)])
		}
	}
	return ""
}

func checkC32(c *Ctx) {
	// The certificate authority is one of the system's, as far as this
	// process is concerned.
	ca := newPKI(c, "trusted")
	dir := c.subdir("certs")
	if err := os.WriteFile(filepath.Join(dir, "ca.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.der}), 0600); err != nil {
		c.Infra("%v", err)
	}
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "ca.pem"))
	os.Setenv("SSL_CERT_DIR", c.subdir("nocerts"))
	other := newPKI(c, "trusted") // the same name
	c32proxy(c)
	c.Pool(6, c.N(36, 150), func(i int) { c32run(c, i, ca, other) })
	c.Pool(4, c.N(8, 30), func(i int) { c32redirect(c, i, ca) })
	var all []string
	c32mu.Lock()
	all = append(all, c32secrets...)
	c32mu.Unlock()
	b, err := os.ReadFile(filepath.Join(os.Getenv("VH_DIR"), "log.txt"))
	if err != nil {
		c.Infra("%v", err)
	}
	if l := leaked(b, all); l != "" {
		c.Fail("credentials are in the log: %s", l)
	}
	c.Obs("bytes of log searched for credentials", len(b))
}

var (
	c32mu      sync.Mutex
	c32secrets []string
)

func c32creds(r *rand.Rand, i int) (user, pass string) {
	user = fmt.Sprintf("user%d", i)
	pass = fmt.Sprintf("p4ss%d", i)
	for k := 0; k < 12; k++ {
		pass += string([]rune("abcXYZ019:/@&? =%+ü")[r.Intn(19)])
	}
	c32mu.Lock()
	c32secrets = append(c32secrets, secrets(user, pass)...)
	c32mu.Unlock()
	return user, pass
}

// c32run lets a writer meet servers it must not trust between ones that
// it has to.
func c32run(c *Ctx, i int, ca, other *pki) {
	r := c.Rand(fmt.Sprintf("run%d", i))
	n := startNats(c)
	defer n.Stop()
	mon := n.Record("mon")
	defer mon.Close()
	s := &secureInflux{c: c}
	host := []string{"127.0.0.1", "localhost"}[i%2]
	if _, err := net.LookupHost(host); err != nil {
		host = "127.0.0.1"
	}
	now := time.Now()
	good := ca.issue(host, now.Add(-time.Hour), now.Add(time.Hour))
	bads := []string{"unknown authority", "expired", "not valid yet", "other host", "self-signed", "plain HTTP"}
	bad := bads[i/2%len(bads)]
	var badCert *tls.Certificate
	switch bad {
	case "unknown authority":
		badCert = other.issue(host, now.Add(-time.Hour), now.Add(time.Hour))
	case "expired":
		badCert = ca.issue(host, now.Add(-time.Hour), now.Add(-time.Minute))
	case "not valid yet":
		badCert = ca.issue(host, now.Add(time.Hour), now.Add(2*time.Hour))
	case "other host":
		badCert = ca.issue([]string{"127.0.0.2", "influxdb.example.com"}[r.Intn(2)], now.Add(-time.Hour), now.Add(time.Hour))
	case "self-signed":
		self := newPKI(c, host)
		badCert = self.issue(host, now.Add(-time.Hour), now.Add(time.Hour))
	}
	s.start(good)
	defer func() { s.stop() }()
	conf := baseConf(n, "writer")
	conf.InfluxDBProtocol = "https"
	conf.InfluxDBAddress = host
	conf.InfluxDBPort = s.port
	conf.DBName = dbNames[r.Intn(len(dbNames))]
	conf.InfluxDBUser, conf.InfluxDBPass = c32creds(r, i)
	conf.Debug = i%3 == 0
	conf.Workers = 1 + r.Intn(3)
	conf.WriterRetryBatches = 10
	conf.WriterRetryInterval = dur(20 * time.Millisecond)
	conf.StatsInterval = dur(30 * time.Millisecond)
	conf.WriteTimeout = dur(10 * time.Second)
	comp := c.Start(conf)
	defer c.StopComp(comp)
	nc := n.Connect()
	defer nc.Close()
	var sent []string
	send := func() {
		l := fmt.Sprintf("secret%d v=%di\n", nextID(), r.Intn(100))
		sent = append(sent, l)
		publish(c, nc, "in", []byte(l))
		flush(c, nc)
	}
	accepted := func() map[string]int {
		got := map[string]int{}
		for _, w := range s.writes() {
			if w.BodyErr == "" {
				got[string(w.Body)]++
			}
		}
		return got
	}
	deliver := func(when string) {
		if !Until(longWait, func() bool {
			got := accepted()
			for _, l := range sent {
				if got[l] == 0 {
					return false
				}
			}
			return true
		}) {
			c.Fatal("https to %s: %s: data is not delivered; log:\n%s", host, when, tailOf(readLog(), 800))
		}
	}
	for k := 0; k < 1+r.Intn(3); k++ {
		send()
		deliver("valid certificate")
	}
	for round := 0; round < 2; round++ {
		_, reqs0, _ := s.state()
		s.stop()
		s.start(badCert)
		conns0, _, _ := s.state()
		send()
		if !Until(longWait, func() bool { conns, reqs, _ := s.state(); return conns >= conns0+2 || reqs > reqs0 }) {
			c.Fatal("server with %s: not tried again", bad)
		}
		if _, reqs, _ := s.state(); reqs > reqs0 {
			c.Fatal("server for %s with %s: %d writes were sent to it", host, bad, reqs-reqs0)
		}
		s.stop()
		if _, reqs, _ := s.state(); reqs > reqs0 {
			c.Fatal("server for %s with %s: %d writes were sent to it", host, bad, reqs-reqs0)
		}
		c.Eval(fmt.Sprintf("%s %s", host, bad), true)
		c.Sample("https to %s, server with %s: refused and tried again", host, bad)
		c.Obs("refused servers: "+bad, 1)
		s.start(good)
		deliver("valid certificate after " + bad)
		send()
		deliver("valid certificate after " + bad)
	}
	_, reqs, overTLS := s.state()
	if reqs != overTLS {
		c.Fatal("%d of %d writes weren't over TLS", reqs-overTLS, reqs)
	}
	for _, w := range s.writes() {
		if !w.Auth || w.User != conf.InfluxDBUser || w.Pass != conf.InfluxDBPass {
			c.Fatal("write with credentials %v %q %q instead of %q %q", w.Auth, w.User, w.Pass, conf.InfluxDBUser, conf.InfluxDBPass)
		}
		if w.DB != conf.DBName || w.Method != "POST" || w.Path != "/write" {
			c.Fatal("%s %s?%s", w.Method, w.Path, w.RawQuery)
		}
	}
	sec := secrets(conf.InfluxDBUser, conf.InfluxDBPass)
	s.mu.Lock()
	wire := append([]byte(nil), s.wire.Bytes()...)
	s.mu.Unlock()
	if l := leaked(wire, append([]string{"secret", "Authorization"}, sec...)); l != "" {
		c.Fatal("https, but sent in the clear: %s", l)
	}
	if l := leaked(mon.Bytes(""), sec); l != "" {
		c.Fatal("credentials are in the metrics: %s", l)
	}
	c.Obs("writes over TLS", overTLS)
	c.Obs("bytes recorded on the wire", len(wire))
}

// c32redirect lets InfluxDB fail in ways that end up in the log, and
// redirect to somebody else.
func c32redirect(c *Ctx, i int, ca *pki) {
	r := c.Rand(fmt.Sprintf("redirect%d", i))
	n := startNats(c)
	defer n.Stop()
	mon := n.Record("mon")
	defer mon.Close()
	s := &secureInflux{c: c}
	other := &secureInflux{c: c}
	secure := i%2 == 0
	now := time.Now()
	var cert *tls.Certificate
	conf := baseConf(n, "writer")
	if secure {
		cert = ca.issue("127.0.0.1", now.Add(-time.Hour), now.Add(time.Hour))
		conf.InfluxDBProtocol = "https"
	}
	s.start(cert)
	defer func() { s.stop() }()
	other.start(nil)
	defer other.stop()
	conf.InfluxDBPort = s.port
	conf.InfluxDBUser, conf.InfluxDBPass = c32creds(r, 1000+i)
	conf.Debug = i%4 < 2
	conf.WriterRetryBatches = 10
	conf.WriterRetryInterval = dur(10 * time.Millisecond)
	conf.StatsInterval = dur(30 * time.Millisecond)
	to := fmt.Sprintf("http://localhost:%d/write?db=x", other.port)
	modes := []int{307, 302, 308, 301, 500, 401, 503, 0}
	mode := 0
	s.script(func(rw http.ResponseWriter) bool {
		s.mu.Lock()
		status := modes[mode]
		s.mu.Unlock()
		switch {
		case status == 0:
			return false
		case status/100 == 3:
			rw.Header().Set("Location", to)
		case status == 401:
			rw.Header().Set("WWW-Authenticate", `Basic realm="InfluxDB"`)
		}
		rw.WriteHeader(status)
		io.WriteString(rw, `{"error":"not now"}`)
		return true
	})
	comp := c.Start(conf)
	defer c.StopComp(comp)
	nc := n.Connect()
	defer nc.Close()
	for m := range modes {
		s.mu.Lock()
		mode = m
		s.mu.Unlock()
		_, reqs0, _ := s.state()
		publish(c, nc, "in", []byte(fmt.Sprintf("x,id=%d v=1i\n", nextID())))
		flush(c, nc)
		if !Until(longWait, func() bool { _, reqs, _ := s.state(); return reqs > reqs0 }) {
			c.Fatal("no write after status %v", modes[:m])
		}
		Until(time.Duration(10+r.Intn(40))*time.Millisecond, func() bool { return false })
		c.Eval(fmt.Sprintf("secure %v answer %d", secure, modes[m]), true)
	}
	sec := secrets(conf.InfluxDBUser, conf.InfluxDBPass)
	other.mu.Lock()
	wire := append([]byte(nil), other.wire.Bytes()...)
	other.mu.Unlock()
	if l := leaked(wire, append([]string{"Authorization"}, sec...)); l != "" {
		c.Fatal("credentials were sent to another host: %s", l)
	}
	for _, w := range other.writes() {
		if w.Auth {
			c.Fatal("credentials were sent to another host")
		}
	}
	for _, w := range s.writes() {
		if !w.Auth || w.User != conf.InfluxDBUser || w.Pass != conf.InfluxDBPass {
			c.Fatal("write with credentials %v %q %q instead of %q %q", w.Auth, w.User, w.Pass, conf.InfluxDBUser, conf.InfluxDBPass)
		}
		for _, v := range sec {
			if bytes.Contains(w.Body, []byte(v)) || strings.Contains(w.RawQuery, v) {
				c.Fatal("credentials are in %s?%s %s", w.Path, w.RawQuery, short(w.Body))
			}
		}
	}
	if l := leaked(mon.Bytes(""), sec); l != "" {
		c.Fatal("credentials are in the metrics: %s", l)
	}
	_, reqs, _ := s.state()
	c.Obs("writes answered with failures and redirects", reqs)
}

// c32proxy has the environment name a proxy, which the credentials must not
// be sent to: InfluxDB is another host.
func c32proxy(c *Ctx) {
	proxy := &secureInflux{c: c}
	proxy.start(nil)
	defer proxy.stop()
	for _, k := range []string{"HTTP_PROXY", "http_proxy", "HTTPS_PROXY", "https_proxy", "ALL_PROXY", "all_proxy"} {
		os.Setenv(k, fmt.Sprintf("http://127.0.0.1:%d", proxy.port))
	}
	// (It's read once per process, and not used for local addresses.)
	c.Pool(4, 4, func(i int) {
		r := c.Rand(fmt.Sprintf("proxy%d", i))
		n := startNats(c)
		defer n.Stop()
		mon := n.Record("mon")
		defer mon.Close()
		conf := baseConf(n, "writer")
		conf.InfluxDBAddress = []string{"192.0.2.1", "influxdb.invalid"}[i%2]
		conf.InfluxDBProtocol = []string{"http", "https"}[i/2]
		conf.InfluxDBPort = 8086
		conf.InfluxDBUser, conf.InfluxDBPass = c32creds(r, 2000+i)
		conf.WriteTimeout = dur(time.Second)
		conf.WriterRetryBatches = 2
		conf.WriterRetryInterval = dur(20 * time.Millisecond)
		conf.StatsInterval = dur(30 * time.Millisecond)
		comp := c.Start(conf)
		defer c.StopComp(comp)
		nc := n.Connect()
		defer nc.Close()
		publish(c, nc, "in", []byte(fmt.Sprintf("x,id=%d v=1i\n", nextID())))
		flush(c, nc)
		if !Until(longWait, func() bool { v, ok := lastMetric(mon, "failed_writes"); return ok && v > 0 }) {
			c.Fatal("%s://%s can't be reached but no write failed", conf.InfluxDBProtocol, conf.InfluxDBAddress)
		}
		c.Eval(fmt.Sprintf("proxy/%s/%s", conf.InfluxDBProtocol, conf.InfluxDBAddress), true)
	})
	if conns, _, _ := proxy.state(); conns > 0 {
		proxy.mu.Lock()
		defer proxy.mu.Unlock()
		c.Fail("the writer connects to the proxy named in the environment instead of InfluxDB: %s", short(proxy.wire.Bytes()))
	}
}

func readLog() []byte {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("VH_DIR"), "log.txt"))
	return b
}
