package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C01", checkC01) }

// udpSender sends datagrams without ever overflowing the socket.
type udpSender struct {
	c      *Ctx
	port   int
	conn   net.Conn
	inAir  int
	drops0 int
	quick  bool
}

func newUDPSender(c *Ctx, port int) *udpSender {
	_, d := udpQueue(port)
	return &udpSender{c: c, port: port, conn: udpDial(c, port), drops0: d}
}

func (s *udpSender) send(d []byte) {
	// Every datagram occupies at least ~800 bytes of the socket's buffer.
	cost := len(d)*2 + 1000
	if s.inAir+cost > 100000 {
		s.drain()
	}
	s.inAir += cost
	if _, err := s.conn.Write(d); err != nil {
		s.c.Infra("UDP send: %v", err)
	}
}

// drain waits until the listener read everything.
func (s *udpSender) drain() {
	if !Until(longWait, func() bool { q, _ := udpQueue(s.port); return q == 0 }) {
		s.c.Fatal("the listener stopped reading its socket; goroutines:\n%s", joinShort(repoGoroutines()))
	}
	s.inAir = 0
}

func (s *udpSender) dropped() bool {
	_, d := udpQueue(s.port)
	return d != s.drops0
}

func genDatagram(r *rand.Rand, i int) []byte {
	var d []byte
	target := 0
	switch r.Intn(12) {
	case 0:
		target = 65507
	case 1:
		target = 65507 - r.Intn(40)
	case 2:
		target = 1 + r.Intn(65507)
	case 3, 4:
		target = 1 + r.Intn(9000)
	case 5:
		target = 1 + r.Intn(8)
	default:
		target = 20 + r.Intn(1500)
	}
	switch r.Intn(10) {
	case 0: // a single line, exactly that long, no newline
		d = append(d, fmt.Sprintf("d%d,", i)...)
		for len(d) < target {
			d = append(d, byte('a'+r.Intn(26)))
		}
		d = d[:target]
	case 1: // arbitrary bytes
		d = make([]byte, target)
		r.Read(d)
	case 2: // only newlines at the end, or nothing else
		d = bytes.Repeat([]byte{'\n'}, 1+r.Intn(3))
		if r.Intn(2) == 0 {
			d = append([]byte(fmt.Sprintf("d%d x=1", i)), d...)
		}
	default:
		for len(d) < target {
			l, _ := genLine(r, fmt.Sprint(1500000000000000000+r.Int63n(1e17)), true)
			d = append(d, l.String()...)
			d = append(d, '\n')
		}
		if len(d) > target {
			d = d[:target]
		}
	}
	if len(d) == 0 {
		d = []byte("x")
	}
	return d
}

type listenerRig struct {
	c    *Ctx
	n    *Nats
	conf *config.Config
	rec  *Recorder
	comp Comp
}

func newListenerRig(c *Ctx, mode string, mod func(*config.Config)) *listenerRig {
	n := startNats(c)
	conf := baseConf(n, mode)
	conf.Port = freePort()
	conf.StatsInterval = dur(time.Hour)
	mod(conf)
	rec := n.Record(conf.NATSSubject[0])
	return &listenerRig{c: c, n: n, conf: conf, rec: rec, comp: c.Start(conf)}
}

func (g *listenerRig) close() {
	g.c.StopComp(g.comp)
	g.rec.Close()
	g.n.Stop()
}

func checkC01(c *Ctx) {
	type cfg struct {
		count int
		size  datasize.ByteSize
		age   time.Duration
	}
	var cfgs []cfg
	for _, count := range []int{1, 2, 3, 10, 1000000} {
		for _, size := range []datasize.ByteSize{datasize.MB, 300 * datasize.KB, 131073, 131072, 70000, 65537, 1000, 1} {
			for _, age := range []time.Duration{time.Hour, 15 * time.Millisecond} {
				cfgs = append(cfgs, cfg{count, size, age})
			}
		}
	}
	r := c.Rand("cfg")
	r.Shuffle(len(cfgs), func(i, j int) { cfgs[i], cfgs[j] = cfgs[j], cfgs[i] })
	n := c.N(32, len(cfgs))
	c.Pool(8, n, func(i int) {
		k := cfgs[i%len(cfgs)]
		c.Scenario(fmt.Sprintf("count=%d size=%d age=%s", k.count, k.size, k.age), func() {
			c01stream(c, fmt.Sprintf("stream%d", i), k.count, k.size, k.age, c.N(200, 500), i%4 == 3)
		})
	})
	c.Scenario("several senders", func() { c01senders(c) })
}

func c01stream(c *Ctx, name string, count int, size datasize.ByteSize, age time.Duration, total int, pauses bool) {
	r := c.Rand(name)
	g := newListenerRig(c, "listener", func(conf *config.Config) {
		conf.BatchMaxCount = count
		conf.BatchMaxSize = size
		conf.BatchMaxAge = dur(age)
		conf.Debug = r.Intn(4) == 0
		conf.ReadBufferSize = []datasize.ByteSize{4 * datasize.MB, datasize.MB, 200001}[r.Intn(3)]
	})
	defer g.close()
	s := newUDPSender(c, g.conf.Port)
	defer s.conn.Close()

	var want []byte
	ends := map[int]bool{} // offsets at which a datagram ends
	send := func(d []byte) {
		s.send(d)
		want = append(want, d...)
		if len(d) > 0 && d[len(d)-1] != '\n' {
			want = append(want, '\n')
		}
		ends[len(want)] = true
	}
	for i := 0; i < total && !c.Failed(); i++ {
		d := genDatagram(r, i)
		if r.Intn(60) == 0 {
			s.send(nil) // an empty datagram holds no data
		}
		send(d)
		c.Eval(fmt.Sprintf("%d/%d/%v len%d nl=%v", count, size, age, len(d), d[len(d)-1] == '\n'), true)
		if i == 3 {
			c.Sample("datagram %s with batch count=%d size=%d age=%s", short(d), count, size, age)
		}
		if pauses && i == total/2 {
			s.drain()
			time.Sleep(1200 * time.Millisecond)
		} else if r.Intn(40) == 0 {
			s.drain()
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
	}
	s.drain()
	// What's still in the batch comes out when a limit is reached.
	goal := len(want)
	if age == time.Hour {
		for i := 0; g.rec.Size() < goal && i < 4000; i++ {
			send(bytes.Repeat([]byte{'f'}, 6000))
			if i%10 == 9 {
				s.drain()
				Until(5*time.Millisecond, func() bool { return g.rec.Size() >= goal })
			}
			if count <= 10 && i > count+2 || i > 300 {
				break
			}
		}
	}
	Until(longWait, func() bool { return g.rec.Size() >= goal })
	s.drain()
	if s.dropped() {
		c.Infra("the kernel dropped datagrams")
	}
	Until(50*time.Millisecond, func() bool { return false })

	got := g.rec.Bytes("")
	n := len(got)
	if n > len(want) {
		n = len(want)
	}
	if !bytes.Equal(got[:n], want[:n]) || len(got) > len(want) {
		c.Fatal("published bytes aren't the datagrams sent: %s", firstDiff(want, got))
	}
	if len(got) < goal {
		c.Fatal("only %d of %d bytes were published", len(got), goal)
	}
	off := 0
	for _, m := range g.rec.Msgs("") {
		off += len(m.Data)
		if !ends[off] && off < len(want) {
			c.Fatal("a message ends in the middle of a datagram, at offset %d", off)
		}
		c.ObsMax("largest message", len(m.Data))
	}
	c.Obs("datagrams", len(ends))
	c.Obs("bytes", len(want))
	c.Obs("messages", g.rec.Count())
}

// c01senders lets several clients send at the same time.
func c01senders(c *Ctx) {
	g := newListenerRig(c, "listener", func(conf *config.Config) {
		conf.BatchMaxCount = 7
		conf.BatchMaxAge = dur(20 * time.Millisecond)
	})
	defer g.close()
	const senders = 6
	perSender := c.N(400, 3000)
	pace := newUDPSender(c, g.conf.Port)
	defer pace.conn.Close()
	var mu sync.Mutex
	want := 0
	var fs []func()
	for s := 0; s < senders; s++ {
		s := s
		fs = append(fs, func() {
			conn := udpDial(c, g.conf.Port)
			defer conn.Close()
			r := c.Rand(fmt.Sprintf("sender%d", s))
			for i := 0; i < perSender; i++ {
				d := []byte(fmt.Sprintf("s%d i=%d,%s", s, i, bytes.Repeat([]byte{byte('a' + s)}, r.Intn(300))))
				mu.Lock()
				if pace.inAir+2500 > 100000 {
					pace.drain()
				}
				pace.inAir += len(d)*2 + 1000
				want += len(d) + 1
				_, err := conn.Write(d)
				mu.Unlock()
				if err != nil {
					c.Infra("UDP: %v", err)
				}
			}
		})
	}
	c.Go(fs...)
	pace.drain()
	Until(longWait, func() bool { return g.rec.Size() >= want })
	if pace.dropped() {
		c.Infra("the kernel dropped datagrams")
	}
	next := make([]int, senders)
	for _, l := range splitLines(g.rec.Bytes("")) {
		var s, i int
		var pad string
		if n, _ := fmt.Sscanf(string(l), "s%d i=%d,%s", &s, &i, &pad); n < 2 || s < 0 || s >= senders {
			c.Fatal("unexpected line %s", short(l))
		}
		if i != next[s] {
			c.Fatal("sender %d: got line %d, expected %d", s, i, next[s])
		}
		if bytes.Count([]byte(pad), []byte{byte('a' + s)}) != len(pad) {
			c.Fatal("line with foreign bytes %s", short(l))
		}
		next[s]++
		c.Eval(fmt.Sprintf("sender%d", s), true)
	}
	for s, n := range next {
		if n != perSender {
			c.Fatal("sender %d: %d of %d datagrams published", s, n, perSender)
		}
	}
	c.Obs("datagrams of concurrent senders", senders*perSender)
}
