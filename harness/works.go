package harness

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
)

// works is one component with everything around it that is needed to
// tell whether it processes its input.
type works struct {
	c    *Ctx
	n    *Nats
	inf  *Influx
	conf *config.Config
	nc   *nats.Conn
	rec  *Recorder
	cl   *http.Client
	pad  int // size of inputs (not for downsamplers)
}

var allModes = []string{"listener", "listener_http", "filter", "writer", "downsampler", "monitor"}

func newWorks(c *Ctx, n *Nats, inf *Influx, mode, name string, mod func(*config.Config)) *works {
	conf := baseConf(n, mode)
	conf.Name = name
	conf.NATSSubject = []string{"in." + name}
	conf.NATSSubjectMonitor = "mon." + name
	conf.NATSSubjectJunkyard = "junk." + name
	conf.ProbePort = freePort()
	conf.DBName = name
	conf.StatsInterval = dur(20 * time.Millisecond)
	switch mode {
	case "listener", "listener_http", "monitor":
		conf.Port = freePort()
	case "filter":
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: "out." + name}}
	case "writer":
		conf.InfluxDBPort = inf.Port
	case "downsampler":
		conf.DownsamplePeriod = dur(200 * time.Millisecond)
		conf.DownsampleSuffix = ".out"
	}
	if mod != nil {
		mod(conf)
	}
	w := &works{c: c, n: n, inf: inf, conf: conf, cl: httpClient()}
	w.cl.Timeout = longWait
	w.nc = n.Connect()
	switch mode {
	case "listener", "listener_http":
		w.rec = n.Record("in." + name)
	case "filter":
		w.rec = n.Record("out." + name)
	case "downsampler":
		var out []string
		for _, s := range conf.NATSSubject {
			out = append(out, s+".out")
		}
		w.rec = n.Record(out...)
	}
	return w
}

func (w *works) close() {
	w.cl.CloseIdleConnections()
	w.nc.Close()
	if w.rec != nil {
		w.rec.Close()
	}
}

// send gives the component an input with a number.
func (w *works) send(id int) error {
	line := fmt.Sprintf("cpu,id=%d. v=1i\n", id)
	if w.pad > 0 {
		line = fmt.Sprintf("cpu,id=%d. v=1i,pad=\"%s\"\n", id, strings.Repeat("p", w.pad))
	}
	switch w.conf.Mode {
	case "listener":
		conn := udpDial(w.c, w.conf.Port)
		defer conn.Close()
		_, err := conn.Write([]byte(line))
		return err
	case "listener_http":
		resp, err := w.cl.Post(fmt.Sprintf("http://127.0.0.1:%d/write", w.conf.Port), "text/plain", strings.NewReader(line))
		if err != nil {
			return err
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		if resp.StatusCode != 204 {
			return fmt.Errorf("status %s", resp.Status)
		}
		return nil
	case "monitor":
		line = fmt.Sprintf("works{name=\"%s\"} %d\n", w.conf.Name, id)
		if err := w.nc.Publish(w.conf.NATSSubjectMonitor, []byte(line)); err != nil {
			return err
		}
	default:
		subject := w.conf.NATSSubject[0]
		if w.conf.Mode != "filter" { // the others have several
			subject = w.conf.NATSSubject[id%len(w.conf.NATSSubject)]
		}
		if err := w.nc.Publish(subject, []byte(line)); err != nil {
			return err
		}
	}
	return w.nc.FlushTimeout(10 * time.Second)
}

// seen says whether the input came out.
func (w *works) seen(id int) bool { return w.times(id) > 0 }

// times says how often it came out.
func (w *works) times(id int) int {
	tag := []byte(fmt.Sprintf("cpu,id=%d. ", id))
	switch w.conf.Mode {
	case "writer":
		return bytes.Count(w.inf.AcceptedBytes(w.conf.DBName), tag)
	case "monitor":
		_, b, err := httpGet(w.cl, fmt.Sprintf("http://127.0.0.1:%d/metrics", w.conf.Port))
		if err != nil {
			return 0
		}
		return bytes.Count(b, []byte(fmt.Sprintf("works{name=\"%s\"} %d\n", w.conf.Name, id)))
	}
	return bytes.Count(w.rec.Bytes(""), tag)
}

// processes sends one input and waits for it.
func (w *works) processes(id int, when string) {
	if err := w.send(id); err != nil {
		w.c.Fatal("%s, %s: input refused: %v", w.conf.Mode, when, err)
	}
	if !Until(longWait, func() bool { return w.seen(id) }) {
		w.c.Fatal("%s, %s: input isn't processed", w.conf.Mode, when)
	}
}
