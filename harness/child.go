package harness

import (
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

// Child is a running program built from /repo.
type Child struct {
	c     *Ctx
	name  string
	cmd   *exec.Cmd
	out   string // file with its stdout
	err   string // file with its stderr
	done  chan struct{}
	res   error
	want  atomic.Bool // ending is expected
	taken int         // a port that is in use on purpose
}

var (
	childMu  sync.Mutex
	childNum int
)

// binPath returns the program's path.
func binPath(c *Ctx, name string) string {
	p := filepath.Join(os.Getenv("VH_BIN"), name)
	if _, err := os.Stat(p); err != nil {
		c.Infra("no binary: %v", err)
	}
	return p
}

// startChild runs a program.
func startChild(c *Ctx, name, bin string, args []string, env ...string) *Child {
	childMu.Lock()
	childNum++
	id := childNum
	childMu.Unlock()
	ch := &Child{c: c, name: name, done: make(chan struct{})}
	ch.out = filepath.Join(c.Dir, fmt.Sprintf("child%d.out", id))
	ch.err = filepath.Join(c.Dir, fmt.Sprintf("child%d.err", id))
	of, err := os.Create(ch.out)
	if err != nil {
		c.Infra("%v", err)
	}
	ef, err := os.Create(ch.err)
	if err != nil {
		c.Infra("%v", err)
	}
	cmd := exec.Command(binPath(c, bin), args...)
	cmd.Stdout, cmd.Stderr = of, ef
	cmd.Dir = c.Dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 log_path="+filepath.Join(c.Dir, "childrace"), "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ch.cmd = cmd
	started := make(chan error)
	go func() {
		// Pdeathsig is tied to the thread which started the process;
		// locking isn't needed because the runtime keeps its threads.
		err := cmd.Start()
		started <- err
		if err == nil {
			ch.res = cmd.Wait()
		}
		of.Close()
		ef.Close()
		close(ch.done)
	}()
	if err := <-started; err != nil {
		c.Infra("starting %s: %v", bin, err)
	}
	return ch
}

// Alive says whether the program is still running.
func (ch *Child) Alive() bool {
	select {
	case <-ch.done:
		return false
	default:
		return true
	}
}

func (ch *Child) Log() string {
	b, _ := os.ReadFile(ch.err)
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

// MustLive fails if the program ended.
func (ch *Child) MustLive(when string) {
	if ch.Alive() {
		return
	}
	log := ch.Log()
	own := fmt.Sprintf(":%d: bind: address already in use", ch.taken)
	if strings.Contains(strings.ReplaceAll(log, own, ""), "address already in use") {
		ch.c.Infra("%s: port taken: %s", ch.name, log)
	}
	// The crash is at the start of a long dump.
	b, _ := os.ReadFile(ch.err)
	if i := strings.Index(string(b), "panic: "); i >= 0 {
		log = short2(string(b[i:]), 2500)
	} else if i := strings.Index(string(b), "fatal error: "); i >= 0 {
		log = short2(string(b[i:]), 2500)
	}
	ch.c.Fatal("%s: the %s process ended (%v); its output ends with:\n%s", when, ch.name, ch.res, log)
}

// NoPanic fails if the program recovered from a panic (net/http does).
func (ch *Child) NoPanic(when string) {
	b, _ := os.ReadFile(ch.err)
	if i := strings.Index(string(b), "panic serving"); i >= 0 {
		ch.c.Fatal("%s: a request makes the %s process panic:\n%s", when, ch.name, short2(string(b[i:]), 2500))
	}
}

func short2(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Stop kills the program.
func (ch *Child) Stop() {
	ch.want.Store(true)
	ch.cmd.Process.Kill()
	<-ch.done
}

// Signal sends a signal.
func (ch *Child) Signal(s os.Signal) { ch.cmd.Process.Signal(s) }

func tomlStr(s string) string {
	s = strings.ReplaceAll(s, `\`, `\\`)
	s = strings.ReplaceAll(s, `"`, `\"`)
	return `"` + s + `"`
}

// confTOML writes a configuration file.
func confTOML(conf *config.Config) string {
	var b strings.Builder
	str := func(k, v string) { fmt.Fprintf(&b, "%s = %s\n", k, tomlStr(v)) }
	num := func(k string, v int) { fmt.Fprintf(&b, "%s = %d\n", k, v) }
	str("mode", conf.Mode)
	str("name", conf.Name)
	str("nats_address", conf.NATSAddress)
	var subj []string
	for _, s := range conf.NATSSubject {
		subj = append(subj, tomlStr(s))
	}
	fmt.Fprintf(&b, "nats_subject = [%s]\n", strings.Join(subj, ", "))
	str("nats_subject_monitor", conf.NATSSubjectMonitor)
	str("nats_subject_junkyard", conf.NATSSubjectJunkyard)
	str("influxdb_address", conf.InfluxDBAddress)
	str("influxdb_protocol", conf.InfluxDBProtocol)
	num("influxdb_port", conf.InfluxDBPort)
	str("influxdb_dbname", conf.DBName)
	num("batch_max_count", conf.BatchMaxCount)
	str("batch_max_size", fmt.Sprint(uint64(conf.BatchMaxSize)))
	str("batch_max_age", conf.BatchMaxAge.Duration.String())
	if conf.Port != 0 {
		num("port", conf.Port)
	}
	num("workers", conf.Workers)
	str("write_timeout", conf.WriteTimeout.Duration.String())
	num("writer_retry_batches", conf.WriterRetryBatches)
	str("writer_retry_interval", conf.WriterRetryInterval.Duration.String())
	str("writer_retry_timeout", conf.WriterRetryTimeout.Duration.String())
	str("read_buffer_size", fmt.Sprint(uint64(conf.ReadBufferSize)))
	str("nats_max_pending_size", fmt.Sprint(uint64(conf.NATSMaxPendingSize)))
	str("max_time_delta", conf.MaxTimeDelta.Duration.String())
	str("stats_interval", conf.StatsInterval.Duration.String())
	num("probe_port", conf.ProbePort)
	num("pprof_port", conf.PprofPort)
	fmt.Fprintf(&b, "debug = %v\n", conf.Debug)
	if conf.DownsamplePeriod.Duration != 0 {
		str("downsample_period", conf.DownsamplePeriod.Duration.String())
	}
	str("downsample_suffix", conf.DownsampleSuffix)
	if conf.QueueGroup != "" {
		str("queue_group", conf.QueueGroup)
	}
	for _, r := range conf.Rule {
		b.WriteString("[[rule]]\n")
		str("type", r.Rtype)
		if r.Match != "" {
			str("match", r.Match)
		}
		if len(r.Tags) > 0 {
			var ts []string
			for _, t := range r.Tags {
				var items []string
				for _, s := range t {
					items = append(items, tomlStr(s))
				}
				ts = append(ts, "["+strings.Join(items, ", ")+"]")
			}
			fmt.Fprintf(&b, "tags = [%s]\n", strings.Join(ts, ", "))
		}
		if r.Subject != "" {
			str("subject", r.Subject)
		}
	}
	return b.String()
}

// startSpout runs influx-spout with a configuration and waits until it
// reports that it is ready (conf needs a probe port).
func startSpout(c *Ctx, conf *config.Config) *Child {
	if conf.ProbePort == 0 {
		conf.ProbePort = freePort()
	}
	file := filepath.Join(c.subdir(fmt.Sprintf("conf/%d", conf.ProbePort)), conf.Name+".toml")
	if err := os.WriteFile(file, []byte(confTOML(conf)), 0600); err != nil {
		c.Infra("%v", err)
	}
	var env []string
	if conf.InfluxDBUser != "" {
		env = append(env, "INFLUXDB_USER="+conf.InfluxDBUser, "INFLUXDB_PASS="+conf.InfluxDBPass)
	}
	ch := startChild(c, conf.Mode+" "+conf.Name, "influx-spout", []string{file}, env...)
	if !Until(longWait, func() bool { return !ch.Alive() || probe(conf.ProbePort, "readyz") == 200 }) {
		c.Fatal("%s doesn't become ready; log:\n%s", ch.name, ch.Log())
	}
	ch.MustLive("starting")
	return ch
}

var probeClient = &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, DialContext: dialNoLinger}}

// probe returns the status of a probe endpoint (0: no answer).
func probe(port int, path string) int {
	resp, err := probeClient.Get(fmt.Sprintf("http://127.0.0.1:%d/%s", port, path))
	if err != nil {
		return 0
	}
	resp.Body.Close()
	return resp.StatusCode
}
