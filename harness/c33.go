package harness

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

func init() { register("C33", checkC33) }

func checkC33(c *Ctx) {
	c.Scenario("modes", func() { c.Pool(6, c.N(24, 72), func(i int) { c33mode(c, i) }) })
	c.Scenario("workers", func() { c.Pool(4, c.N(7, 21), func(i int) { c33workers(c, i) }) })
	c.Scenario("failures", func() { c33failures(c) })
}

// listening returns the TCP and UDP ports on which a process (one that
// the harness started) accepts anything.
func listening(c *Ctx, pid int) (ports []string) {
	inodes := map[string]bool{}
	fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		c.Infra("%v", err)
	}
	for _, fd := range fds {
		l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, fd.Name()))
		if strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(l[8:], "]")] = true
		}
	}
	for _, proto := range []string{"tcp", "tcp6", "udp", "udp6"} {
		b, err := os.ReadFile("/proc/net/" + proto)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n")[1:] {
			f := strings.Fields(l)
			if len(f) < 10 || !inodes[f[9]] {
				continue
			}
			if proto[:3] == "tcp" && f[3] != "0A" || proto[:3] == "udp" && f[3] != "07" {
				continue
			}
			port, _ := strconv.ParseInt(f[1][strings.LastIndexByte(f[1], ':')+1:], 16, 32)
			ports = append(ports, fmt.Sprintf("%s %d", proto[:3], port))
		}
	}
	sort.Strings(ports)
	return ports
}

// minimalTOML has the settings which differ from the defaults.
func minimalTOML(conf *config.Config, more string) string {
	b := fmt.Sprintf("mode = %q\nnats_address = %q\nnats_subject = [%q]\nnats_subject_monitor = %q\nnats_subject_junkyard = %q\nprobe_port = %d\nstats_interval = \"50ms\"\n",
		conf.Mode, conf.NATSAddress, conf.NATSSubject[0], conf.NATSSubjectMonitor, conf.NATSSubjectJunkyard, conf.ProbePort)
	switch conf.Mode {
	case "listener", "listener_http":
		b += fmt.Sprintf("port = %d\nbatch_max_count = 1\n", conf.Port)
	case "monitor":
		b += fmt.Sprintf("port = %d\n", conf.Port)
	case "writer":
		b += fmt.Sprintf("influxdb_port = %d\ninfluxdb_address = \"127.0.0.1\"\ninfluxdb_dbname = %q\nbatch_max_count = 1\n", conf.InfluxDBPort, conf.DBName)
	case "downsampler":
		b += "downsample_period = \"200ms\"\ndownsample_suffix = \".out\"\n"
	}
	b += more
	if conf.Mode == "filter" {
		b += fmt.Sprintf("[[rule]]\ntype = \"basic\"\nmatch = \"cpu\"\nsubject = %q\n", conf.Rule[0].Subject)
	}
	return b
}

var c33names = []string{"%s.toml", "%s", "%s.conf", "%s two words.toml", "%s.a.b.toml", "Ünï%s.toml"}

// c33mode runs the program in one mode.
func c33mode(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("mode%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	mode := allModes[i%len(allModes)]
	w := newWorks(c, n, inf, mode, fmt.Sprintf("w%d", i), nil)
	defer w.close()
	mon := n.Record(w.conf.NATSSubjectMonitor)
	defer mon.Close()
	base := fmt.Sprintf(c33names[r.Intn(len(c33names))], fmt.Sprintf("spout%d", i))
	name := strings.TrimSuffix(base, filepath.Ext(base))
	more := ""
	if r.Intn(3) == 0 {
		name = "given name"
		more += "name = \"given name\"\n"
	}
	ports := []string{fmt.Sprintf("tcp %d", w.conf.ProbePort)}
	if w.conf.Port != 0 {
		ports = append(ports, fmt.Sprintf("%s %d", map[bool]string{true: "udp", false: "tcp"}[mode == "listener"], w.conf.Port))
	}
	pprof, taken := 0, 0
	switch i / len(allModes) % 3 {
	case 2: // in use by another program; the component has to work all the same
		ln, err := net.Listen("tcp", ":0")
		if err != nil {
			c.Infra("%v", err)
		}
		defer ln.Close()
		taken = ln.Addr().(*net.TCPAddr).Port
		more += fmt.Sprintf("pprof_port = %d\n", taken)
		c.Obs("pprof ports in use", 1)
	case 0:
		pprof = freePort()
		more += fmt.Sprintf("pprof_port = %d\n", pprof)
		ports = append(ports, fmt.Sprintf("tcp %d", pprof))
	case 1:
		if r.Intn(2) == 0 {
			more += "pprof_port = 0\n"
		}
	}
	if mode != "writer" { // these are nothing to them
		more += "influxdb_address = \"nowhere.invalid\"\ninfluxdb_port = 99999\ninfluxdb_protocol = \"gopher\"\n"
	}
	sort.Strings(ports)
	file := filepath.Join(c.subdir(fmt.Sprintf("c33/%d", i)), base)
	if err := os.WriteFile(file, []byte(minimalTOML(w.conf, more)), 0600); err != nil {
		c.Infra("%v", err)
	}
	arg := file
	if r.Intn(2) == 0 {
		if rel, err := filepath.Rel(c.Dir, file); err == nil {
			arg = rel
		}
	}
	user, pass := "", ""
	var env []string
	switch {
	case mode != "writer":
		env = append(env, "INFLUXDB_USER=only") // it's none of its business
	case r.Intn(2) == 0:
		user, pass = []string{"u", " u "}[r.Intn(2)], []string{"p:w", " p:w ", "p\t"}[r.Intn(3)]
		env = append(env, "INFLUXDB_USER="+user, "INFLUXDB_PASS="+pass)
	}
	ch := startChild(c, mode, "influx-spout", []string{arg}, env...)
	ch.taken = taken
	defer ch.Stop()
	if !Until(longWait, func() bool { return !ch.Alive() || probe(w.conf.ProbePort, "readyz") == 200 }) {
		c.Fatal("mode %s: doesn't become ready; log:\n%s", mode, ch.Log())
	}
	ch.MustLive("mode " + mode)
	if mode == "listener_http" || mode == "monitor" {
		c.Must(mode+" accepts connections", func() bool { return tcpOpen(w.conf.Port) })
	}
	w.processes(1+r.Intn(1000), "run by the program")
	cl := httpClient()
	defer cl.CloseIdleConnections()
	if pprof != 0 {
		var b []byte
		status := 0
		if !Until(longWait, func() bool {
			s, body, err := httpGet(cl, fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/goroutine?debug=2", pprof))
			status, b = s, body
			return err == nil
		}) {
			c.Fatal("mode %s: pprof_port isn't served", mode)
		}
		if status != 200 || !bytes.Contains(b, []byte("goroutine ")) || !bytes.Contains(b, []byte("influx-spout/v2/")) {
			c.Fatal("mode %s: pprof_port answers %d %s", mode, status, short(b))
		}
	}
	var got []string
	if !Until(longWait/4, func() bool {
		got = listening(c, ch.cmd.Process.Pid)
		return strings.Join(got, " ") == strings.Join(ports, " ")
	}) {
		c.Fatal("mode %s listens on %v instead of %v", mode, got, ports)
	}
	// Profiles and probes are nowhere else.
	for _, p := range []int{w.conf.Port, w.conf.ProbePort} {
		if p == 0 || mode == "listener" && p == w.conf.Port {
			continue
		}
		for _, path := range []string{"debug/pprof/", "debug/pprof/goroutine", "debug/vars", "", "writes", "metric"} {
			if s, b, err := httpGet(cl, fmt.Sprintf("http://127.0.0.1:%d/%s", p, path)); err != nil || s/100 == 2 {
				c.Fatal("mode %s: /%s at port %d is answered with %d %s (%v)", mode, path, p, s, short(b), err)
			}
		}
	}
	if mode != "monitor" { // (which publishes none)
		want := []byte(fmt.Sprintf(`name="%s"`, name))
		comp := map[string]string{"listener_http": "listener"}[mode]
		if comp == "" {
			comp = mode
		}
		kind := []byte(fmt.Sprintf(`component="%s"`, comp))
		if !Until(longWait, func() bool { return mon.Count() > 0 }) {
			c.Fatal("mode %s: no metrics are published", mode)
		}
		for _, m := range mon.Msgs("") {
			if !bytes.Contains(m.Data, want) || !bytes.Contains(m.Data, kind) {
				c.Fatal("mode %s, file %s: metrics lack %s or %s: %s", mode, base, want, kind, short(m.Data))
			}
		}
	}
	if mode == "writer" {
		for _, x := range inf.Writes() {
			if x.Auth != (user != "") || x.User != user || x.Pass != pass || x.DB != w.conf.DBName {
				c.Fatal("writer with credentials %q %q in the environment: write with %v %q %q to %q", user, pass, x.Auth, x.User, x.Pass, x.DB)
			}
		}
	}
	time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
	w.processes(2000+r.Intn(1000), "some time later")
	ch.MustLive("mode " + mode)
	// (Whoever runs the check may have had SIGINT ignored, which is inherited.)
	sig := syscall.SIGTERM
	ch.want.Store(true)
	ch.Signal(sig)
	if !Until(longWait, func() bool { return !ch.Alive() }) {
		c.Fatal("mode %s: %v doesn't end the program", mode, sig)
	}
	c.Obs("metrics messages checked", mon.Count())
	c.Sample("mode %s, file %q, pprof %v, sockets %v", mode, base, pprof != 0, got)
	c.Eval(fmt.Sprintf("%s pprof %v file %q", mode, pprof != 0, base[len(base)-4:]), true)
}

// c33workers counts the writes a writer makes at the same time.
func c33workers(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("workers%d", i))
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	hold := make(chan struct{})
	inf.Script(func(w *Write) Action { return Action{Status: 204, Hold: hold} })
	w := newWorks(c, n, inf, "writer", fmt.Sprintf("n%d", i), nil)
	defer w.close()
	workers, procs := []int{0, 1, 0, 3, 0, -1, 70}[i%7], 1+r.Intn(5)
	want := workers
	more := fmt.Sprintf("workers = %d\n", workers)
	switch workers {
	case 0: // twice the processors
		want = 2 * procs
	case -1: // not given
		want = 8
		more = ""
	}
	file := filepath.Join(c.subdir(fmt.Sprintf("c33w/%d", i)), "writer.toml")
	if err := os.WriteFile(file, []byte(minimalTOML(w.conf, more)), 0600); err != nil {
		c.Infra("%v", err)
	}
	ch := startChild(c, "writer", "influx-spout", []string{file}, fmt.Sprintf("GOMAXPROCS=%d", procs))
	defer ch.Stop()
	if !Until(longWait, func() bool { return !ch.Alive() || probe(w.conf.ProbePort, "readyz") == 200 }) {
		c.Fatal("writer doesn't become ready; log:\n%s", ch.Log())
	}
	ch.MustLive("starting")
	messages := want + 40
	for k := 0; k < messages; k++ {
		if err := w.send(k); err != nil {
			c.Infra("%v", err)
		}
	}
	if !Until(longWait, func() bool { return inf.Begun() >= want }) {
		c.Fatal("workers = %d, %d processors: %d writes at the same time instead of %d", workers, procs, inf.Begun(), want)
	}
	Until(200*time.Millisecond, func() bool { return false })
	if inf.Begun() != want {
		c.Fatal("workers = %d, %d processors: %d writes at the same time instead of %d", workers, procs, inf.Begun(), want)
	}
	close(hold)
	if !UntilProgress(longWait, inf.Count, func() bool { return inf.Count() >= messages }) {
		c.Fatal("workers = %d: %d of %d messages are delivered", workers, inf.Count(), messages)
	}
	c.ObsMax("writes at the same time", want)
	c.Eval(fmt.Sprintf("workers %d processors %d", workers, procs), true)
	ch.MustLive("workers")
}

// c33failures runs the program with what can't work.
func c33failures(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	dir := c.subdir("c33f")
	taken, err := net.Listen("tcp", ":0")
	if err != nil {
		c.Infra("%v", err)
	}
	defer taken.Close()
	port := taken.Addr().(*net.TCPAddr).Port
	takenUDP, err := net.ListenUDP("udp", nil)
	if err != nil {
		c.Infra("%v", err)
	}
	defer takenUDP.Close()
	udp := takenUDP.LocalAddr().(*net.UDPAddr).Port
	nats := fmt.Sprintf("nats_address = %q\n", n.URL())
	type cas struct {
		what string
		args []string
		conf string
		env  []string
		says string // pattern
	}
	var cases []cas
	add := func(what, conf, says string, env ...string) {
		cases = append(cases, cas{what, nil, conf, env, says})
	}
	cases = append(cases,
		cas{"no argument", []string{}, "", nil, "(?i)usage"},
		cas{"two arguments", []string{"a", "b"}, "", nil, "(?i)usage"},
		cas{"a missing file", []string{filepath.Join(dir, "missing.toml")}, "", nil, "missing.toml"},
		cas{"a directory", []string{dir}, "", nil, "."},
	)
	add("no mode", nats, "(?i)mode")
	add("an unknown mode", nats+"mode = \"relay\"\n", "(?i)relay")
	add("a broken file", "mode = \n", ".")
	add("a port out of range", nats+"mode = \"listener\"\nport = 70000\n", "(?i)port")
	add("two subjects", nats+"mode = \"filter\"\nnats_subject = [\"a\", \"b\"]\n", "(?i)subject")
	add("a rule without subject", nats+"mode = \"filter\"\n[[rule]]\ntype = \"basic\"\nmatch = \"a\"\n", "(?i)subject")
	add("an unknown rule type", nats+"mode = \"filter\"\n[[rule]]\ntype = \"fuzzy\"\nmatch = \"a\"\nsubject = \"b\"\n", "(?i)fuzzy|rule")
	add("a bad expression", nats+"mode = \"filter\"\n[[rule]]\ntype = \"regex\"\nmatch = \"(\"\nsubject = \"b\"\n", ".")
	add("an unknown protocol", nats+"mode = \"writer\"\ninfluxdb_protocol = \"gopher\"\n", "(?i)protocol")
	add("a user without password", nats+"mode = \"writer\"\n", "(?i)pass", "INFLUXDB_USER=x")
	add("a password without user", nats+"mode = \"writer\"\n", "(?i)user", "INFLUXDB_PASS=x")
	for _, mode := range allModes {
		add("no NATS server for "+mode, fmt.Sprintf("mode = %q\nport = %d\nnats_address = \"nats://127.0.0.1:1\"\n", mode, freePort()), ".")
	}
	add("a taken UDP port", fmt.Sprintf("%smode = \"listener\"\nport = %d\n", nats, udp), ".")
	add("a taken TCP port", fmt.Sprintf("%smode = \"listener_http\"\nport = %d\n", nats, port), ".")
	add("a taken port", fmt.Sprintf("%smode = \"monitor\"\nport = %d\n", nats, port), ".")
	c.Pool(6, len(cases), func(i int) {
		k := cases[i]
		args := k.args
		if args == nil {
			file := filepath.Join(dir, fmt.Sprintf("case%d.toml", i))
			if err := os.WriteFile(file, []byte(k.conf), 0600); err != nil {
				c.Infra("%v", err)
			}
			args = []string{file}
		}
		ch := startChild(c, k.what, "influx-spout", args, k.env...)
		defer ch.Stop()
		if !Until(longWait, func() bool { return !ch.Alive() }) {
			c.Fatal("with %s the program keeps running; log:\n%s", k.what, ch.Log())
		}
		errOut, _ := os.ReadFile(ch.err)
		all := append(append([]byte(nil), ch.stdout()...), errOut...)
		if code := ch.cmd.ProcessState.ExitCode(); code != 1 {
			c.Fatal("with %s the program exits with status %d instead of 1: %s", k.what, code, short(all))
		}
		if bytes.Contains(all, []byte("panic: ")) || bytes.Contains(all, []byte("\ngoroutine ")) {
			c.Fatal("with %s the program crashes: %s", k.what, short(all))
		}
		// There's a reason after the line which says what is running.
		text := regexp.MustCompile(`(?m)^.*Running .* version.*\n`).ReplaceAll(all, nil)
		if !regexp.MustCompile(k.says).Match(text) {
			c.Fatal("with %s the program exits without a reason that matches %s: %s", k.what, k.says, short(all))
		}
		c.Sample("with %s: %s", k.what, short(text))
		c.Obs("failed starts", 1)
		c.Eval("failure: "+k.what, true)
	})
}
