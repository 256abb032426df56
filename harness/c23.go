package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/spf13/afero"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
)

func init() { register("C23", checkC23) }

// ---------------------------------------------------------------------
// Model

// cfgModel is what the documentation says a configuration consists of;
// a nil entry means that no file sets it.
type cfgModel struct {
	str   map[string]string
	num   map[string]int64 // ints, byte sizes, durations (ns)
	flag  map[string]bool
	subj  []string
	rules []config.Rule // nil: not set
}

func newCfgModel() *cfgModel {
	return &cfgModel{str: map[string]string{}, num: map[string]int64{}, flag: map[string]bool{}}
}

// over lays the settings of m over those of base.
func (base *cfgModel) over(m *cfgModel) {
	for k, v := range m.str {
		base.str[k] = v
	}
	for k, v := range m.num {
		base.num[k] = v
	}
	for k, v := range m.flag {
		base.flag[k] = v
	}
	if m.subj != nil {
		base.subj = m.subj
	}
	if m.rules != nil {
		base.rules = m.rules
	}
}

// documentedDefaults are the values shown in README.md.
func documentedDefaults() *cfgModel {
	m := newCfgModel()
	m.str["nats_address"] = "nats://localhost:4222"
	m.subj = []string{"influx-spout"}
	m.str["nats_subject_monitor"] = "influx-spout-monitor"
	m.str["nats_subject_junkyard"] = "influx-spout-junk"
	m.str["influxdb_address"] = "localhost"
	m.str["influxdb_protocol"] = "http"
	m.num["influxdb_port"] = 8086
	m.str["influxdb_dbname"] = "influx-spout-junk"
	m.num["batch_max_count"] = 10
	m.num["batch_max_age"] = int64(5 * time.Minute)
	m.num["workers"] = 8
	m.num["write_timeout"] = int64(30 * time.Second)
	m.num["writer_retry_batches"] = 1
	m.num["writer_retry_interval"] = int64(10 * time.Second)
	m.num["writer_retry_timeout"] = int64(time.Minute)
	m.num["read_buffer_size"] = 4 << 20
	m.num["nats_max_pending_size"] = 200 << 20
	m.num["max_time_delta"] = int64(10 * time.Minute)
	m.num["stats_interval"] = int64(3 * time.Second)
	m.num["probe_port"] = 0
	m.num["pprof_port"] = 0
	m.str["downsample_suffix"] = "-archive"
	return m
}

// finish applies the defaults which depend on the mode.
func (m *cfgModel) finish(file string) {
	mode := m.str["mode"]
	if m.str["name"] == "" {
		base := filepath.Base(file)
		if i := strings.LastIndexByte(base, '.'); i >= 0 {
			base = base[:i]
		}
		m.str["name"] = base
	}
	if m.num["batch_max_size"] == 0 {
		if mode == "listener" || mode == "listener_http" {
			m.num["batch_max_size"] = 1 << 20
		} else {
			m.num["batch_max_size"] = 10 << 20
		}
	}
	if m.num["port"] == 0 {
		switch mode {
		case "listener":
			m.num["port"] = 10001
		case "listener_http":
			m.num["port"] = 13337
		case "monitor":
			m.num["port"] = 9331
		}
	}
	if mode == "downsampler" && m.num["downsample_period"] == 0 {
		m.num["downsample_period"] = int64(time.Minute)
	}
}

var cfgModes = []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor"}

// problem returns what is wrong with the configuration, if anything.
func (m *cfgModel) problem(user, pass string) string {
	mode := m.str["mode"]
	known := false
	for _, x := range cfgModes {
		known = known || x == mode
	}
	if !known {
		return "mode"
	}
	inRange := func(k string, from int64) bool { return m.num[k] >= from && m.num[k] <= 65535 }
	if !inRange("probe_port", 0) || !inRange("pprof_port", 0) {
		return "probe or pprof port"
	}
	if mode != "downsampler" && m.num["downsample_period"] != 0 {
		return "downsample_period outside of a downsampler"
	}
	switch mode {
	case "listener", "listener_http":
		if !inRange("port", 1) {
			return "port"
		}
		if len(m.subj) != 1 {
			return "number of subjects"
		}
		if m.num["batch_max_size"] > 1<<20 {
			return "batch_max_size"
		}
	case "filter":
		if len(m.subj) != 1 {
			return "number of subjects"
		}
		for _, r := range m.rules {
			if r.Subject == "" {
				return "rule without subject"
			}
			if p := ruleProblem(r); p != "" {
				return p
			}
		}
	case "downsampler":
		if m.str["downsample_suffix"] == "" {
			return "downsample_suffix"
		}
	case "writer":
		if len(m.subj) < 1 {
			return "number of subjects"
		}
		if !inRange("influxdb_port", 1) {
			return "influxdb_port"
		}
		if p := m.str["influxdb_protocol"]; p != "http" && p != "https" {
			return "influxdb_protocol"
		}
		if (user == "") != (pass == "") {
			return "credentials"
		}
		for _, r := range m.rules {
			if r.Subject != "" {
				return "rule with subject"
			}
			if p := ruleProblem(r); p != "" {
				return p
			}
		}
	}
	return ""
}

func ruleProblem(r config.Rule) string {
	switch r.Rtype {
	case "basic", "regex", "negregex":
		if r.Match == "" {
			return "rule without match"
		}
		if len(r.Tags) > 0 {
			return "match rule with tags"
		}
		if r.Rtype != "basic" {
			if _, err := regexp.Compile(r.Match); err != nil {
				return "rule with a bad regular expression"
			}
		}
	case "tags":
		if r.Match != "" {
			return "tags rule with match"
		}
		if len(r.Tags) == 0 {
			return "tags rule without tags"
		}
		for _, t := range r.Tags {
			if len(t) != 2 {
				return "tags rule with a tag that isn't a pair"
			}
		}
	default:
		return "rule type"
	}
	return ""
}

// config turns the model into what the code should return.
func (m *cfgModel) config() *config.Config {
	d := func(k string) config.Duration { return config.NewDuration(time.Duration(m.num[k])) }
	b := func(k string) datasize.ByteSize { return datasize.ByteSize(m.num[k]) }
	n := func(k string) int { return int(m.num[k]) }
	return &config.Config{
		Name: m.str["name"], Mode: m.str["mode"],
		NATSAddress: m.str["nats_address"], NATSSubject: m.subj,
		NATSSubjectMonitor: m.str["nats_subject_monitor"], NATSSubjectJunkyard: m.str["nats_subject_junkyard"],
		InfluxDBAddress: m.str["influxdb_address"], InfluxDBProtocol: m.str["influxdb_protocol"],
		InfluxDBPort: n("influxdb_port"), DBName: m.str["influxdb_dbname"],
		BatchMaxCount: n("batch_max_count"), BatchMaxSize: b("batch_max_size"), BatchMaxAge: d("batch_max_age"),
		Port: n("port"), Workers: n("workers"), WriteTimeout: d("write_timeout"),
		WriterRetryBatches: n("writer_retry_batches"), WriterRetryInterval: d("writer_retry_interval"),
		WriterRetryTimeout: d("writer_retry_timeout"),
		ReadBufferSize:     b("read_buffer_size"), NATSMaxPendingSize: b("nats_max_pending_size"),
		Rule: m.rules, MaxTimeDelta: d("max_time_delta"), StatsInterval: d("stats_interval"),
		ProbePort: n("probe_port"), PprofPort: n("pprof_port"), Debug: m.flag["debug"],
		DownsamplePeriod: d("downsample_period"), DownsampleSuffix: m.str["downsample_suffix"],
		QueueGroup: m.str["queue_group"],
	}
}

// ---------------------------------------------------------------------
// Files

func tomlString(r *rand.Rand, s string) string {
	if r.Intn(3) == 0 && !strings.ContainsAny(s, "'\n\t") {
		return "'" + s + "'"
	}
	s = strings.ReplaceAll(s, `\`, `\\`)
	s = strings.ReplaceAll(s, `"`, `\"`)
	s = strings.ReplaceAll(s, "\n", `\n`)
	s = strings.ReplaceAll(s, "\t", `\t`)
	return `"` + s + `"`
}

// tomlSize writes a size in one of the documented ways.
func tomlSize(r *rand.Rand, n int64) string {
	forms := []string{fmt.Sprintf("%d", n), fmt.Sprintf("%dB", n)}
	for _, u := range []struct {
		n    int64
		name []string
	}{{1 << 10, []string{"KB", "K", "kb", " KB"}}, {1 << 20, []string{"MB", "M", "mb", " MB"}}, {1 << 30, []string{"GB", "G", "gb"}}} {
		if n > 0 && n%u.n == 0 {
			for _, s := range u.name {
				forms = append(forms, fmt.Sprintf("%d%s", n/u.n, s))
			}
		}
	}
	return `"` + forms[r.Intn(len(forms))] + `"`
}

// tomlDuration writes a duration in one of the documented ways.
func tomlDuration(r *rand.Rand, n int64) string {
	forms := []string{time.Duration(n).String(), fmt.Sprintf("%dns", n)}
	for u, s := range map[time.Duration]string{time.Microsecond: "us", time.Millisecond: "ms", time.Second: "s", time.Minute: "m", time.Hour: "h"} {
		if n%int64(u) == 0 {
			forms = append(forms, fmt.Sprintf("%d%s", n/int64(u), s))
		}
	}
	// (the map's order doesn't matter for the meaning)
	return `"` + forms[r.Intn(len(forms))] + `"`
}

var (
	cfgStrings   = []string{"nats_address", "nats_subject_monitor", "nats_subject_junkyard", "influxdb_address", "influxdb_dbname", "queue_group", "name"}
	cfgSizes     = []string{"batch_max_size", "read_buffer_size", "nats_max_pending_size"}
	cfgDurations = []string{"batch_max_age", "write_timeout", "writer_retry_interval", "writer_retry_timeout", "max_time_delta", "stats_interval"}
	cfgInts      = []string{"batch_max_count", "workers", "writer_retry_batches"}
	cfgPorts     = []string{"port", "influxdb_port", "probe_port", "pprof_port"}
)

func cfgText(r *rand.Rand) string {
	words := []string{"a", "spout", "nats://h:1", "x y", "measurement.cgroup", "tab\there", `quo"te`, `back\slash`, "ünïcode", "#no comment", "10.0.0.1", "it's", "[x]", "a=b"}
	return words[r.Intn(len(words))] + []string{"", "-1", "2"}[r.Intn(3)]
}

func cfgPort(r *rand.Rand, bad bool) int64 {
	if bad {
		return []int64{-1, 65536, -65535, 100000, 1 << 40}[r.Intn(5)]
	}
	return []int64{1, 65535, 80, 1024, int64(1 + r.Intn(65535))}[r.Intn(5)]
}

func genCfgRule(r *rand.Rand, mode string, bad bool) config.Rule {
	var rule config.Rule
	rule.Rtype = []string{"basic", "tags", "regex", "negregex"}[r.Intn(4)]
	if rule.Rtype == "tags" {
		for i := r.Intn(3) + 1; i > 0; i-- {
			rule.Tags = append(rule.Tags, []string{cfgText(r), cfgText(r)})
		}
	} else {
		rule.Match = []string{"cpu", "host=web.+,", "^a b", "x|y", "disk", `a\.b`, "[a-c]+"}[r.Intn(7)]
	}
	if mode != "writer" {
		rule.Subject = cfgText(r)
	}
	if !bad {
		return rule
	}
	switch r.Intn(8) {
	case 0:
		rule.Rtype = ""
	case 1:
		rule.Rtype = []string{"Basic", "tag", "regexp", "neg", "x"}[r.Intn(5)]
	case 2:
		if mode == "writer" {
			rule.Subject = "s"
		} else {
			rule.Subject = ""
		}
	case 3:
		rule.Match, rule.Tags = "", nil
	case 4:
		rule.Match, rule.Tags = "cpu", [][]string{{"k", "v"}}
	case 5:
		rule.Rtype, rule.Match = "tags", ""
		rule.Tags = [][]string{{"k", "v"}, [][]string{{}, {"a"}, {"a", "b", "c"}}[r.Intn(3)]}
		if r.Intn(2) == 0 {
			rule.Tags[0], rule.Tags[1] = rule.Tags[1], rule.Tags[0]
		}
	case 6:
		rule.Rtype, rule.Tags = []string{"regex", "negregex"}[r.Intn(2)], nil
		rule.Match = []string{"(", "a**", "[", `\`, "x(?<y"}[r.Intn(5)]
	case 7:
		rule.Rtype, rule.Match, rule.Tags = "tags", "cpu", nil
	}
	return rule
}

// genCfgFile makes one file: its settings and its text. mode is the mode
// the component will have; one of the settings may be made invalid.
func genCfgFile(r *rand.Rand, mode string, setMode bool, density, bad int) (*cfgModel, string) {
	m := newCfgModel()
	var lines []string
	set := func(k, text string) { lines = append(lines, k+[]string{" = ", "=", "   =  "}[r.Intn(3)]+text) }
	pick := func() bool { return r.Intn(100) < density }

	if setMode {
		m.str["mode"] = mode
		set("mode", tomlString(r, mode))
	}
	for _, k := range cfgStrings {
		if pick() {
			m.str[k] = cfgText(r)
			set(k, tomlString(r, m.str[k]))
		}
	}
	if pick() || bad == 1 {
		m.str["influxdb_protocol"] = []string{"http", "https"}[r.Intn(2)]
		if bad == 1 {
			m.str["influxdb_protocol"] = []string{"", "ftp", "HTTP", "http ", "https://"}[r.Intn(5)]
		}
		set("influxdb_protocol", tomlString(r, m.str["influxdb_protocol"]))
	}
	for _, k := range cfgSizes {
		if !pick() && !(bad == 2 && k == "batch_max_size") {
			continue
		}
		n := []int64{1, 1000, 65536, 1 << 10, 1<<20 - 1, 1 << 20, 2048, 123456}[r.Intn(8)]
		if mode != "listener" && mode != "listener_http" && r.Intn(2) == 0 {
			n = []int64{2 << 20, 25 << 20, 1 << 30, 12345678}[r.Intn(4)]
		}
		if bad == 2 && k == "batch_max_size" {
			n = []int64{1<<20 + 1, 2 << 20, 1 << 30, 1<<20 + 1024}[r.Intn(4)]
		}
		m.num[k] = n
		set(k, tomlSize(r, n))
	}
	for _, k := range cfgDurations {
		if pick() {
			n := int64([]time.Duration{1, time.Microsecond, time.Millisecond, time.Second, 90 * time.Second, 2 * time.Hour, 5 * time.Minute, 1500 * time.Millisecond}[r.Intn(8)])
			m.num[k] = n
			set(k, tomlDuration(r, n))
		}
	}
	for _, k := range cfgInts {
		if pick() {
			m.num[k] = int64(r.Intn(100) + 1)
			if k == "writer_retry_batches" && r.Intn(3) == 0 {
				m.num[k] = 0
			}
			set(k, fmt.Sprint(m.num[k]))
		}
	}
	for i, k := range cfgPorts {
		isBad := bad == 3+i
		if !pick() && !isBad {
			continue
		}
		m.num[k] = cfgPort(r, isBad && !(k == "port" && mode == "monitor"))
		if r.Intn(6) == 0 && k != "influxdb_port" || k == "influxdb_port" && isBad && r.Intn(3) == 0 {
			m.num[k] = 0
		}
		set(k, fmt.Sprint(m.num[k]))
	}
	if pick() || bad == 7 {
		m.subj = []string{cfgText(r)}
		if bad == 7 {
			if r.Intn(2) == 0 && mode != "downsampler" {
				m.subj = []string{}
			} else {
				m.subj = []string{cfgText(r), cfgText(r), "x"}[:2+r.Intn(2)]
			}
		} else if mode == "writer" || mode == "downsampler" {
			for i := r.Intn(3); i > 0; i-- {
				m.subj = append(m.subj, cfgText(r))
			}
		}
		var items []string
		for _, s := range m.subj {
			items = append(items, tomlString(r, s))
		}
		set("nats_subject", "["+strings.Join(items, []string{",", ", ", " ,\n  "}[r.Intn(3)])+"]")
	}
	if bad == 8 || mode == "downsampler" && pick() {
		m.num["downsample_period"] = int64([]time.Duration{time.Second, time.Minute, 90 * time.Second, time.Hour, 500 * time.Millisecond, time.Millisecond, 30 * 24 * time.Hour}[r.Intn(7)])
		set("downsample_period", tomlDuration(r, m.num["downsample_period"]))
	}
	if bad == 9 || pick() {
		m.str["downsample_suffix"] = cfgText(r)
		if bad == 9 {
			m.str["downsample_suffix"] = ""
		}
		set("downsample_suffix", tomlString(r, m.str["downsample_suffix"]))
	}
	if pick() {
		m.flag["debug"] = r.Intn(2) == 0
		set("debug", fmt.Sprint(m.flag["debug"]))
	}
	if r.Intn(4) == 0 {
		set([]string{"unknown_setting", "listener_workers"}[r.Intn(2)], "3")
	}
	r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	for i := range lines {
		switch r.Intn(8) {
		case 0:
			lines[i] += " # a comment = 1"
		case 1:
			lines[i] = "# port = 1\n\n" + lines[i]
		}
	}
	if pick() || bad == 10 {
		n := 1 + r.Intn(3)
		badAt := -1
		if bad == 10 {
			badAt = r.Intn(n)
		}
		for i := 0; i < n; i++ {
			rule := genCfgRule(r, mode, i == badAt)
			m.rules = append(m.rules, rule)
			lines = append(lines, "[[rule]]")
			var rl []string
			if rule.Rtype != "" || r.Intn(2) == 0 {
				rl = append(rl, "type = "+tomlString(r, rule.Rtype))
			}
			if rule.Match != "" {
				rl = append(rl, "match = "+tomlString(r, rule.Match))
			}
			if rule.Tags != nil {
				var ts []string
				for _, t := range rule.Tags {
					var items []string
					for _, s := range t {
						items = append(items, tomlString(r, s))
					}
					ts = append(ts, "["+strings.Join(items, ", ")+"]")
				}
				rl = append(rl, "tags = [\n  "+strings.Join(ts, ",\n  ")+"]")
			}
			if rule.Subject != "" {
				rl = append(rl, "subject = "+tomlString(r, rule.Subject))
			}
			r.Shuffle(len(rl), func(i, j int) { rl[i], rl[j] = rl[j], rl[i] })
			lines = append(lines, rl...)
		}
	}
	return m, strings.Join(lines, "\n") + []string{"\n", ""}[r.Intn(2)]
}

// failFs makes some files fail to open.
type failFs struct {
	afero.Fs
	bad map[string]error
}

func (f failFs) Open(name string) (afero.File, error) {
	if err := f.bad[name]; err != nil {
		return nil, err
	}
	return f.Fs.Open(name)
}

// ---------------------------------------------------------------------

const commonFile = "/etc/influx-spout.toml"

func checkC23(c *Ctx) {
	oldFs := config.Fs
	defer func() { config.Fs = oldFs }()
	c.Scenario("layers", func() {
		r := c.Rand("layers")
		n := c.N(12000, 120000)
		for i := 0; i < n && !c.Failed(); i++ {
			c23one(c, r, i)
		}
	})
	c.Scenario("broken files", func() { c23broken(c) })
	c.Scenario("concurrent", func() { c23concurrent(c) })
	c.Scenario("documented examples", func() { c23examples(c) })
}

func cfgEqual(a, b *config.Config) string {
	x, y := *a, *b
	norm := func(c *config.Config) {
		if len(c.Rule) == 0 {
			c.Rule = nil
		}
		c.Rule = append([]config.Rule(nil), c.Rule...)
		for i := range c.Rule {
			if len(c.Rule[i].Tags) == 0 {
				c.Rule[i].Tags = nil
			}
		}
		if len(c.NATSSubject) == 0 {
			c.NATSSubject = nil
		}
	}
	norm(&x)
	norm(&y)
	vx, vy := reflect.ValueOf(x), reflect.ValueOf(y)
	for i := 0; i < vx.NumField(); i++ {
		if !reflect.DeepEqual(vx.Field(i).Interface(), vy.Field(i).Interface()) {
			return fmt.Sprintf("%s is %v instead of %v", vx.Type().Field(i).Name, vy.Field(i).Interface(), vx.Field(i).Interface())
		}
	}
	return ""
}

func genCfgPair(r *rand.Rand) (mode string, common, own *cfgModel, ct, ot string, haveCommon bool) {
	mode = cfgModes[r.Intn(len(cfgModes))]
	badC, badO := 0, 0
	switch r.Intn(6) {
	case 0, 1:
		badO = 1 + r.Intn(10)
	case 2:
		badC = 1 + r.Intn(10)
	}
	haveCommon = r.Intn(4) != 0
	density := []int{0, 10, 30, 60, 100}[r.Intn(5)]
	ownMode := r.Intn(5) != 0
	if haveCommon {
		cm := mode
		if ownMode && r.Intn(2) == 0 {
			cm = cfgModes[r.Intn(len(cfgModes))]
		}
		common, ct = genCfgFile(r, cm, !ownMode || r.Intn(3) == 0, density, badC)
		density = []int{0, 10, 30, 60, 100}[r.Intn(5)]
	} else {
		common = newCfgModel()
	}
	if r.Intn(40) == 0 {
		mode = []string{"", "Listener", "listener ", "relay", "http"}[r.Intn(5)]
	}
	own, ot = genCfgFile(r, mode, ownMode, density, badO)
	return
}

var cfgFiles = []string{"/x/y.toml", "/foo/bar.d/name.conf", "rel.toml", "noext", "/a/b.c.toml", "../up.toml", "/srv/two.dots.conf"}

func c23one(c *Ctx, r *rand.Rand, i int) {
	mode, common, own, ct, ot, haveCommon := genCfgPair(r)
	file := cfgFiles[r.Intn(len(cfgFiles))]
	fs := afero.NewMemMapFs()
	if haveCommon {
		afero.WriteFile(fs, commonFile, []byte(ct), 0600)
	}
	afero.WriteFile(fs, file, []byte(ot), 0600)
	config.Fs = fs

	user, pass := "", ""
	switch r.Intn(6) {
	case 0:
		user, pass = []string{"u", " u", "u ", "ü\n"}[r.Intn(4)], []string{"p", " p ", "p\n", "\tp"}[r.Intn(4)]
	case 1:
		user = "u"
	case 2:
		pass = "p"
	}
	os.Unsetenv("INFLUXDB_USER")
	os.Unsetenv("INFLUXDB_PASS")
	if user != "" {
		os.Setenv("INFLUXDB_USER", user)
	}
	if pass != "" {
		os.Setenv("INFLUXDB_PASS", pass)
	}

	want := documentedDefaults()
	want.over(common)
	want.over(own)
	want.finish(file)
	problem := want.problem(user, pass)
	exp := want.config()
	if want.str["mode"] == "writer" {
		exp.InfluxDBUser, exp.InfluxDBPass = user, pass
	}

	got, err := config.NewConfigFromFile(file)
	if err == nil && (got.Mode == "filter" || got.Mode == "writer") {
		// Unknown rule types are only noticed when the rules are built.
		_, err = filter.RuleSetFromConfig(got)
	}
	what := fmt.Sprintf("common file (%v):\n%s\nown file %s:\n%s\nenvironment %q %q\n", haveCommon, ct, file, ot, user, pass)
	if problem != "" {
		if err == nil {
			c.Fatal("a configuration with an invalid setting (%s) was accepted; %s", problem, what)
		}
		c.Obs("rejected configurations", 1)
	} else {
		if err != nil {
			c.Fatal("a valid configuration was rejected (%v); %s", err, what)
		}
		if d := cfgEqual(exp, got); d != "" {
			c.Fatal("%s; %s", d, what)
		}
		c.Obs("accepted configurations", 1)
	}
	c.Eval(fmt.Sprintf("%s/%s/%s/%d/%v", want.str["mode"], problem, file, len(own.str)+len(own.num), haveCommon), mode != "")
	if i < 3 {
		c.Sample("mode %s, own file:\n%s -> %s", mode, ot, problem)
	}
}

// c23broken has files which can't be read, aren't TOML or have values of
// wrong types.
func c23broken(c *Ctx) {
	r := c.Rand("broken")
	os.Unsetenv("INFLUXDB_USER")
	os.Unsetenv("INFLUXDB_PASS")
	bad := []string{"mode = ", "port = \"abc\"", "stats_interval = \"5 apples\"", "stats_interval = \"5\"", "batch_max_size = \"12X\"", "batch_max_size = \"MB\"",
		"nats_subject = \"x\"", "nats_subject = [1]", "debug = 1", "debug = \"true\"", "workers = 1.5", "[[rule]]\ntags = [\"a\"]", "[rule", "= 1", "port = 1\nport = 2",
		"rule = 5", "nats_address = 5", "port 5", "max_time_delta = \"1d\"", "read_buffer_size = \"-1MB\"", "name = \"x", "port = 99999999999999999999"}
	n := c.N(600, 6000)
	for i := 0; i < n && !c.Failed(); i++ {
		mode := cfgModes[r.Intn(len(cfgModes))]
		_, ct := genCfgFile(r, mode, false, 20, 0)
		_, ot := genCfgFile(r, mode, true, 20, 0)
		which := r.Intn(5)
		b := bad[r.Intn(len(bad))]
		fs := failFs{afero.NewMemMapFs(), map[string]error{}}
		denied := &os.PathError{Op: "open", Path: "x", Err: os.ErrPermission}
		switch which {
		case 0: // (at the start of the file, the rules are at its end)
			ct = b + "\n" + ct
		case 1:
			ot = b + "\n" + ot
		case 2:
			fs.bad[commonFile] = denied
		case 3:
			fs.bad["/o.toml"] = denied
		case 4:
			fs.bad["/o.toml"] = &os.PathError{Op: "open", Path: "x", Err: os.ErrNotExist}
		}
		afero.WriteFile(fs, commonFile, []byte(ct), 0600)
		afero.WriteFile(fs, "/o.toml", []byte(ot), 0600)
		config.Fs = fs
		got, err := config.NewConfigFromFile("/o.toml")
		if err == nil || got != nil {
			c.Fatal("a broken configuration (case %d, %q) was accepted: %v; common file:\n%s\nown file:\n%s", which, b, err, ct, ot)
		}
		c.Eval(fmt.Sprintf("broken/%d/%s", which, b), true)
		c.Obs("broken files", 1)
		if which == 4 && !errors.Is(err, os.ErrNotExist) && !strings.Contains(err.Error(), "exist") {
			c.Obs("missing file reported otherwise", 1)
		}
	}
}

// c23concurrent loads several configurations at the same time; none may
// see another one's settings.
func c23concurrent(c *Ctx) {
	r := c.Rand("concurrent")
	os.Unsetenv("INFLUXDB_USER")
	os.Unsetenv("INFLUXDB_PASS")
	fs := afero.NewMemMapFs()
	common, ct := genCfgFile(r, "monitor", false, 30, 0)
	common.subj, common.rules = nil, nil
	afero.WriteFile(fs, commonFile, []byte(ct), 0600)
	config.Fs = fs
	// The common file is kept without lists, which depend on the mode.
	for strings.Contains(ct, "rule") || strings.Contains(ct, "nats_subject =") || strings.Contains(ct, "nats_subject=") || strings.Contains(ct, "batch_max_size") {
		common, ct = genCfgFile(r, "monitor", false, 15, 0)
	}
	common.subj, common.rules = nil, nil
	afero.WriteFile(fs, commonFile, []byte(ct), 0600)
	type file struct {
		name string
		want *config.Config
		bad  bool
	}
	var files []file
	for i := 0; i < 24; i++ {
		mode := cfgModes[i%len(cfgModes)]
		own, ot := genCfgFile(r, mode, true, 40, 0)
		name := fmt.Sprintf("/f%d.toml", i)
		afero.WriteFile(fs, name, []byte(ot), 0600)
		want := documentedDefaults()
		want.over(common)
		want.over(own)
		want.finish(name)
		files = append(files, file{name, want.config(), want.problem("", "") != ""})
	}
	n := c.N(100, 1000)
	c.Pool(8, n, func(i int) {
		f := files[i%len(files)]
		got, err := config.NewConfigFromFile(f.name)
		if (err != nil) != f.bad {
			c.Fatal("%s, loaded while others are: %v", f.name, err)
		}
		if err == nil {
			if d := cfgEqual(f.want, got); d != "" {
				c.Fatal("%s, loaded while others are: %s", f.name, d)
			}
			// What one component does to its configuration is its own affair.
			got.NATSSubject[0] = "changed"
			got.Name = "changed"
		}
		c.Eval("concurrent/"+f.name, true)
	})
}

// c23examples loads the configurations shown in the documentation.
func c23examples(c *Ctx) {
	config.Fs = afero.NewMemMapFs()
	os.Unsetenv("INFLUXDB_USER")
	os.Unsetenv("INFLUXDB_PASS")
	b, err := os.ReadFile("/repo/README.md")
	if err != nil {
		c.Infra("%v", err)
	}
	parts := strings.Split(string(b), "```toml\n")
	for _, p := range parts[1:] {
		text := p[:strings.Index(p, "```")]
		if !strings.Contains(text, "# Required") {
			continue
		}
		afero.WriteFile(config.Fs, "/e.toml", []byte(text), 0600)
		got, err := config.NewConfigFromFile("/e.toml")
		if err != nil {
			c.Fatal("the documented configuration is rejected: %v\n%s", err, text)
		}
		// It shows the defaults.
		m := regexp.MustCompile(`mode = "(\w+)"`).FindStringSubmatch(text)
		afero.WriteFile(config.Fs, "/d/e.toml", []byte(m[0]), 0600)
		def, err := config.NewConfigFromFile("/d/e.toml")
		if err != nil {
			c.Fatal("a configuration with only a mode is rejected: %v (%s)", err, m[0])
		}
		def.Rule = got.Rule
		if d := cfgEqual(got, def); d != "" {
			c.Fatal("the documented defaults of mode %s are not used: %s", m[1], d)
		}
		c.Eval("documented/"+m[1], true)
		c.Obs("documented configurations", 1)
	}
}
