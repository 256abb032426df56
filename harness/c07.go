package harness

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/c2h5oh/datasize"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
)

func init() {
	register("C07", checkC07)
	register("C08", checkC08)
	register("C09", checkC09)
	register("C10", checkC10)
	register("C15", checkC15)
}

// ruleModel is an independent version of a rule.
type ruleModel struct {
	config.Rule
	re *regexp.Regexp
}

func modelRules(rules []config.Rule) []ruleModel {
	var out []ruleModel
	for _, r := range rules {
		m := ruleModel{Rule: r}
		if r.Rtype == "regex" || r.Rtype == "negregex" {
			m.re = regexp.MustCompile(r.Match)
		}
		out = append(out, m)
	}
	return out
}

func (m ruleModel) matches(l LP) bool {
	switch m.Rtype {
	case "basic":
		return l.Meas == m.Match
	case "tags":
		for _, want := range m.Tags {
			found := false
			for _, t := range l.Tags {
				if t.K == want[0] && t.V == want[1] {
					found = true
				}
			}
			if !found {
				return false
			}
		}
		return true
	case "regex":
		return m.re.MatchString(l.unescText())
	case "negregex":
		return !m.re.MatchString(l.unescText())
	}
	panic("rule type " + m.Rtype)
}

func firstMatch(rules []ruleModel, l LP) int {
	for i, r := range rules {
		if r.matches(l) {
			return i
		}
	}
	return -1
}

// collidingNames returns pairs of different names with the same 32 bit
// FNV hash.
var collidingNames = sync.OnceValue(func() [][2]string {
	seen := make(map[uint32]string)
	var out [][2]string
	for i := 0; len(out) < 6 && i < 3000000; i++ {
		s := fmt.Sprintf("m%x", i*7919)
		h := fnv.New32()
		h.Write([]byte(s))
		k := h.Sum32()
		if o, ok := seen[k]; ok {
			out = append(out, [2]string{o, s})
		}
		seen[k] = s
	}
	return out
})

var regexPool = []string{
	"^cpu", "^cpu,", "^cpu ", "cpu$", "mem", "=true", "i$", "[0-9]$", `\d+i( |$)`, "host=", ",a=", "a=b", `^[^,]+ `, `"`, "two words", "^two words,", `a,b`,
	"k=v", "日本", "^(cpu|mem|disk)[0-9]*[, ]", "x1=", "load", "^$", ".*", "^.+$", `\\`, "swap.*io", "(?i)CPU", "id=[0-9]*7i", "[ ,]disk", "= ", "  ", `\{`, "%", "\\$", "\n", "net[0-9]+=",
}

func genRules(r *rand.Rand, subjects bool) []config.Rule {
	n := 1 + r.Intn(6)
	var out []config.Rule
	for i := 0; i < n; i++ {
		var rule config.Rule
		switch r.Intn(5) {
		case 0, 1:
			rule.Rtype = "basic"
			rule.Match = word(r, true)
			if r.Intn(5) == 0 {
				p := collidingNames()
				rule.Match = p[r.Intn(len(p))][r.Intn(2)]
			}
		case 2:
			rule.Rtype = "tags"
			for _, t := range genTags(r, 3, true) {
				rule.Tags = append(rule.Tags, []string{t.K, t.V})
			}
			if len(rule.Tags) == 0 {
				rule.Tags = [][]string{{wordsPlain[r.Intn(4)], wordsPlain[r.Intn(4)]}}
			}
			if r.Intn(8) == 0 { // listed twice
				rule.Tags = append(rule.Tags, rule.Tags[0])
			}
		case 3:
			rule.Rtype = "regex"
			rule.Match = regexPool[r.Intn(len(regexPool))]
		case 4:
			rule.Rtype = "negregex"
			rule.Match = regexPool[r.Intn(len(regexPool))]
		}
		if subjects {
			rule.Subject = fmt.Sprintf("out%d", i)
			if i > 0 && r.Intn(5) == 0 {
				rule.Subject = fmt.Sprintf("out%d", r.Intn(i))
			}
		}
		out = append(out, rule)
	}
	return out
}

// genRuleLine makes a line which the given rules have something to say
// about.
func genRuleLine(r *rand.Rand, rules []config.Rule, ts string) LP {
	l, _ := genLine(r, ts, true)
	if len(rules) > 0 && r.Intn(2) == 0 {
		rule := rules[r.Intn(len(rules))]
		switch rule.Rtype {
		case "basic":
			l.Meas = rule.Match
			switch r.Intn(8) {
			case 0:
				l.Meas += "x"
			case 1:
				l.Meas = "x" + l.Meas
			case 2:
				if len(l.Meas) > 1 {
					l.Meas = l.Meas[:len(l.Meas)-1]
				}
			case 3:
				for _, p := range collidingNames() {
					if p[0] == l.Meas {
						l.Meas = p[1]
					} else if p[1] == l.Meas {
						l.Meas = p[0]
					}
				}
			}
			if strings.HasSuffix(l.Meas, "\\") || l.Meas == "" || l.Meas[0] == ',' || l.Meas[0] == ' ' {
				l.Meas = "m"
			}
		case "tags":
			have := map[string]bool{}
			var tags []KV
			drop := r.Intn(3) == 0
			for i, t := range rule.Tags {
				if have[t[0]] || (drop && i == 0) {
					continue
				}
				have[t[0]] = true
				v := t[1]
				if r.Intn(12) == 0 {
					v += "0"
				}
				tags = append(tags, KV{t[0], v})
			}
			for _, t := range l.Tags {
				if !have[t.K] {
					have[t.K] = true
					tags = append(tags, t)
				}
			}
			r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
			l.Tags = tags
		}
	}
	switch r.Intn(40) {
	case 0:
		l.Rest, l.Bare = "", true // nothing but measurement and tags
	case 1:
		l.Rest = fmt.Sprintf("id=%di,big=\"%s\"", nextID(), strings.Repeat("ab ", r.Intn(3000)))
	}
	return l
}

// nearLine makes a line like genRuleLine which often has much in common with
// the one before.
func nearLine(r *rand.Rand, rules []config.Rule, ts string, prev *LP) LP {
	l := genRuleLine(r, rules, ts)
	if prev.Meas != "" && r.Intn(3) == 0 {
		switch r.Intn(4) {
		case 0: // the same series, other fields
			l.Meas, l.Tags = prev.Meas, append([]KV(nil), prev.Tags...)
		case 1: // another name
			l.Tags = append([]KV(nil), prev.Tags...)
		case 2: // other tags
			l.Meas = prev.Meas
		case 3: // a single tag differs
			l.Meas, l.Tags = prev.Meas, append([]KV(nil), prev.Tags...)
			if len(l.Tags) > 0 {
				k := r.Intn(len(l.Tags))
				l.Tags[k].V = word(r, true)
				if r.Intn(2) == 0 {
					l.Rest = prev.Rest
					l.Bare = prev.Bare
				}
			}
		}
	}
	if lineOK(l) {
		*prev = l
	}
	return l
}

// lineOK says whether the line's text is unambiguous: it must parse back
// to what it was made from. (Names with a leading separator don't.)
func lineOK(l LP) bool {
	if l.Meas == "" || l.Meas[0] == '\\' {
		return false
	}
	p, err := parseLP(l.String())
	return err == nil && sameLP(p, l)
}

func rsOf(c *Ctx, rules []config.Rule) *filter.RuleSet {
	rs, err := filter.RuleSetFromConfig(&config.Config{Rule: rules})
	if err != nil {
		c.Fatal("rules rejected: %v", err)
	}
	return rs
}

type outMap map[string][]byte

// workerRun feeds messages to a worker without NATS.
type workerRun struct {
	w   *filter.VerifWorker
	out outMap
	// lined has the same, with every message ending in a newline.
	lined outMap
	n     int
}

func newWorkerRun(c *Ctx, delta time.Duration, rules []config.Rule) *workerRun {
	c.needHook(filter.VerifAvailable)
	wr := &workerRun{out: outMap{}, lined: outMap{}}
	w, err := filter.VerifNewWorker(delta, rsOf(c, rules), "junk", func(s string, b []byte) error {
		wr.out[s] = append(wr.out[s], b...)
		wr.lined[s] = append(wr.lined[s], b...)
		if len(b) > 0 && b[len(b)-1] != '\n' {
			wr.lined[s] = append(wr.lined[s], '\n')
		}
		wr.n++
		return nil
	})
	if err != nil {
		c.Fatal("worker: %v", err)
	}
	wr.w = w
	return wr
}

func (wr *workerRun) process(msg []byte) outMap {
	wr.out, wr.lined = outMap{}, outMap{}
	wr.w.Process(msg)
	return wr.out
}

func nowTS(r *rand.Rand) string {
	return fmt.Sprint(time.Now().UnixNano() + int64(r.Intn(200)-100)*1e9)
}

var malformed = []string{"BAD,", "BAD,x", "BAD,x y=1", "BAD,a=,b=c f=1", "BAD,a= f=1", "BAD,a=b,"}

func checkC07(c *Ctx) {
	// Rules and lines in bulk, straight into workers.
	c.Pool(8, c.N(600, 5000), func(i int) {
		r := c.Rand(fmt.Sprintf("rules%d", i))
		rules := genRules(r, true)
		models := modelRules(rules)
		wr := newWorkerRun(c, 10*time.Minute, rules)
		for m := 0; m < 4; m++ {
			var msg []byte
			want := outMap{}
			n := 1 + r.Intn(40)
			var prev LP
			for j := 0; j < n; j++ {
				ts := ""
				if r.Intn(3) > 0 {
					ts = nowTS(r)
				}
				l := nearLine(r, rules, ts, &prev)
				if !lineOK(l) {
					continue
				}
				if r.Intn(15) == 0 {
					msg = append(msg, malformed[r.Intn(len(malformed))]...)
					msg = append(msg, '\n')
				}
				term := "\n"
				if j == n-1 && r.Intn(2) == 0 {
					term = ""
				}
				msg = append(msg, l.String()+term...)
				k := firstMatch(models, l)
				subj := "junk"
				if k >= 0 {
					subj = rules[k].Subject
				}
				want[subj] = append(want[subj], l.sorted().String()+term...)
				kind := "none"
				if k >= 0 {
					kind = rules[k].Rtype
				}
				c.Eval(fmt.Sprintf("%d rules, match %d %s, tags %d sorted %v bare %v term %q", len(rules), k, kind, len(l.Tags), l.isSorted(), l.Bare, term), true)
				c.Obs("lines matched by "+kind, 1)
				if i%150 == 7 && j == 0 {
					c.Sample("rules %+v line %s -> %s", rules, short([]byte(l.String())), subj)
				}
			}
			wr.process(msg)
			c07compare(c, rules, msg, want, wr.lined)
		}
	})
	c.Scenario("hash collisions", func() { c07collisions(c) })
	c.Pool(3, c.N(3, 12), func(i int) { c07nats(c, i) })
}

// groupLines turns the output into a multiset of lines per subject (a
// subject shared by several rules gets their lines one rule at a time).
func c07compare(c *Ctx, rules []config.Rule, msg []byte, want, got outMap) {
	subjects := map[string]bool{}
	for s := range want {
		subjects[s] = true
	}
	for s := range got {
		subjects[s] = true
	}
	norm := func(b []byte) map[string]int {
		m := map[string]int{}
		for _, l := range splitLines(b) {
			s := strings.TrimSuffix(string(l), "\n")
			if !strings.HasPrefix(s, "BAD") {
				m[s]++
			}
		}
		return m
	}
	for s := range subjects {
		w, g := norm(want[s]), norm(got[s])
		if d := diffCounts(w, g); d != "" {
			c.Fatal("rules %+v: subject %q: %s\nmessage: %q", rules, s, d, tailOf(msg, 2500))
		}
	}
}

func tailOf(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func c07collisions(c *Ctx) {
	pairs := collidingNames()
	for _, p := range pairs {
		for k := 0; k < 2; k++ {
			rules := []config.Rule{{Rtype: "basic", Match: p[k], Subject: "a"}}
			wr := newWorkerRun(c, time.Minute, rules)
			msg := []byte(p[1-k] + " x=1\n" + p[k] + " x=1\n")
			got := wr.process(msg)
			if string(got["a"]) != p[k]+" x=1\n" || string(got["junk"]) != p[1-k]+" x=1\n" {
				c.Fatal("rule %q: got %q", p[k], got)
			}
			c.Eval("collision "+p[k], true)
		}
	}
	c.Obs("pairs of names with equal hashes", len(pairs))
}

// c07nats does the same with a complete filter.
func c07nats(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("nats%d", i))
	rules := genRules(r, true)
	for len(rules) < 3 {
		rules = genRules(r, true)
	}
	models := modelRules(rules)
	n := startNats(c)
	defer n.Stop()
	conf := baseConf(n, "filter")
	conf.Rule = rules
	conf.Debug = i%2 == 0
	subjects := []string{"junk"}
	for _, rule := range rules {
		subjects = append(subjects, rule.Subject)
	}
	sort.Strings(subjects)
	var uniq []string
	for k, s := range subjects {
		if k == 0 || subjects[k-1] != s {
			uniq = append(uniq, s)
		}
	}
	rec := n.Record(uniq...)
	defer rec.Close()
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	want := outMap{}
	total := 0
	for m := 0; m < c.N(150, 1000); m++ {
		var prev LP
		var msg []byte
		for j := 1 + r.Intn(30); j > 0; j-- {
			l := nearLine(r, rules, nowTS(r), &prev)
			if !lineOK(l) {
				continue
			}
			msg = append(msg, l.String()+"\n"...)
			subj := "junk"
			if k := firstMatch(models, l); k >= 0 {
				subj = rules[k].Subject
			}
			s := l.sorted().String() + "\n"
			want[subj] = append(want[subj], s...)
			total += len(s)
			c.Eval("nats "+subj, true)
		}
		publish(c, nc, "in", msg)
	}
	flush(c, nc)
	UntilProgress(longWait, rec.Count, func() bool { return rec.Size() >= total })
	got := outMap{}
	for _, s := range uniq {
		got[s] = rec.Bytes(s)
	}
	c07compare(c, rules, nil, want, got)
	c.StopComp(comp)
}

// ---------------------------------------------------------------------
// C08

func checkC08(c *Ctx) {
	c.Pool(4, c.N(6, 30), func(i int) {
		c.Scenario(fmt.Sprintf("run%d", i), func() { c08run(c, i) })
	})
	c.Scenario("overload", func() { c.Pool(2, c.N(2, 6), func(i int) { c08overload(c, i) }) })
	c.Scenario("many lines", func() { c.Pool(2, c.N(2, 8), func(i int) { c08many(c, i) }) })
}

// c08many gives workers messages with as many lines as possible.
func c08many(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("many%d", i))
	rules := []config.Rule{{Rtype: "basic", Match: "a", Subject: "outa"}, {Rtype: "regex", Match: "^b", Subject: "outb"}}
	wr := newWorkerRun(c, time.Hour, rules)
	subjects := map[string]string{"a": "outa", "b": "outb", "c": "junk"}
	for m := 0; m < 3; m++ {
		want := outMap{}
		var msg []byte
		lines := 0
		for len(msg) < 1<<20-50 {
			meas := "abc"[r.Intn(3):][:1]
			l := fmt.Sprintf("%s v=%d\n", meas, lines)
			msg = append(msg, l...)
			want[subjects[meas]] = append(want[subjects[meas]], l...)
			lines++
		}
		got := wr.process(msg)
		for s, w := range want {
			if !bytes.Equal(got[s], w) {
				c.Fatal("message of %d lines: on %s %s", lines, s, firstDiff(w, got[s]))
			}
		}
		c.ObsMax("lines of a message", lines)
		c.Eval(fmt.Sprintf("many lines %d %d", i, m), true)
	}
}

// c08overload gives one or two workers messages that take them long, with
// more messages behind than fit in the queues.
func c08overload(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("overload%d", i))
	n := startNats(c)
	defer n.Stop()
	var rules []config.Rule
	for k := 0; k < 10; k++ {
		rules = append(rules, config.Rule{Rtype: "regex", Match: fmt.Sprintf("(a|b|x+[0-9]*)+(never%d|x[a-w]{3}y)", k), Subject: "none"})
	}
	rules = append(rules, config.Rule{Rtype: "regex", Match: "^cpu", Subject: "out"})
	rec := n.Record("none", "out", "junk")
	defer rec.Close()
	conf := baseConf(n, "filter")
	conf.Rule = rules
	conf.Workers = 1 + i%2
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	want := map[string]int{}
	size := 0
	pad := strings.Repeat("x1x", 60)
	for round := 0; round < 3; round++ {
		var msg []byte
		for len(msg) < 400000 {
			l := fmt.Sprintf("cpu,round=%d v=\"%s\",id=%di\n", round, pad, nextID())
			want[l]++
			size += len(l)
			msg = append(msg, l...)
		}
		publish(c, nc, "in", msg)
		k := 1200 + r.Intn(1200)
		if round == 0 { // more than the NATS library's default limit
			k = 66000 + 1024 + r.Intn(5000)
		}
		for ; k > 0; k-- {
			l := fmt.Sprintf("%s id=%di\n", []string{"cpu", "mem"}[r.Intn(2)], nextID())
			for x := 1 + k%300/299; x > 0; x-- { // the same once more, now and then
				want[l]++
				size += len(l)
				publish(c, nc, "in", []byte(l))
			}
		}
		c.Eval(fmt.Sprintf("overload %d workers", conf.Workers), true)
	}
	flush(c, nc)
	UntilProgress(longWait, rec.Count, func() bool { return rec.Size() >= size })
	Until(50*time.Millisecond, func() bool { return false })
	for _, s := range []string{"out", "junk"} {
		for _, l := range splitLines(rec.Bytes(s)) {
			if (s == "out") != bytes.HasPrefix(l, []byte("cpu")) {
				c.Fatal("wrong line on %q: %s", s, short(l))
			}
		}
	}
	if d := diffCounts(want, countLines(rec.Bytes(""))); d != "" {
		c.Fatal("busy filter with %d workers: %s", conf.Workers, d)
	}
	c.Obs("messages queued behind slow ones", len(want))
	c.StopComp(comp)
}

func c08run(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("run%d", i))
	n := startNats(c)
	defer n.Stop()
	rules := []config.Rule{
		{Rtype: "basic", Match: "alpha", Subject: "out.alpha"},
		{Rtype: "tags", Tags: [][]string{{"kind", "beta"}}, Subject: "out.beta"},
		{Rtype: "regex", Match: "^gamma[0-9]*,", Subject: "out.gamma"},
		{Rtype: "negregex", Match: "delta|junk", Subject: "out.notdelta"},
		{Rtype: "basic", Match: "delta", Subject: "out.delta"},
	}
	models := modelRules(rules)
	subjects := []string{"junk"}
	for _, rule := range rules {
		subjects = append(subjects, rule.Subject)
	}
	rec := n.Record(subjects...)
	defer rec.Close()
	instances := 1 + i%3
	workers := []int{1, 2, 8, 16}[r.Intn(4)]
	var comps []Comp
	for k := 0; k < instances; k++ {
		conf := baseConf(n, "filter")
		conf.Rule = rules
		conf.Workers = workers
		conf.StatsInterval = dur(10 * time.Millisecond)
		if i%2 == 1 { // the queue group has nothing to do with the names
			conf.Name = fmt.Sprintf("filter%d", k)
		}
		comps = append(comps, c.Start(conf))
	}
	type src struct {
		subj     string
		msg, seq int
	}
	want := map[string]src{}
	var mu sync.Mutex
	publishers := 3
	msgs := c.N(160, 1200)
	var fs []func()
	var total int64
	for p := 0; p < publishers; p++ {
		p := p
		fs = append(fs, func() {
			r := c.Rand(fmt.Sprintf("run%d/%d", i, p))
			nc := n.Connect()
			defer nc.Close()
			for m := 0; m < msgs; m++ {
				var msg []byte
				lines := 1 + r.Intn(40)
				if r.Intn(60) == 0 {
					lines = 3000
				}
				for k := 0; k < lines; k++ {
					l, _ := genLine(r, "", false)
					l.Meas = []string{"alpha", "beta", "gamma1", "delta", "junk", "epsilon", "alphabet"}[r.Intn(7)]
					if r.Intn(5) == 0 {
						l.Tags = append(l.Tags, KV{"kind", []string{"beta", "other"}[r.Intn(2)]})
					}
					if r.Intn(3) == 0 {
						l.Rest += " " + nowTS(r)
					}
					pad := 0
					switch {
					case r.Intn(30) == 0:
						pad = r.Intn(3000)
					case m%40 == 17 && k < 2:
						pad = []int{4096, 32768, 65536, 131072, 262144}[r.Intn(5)] - 300 + r.Intn(600)
					case m%80 == 33 && k == 0 && lines < 100:
						pad = 500000 + r.Intn(200000)
					}
					if pad > 0 {
						l.Rest = strings.Replace(l.Rest, "id=", fmt.Sprintf("pad=\"%s\",id=", strings.Repeat("p", pad)), 1)
						c.ObsMax("bytes in the longest line", pad)
					}
					s := l.String()
					out := l.sorted().String()
					subj := "junk"
					if f := firstMatch(models, l); f >= 0 {
						subj = rules[f].Subject
					}
					term := "\n"
					if k == lines-1 && r.Intn(3) == 0 {
						term = ""
					}
					msg = append(msg, s+term...)
					mu.Lock()
					if _, dup := want[out]; dup {
						mu.Unlock()
						c.Infra("duplicate generated line")
					}
					want[out] = src{subj, p*1000000 + m, k}
					total++
					mu.Unlock()
					if r.Intn(100) == 0 && term == "\n" {
						msg = append(msg, "old,kind=x v=1 1000000000000000000\n"...) // outside the time window
					}
				}
				publish(c, nc, "in", msg)
				c.Eval(fmt.Sprintf("%d filters, %d workers, %d lines", instances, workers, lines), lines > 1)
				if m%50 == 49 {
					flush(c, nc)
				}
			}
			flush(c, nc)
		})
	}
	c.Go(fs...)
	count := func() int {
		n := 0
		for _, m := range rec.Msgs("") {
			n += bytes.Count(normMsgs([]Msg{m}), []byte{'\n'})
		}
		return n
	}
	UntilProgress(longWait, rec.Count, func() bool { return count() >= len(want) })
	Until(30*time.Millisecond, func() bool { return false })
	seen := map[string]int{}
	type key struct {
		subj string
		msg  int
	}
	last := map[key]int{}
	for _, m := range rec.Msgs("") {
		if len(m.Data) == 0 {
			c.Fatal("empty message on %q", m.Subject)
		}
		for _, l := range splitLines(normMsgs([]Msg{m})) {
			s := strings.TrimSuffix(string(l), "\n")
			w, ok := want[s]
			if !ok {
				c.Fatal("unknown (altered, or old) line on %q: %s", m.Subject, short(l))
			}
			if w.subj != m.Subject {
				c.Fatal("line on %q instead of %q: %s", m.Subject, w.subj, short(l))
			}
			if seen[s]++; seen[s] > 1 {
				c.Fatal("line came out twice: %s", short(l))
			}
			k := key{m.Subject, w.msg}
			if prev, ok := last[k]; ok && prev >= w.seq {
				c.Fatal("lines %d and %d of one message came out in the wrong order on %q", prev, w.seq, m.Subject)
			}
			last[k] = w.seq
		}
	}
	if len(seen) != len(want) {
		for s := range want {
			if seen[s] == 0 {
				c.Fatal("%d of %d lines lost with %d filters and %d workers, e.g. %s", len(want)-len(seen), len(want), instances, workers, short([]byte(s)))
			}
		}
	}
	c.Obs("lines conserved", len(seen))
	c.Obs("messages out", rec.Count())
	c.Obs("runs with several filters", btoi(instances > 1))
	for _, comp := range comps {
		c.StopComp(comp)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------------
// C09

// bubble runs f in virtual time.
func bubble(c *Ctx, name string, f func()) {
	theT.Run(name, func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			c.guard(f)
		})
	})
}

func checkC09(c *Ctx) {
	deltas := []time.Duration{1, 2, time.Microsecond, time.Second, time.Minute, 10 * time.Minute, 24 * time.Hour, 200 * 365 * 24 * time.Hour, 999999999, 2300000 * time.Hour, math.MaxInt64}
	bubble(c, "window", func() {
		r := c.Rand("window")
		for round := 0; round < c.N(60, 600); round++ {
			for _, d := range deltas {
				rules := []config.Rule{{Rtype: "basic", Match: "cpu", Subject: "cpu"}, {Rtype: "regex", Match: "mem", Subject: "mem"}}
				wr := newWorkerRun(c, d, rules)
				invalid := uint64(0)
				for m := 0; m < 3; m++ {
					time.Sleep(time.Duration(r.Int63n(int64(time.Hour))))
					if r.Intn(4) == 0 {
						time.Sleep(time.Duration(r.Intn(3)))
					}
					now := time.Now().UnixNano()
					var msg []byte
					want := outMap{}
					for k := 0; k < 30; k++ {
						meas := []string{"cpu", "mem", "other"}[r.Intn(3)]
						l := LP{Meas: meas, Rest: fmt.Sprintf("id=%di", nextID())}
						var ts int64
						kind := r.Intn(12)
						hasTS := true
						switch kind {
						case 0, 1:
							ts = now + int64(d) + int64(r.Intn(5)-2)
						case 2, 3:
							ts = now - int64(d) + int64(r.Intn(5)-2)
						case 4:
							ts = now + int64(r.Intn(5)-2)
						case 5:
							ts = now/1000000000 + int64(r.Intn(2)) // seconds
						case 6:
							ts = int64(r.Intn(200)) - 100
						case 7:
							ts = r.Int63()
						case 8:
							ts = -r.Int63()
						case 9:
							w := int64(1e18)
							if int64(d) < 5e17 {
								w = 2 * int64(d)
							}
							ts = now - r.Int63n(w+1)
						case 10:
							hasTS = false
						case 11:
							ts = now / []int64{1000, 1000000, 10, 100}[r.Intn(4)] // shorter timestamps
						}
						keep := true
						if hasTS {
							s := fmt.Sprint(ts)
							diff := new(big.Int).Sub(big.NewInt(ts), big.NewInt(now))
							keep = diff.CmpAbs(big.NewInt(int64(d))) < 0
							l.Rest += " " + s
						}
						msg = append(msg, l.String()...)
						term := "\n"
						if k == 29 && r.Intn(2) == 0 {
							term = ""
						}
						msg = append(msg, term...)
						if keep {
							subj := meas
							if meas == "other" {
								subj = "junk"
							}
							want[subj] = append(want[subj], l.String()+term...)
						} else {
							invalid++
						}
						c.Eval(fmt.Sprintf("delta %s kind %d keep %v", d, kind, keep), true)
						c.Obs(map[bool]string{true: "lines inside", false: "lines outside"}[keep], 1)
						if round == 1 && m == 0 && k < 2 {
							c.Sample("max_time_delta %s, line %q is %d ns from the filter's time, kept: %v", d, l.String(), ts-now, keep)
						}
					}
					got := wr.process(msg)
					for _, s := range []string{"cpu", "mem", "junk"} {
						if !bytes.Equal(got[s], want[s]) {
							c.Fatal("max_time_delta %s now %d subject %s: %s", d, now, s, firstDiff(want[s], got[s]))
						}
					}
					if n := wr.w.Stat("invalid_time"); n != invalid {
						c.Fatal("max_time_delta %s: %d lines counted as invalid, %d were dropped", d, n, invalid)
					}
				}
			}
		}
	})
	c.Scenario("complete filter", func() { c09nats(c) })
}

// c09nats uses a complete filter, with lines well inside and outside.
func c09nats(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	conf := baseConf(n, "filter")
	conf.MaxTimeDelta = dur(20 * time.Minute)
	conf.Rule = []config.Rule{{Rtype: "regex", Match: ".", Subject: "all"}}
	mon := n.Record("mon")
	defer mon.Close()
	rec := n.Record("all", "junk")
	defer rec.Close()
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	r := c.Rand("nats")
	want := map[string]int{}
	invalid := 0
	for m := 0; m < 100; m++ {
		var msg []byte
		for k := 0; k < 20; k++ {
			off := time.Duration(r.Int63n(int64(18*time.Minute))) - 9*time.Minute
			keep := true
			if r.Intn(2) == 0 {
				keep = false
				off = 22*time.Minute + time.Duration(r.Int63n(int64(time.Hour)))
				if r.Intn(2) == 0 {
					off = -off
				}
			}
			l := fmt.Sprintf("m id=%di %d\n", nextID(), time.Now().Add(off).UnixNano())
			msg = append(msg, l...)
			if keep {
				want[l]++
			} else {
				invalid++
			}
			c.Eval(fmt.Sprintf("nats %v", keep), true)
		}
		publish(c, nc, "in", msg)
	}
	flush(c, nc)
	if !Until(longWait, func() bool { return len(countLines(rec.Bytes(""))) >= len(want) }) {
		c.Fatal("lines missing: %s", diffCounts(want, countLines(rec.Bytes(""))))
	}
	ok := Until(longWait, func() bool {
		v, ok := lastMetric(mon, "invalid_time")
		return ok && v == int64(invalid)
	})
	if d := diffCounts(want, countLines(rec.Bytes(""))); d != "" {
		c.Fatal("%s", d)
	}
	if !ok {
		v, _ := lastMetric(mon, "invalid_time")
		c.Fatal("invalid_time is %d, %d lines were dropped", v, invalid)
	}
	c.StopComp(comp)
}

// lastMetric returns the latest value of a metric on the monitor subject.
func lastMetric(rec *Recorder, name string) (int64, bool) {
	ms := rec.Msgs("mon")
	for i := len(ms) - 1; i >= 0; i-- {
		for _, l := range splitLines(ms[i].Data) {
			s := string(l)
			if strings.HasPrefix(s, name+"{") {
				if j := strings.LastIndex(s, "} "); j > 0 {
					var v int64
					if n, _ := fmt.Sscan(s[j+2:], &v); n == 1 {
						return v, true
					}
				}
			}
		}
	}
	return 0, false
}

// ---------------------------------------------------------------------
// C10

var keyPool = []string{
	"a", "aa", "a b", "a!", "a,", "a,b", "a=", "a=b", "aB", "B", "Z", "z", "_", "0", "1", "10", "2", "ab", "abc", "ä", "日", "日本", "a.b", "a-b", "a/b", " x", "x ", "x", "~", "!", "+", "-", "tab\t", "a'", "host", "Host", "HOST", "region", "dc", "rack", "\x7f", "\x01", "\xff", "\xfe\xff",
}

func checkC10(c *Ctx) {
	ruleSets := [][]config.Rule{
		{{Rtype: "regex", Match: "(?s).*", Subject: "all"}},
		{{Rtype: "negregex", Match: "^this never matches$", Subject: "all"}},
		{{Rtype: "tags", Tags: [][]string{{"never", "there"}}, Subject: "x"}, {Rtype: "basic", Match: "nope", Subject: "x"}, {Rtype: "regex", Match: "", Subject: "all"}},
		{{Rtype: "tags", Tags: [][]string{{"never", "there"}}, Subject: "x"}}, // everything is junk
	}
	c.Pool(8, c.N(1500, 12000), func(i int) {
		r := c.Rand(fmt.Sprintf("msg%d", i))
		k := i % len(ruleSets)
		wr := newWorkerRun(c, 10*time.Minute, ruleSets[k])
		subj := "all"
		if k == 3 {
			subj = "junk"
		}
		for m := 0; m < 3; m++ {
			c10message(c, r, wr, subj, i)
		}
	})
	c.Scenario("complete filter", func() { c10nats(c) })
}

// sloppy renders a line with escapes which aren't needed.
func sloppy(r *rand.Rand, l LP) string {
	s := escBy(l.Meas, []string{", ", ",= "}[r.Intn(2)])
	for _, t := range l.Tags {
		s += "," + escBy(t.K, ",= ") + "=" + escBy(t.V, ",= ")
	}
	if !l.Bare {
		s += " " + l.Rest
	}
	return s
}

func genSortLine(r *rand.Rand) LP {
	l, _ := genLine(r, "", true)
	if r.Intn(2) == 0 {
		l.Rest += " " + nowTS(r)
	}
	n := r.Intn(6)
	if r.Intn(10) == 0 {
		n = r.Intn(len(keyPool))
	}
	l.Tags = nil
	if r.Intn(60) == 0 { // very many
		for k := r.Intn(400); k >= 0; k-- {
			l.Tags = append(l.Tags, KV{fmt.Sprintf("k%d", r.Intn(3)*1000+k), word(r, true)})
		}
		if r.Intn(2) == 0 {
			r.Shuffle(len(l.Tags), func(a, b int) { l.Tags[a], l.Tags[b] = l.Tags[b], l.Tags[a] })
		}
		n = 0
	}
	for _, k := range r.Perm(len(keyPool))[:n] {
		v := word(r, true)
		if r.Intn(10) == 0 {
			v = strings.Repeat("v,= ", r.Intn(50)) + "v"
		}
		l.Tags = append(l.Tags, KV{keyPool[k], v})
	}
	switch r.Intn(4) {
	case 0:
		l = l.sorted()
	case 1: // sorted but for two neighbours
		l = l.sorted()
		if n > 1 {
			k := r.Intn(n - 1)
			l.Tags[k], l.Tags[k+1] = l.Tags[k+1], l.Tags[k]
		}
	}
	switch r.Intn(25) {
	case 0:
		l.Rest, l.Bare = "", true
	case 1:
		l.Rest += "\r"
	case 2:
		l.Rest = `s="with \"quotes\", commas = and  spaces\\" `
	case 3:
		l.Rest = " " + l.Rest + " "
	}
	return l
}

func c10message(c *Ctx, r *rand.Rand, wr *workerRun, subj string, i int) {
	var msg []byte
	type pair struct {
		raw string
		l   LP
	}
	var in []pair
	n := 1 + r.Intn(25)
	for j := 0; j < n; j++ {
		l := genSortLine(r)
		raw := l.String()
		if r.Intn(3) == 0 {
			raw = sloppy(r, l)
		}
		if p, err := parseLP(raw); err != nil || !sameLP(p, l) {
			continue
		}
		in = append(in, pair{raw, l})
	}
	for j, p := range in {
		msg = append(msg, p.raw...)
		if j < len(in)-1 || r.Intn(2) == 0 {
			msg = append(msg, '\n')
		}
	}
	orig := append([]byte(nil), msg...)
	got := splitLines(wr.process(msg)[subj])
	if len(got) != len(in) {
		c.Fatal("%d lines came out of %d: %q", len(got), len(in), tailOf(orig, 2000))
	}
	for j, g := range got {
		p := in[j]
		text := string(g)
		wantNL := j < len(in)-1 || orig[len(orig)-1] == '\n'
		if strings.HasSuffix(text, "\n") != wantNL {
			c.Fatal("line terminator changed: in %q (newline %v) out %q", p.raw, wantNL, text)
		}
		text = strings.TrimSuffix(text, "\n")
		c.Eval(fmt.Sprintf("%d tags sorted %v canonical %v bare %v", len(p.l.Tags), p.l.isSorted(), p.raw == p.l.String(), p.l.Bare), len(p.l.Tags) > 1)
		if p.l.isSorted() {
			if text != p.raw {
				c.Fatal("line with sorted tags changed: in %q out %q", p.raw, text)
			}
			continue
		}
		q, err := parseLP(text)
		if err != nil {
			c.Fatal("out %q can't be parsed (in %q): %v", text, p.raw, err)
		}
		if !sameLP(q, p.l.sorted()) {
			c.Fatal("meaning or order changed: in %q out %q", p.raw, text)
		}
		c.Obs("lines sorted", 1)
		if i%200 == 3 && j == 0 {
			c.Sample("%q -> %q", p.raw, text)
		}
	}
}

func c10nats(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	conf := baseConf(n, "filter")
	conf.Rule = []config.Rule{{Rtype: "regex", Match: ".", Subject: "all"}}
	conf.Workers = 1
	rec := n.Record("all", "junk")
	defer rec.Close()
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	r := c.Rand("nats")
	var want []LP
	for m := 0; m < 150; m++ {
		var msg []byte
		for k := 0; k < 20; k++ {
			l := genSortLine(r)
			if p, err := parseLP(l.String()); err != nil || !sameLP(p, l) {
				continue
			}
			msg = append(msg, l.String()+"\n"...)
			want = append(want, l)
		}
		publish(c, nc, "in", msg)
	}
	flush(c, nc)
	UntilProgress(longWait, rec.Count, func() bool { return len(splitLines(rec.Bytes(""))) >= len(want) })
	got := splitLines(rec.Bytes(""))
	if len(got) != len(want) {
		c.Fatal("%d lines came out of %d", len(got), len(want))
	}
	for j, g := range got {
		w := want[j].sorted().String() + "\n"
		if string(g) != w {
			c.Fatal("in %q out %q", want[j].String(), g)
		}
		c.Eval("nats", true)
	}
	c.StopComp(comp)
}

// ---------------------------------------------------------------------
// C15

func checkC15(c *Ctx) {
	c.Scenario("rules", func() { c.Pool(6, c.N(30, 150), func(i int) { c15run(c, i) }) })
	c.Scenario("short", func() { c.Pool(6, c.N(24, 100), func(i int) { c15short(c, i) }) })
}

// c15short sends the shortest of lines, the last one of a message with or
// without newline, each message for a batch of its own.
func c15short(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("short%d", i))
	var rules []config.Rule
	for k := i % 4; k > 0; k-- {
		switch r.Intn(4) {
		case 0:
			rules = append(rules, config.Rule{Rtype: "basic", Match: "abc"[r.Intn(3):][:1]})
		case 1:
			rules = append(rules, config.Rule{Rtype: "tags", Tags: [][]string{{"a", "123"[r.Intn(3):][:1]}}})
		default:
			re := []string{"^a", "1$", "=1", "i$", "^b [xy]=", ",", "^.....$", "^......$", "2", `\S$`, "^c x=1$"}
			rules = append(rules, config.Rule{Rtype: []string{"regex", "regex", "negregex"}[r.Intn(3)], Match: re[r.Intn(len(re))]})
		}
	}
	models := modelRules(rules)
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Rule = rules
	conf.Workers = 1
	conf.BatchMaxCount = 1
	conf.BatchMaxAge = dur(time.Hour)
	conf.StatsInterval = dur(time.Hour)
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	var want []byte
	kept, dropped := 0, 0
	for m := 0; m < c.N(300, 1500); m++ {
		var msg []byte
		lines := 1 + r.Intn(4)
		if m == 10 && i < 12 {
			lines = 200000 // (as many as fit)
		}
		for j := lines; j > 0 && len(msg) < 1<<20-100; j-- {
			l := LP{Meas: "abc"[r.Intn(3):][:1], Rest: "xyz"[r.Intn(3):][:1] + "=" + []string{"1", "2", "t", "1i", "\"\""}[r.Intn(5)]}
			if r.Intn(3) == 0 {
				l.Tags = []KV{{"a", "123"[r.Intn(3):][:1]}}
			}
			if r.Intn(4) == 0 {
				l.Rest += []string{" 1", " 0", " 22", " 1500000000000000001"}[r.Intn(4)]
			}
			s := l.String()
			if j > 1 || r.Intn(2) == 0 {
				s += "\n"
			}
			msg = append(msg, s...)
			keep := len(rules) == 0 || firstMatch(models, l) >= 0
			if keep {
				want = append(want, s...)
				kept++
			} else {
				dropped++
			}
			if lines > 100 {
				c.ObsMax("lines of a message", lines-j+1)
				continue
			}
			c.Eval(fmt.Sprintf("short %d bytes, newline %v, keep %v", len(s), strings.HasSuffix(s, "\n"), keep), true)
		}
		publish(c, nc, "in", msg)
	}
	flush(c, nc)
	UntilProgress(longWait, inf.Count, func() bool { return len(inf.AcceptedBytes("")) >= len(want) })
	time.Sleep(50 * time.Millisecond)
	if got := inf.AcceptedBytes(""); !bytes.Equal(got, want) {
		c.Fatal("short lines, rules %+v: %s", rules, firstDiff(want, got))
	}
	c.Obs("lines written", kept)
	c.Obs("lines dropped", dropped)
	c.StopComp(comp)
}

func c15run(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("run%d", i))
	rules := genRules(r, false)
	if i%10 == 9 {
		rules = nil
	}
	models := modelRules(rules)
	n := startNats(c)
	defer n.Stop()
	inf := startInflux(c)
	defer inf.Stop()
	conf := baseConf(n, "writer")
	conf.InfluxDBPort = inf.Port
	conf.Rule = rules
	conf.Workers = []int{1, 1, 4}[i%3]
	conf.BatchMaxCount = []int{1, 5, 1000}[r.Intn(3)]
	conf.BatchMaxSize = []datasize.ByteSize{datasize.MB, 20000}[r.Intn(2)]
	conf.BatchMaxAge = dur(50 * time.Millisecond)
	conf.StatsInterval = dur(time.Hour)
	// (Lines longer than a write may be are cut.)
	maxRepeats := 70000
	if conf.BatchMaxSize < datasize.MB {
		maxRepeats = 4000
	}
	comp := c.Start(conf)
	nc := n.Connect()
	defer nc.Close()
	type src struct{ msg, seq int }
	want := map[string]src{}
	dropped := 0
	var wantBytes []byte
	for m := 0; m < c.N(120, 400); m++ {
		var prev LP
		var msg []byte
		long := 0
		if r.Intn(12) == 0 {
			long = 1 + r.Intn(3)
		}
		for j := 1 + r.Intn(25); j > 0; j-- {
			l := nearLine(r, rules, nowTS(r), &prev).sorted()
			if !lineOK(l) || l.Bare {
				continue
			}
			if long > 0 && r.Intn(3) == 0 {
				long--
				l.Rest = "long=\"" + strings.Repeat([]string{"z", "a b=", "é"}[r.Intn(3)], 1+r.Intn(maxRepeats)) + "\"," + l.Rest
				c.ObsMax("longest line", len(l.Rest))
			}
			s := l.String() + "\n"
			if _, dup := want[s]; dup {
				continue
			}
			msg = append(msg, s...)
			keep := len(rules) == 0 || firstMatch(models, l) >= 0
			if keep {
				want[s] = src{m, j}
				wantBytes = append(wantBytes, s...)
			} else {
				dropped++
			}
			c.Eval(fmt.Sprintf("%d rules keep %v k%d", len(rules), keep, firstMatch(models, l)), true)
			if i < 4 && m == 0 && j == 1 {
				c.Sample("writer rules %+v line %s kept: %v", rules, short([]byte(s)), keep)
			}
		}
		if len(rules) > 0 && r.Intn(10) == 0 {
			msg = append(msg, malformed[r.Intn(len(malformed))]+"\n"...)
		}
		if len(msg) > 0 {
			publish(c, nc, "in", msg)
		}
	}
	flush(c, nc)
	// A last line says when everything went through... with one worker.
	UntilProgress(longWait, inf.Count, func() bool { return len(nonBad(inf.AcceptedBytes(""))) >= len(wantBytes) })
	Until(120*time.Millisecond, func() bool { return false })
	got := nonBad(inf.AcceptedBytes(""))
	if conf.Workers == 1 {
		if !bytes.Equal(got, wantBytes) {
			c.Fatal("rules %+v: %s", rules, firstDiff(wantBytes, got))
		}
	}
	seen := map[string]int{}
	last := map[int]int{}
	for _, l := range splitLines(got) {
		w, ok := want[string(l)]
		if !ok {
			for w := range want {
				if len(w) > 40 && len(l) > 40 && (w[:40] == string(l[:40]) || w[len(w)-20:] == string(l[len(l)-20:])) {
					c.Fatal("rules %+v: line altered: %s", rules, firstDiff([]byte(w), l))
				}
			}
			c.Fatal("rules %+v: line written although it matches no rule (or altered): %s", rules, short(l))
		}
		if seen[string(l)]++; seen[string(l)] > 1 {
			c.Fatal("line written twice: %s", short(l))
		}
		if p, ok := last[w.msg]; ok && p <= w.seq {
			c.Fatal("lines of one message written in the wrong order")
		}
		last[w.msg] = w.seq
	}
	if len(seen) != len(want) {
		for s := range want {
			if seen[s] == 0 {
				c.Fatal("rules %+v: %d of %d matching lines not written, e.g. %s", rules, len(want)-len(seen), len(want), short([]byte(s)))
			}
		}
	}
	c.Obs("lines written", len(seen))
	c.Obs("lines dropped", dropped)
	c.StopComp(comp)
}

// nonBad removes the deliberately malformed lines.
func nonBad(b []byte) []byte {
	var out []byte
	for _, l := range splitLines(b) {
		if !bytes.HasPrefix(l, []byte("BAD")) {
			out = append(out, l...)
		}
	}
	return out
}
