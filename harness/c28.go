package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"
)

func init() { register("C28", checkC28) }

func checkC28(c *Ctx) {
	c.Scenario("taps", func() { c.Pool(6, c.N(36, 300), func(i int) { c28tap(c, i) }) })
	c.Scenario("options", func() { c28options(c) })
	c.Scenario("errors", func() { c28errors(c) })
	c.Scenario("concurrent", func() { c.Pool(2, c.N(4, 20), func(i int) { c28concurrent(c, i) }) })
}

// tap runs influx-spout-tap; it's subscribed when this returns.
func tap(c *Ctx, n *Nats, args ...string) *Child {
	subs := n.srv.NumSubscriptions()
	ch := startChild(c, "tap", "influx-spout-tap", args)
	if !Until(longWait, func() bool { return n.srv.NumSubscriptions() > subs || !ch.Alive() }) {
		c.Fatal("tap %q: doesn't subscribe; log:\n%s", args, ch.Log())
	}
	ch.MustLive("tap starting")
	return ch
}

func (ch *Child) stdout() []byte {
	b, _ := os.ReadFile(ch.out)
	return b
}

// prints waits until the tap printed something and compares it.
func (ch *Child) prints(c *Ctx, want []byte, what string) {
	size := func() int {
		fi, err := os.Stat(ch.out)
		if err != nil {
			return 0
		}
		return int(fi.Size())
	}
	UntilProgress(longWait/2, size, func() bool { return size() >= len(want) || !ch.Alive() })
	time.Sleep(20 * time.Millisecond)
	ch.MustLive(what)
	if got := ch.stdout(); !bytes.Equal(got, want) {
		c.Fatal("%s: %s", what, firstDiff(want, got))
	}
}

var c28tokens = []string{"%", "%s", "%d", "%!", "%%", "%v%n", "\x00", "\r", "\t", `\`, `\n`, "\xff\xfe", "é", "日本", "\x1b[31m", "\u2028", "cpu", "mem", ",host=web1", " v=1", " v=2i", " 1500000000000000000", "$", "^", "  ", "\"q\"", "\v\f", "\x7f"}

func c28line(r *rand.Rand) string {
	var b strings.Builder
	switch r.Intn(12) {
	case 0: // empty
	case 1:
		b.WriteString(strings.Repeat(c28tokens[r.Intn(len(c28tokens))], r.Intn(3000)))
	case 2:
		x := make([]byte, r.Intn(60))
		r.Read(x)
		b.WriteString(strings.Replace(string(x), "\n", "", -1))
	default:
		for k := r.Intn(9); k >= 0; k-- {
			b.WriteString(c28tokens[r.Intn(len(c28tokens))])
		}
	}
	return b.String()
}

// c28message returns a message and the lines (with their ends) in it.
func c28message(r *rand.Rand, open bool) ([]byte, []string) {
	var lines []string
	var b []byte
	n := r.Intn(12)
	short := false
	switch r.Intn(60) {
	case 0, 1:
		n = 2000
	case 2:
		n, short = 5000+r.Intn(60000), true
	}
	for k := 0; k < n; k++ {
		var l string
		if short {
			l = []string{"", "cpu", "mem v=1", "%d", "x"}[r.Intn(5)]
		} else {
			l = c28line(r)
		}
		if k < n-1 || !open || r.Intn(3) != 0 {
			l += "\n"
		}
		if l == "" {
			continue
		}
		lines = append(lines, l)
		b = append(b, l...)
		if len(b) > 900000 {
			break
		}
	}
	return b, lines
}

var c28patterns = []string{"cpu", "^cpu", "v=1$", "^$", "host=web[0-9]", "cpu|mem", "(?i)CPU", "%", "%d", `\\`, "[^a-z]", ".", "^.*$", "日", " v=2i( |$)", "^mem.*i$", `\d{19}$`, "x*", `\$`, `\s$`, "a^", "(cpu).*(cpu)", `[[:cntrl:]]`, `\x00`, "^[^c]"}

func c28tap(c *Ctx, i int) {
	r := c.Rand(fmt.Sprint("tap", i))
	n := startNats(c)
	defer n.Stop()
	nc := n.Connect()
	defer nc.Close()
	subject := []string{"in", "a.b.c", "influx-spout", "x.*", "y.>"}[r.Intn(5)]
	args := []string{"-h", n.URL(), "-s", subject}
	if subject == "influx-spout" && r.Intn(2) == 0 { // the default
		args = args[:2]
	}
	var re *regexp.Regexp
	pattern := ""
	if i%3 != 0 {
		pattern = c28patterns[r.Intn(len(c28patterns))]
		if r.Intn(4) == 0 {
			pattern = regexp.QuoteMeta(c28tokens[r.Intn(10)+12])
		}
		re = regexp.MustCompile(pattern)
		args = append(args, "-e", pattern)
	}
	ch := tap(c, n, args...)
	defer ch.Stop()
	var want []byte
	msgs := 20 + r.Intn(200)
	for k := 0; k < msgs; k++ {
		b, lines := c28message(r, true)
		to := subject
		switch subject {
		case "x.*":
			to = fmt.Sprintf("x.%d", r.Intn(5))
		case "y.>":
			to = "y" + strings.Repeat(".z", 1+r.Intn(3))
		}
		if r.Intn(4) == 0 { // not for this tap
			publish(c, nc, []string{"other", "in.x", "a.b", "x.y.z", "y", "influx-spout2", "influx"}[r.Intn(7)], []byte("cpu,other=1 v=1\n"))
		}
		publish(c, nc, to, b)
		for _, l := range lines {
			hit := re == nil || re.MatchString(strings.TrimSuffix(l, "\n"))
			if hit {
				want = append(want, l...)
			}
			c.Eval(fmt.Sprintf("line/%q/%v/%d/%v", pattern, hit, len(l)/8, strings.HasSuffix(l, "\n")), true)
		}
	}
	flush(c, nc)
	ch.prints(c, want, fmt.Sprintf("influx-spout-tap %q", args[2:]))
	c.Obs("bytes printed", len(want))
	c.Sample("influx-spout-tap %q: %d messages, %d bytes expected and printed", args[2:], msgs, len(want))
}

// c28options uses other ways to give the same options, and several taps
// on one subject.
func c28options(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	nc := n.Connect()
	defer nc.Close()
	var taps []*Child
	for _, args := range [][]string{
		{"-h=" + n.URL(), "-s=in"},
		{"--h", n.URL(), "--s", "in"},
		{"-s", "in", "-h", n.URL(), "-e", ""},
		{"-e=.*", "-s", "in", "-h", fmt.Sprintf("127.0.0.1:%d", n.Port)},
	} {
		ch := tap(c, n, args...)
		defer ch.Stop()
		taps = append(taps, ch)
	}
	r := c.Rand("options")
	var want []byte
	for k := 0; k < 300; k++ {
		b, _ := c28message(r, true)
		publish(c, nc, "in", b)
		want = append(want, b...)
	}
	flush(c, nc)
	for k, ch := range taps {
		ch.prints(c, want, fmt.Sprintf("tap %d of several on one subject", k))
		c.Eval(fmt.Sprintf("options/%d", k), true)
	}
}

// c28errors starts taps that can't work.
func c28errors(c *Ctx) {
	n := startNats(c)
	defer n.Stop()
	nobody := fmt.Sprintf("nats://127.0.0.1:%d", freePort())
	for k, args := range [][]string{
		{"-h", nobody},
		{"-h", nobody, "-e", "x"},
		{"-h", n.URL(), "-e", "a("},
		{"-h", n.URL(), "-e", "[z-a]", "-s", "in"},
		{"-h", n.URL(), "-s", ""},
		{"-h", "http://%%%"},
	} {
		ch := startChild(c, "tap", "influx-spout-tap", args)
		ch.want.Store(true)
		if !Until(longWait, func() bool { return !ch.Alive() }) {
			ch.Stop()
			c.Fatal("tap %q can't work but goes on; log:\n%s", args, ch.Log())
		}
		log := ch.Log()
		if s := ch.cmd.ProcessState.ExitCode(); s != 1 || strings.Contains(log, "goroutine ") || strings.TrimSpace(log) == "" || len(ch.stdout()) > 0 {
			c.Fatal("tap %q ended with status %d, output %q and log:\n%s", args, s, ch.stdout(), log)
		}
		c.Eval(fmt.Sprintf("error/%d", k), true)
	}
}

// c28concurrent has several publishers: every line is printed once and
// whole, those of one publisher in order.
func c28concurrent(c *Ctx, i int) {
	n := startNats(c)
	defer n.Stop()
	var args []string
	if i%2 == 1 {
		args = []string{"-e", "keep$"}
	}
	ch := tap(c, n, append([]string{"-h", n.URL(), "-s", "in"}, args...)...)
	defer ch.Stop()
	const pubs = 4
	var mu sync.Mutex
	wants := make([][]string, pubs)
	total := 0
	var fs []func()
	for p := 0; p < pubs; p++ {
		p := p
		fs = append(fs, func() {
			r := c.Rand(fmt.Sprint("conc", i, p))
			nc := n.Connect()
			defer nc.Close()
			seq := 0
			for k := 0; k < 400; k++ {
				var b []byte
				for j := r.Intn(20); j >= 0; j-- {
					end := "keep"
					if r.Intn(3) == 0 {
						end = "drop"
					}
					l := fmt.Sprintf("p=%d seq=%d %s%s", p, seq, strings.Repeat("%s", r.Intn(20)), end)
					seq++
					b = append(b, l+"\n"...)
					if end == "keep" || i%2 == 0 {
						mu.Lock()
						wants[p] = append(wants[p], l)
						total += len(l) + 1
						mu.Unlock()
					}
				}
				publish(c, nc, "in", b)
			}
			flush(c, nc)
		})
	}
	c.Go(fs...)
	size := func() int { return len(ch.stdout()) }
	UntilProgress(longWait/2, size, func() bool { return size() >= total || !ch.Alive() })
	time.Sleep(50 * time.Millisecond)
	ch.MustLive("concurrent publishers")
	next := make([]int, pubs)
	for _, l := range strings.Split(strings.TrimSuffix(string(ch.stdout()), "\n"), "\n") {
		var p int
		if _, err := fmt.Sscanf(l, "p=%d ", &p); err != nil || p < 0 || p >= pubs {
			c.Fatal("tap: unexpected output %q", short([]byte(l)))
		}
		if next[p] >= len(wants[p]) || wants[p][next[p]] != l {
			c.Fatal("tap, concurrent publishers: printed %q as line %d of publisher %d", short([]byte(l)), next[p], p)
		}
		next[p]++
		c.Eval(fmt.Sprintf("concurrent/%d/%d", p, next[p]), true)
	}
	for p := range wants {
		if next[p] != len(wants[p]) {
			c.Fatal("tap, concurrent publishers: %d of %d lines printed", next[p], len(wants[p]))
		}
	}
}
