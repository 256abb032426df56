package harness

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/downsampler"
)

func init() {
	register("C11", checkC11)
	register("C12", checkC12)
	register("C13", checkC13)
}

// ---------------------------------------------------------------------
// Model of what a downsampler emits

type dsField struct {
	kind  byte // i, f, s, b
	sum   *big.Int
	n     int64
	fsum  *big.Float
	fmax  float64
	last  string
	loose bool // not compared
}

type dsSeries map[string]*dsField

// dsPeriods maps the end of a period to series to fields.
type dsPeriods map[int64]map[string]dsSeries

type dsValue struct {
	kind byte
	i    int64
	f    float64
	text string // as it appears in the line
}

func (p dsPeriods) add(end int64, series, field string, v dsValue) {
	if p[end] == nil {
		p[end] = map[string]dsSeries{}
	}
	if p[end][series] == nil {
		p[end][series] = dsSeries{}
	}
	f := p[end][series][field]
	if f == nil {
		f = &dsField{kind: v.kind, sum: new(big.Int), fsum: new(big.Float).SetPrec(300)}
		p[end][series][field] = f
	}
	f.n++
	f.last = v.text
	switch v.kind {
	case 'i':
		f.sum.Add(f.sum, big.NewInt(v.i))
	case 'f':
		f.fsum.Add(f.fsum, new(big.Float).SetPrec(300).SetFloat64(v.f))
		f.fmax = math.Max(f.fmax, math.Abs(v.f))
	}
}

// check compares an emitted field value with what it has to be.
func (f *dsField) check(text string) string {
	switch f.kind {
	case 'i':
		want := new(big.Int).Quo(f.sum, big.NewInt(f.n)).String() + "i" // Quo truncates
		if text != want {
			return fmt.Sprintf("integer average of %d values with sum %v is %s, emitted %s", f.n, f.sum, want, text)
		}
	case 'f':
		got, err := strconv.ParseFloat(text, 64)
		avg, _ := new(big.Float).Quo(f.fsum, new(big.Float).SetInt64(f.n)).Float64()
		tol := (4*float64(f.n) + 4) * (2.3e-16*f.fmax + math.SmallestNonzeroFloat64)
		if err != nil || math.IsNaN(got) || math.Abs(got-avg) > tol {
			return fmt.Sprintf("float average of %d values is %g, emitted %s", f.n, avg, text)
		}
	default:
		if text != f.last {
			return fmt.Sprintf("last value is %s, emitted %s", f.last, text)
		}
	}
	return ""
}

// dsLine is a parsed output line.
type dsLine struct {
	series string
	fields map[string]string
	ts     int64
}

func parseDsLine(s string) (dsLine, error) {
	out := dsLine{fields: map[string]string{}}
	i := 0
	esc := false
	for ; i < len(s); i++ {
		if esc {
			esc = false
		} else if s[i] == '\\' {
			esc = true
		} else if s[i] == ' ' {
			break
		}
	}
	if i >= len(s) {
		return out, fmt.Errorf("no fields")
	}
	out.series = s[:i]
	rest := s[i+1:]
	for {
		name, r := cut(rest, "=")
		if name == "" || r == "" {
			return out, fmt.Errorf("bad field at %q", rest)
		}
		rest = r[1:]
		var val string
		if strings.HasPrefix(rest, `"`) {
			j := 1
			for ; j < len(rest) && rest[j] != '"'; j++ {
				if rest[j] == '\\' {
					j++
				}
			}
			if j >= len(rest) {
				return out, fmt.Errorf("unterminated string")
			}
			val, rest = rest[:j+1], rest[j+1:]
		} else {
			j := strings.IndexAny(rest, ", ")
			if j < 0 {
				return out, fmt.Errorf("no timestamp")
			}
			val, rest = rest[:j], rest[j:]
		}
		if _, dup := out.fields[name]; dup {
			return out, fmt.Errorf("field %s twice", name)
		}
		out.fields[name] = val
		if strings.HasPrefix(rest, ",") {
			rest = rest[1:]
			continue
		}
		if !strings.HasPrefix(rest, " ") {
			return out, fmt.Errorf("bad text after field at %q", rest)
		}
		ts, err := strconv.ParseInt(rest[1:], 10, 64)
		out.ts = ts
		return out, err
	}
}

// compare judges everything that was emitted. Each period's series have
// to come exactly once.
func (p dsPeriods) compare(c *Ctx, emitted []byte) (lines int) {
	if len(emitted) > 0 && emitted[len(emitted)-1] != '\n' {
		c.Fatal("output doesn't end in a newline: %s", short(emitted))
	}
	type key struct {
		ts     int64
		series string
	}
	seen := map[key]bool{}
	for _, raw := range splitLines(emitted) {
		l, err := parseDsLine(strings.TrimSuffix(string(raw), "\n"))
		if err != nil {
			c.Fatal("output line %s: %v", short(raw), err)
		}
		k := key{l.ts, l.series}
		if seen[k] {
			c.Fatal("series emitted twice for one period: %s", short(raw))
		}
		seen[k] = true
		want, ok := p[l.ts][l.series]
		if !ok {
			c.Fatal("unexpected series or period: %s (series known in %v)", short(raw), p.periodsOf(l.series))
		}
		for name, f := range want {
			text, ok := l.fields[name]
			if f.loose {
				continue
			}
			if !ok {
				c.Fatal("field %q is missing: %s", name, short(raw))
			}
			if d := f.check(text); d != "" {
				c.Fatal("series %q field %q: %s", l.series, name, d)
			}
		}
		for name := range l.fields {
			if want[name] == nil {
				c.Fatal("unexpected field %q: %s", name, short(raw))
			}
		}
		lines++
	}
	for ts, series := range p {
		for s := range series {
			if !seen[key{ts, s}] {
				c.Fatal("series %q wasn't emitted for the period ending %d", s, ts)
			}
		}
	}
	return lines
}

func (p dsPeriods) periodsOf(series string) (out []int64) {
	for ts, s := range p {
		if s[series] != nil {
			out = append(out, ts)
		}
	}
	return out
}

// ---------------------------------------------------------------------
// Generators

var boolTexts = []string{"t", "T", "true", "True", "TRUE", "f", "F", "false", "False", "FALSE"}

var stringTexts = []string{
	`""`, `"a"`, `"two words"`, `"a,b"`, `"k=v"`, `"x=1i,y=2 3"`, `"say \"hi\""`, `"back\\slash"`, `"C:\\dir\\"`, `"\\"`, `"\""`, `"\\\""`, `"a\,b"`, `"日本 ✓"`, `"1600000000000000000"`, `" "`, `"it's"`, `"{}[]"`, `"100%"`, `"trailing \\\\"`, `"true"`, `"12i"`, `"1.5"`, `"a\nb"`, `"\=\ "`,
}

func genValue(r *rand.Rand, kind byte, style int) dsValue {
	v := dsValue{kind: kind}
	switch kind {
	case 'i':
		switch style % 4 {
		case 0:
			v.i = int64(r.Intn(2000) - 1000)
		case 1:
			v.i = r.Int63() - r.Int63()
		case 2:
			v.i = []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 0, -1, 1}[r.Intn(7)]
		case 3:
			v.i = math.MaxInt64 - int64(r.Intn(5))
			if r.Intn(10) == 0 {
				v.i = math.MinInt64 + int64(r.Intn(5))
			}
		}
		v.text = fmt.Sprintf("%di", v.i)
		if v.i >= 0 && v.i < 1000 && r.Intn(10) == 0 {
			v.text = fmt.Sprintf("%05di", v.i)
		}
	case 'f':
		switch style % 5 {
		case 0:
			v.text = strconv.FormatFloat(r.NormFloat64()*100, 'g', -1, 64)
		case 1:
			v.text = strconv.FormatFloat(float64(r.Intn(2000)-1000)/8, 'f', -1, 64)
		case 2:
			v.text = strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Intn(60)-30)), 'e', r.Intn(8), 64)
		case 3:
			v.text = []string{"1", "-1", "0", ".5", "5.", "1e3", "1E3", "+2", "-0.25", "1e-3", "100000000000000000000"}[r.Intn(11)]
		case 4:
			f := math.MaxFloat64 * (0.5 + 0.5*r.Float64())
			switch r.Intn(10) {
			case 0:
				f = math.MaxFloat64
			case 1:
				f = math.SmallestNonzeroFloat64 * float64(r.Intn(5))
			}
			if r.Intn(2) == 0 && style >= 5 {
				f = -f
			}
			v.text = strconv.FormatFloat(f, 'g', -1, 64)
		}
		v.f, _ = strconv.ParseFloat(v.text, 64)
	case 's':
		v.text = stringTexts[r.Intn(len(stringTexts))]
		if r.Intn(20) == 0 {
			v.text = `"` + strings.Repeat("long ", r.Intn(500)) + `"`
		}
	case 'b':
		v.text = boolTexts[r.Intn(len(boolTexts))]
	}
	return v
}

// genSeries makes distinct series keys.
func genSeries(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	for tries := 0; len(out) < n && tries < 100*n+100; tries++ {
		l := LP{Meas: word(r, true), Tags: genTags(r, 3, true), Rest: "x=1"}
		l = l.sorted()
		if !lineOK(l) || seps[l.Meas[0]] {
			continue
		}
		s := strings.TrimSuffix(l.String(), " x=1")
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

var seps = map[byte]bool{',': true, ' ': true, '=': true}

func genFieldNames(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	for tries := 0; len(out) < n && tries < 1000; tries++ {
		w := word(r, true)
		if seps[w[0]] || seen[w] {
			continue
		}
		seen[w] = true
		out = append(out, escBy(w, ",= "))
	}
	return out
}

// dsGen makes lines for a set of series; each field has one type per
// period.
type dsGen struct {
	r      *rand.Rand
	series []string
	fields []string
	kinds  map[string]byte
	style  int
	mixed  bool // lines with a field of another type have other fields too
}

func newDsGen(r *rand.Rand, series, fields int) *dsGen {
	return &dsGen{r: r, series: genSeries(r, series), fields: genFieldNames(r, fields), kinds: map[string]byte{}, style: r.Intn(20)}
}

// line makes a line without timestamp and enters it in the model.
func (g *dsGen) line(model dsPeriods, end int64) string {
	s := g.series[g.r.Intn(len(g.series))]
	n := 1 + g.r.Intn(len(g.fields))
	if g.r.Intn(3) > 0 {
		n = 1
	}
	var parts []string
	for _, k := range g.r.Perm(len(g.fields))[:n] {
		name := g.fields[k]
		kk := fmt.Sprintf("%d/%s/%s", end, s, name)
		kind, ok := g.kinds[kk]
		if !ok {
			kind = "iifsb"[g.r.Intn(5)]
			g.kinds[kk] = kind
		}
		style := g.style
		if g.r.Intn(4) == 0 {
			style = g.r.Intn(20)
		}
		v := genValue(g.r, kind, style)
		parts = append(parts, name+"="+v.text)
		model.add(end, s, name, v)
	}
	return s + " " + strings.Join(parts, ",")
}

// ---------------------------------------------------------------------
// Simulation of a worker in virtual time

type emission struct {
	at  time.Time
	out []byte
}

type dsSim struct {
	c      *Ctx
	now    time.Time
	period time.Duration
	a      *downsampler.VerifAssigner
	out    []emission
}

func newDsSim(c *Ctx, start time.Time, period time.Duration) *dsSim {
	c.needHook(downsampler.VerifAvailable)
	s := &dsSim{c: c, now: start, period: period}
	s.a = downsampler.VerifNewAssigner(period, func() time.Time { return s.now })
	return s
}

// poll does what the worker does after each event.
func (s *dsSim) poll() {
	if b := s.a.Bytes(); len(b) > 0 {
		s.out = append(s.out, emission{s.now, append([]byte(nil), b...)})
	}
}

func (s *dsSim) boundary() time.Time { return s.now.Truncate(s.period).Add(s.period) }

// advance moves the clock; the worker's timer fires on the way.
func (s *dsSim) advance(d time.Duration) {
	to := s.now.Add(d)
	for {
		b := s.boundary()
		if u := s.a.UntilNext(); u > b.Sub(s.now) {
			s.c.Fatal("period %v: at %v the downsampler sleeps %v, the period ends in %v", s.period, s.now.UnixNano(), u, b.Sub(s.now))
		}
		if to.Before(b) {
			s.now = to
			return
		}
		s.now = b
		s.poll()
	}
}

func (s *dsSim) message(b []byte) []error {
	errs := s.a.Update(b)
	s.poll()
	return errs
}

func (s *dsSim) all() (out []byte) {
	for _, e := range s.out {
		out = append(out, e.out...)
	}
	return out
}

// endOf returns the end of the period a time lies in.
func endOf(t time.Time, period time.Duration) int64 {
	return t.Truncate(period).Add(period).UnixNano()
}

// in returns a random time in the period which is k periods from now's.
func (s *dsSim) in(r *rand.Rand, k int) time.Time {
	t := s.now.Truncate(s.period).Add(time.Duration(k) * s.period)
	return t.Add(time.Duration(r.Int63n(int64(s.period))))
}

func simStart(r *rand.Rand) time.Time {
	return time.Unix(946684800+r.Int63n(3e9), r.Int63n(1e9))
}

var dsPeriodPool = []time.Duration{time.Second, 7 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 24 * time.Hour, 1500 * time.Millisecond, 333333333, 7 * 24 * time.Hour}

// ---------------------------------------------------------------------
// C11

func checkC11(c *Ctx) {
	c.Pool(8, c.N(700, 6000), func(i int) { c11sim(c, i) })
	c.Pool(4, c.N(4, 12), func(i int) {
		if i%4 == 3 {
			c11flood(c, i)
			return
		}
		c11real(c, i)
	})
	c.Scenario("wide", func() { c.Pool(4, c.N(4, 12), func(i int) { c11wide(c, i) }) })
}

// c11wide has a period with many series, fields or long values.
func c11wide(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("wide%d", i))
	period := time.Minute
	g := newDsSim(c, simStart(r), period)
	model := dsPeriods{}
	ts := g.in(r, 0)
	end := endOf(ts, period)
	add := func(lines ...string) {
		var b []byte
		for _, l := range lines {
			b = append(b, fmt.Sprintf("%s %d\n", l, ts.UnixNano())...)
		}
		if errs := g.message(b); len(errs) > 0 {
			c.Fatal("valid lines rejected: %d errors, %.300v", len(errs), errs[0])
		}
	}
	integer := func() dsValue {
		v := r.Int63n(2000000) - 1000000
		return dsValue{kind: 'i', i: v, text: fmt.Sprintf("%di", v)}
	}
	what := ""
	switch i % 4 {
	case 3:
		what = "lines"
		end = endOf(g.now, period)
		for m := 0; m < 3; m++ {
			var b []byte
			lines := 0
			for len(b) < 1<<20-50 {
				v := integer()
				key := fmt.Sprint("abc"[r.Intn(3):][:1])
				model.add(end, key, "v", v)
				b = append(b, key+" v="+v.text+"\n"...)
				lines++
			}
			if errs := g.message(b); len(errs) > 0 {
				c.Fatal("message of %d valid lines: %d errors, %.300v", lines, len(errs), errs[0])
			}
			c.ObsMax("lines of a message", lines)
		}
	case 0:
		n := c.N(140000, 600000)
		what = "series"
		c.ObsMax("series in a period", n)
		var group []string
		for k := 0; k < n+n/10; k++ {
			v := integer()
			key := fmt.Sprintf("m%d,id=%d", k%n%7, k%n)
			model.add(end, key, "v", v)
			group = append(group, key+" v="+v.text)
			if len(group) == 500 || k == n+n/10-1 {
				add(group...)
				group = nil
			}
		}
	case 1:
		n := 70000
		what = "fields"
		c.ObsMax("fields of a series", n)
		for _, per := range []int{50, 7000} {
			for k := 0; k < n; k += per {
				var l strings.Builder
				for x := k; x < k+per; x++ {
					v := integer()
					name := fmt.Sprintf("f%d", x)
					model.add(end, "m,a=b", name, v)
					if x > k {
						l.WriteByte(',')
					}
					l.WriteString(name + "=" + v.text)
				}
				add("m,a=b " + l.String())
			}
		}
	case 2:
		what = "long values"
		for k := 0; k < 60; k++ {
			n := []int{1, 1000, 65535, 65536, 70000, 300000, 450000}[r.Intn(7)]
			ch := []string{"x", "é", `\"`, `\\`, ", ="}[r.Intn(5)]
			str := strings.Repeat(ch, n/len(ch)+1) + fmt.Sprint(nextID())
			v := dsValue{kind: 's', text: `"` + str + `"`}
			name := []string{"s", "t", strings.Repeat("n", 70000), strings.Repeat("n", 70001)}[r.Intn(4)]
			key := []string{"m", "m,host=" + strings.Repeat("h", 66000), "m,host=" + strings.Repeat("h", 66001)}[r.Intn(3)]
			model.add(end, key, name, v)
			add(key + " " + name + "=" + v.text)
			c.ObsMax("bytes of a value", len(str))
		}
	}
	g.advance(3 * period)
	lines := model.compare(c, g.all())
	c.Obs("lines emitted", lines)
	c.Eval("wide "+what, true)
}

// c11flood gives a downsampler far more messages than it can process
// right away; the average shows whether all of them counted.
func c11flood(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("flood%d", i))
	period := 12 * time.Second
	d := startDsRig(c, []string{"s0"}, period)
	defer d.n.Stop()
	nc := d.n.Connect()
	defer nc.Close()
	t0 := d.nextPeriod()
	ts := t0.Add(period).UnixNano() // the next period, so that there's time
	// A few messages that take long, then many short ones.
	fields := ""
	for k := 0; k < 40; k++ {
		fields += fmt.Sprintf("f%d=%di,", k, k)
	}
	var long []byte
	for k := 0; len(long) < 900000; k++ {
		long = append(long, fmt.Sprintf("pad,k=%d %slast=1i %d\n", k%50, fields, ts)...)
	}
	n := 85000 + r.Intn(3000)
	model := dsPeriods{}
	end := t0.Add(2 * period).UnixNano()
	var msgs [][]byte
	for k := 0; k < 20; k++ {
		msgs = append(msgs, long)
	}
	for k := 0; k < n; k++ {
		v := int64(k) * 1000003
		f := float64(k%1000)*1.5 + float64(k)/16 - 1000
		vals := []dsValue{{kind: 'i', i: v, text: fmt.Sprintf("%di", v)}, {kind: 'f', f: f, text: fmt.Sprint(f)},
			{kind: 'b', text: fmt.Sprint(k%3 == 0)}, {kind: 's', text: fmt.Sprintf("\"s%d\"", k)}}
		msg := []byte(fmt.Sprintf("m v=%s,f=%s,b=%s,s=%s %d\n", vals[0].text, vals[1].text, vals[2].text, vals[3].text, ts))
		for dup := 1 + k%500/499; dup > 0; dup-- { // the same once more, now and then
			for x, name := range []string{"v", "f", "b", "s"} {
				model.add(end, "m", name, vals[x])
			}
			msgs = append(msgs, msg)
		}
	}
	for _, msg := range msgs {
		publish(c, nc, "s0", msg)
	}
	d.sent += int64(len(msgs))
	flush(c, nc)
	d.settled2(t0.Add(2*period - 200*time.Millisecond))
	time.Sleep(time.Until(t0.Add(2 * period)))
	c.Must("the period is emitted", func() bool { return bytes.Contains(d.rec.Bytes(""), []byte("m ")) })
	var got []byte
	for _, l := range splitLines(d.rec.Bytes("")) {
		if bytes.HasPrefix(l, []byte("m ")) {
			got = append(got, l...)
		}
	}
	model.compare(c, got)
	c.Eval("flood", true)
	c.Obs("values sent in bursts", n)
	d.stop()
}

func c11sim(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("sim%d", i))
	period := dsPeriodPool[r.Intn(len(dsPeriodPool))]
	start := simStart(r)
	fields := 1 + r.Intn(5)
	if i%9 == 8 {
		fields = 10 + r.Intn(60)
	}
	g := newDsGen(r, 1+r.Intn(8), fields)
	if len(g.series) == 0 || len(g.fields) == 0 {
		return
	}
	model := dsPeriods{}
	one := newDsSim(c, start, period)  // gets lines one by one
	many := newDsSim(c, start, period) // gets them in groups
	steps := 3 + r.Intn(4)
	for st := 0; st < steps; st++ {
		n := r.Intn(40)
		if r.Intn(15) == 0 {
			n = 1500
		}
		var group []byte
		for k := 0; k < n; k++ {
			ts := one.in(r, r.Intn(3)-1)
			l := g.line(model, endOf(ts, period)) + fmt.Sprintf(" %d", ts.UnixNano())
			if errs := one.message([]byte(l + "\n")); len(errs) > 0 {
				c.Fatal("valid line %q rejected: %v", l, errs)
			}
			group = append(group, l...)
			if k < n-1 || r.Intn(2) == 0 {
				group = append(group, '\n')
			}
			if r.Intn(20) == 0 || k == n-1 {
				if group[len(group)-1] != '\n' && k < n-1 {
					group = append(group, '\n')
				}
				if errs := many.message(group); len(errs) > 0 {
					c.Fatal("valid lines rejected: %v", errs)
				}
				group = nil // (the worker may keep the message)
			}
		}
		d := time.Duration(r.Int63n(int64(period)) + r.Int63n(int64(period)))
		one.advance(d)
		many.advance(d)
	}
	one.advance(4 * period)
	many.advance(4 * period)
	lines := model.compare(c, one.all())
	model.compare(c, many.all())
	c.Obs("lines emitted", 2*lines)
	for end, series := range model {
		for s, fields := range series {
			for name, f := range fields {
				sz := "1"
				if f.n > 1 {
					sz = "2..9"
				}
				if f.n > 9 {
					sz = "10+"
				}
				c.Eval(fmt.Sprintf("%c values %s style %d escapes %v", f.kind, sz, g.style, strings.Contains(s+name, `\`)), f.n > 1)
				if f.kind == 'i' && !f.sum.IsInt64() {
					c.Obs("integer sums beyond 64 bits", 1)
				}
				if i%100 == 5 && f.n > 2 {
					c.Sample("period end %d: series %q field %q: %d values of type %c, sum %v, last %s", end, s, name, f.n, f.kind, f.sum, f.last)
				}
			}
		}
	}
}

// dsRig is a running downsampler.
type dsRig struct {
	c        *Ctx
	n        *Nats
	comp     Comp
	rec, mon *Recorder
	subjects []string
	period   time.Duration
	sent     int64
}

func startDsRig(c *Ctx, subjects []string, period time.Duration) *dsRig {
	d := &dsRig{c: c, n: startNats(c), subjects: subjects, period: period}
	conf := baseConf(d.n, "downsampler")
	conf.NATSSubject = subjects
	conf.DownsamplePeriod = dur(period)
	conf.DownsampleSuffix = "-arch"
	conf.StatsInterval = dur(30 * time.Millisecond)
	var outs []string
	for _, s := range subjects {
		outs = append(outs, s+"-arch")
	}
	d.rec = d.n.Record(append(outs, "-arch", "x-archive", "in-archive")...)
	d.mon = d.n.Record("mon")
	d.comp = c.Start(conf)
	return d
}

func (d *dsRig) stop() {
	d.c.StopComp(d.comp)
	d.rec.Close()
	d.mon.Close()
	d.n.Stop()
}

// settled waits until all messages were processed; the harness can't judge
// lines that took too long to get there.
func (d *dsRig) settled(before time.Time) {
	for {
		v, ok := lastMetric(d.mon, "received")
		if time.Now().After(before) {
			// It may just not have been reported, but then there's no telling.
			d.c.Infra("messages took too long to be processed (%d of %d)", v, d.sent)
		}
		if ok && v >= d.sent {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// settled2 is for more messages than the downsampler may get in time: if
// not all are received by then it's only the machine's fault if the number
// still grows.
func (d *dsRig) settled2(before time.Time) {
	last, at := int64(-1), time.Now()
	for {
		v, ok := lastMetric(d.mon, "received")
		if ok && v >= d.sent {
			return
		}
		if v != last {
			last, at = v, time.Now()
		}
		if ok && time.Since(at) > 4*time.Second {
			return // no more are coming
		}
		if time.Now().After(before) {
			d.c.Infra("messages took too long to be processed (%d of %d)", v, d.sent)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// nextPeriod waits for the first half of a period and returns its start.
func (d *dsRig) nextPeriod() time.Time {
	now := time.Now()
	t := now.Truncate(d.period)
	if now.Sub(t) > d.period/3 {
		t = t.Add(d.period)
		time.Sleep(time.Until(t))
	}
	return t
}

func c11real(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("real%d", i))
	period := 3 * time.Second
	subjects := []string{"s0", "s1", "s2"}[:1+i%3]
	d := startDsRig(c, subjects, period)
	defer d.n.Stop()
	nc := d.n.Connect()
	defer nc.Close()
	models := map[string]dsPeriods{}
	gens := map[string]*dsGen{}
	for _, s := range subjects {
		models[s] = dsPeriods{}
		gens[s] = newDsGen(r, 5+r.Intn(300), 4)
	}
	t0 := d.nextPeriod()
	// Lines for this period and the next one.
	for m := 0; m < c.N(120, 600); m++ {
		s := subjects[r.Intn(len(subjects))]
		var msg []byte
		for k := 1 + r.Intn(30); k > 0; k-- {
			ts := t0.Add(time.Duration(r.Int63n(int64(2 * period))))
			l := gens[s].line(models[s], endOf(ts, period))
			msg = append(msg, fmt.Sprintf("%s %d\n", l, ts.UnixNano())...)
			c.Eval("real", true)
		}
		if r.Intn(2) == 0 {
			msg = msg[:len(msg)-1]
		}
		publish(c, nc, s, msg)
		d.sent++
	}
	flush(c, nc)
	d.settled(t0.Add(2*period - 200*time.Millisecond))
	total := 0
	for _, m := range models {
		for _, p := range m {
			total += len(p)
		}
	}
	time.Sleep(time.Until(t0.Add(3 * period)))
	UntilProgress(longWait, d.rec.Count, func() bool { return len(splitLines(d.rec.Bytes(""))) >= total })
	Until(50*time.Millisecond, func() bool { return false })
	for _, s := range subjects {
		models[s].compare(c, d.rec.Bytes(s+"-arch"))
	}
	c.Obs("series emitted by a complete downsampler", total)
	d.stop()
}

// ---------------------------------------------------------------------
// C12

func checkC12(c *Ctx) {
	c.Pool(8, c.N(1200, 10000), func(i int) { c12sim(c, i) })
	c.Pool(8, c.N(200, 2000), func(i int) { c12stall(c, i) })
	c.Pool(4, c.N(4, 12), func(i int) { c12real(c, i) })
}

var tsKinds = []string{"none", "current", "previous", "next", "start of previous", "just before previous", "end of next", "just before end of next", "far past", "far future", "now", "boundary"}

func c12sim(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("sim%d", i))
	period := dsPeriodPool[r.Intn(len(dsPeriodPool))]
	if r.Intn(6) == 0 {
		period = time.Duration(1 + r.Int63n(int64(time.Hour)))
	}
	start := simStart(r)
	if r.Intn(3) == 0 {
		start = start.Truncate(period).Add(time.Duration(r.Intn(3) - 1))
	}
	s := newDsSim(c, start, period)
	want := dsPeriods{}
	for st := 0; st < 25; st++ {
		n := r.Intn(6)
		for k := 0; k < n; k++ {
			s0 := s.now.Truncate(period)
			kind := r.Intn(len(tsKinds))
			ts := s.now
			switch tsKinds[kind] {
			case "current":
				ts = s.in(r, 0)
			case "previous":
				ts = s.in(r, -1)
			case "next":
				ts = s.in(r, 1)
			case "start of previous":
				ts = s0.Add(-period)
			case "just before previous":
				ts = s0.Add(-period - 1)
			case "end of next":
				ts = s0.Add(2 * period)
			case "just before end of next":
				ts = s0.Add(2*period - 1)
			case "far past":
				ts = s.now.Add(-2*period - time.Duration(r.Int63n(int64(100*period))))
			case "far future":
				ts = s.now.Add(2*period + time.Duration(r.Int63n(int64(100*period))))
			case "boundary":
				ts = s0.Add(time.Duration(r.Intn(2)) * period)
			}
			ok := !ts.Before(s0.Add(-period)) && ts.Before(s0.Add(2*period))
			series := fmt.Sprintf("m,id=%d", nextID())
			l := series + " v=1i"
			if kind > 0 {
				l += fmt.Sprintf(" %d", ts.UnixNano())
			}
			errs := s.message([]byte(l + "\n"))
			if ok && len(errs) > 0 {
				c.Fatal("period %v now %d: line %q of kind %q rejected: %v", period, s.now.UnixNano(), l, tsKinds[kind], errs)
			}
			if !ok && len(errs) == 0 {
				c.Fatal("period %v now %d: line %q of kind %q accepted", period, s.now.UnixNano(), l, tsKinds[kind])
			}
			if ok {
				want.add(endOf(ts, period), series, "v", dsValue{kind: 'i', i: 1, text: "1i"})
			}
			phase := "inside"
			if s.now.Equal(s0) {
				phase = "start"
			}
			c.Eval(fmt.Sprintf("%s at %s of period, %v", tsKinds[kind], phase, period), kind > 0)
			if i%200 == 9 && st == 3 {
				c.Sample("period %v, clock %d, line %q (%s): accepted %v", period, s.now.UnixNano(), l, tsKinds[kind], ok)
			}
		}
		s.poll() // nothing may come early because of extra events
		d := time.Duration(r.Int63n(int64(period)))
		switch r.Intn(10) {
		case 0:
			d = time.Duration(r.Int63n(int64(period)) + int64(r.Intn(8))*int64(period))
		case 1:
			d = s.boundary().Sub(s.now) // exactly to the boundary
		case 2:
			d = s.boundary().Sub(s.now) - 1
		case 3:
			d = 0
		}
		s.advance(d)
	}
	s.advance(4 * period)
	c12judge(c, s, want, true)
}

// c12judge checks what was emitted when.
func c12judge(c *Ctx, s *dsSim, want dsPeriods, strict bool) {
	want.compare(c, s.all())
	lastEnd := int64(math.MinInt64)
	for _, e := range s.out {
		ends := map[int64]bool{}
		for _, raw := range splitLines(e.out) {
			l, _ := parseDsLine(strings.TrimSuffix(string(raw), "\n"))
			ends[l.ts] = true
			due := l.ts + int64(s.period)
			if e.at.UnixNano() < due {
				c.Fatal("period %v: lines stamped %d emitted early, at %d", s.period, l.ts, e.at.UnixNano())
			}
			if strict && e.at.UnixNano() > due {
				c.Fatal("period %v: lines stamped %d emitted late, at %d", s.period, l.ts, e.at.UnixNano())
			}
			if l.ts <= lastEnd {
				c.Fatal("period %v: lines stamped %d emitted after a later (or the same) period", s.period, l.ts)
			}
		}
		if len(ends) != 1 {
			c.Fatal("lines of %d periods emitted together", len(ends))
		}
		for end := range ends {
			lastEnd = end
		}
	}
	c.Obs("periods emitted", len(s.out))
}

// c12stall holds the worker up for several periods.
func c12stall(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("stall%d", i))
	period := dsPeriodPool[r.Intn(len(dsPeriodPool))]
	s := newDsSim(c, simStart(r), period)
	want := dsPeriods{}
	for round := 0; round < 6; round++ {
		for k := 0; k < 1+r.Intn(8); k++ {
			ts := s.in(r, r.Intn(3)-1)
			series := fmt.Sprintf("m,id=%d", nextID())
			if errs := s.message([]byte(fmt.Sprintf("%s v=1i %d", series, ts.UnixNano()))); len(errs) > 0 {
				c.Fatal("line rejected: %v", errs)
			}
			want.add(endOf(ts, period), series, "v", dsValue{kind: 'i', i: 1, text: "1i"})
			c.Eval("before a stall", true)
		}
		s.now = s.now.Add(time.Duration(r.Int63n(int64([]int{1, 2, 6, 300}[r.Intn(4)]) * int64(period))))
		if r.Intn(2) == 0 {
			// A message comes first. It's compared with the current time.
			for k := 1 + r.Intn(4); k > 0; k-- {
				series := fmt.Sprintf("m,id=%d", nextID())
				ts := s.in(r, r.Intn(3)-1)
				l := fmt.Sprintf("%s v=1i %d", series, ts.UnixNano())
				if r.Intn(4) == 0 {
					l, ts = series+" v=1i", s.now
				}
				bad := s.now.Truncate(period).Add([]time.Duration{-period - 1, 2 * period}[r.Intn(2)])
				errs := s.a.Update([]byte(fmt.Sprintf("%s\nbad v=1i %d\n", l, bad.UnixNano())))
				if len(errs) != 1 || !strings.Contains(errs[0].Error(), "bad") {
					c.Fatal("period %v: a message after a stall, now %d: line %q is within the periods, one at %d isn't; the errors are %v", period, s.now.UnixNano(), l, bad.UnixNano(), errs)
				}
				want.add(endOf(ts, period), series, "v", dsValue{kind: 'i', i: 1, text: "1i"})
				c.Eval("first after a stall", true)
				if r.Intn(2) == 0 {
					s.poll()
				}
			}
		}
		for k := 0; s.a.UntilNext() == 0; k++ {
			if k > 1000 {
				c.Fatal("downsampler doesn't catch up after a stall")
			}
			s.poll()
		}
		if u, b := s.a.UntilNext(), s.boundary().Sub(s.now); u > b {
			c.Fatal("after a stall the downsampler sleeps %v, the period ends in %v", u, b)
		}
	}
	s.advance(4 * period)
	c12judge(c, s, want, false)
	c.Obs("stalls", 6)
}

// c12real uses a complete downsampler and the real clock.
func c12real(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("real%d", i))
	period := []time.Duration{time.Second, 1500 * time.Millisecond, 2 * time.Second, 900 * time.Millisecond}[i%4]
	time.Sleep(time.Duration(r.Int63n(int64(period))))
	d := startDsRig(c, []string{"s"}, period)
	defer d.n.Stop()
	nc := d.n.Connect()
	defer nc.Close()
	want := dsPeriods{}
	invalid := int64(0)
	type sent struct{ from, to time.Time }
	noTS := map[string]sent{} // lines without timestamp
	var fuzzy []string
	for round := 0; round < c.N(2, 8); round++ {
		for k := 0; k < 4; k++ {
			now := time.Now()
			deadline := now.Add(period * 4 / 5)
			var msg []byte
			for j := 0; j < 20; j++ {
				series := fmt.Sprintf("m,id=%d", nextID())
				var ts time.Time
				valid := true
				switch r.Intn(5) {
				case 0:
					// Valid for more than a period from now on.
					ts = now.Truncate(period).Add(time.Duration(r.Int63n(int64(period))))
				case 1:
					ts = now.Truncate(period).Add(period + time.Duration(r.Int63n(int64(period))))
				case 2:
					ts = now.Add(-3*period - time.Duration(r.Int63n(int64(period))))
					valid = false
				case 3:
					ts = now.Add(5*period + time.Duration(r.Int63n(int64(period))))
					valid = false
				case 4:
					fuzzy = append(fuzzy, series)
					noTS[series] = sent{from: now}
					msg = append(msg, series+" v=1i\n"...)
					continue
				}
				msg = append(msg, fmt.Sprintf("%s v=1i %d\n", series, ts.UnixNano())...)
				if valid {
					want.add(endOf(ts, period), series, "v", dsValue{kind: 'i', i: 1, text: "1i"})
				} else {
					invalid++
				}
				c.Eval(fmt.Sprintf("real, valid %v", valid), true)
			}
			publish(c, nc, "s", msg)
			d.sent++
			if k == 1 { // a burst
				for x := 0; x < 300; x++ {
					l := fmt.Sprintf("burst v=%di %d\n", x, now.Add(-4*period).UnixNano())
					invalid++
					if x%3 == 0 {
						series := fmt.Sprintf("m,id=%d", nextID())
						ts := now.Truncate(period).Add(period + time.Duration(r.Int63n(int64(period))))
						l += fmt.Sprintf("%s v=1i %d", series, ts.UnixNano())
						want.add(endOf(ts, period), series, "v", dsValue{kind: 'i', i: 1, text: "1i"})
					}
					publish(c, nc, "s", []byte(l))
					d.sent++
				}
				c.Eval("burst", true)
			}
			flush(c, nc)
			d.settled(deadline)
			to := time.Now()
			for _, s := range fuzzy {
				noTS[s] = sent{noTS[s].from, to}
			}
			fuzzy = nil
			time.Sleep(time.Duration(r.Int63n(int64(period / 4))))
		}
		time.Sleep(time.Duration(r.Int63n(int64(3 * period)))) // pause
	}
	end := time.Now().Truncate(period).Add(4*period + 50*time.Millisecond)
	time.Sleep(time.Until(end))
	total := len(noTS)
	for _, p := range want {
		total += len(p)
	}
	UntilProgress(longWait, d.rec.Count, func() bool { return len(splitLines(d.rec.Bytes(""))) >= total })
	// Lines without timestamp may be in either of two periods.
	lastEnd := int64(math.MinInt64)
	for _, m := range d.rec.Msgs("") {
		for _, raw := range splitLines(m.Data) {
			l, err := parseDsLine(strings.TrimSuffix(string(raw), "\n"))
			if err != nil {
				c.Fatal("output %s: %v", short(raw), err)
			}
			if s, ok := noTS[l.series]; ok {
				if l.ts != endOf(s.from, period) && l.ts != endOf(s.to, period) {
					c.Fatal("period %v: line sent between %d and %d is stamped %d", period, s.from.UnixNano(), s.to.UnixNano(), l.ts)
				}
				delete(noTS, l.series)
				want.add(l.ts, l.series, "v", dsValue{kind: 'i', i: 1, text: "1i"})
			}
			late := m.At.UnixNano() - l.ts - int64(period)
			if late < 0 {
				c.Fatal("period %v: lines stamped %d emitted %v early", period, l.ts, time.Duration(-late))
			}
			if l.ts < lastEnd {
				c.Fatal("period %v: lines stamped %d emitted after those stamped %d", period, l.ts, lastEnd)
			}
			lastEnd = l.ts
			c.ObsMax("largest emission delay (ms)", int(late/1e6))
		}
	}
	want.compare(c, d.rec.Bytes(""))
	if len(noTS) > 0 {
		c.Fatal("%d lines without timestamp weren't emitted", len(noTS))
	}
	if !Until(longWait, func() bool { v, _ := lastMetric(d.mon, "invalid_timestamps"); return v == invalid }) {
		v, _ := lastMetric(d.mon, "invalid_timestamps")
		c.Fatal("invalid_timestamps is %d, %d lines were dropped", v, invalid)
	}
	d.stop()
}

// ---------------------------------------------------------------------
// C13

func checkC13(c *Ctx) {
	c.Pool(8, c.N(900, 8000), func(i int) { c13sim(c, i) })
	c.Pool(2, c.N(2, 8), func(i int) { c13real(c, i) })
}

// badLines can't be parsed; %s is a series.
var badLines = []string{
	"%s novalue", "%s a=", "%s a=\"unterminated", "%s a=\"", "%s \"", "%s =", "%s a", "%s a=1i,", "%s a=1i,b", "%s a=1i,b=", "%s a=\"x\"b", "%s a=\"x\",\"", "%s a=\"\\\"", "%s  ", "%s a,b",
}

type dsNoise struct {
	text   string
	series string
	fields []string // which it mentions
	kind   string
}

// genNoise makes a line which has to be rejected.
func (g *dsGen) genNoise(end int64, model dsPeriods) dsNoise {
	r := g.r
	s := fmt.Sprintf("foreign%d,a=b", r.Intn(5))
	shared := false
	if r.Intn(2) == 0 {
		s = g.series[r.Intn(len(g.series))]
		shared = true
	}
	if r.Intn(2) == 0 && shared {
		// A type mismatch, for a field that's there already.
		var names []string
		for name, f := range model[end][s] {
			if f.loose {
				continue
			}
			names = append(names, name)
		}
		sort.Strings(names)
		if len(names) > 0 {
			name := names[r.Intn(len(names))]
			var text string
			kind := g.kinds[fmt.Sprintf("%d/%s/%s", end, s, name)]
			for {
				k := "ifsb"[r.Intn(4)]
				if k != kind {
					text = genValue(r, k, r.Intn(20)).text
					break
				}
			}
			text = s + " " + name + "=" + text
			if g.mixed && r.Intn(2) == 0 {
				// Its other fields count nevertheless.
				parts := []string{text[len(s)+1:]}
				for _, other := range names {
					if other != name && r.Intn(2) == 0 {
						v := genValue(r, g.kinds[fmt.Sprintf("%d/%s/%s", end, s, other)], r.Intn(20))
						model.add(end, s, other, v)
						parts = append(parts, other+"="+v.text)
					}
				}
				r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
				text = s + " " + strings.Join(parts, ",")
				return dsNoise{text, s, nil, fmt.Sprintf("mismatch for %c with %d others", kind, len(parts)-1)}
			}
			return dsNoise{text, s, nil, fmt.Sprintf("mismatch for %c", kind)}
		}
	}
	// Names which aren't anywhere else.
	text := badLines[r.Intn(len(badLines))]
	kind := fmt.Sprintf(text, "m")
	if shared {
		// In a series that exists the fields before the error may count.
		if model[end][s] == nil {
			s = "foreign,x=y"
		} else {
			text = strings.Replace(text, "a=1i,", "noise=1i,", 1)
			text = strings.Replace(text, "a=\"x\"", "noise2=\"x\"", 1)
			return dsNoise{fmt.Sprintf(text, s), s, []string{"noise", "noise2"}, kind + " in known series"}
		}
	}
	return dsNoise{fmt.Sprintf(text, s), s, nil, kind}
}

func c13sim(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("sim%d", i))
	period := dsPeriodPool[r.Intn(len(dsPeriodPool))]
	g := newDsGen(r, 1+r.Intn(6), 1+r.Intn(4))
	g.mixed = true
	if len(g.series) == 0 || len(g.fields) == 0 {
		return
	}
	model := dsPeriods{}
	s := newDsSim(c, simStart(r), period)
	for st := 0; st < 4; st++ {
		for m := 0; m < r.Intn(8); m++ {
			var msg []byte
			bad := 0
			var kinds []string
			for k := 1 + r.Intn(12); k > 0; k-- {
				ts := s.in(r, r.Intn(3)-1)
				end := endOf(ts, period)
				switch r.Intn(3) {
				case 0:
					n := g.genNoise(end, model)
					bad++
					kinds = append(kinds, n.kind)
					for _, f := range n.fields {
						if model[end][n.series][f] == nil {
							model[end][n.series][f] = &dsField{loose: true}
						}
					}
					msg = append(msg, fmt.Sprintf("%s %d", n.text, ts.UnixNano())...)
				default:
					if r.Intn(10) == 0 { // outside of the periods
						bad++
						kinds = append(kinds, "timestamp")
						l := g.line(dsPeriods{}, 0)
						msg = append(msg, fmt.Sprintf("%s %d", l, ts.Add(-time.Duration(5+r.Intn(9))*period).UnixNano())...)
						break
					}
					msg = append(msg, fmt.Sprintf("%s %d", g.line(model, end), ts.UnixNano())...)
				}
				msg = append(msg, '\n')
				if r.Intn(10) == 0 {
					msg = append(msg, '\n') // an empty line
				}
			}
			orig := string(msg)
			if errs := s.message(msg); len(errs) != bad {
				c.Fatal("%d errors for %d bad lines (%q): %v\n%q", len(errs), bad, kinds, errs, orig)
			}
			for _, k := range kinds {
				c.Eval(k, true)
			}
			c.Obs("bad lines", bad)
			if i%150 == 3 && bad > 0 {
				c.Sample("message %q has %d bad lines", orig, bad)
			}
		}
		s.advance(time.Duration(r.Int63n(int64(period)) + r.Int63n(int64(period))))
	}
	if i%15 == 4 { // many of a kind, then good ones
		var msg []byte
		ts := s.in(r, 0)
		end := endOf(ts, period)
		kind := r.Intn(len(badLines) + 1)
		bad := 50 + r.Intn(1500)
		for k := 0; k < bad; k++ {
			if kind == len(badLines) {
				msg = append(msg, fmt.Sprintf("old f=1i %d\n", ts.Add(-time.Duration(5+r.Intn(9))*period).UnixNano())...)
			} else {
				msg = append(msg, fmt.Sprintf(badLines[kind]+" %d\n", fmt.Sprintf("bad%d", k), ts.UnixNano())...)
			}
		}
		for k := 0; k < 20; k++ {
			msg = append(msg, fmt.Sprintf("%s %d\n", g.line(model, end), ts.UnixNano())...)
		}
		if errs := s.message(msg); len(errs) != bad {
			c.Fatal("%d errors for %d bad lines of one kind, e.g. %v", len(errs), bad, errs[:1])
		}
		c.Obs("bad lines", bad)
		c.ObsMax("bad lines in one message", bad)
	}
	s.advance(4 * period)
	c.Obs("lines emitted", model.compare(c, s.all()))
}

// c13real sends the same lines to several subjects, to one of them with
// others in between.
func c13real(c *Ctx, i int) {
	r := c.Rand(fmt.Sprintf("real%d", i))
	period := 3 * time.Second
	subjects := []string{"s", "s-arch", "clean", "noise.only", "s0"}
	d := startDsRig(c, subjects, period)
	defer d.n.Stop()
	nc := d.n.Connect()
	defer nc.Close()
	g := newDsGen(r, 40, 4)
	model := dsPeriods{}
	none := dsPeriods{}
	t0 := d.nextPeriod()
	invalid, oldLines := int64(0), int64(0)
	for m := 0; m < c.N(100, 500); m++ {
		var clean, dirty, only []byte
		for k := 1 + r.Intn(20); k > 0; k-- {
			ts := t0.Add(time.Duration(r.Int63n(int64(2 * period))))
			end := endOf(ts, period)
			l := fmt.Sprintf("%s %d\n", g.line(model, end), ts.UnixNano())
			clean = append(clean, l...)
			dirty = append(dirty, l...)
			n := g.genNoise(end, model)
			if len(n.fields) == 0 {
				dirty = append(dirty, fmt.Sprintf("%s %d\n", n.text, ts.UnixNano())...)
				invalid++
				c.Eval("real "+n.kind, true)
			}
			n = g.genNoise(end, none)
			only = append(only, fmt.Sprintf("%s %d\n", n.text, ts.UnixNano())...)
			invalid++
			only = append(only, fmt.Sprintf("old v=1 %d\n", ts.Add(-10*period).UnixNano())...)
			oldLines++
		}
		publish(c, nc, "clean", clean)
		publish(c, nc, "s", dirty)
		publish(c, nc, "noise.only", only)
		d.sent += 3
		for x := m % 10; x == 0; x++ { // what's repeated counts again
			publish(c, nc, "noise.only", only)
			d.sent++
			invalid += int64(bytes.Count(only, []byte("\nold v=1 ")))
			oldLines += int64(bytes.Count(only, []byte("\nold v=1 ")))
		}
	}
	// A backlog: many short messages behind large ones.
	const large = 30000
	text := bytes.Repeat([]byte(fmt.Sprintf("old v=1 %d\n", t0.Add(-20*period).UnixNano())), large)
	for k := 0; k < 3; k++ {
		publish(c, nc, "s", text)
		d.sent++
		oldLines += large
	}
	for k := 0; k < c.N(2500, 4000); k++ {
		ts := t0.Add(time.Duration(r.Int63n(int64(2 * period))))
		l := fmt.Sprintf("%s %d\n", g.line(model, endOf(ts, period)), ts.UnixNano())
		publish(c, nc, "clean", []byte(l))
		publish(c, nc, "s", []byte(fmt.Sprintf("old v=1 %d\n%sbad x %d", t0.Add(-9*period).UnixNano(), l, ts.UnixNano())))
		d.sent += 2
		oldLines++
		invalid++
	}
	flush(c, nc)
	d.settled(t0.Add(2*period - 200*time.Millisecond))
	total := 0
	for _, p := range model {
		total += 2 * len(p)
	}
	time.Sleep(time.Until(t0.Add(3 * period)))
	UntilProgress(longWait, d.rec.Count, func() bool { return len(splitLines(d.rec.Bytes(""))) >= total })
	Until(50*time.Millisecond, func() bool { return false })
	// s-arch is an input as well as the output of s; what arrives there
	// late is out of the question by then.
	model.compare(c, d.rec.Bytes("clean-arch"))
	model.compare(c, d.rec.Bytes("s-arch"))
	for _, s := range []string{"noise.only-arch", "s0-arch", "-arch", "x-archive", "in-archive"} {
		if b := d.rec.Bytes(s); len(b) > 0 {
			c.Fatal("output on %q: %s", s, short(b))
		}
	}
	gotInv, gotTS := int64(0), int64(0)
	if !Until(longWait, func() bool {
		gotInv, _ = lastMetric(d.mon, "invalid_lines")
		gotTS, _ = lastMetric(d.mon, "invalid_timestamps")
		return gotInv == invalid && gotTS >= oldLines
	}) {
		c.Fatal("invalid_lines %d (want %d), invalid_timestamps %d (want %d)", gotInv, invalid, gotTS, oldLines)
	}
	c.Obs("invalid lines counted by a complete downsampler", int(gotInv))
	d.stop()
}
