package harness

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/jumptrading/influx-spout/v2/convert"
	"github.com/jumptrading/influx-spout/v2/influx"
)

func init() { register("C27", checkC27) }

func checkC27(c *Ctx) {
	var jobs []func()
	for i := range enumAlphabet {
		jobs = append(jobs, func() { c27enumerate(c, i) })
	}
	for i := range enumPieces {
		jobs = append(jobs, func() { c27tags(c, i) })
	}
	jobs = append(jobs,
		func() { c27random(c) },
		func() { c27ints(c) },
		func() { c27times(c) },
		func() { c27timestamps(c) },
		func() { c27roundtrip(c) },
		func() { c27sets(c) },
	)
	c.Pool(10, len(jobs), func(i int) { jobs[i]() })
}

// ---------------------------------------------------------------------
// Reference definitions. A character is escaped if a backslash is right
// before it.

// refCut finds the first unescaped stop character; a leading one is the
// caller's business.
func refCut(s, stops string) (tok, rest string) {
	for i := 1; i < len(s); i++ {
		if s[i-1] != '\\' && strings.IndexByte(stops, s[i]) >= 0 {
			return s[:i], s[i:]
		}
	}
	return s, ""
}

func refUnescape(s string) string {
	var b strings.Builder
	for s != "" {
		if len(s) >= 2 && s[0] == '\\' && strings.IndexByte(`," =`, s[1]) >= 0 {
			b.WriteByte(s[1])
			s = s[2:]
			continue
		}
		b.WriteByte(s[0])
		s = s[1:]
	}
	return b.String()
}

func leads(s, stops string) bool { return s != "" && strings.IndexByte(stops, s[0]) >= 0 }

// refTags is undefined (ok is false) for names which begin with a
// separator.
func refTags(s string) (meas string, tags []KV, rest string, bad, ok bool) {
	if leads(s, ", ") {
		return "", nil, "", false, false
	}
	m, s := refCut(s, ", ")
	meas = refUnescape(m)
	for {
		if s == "" {
			return meas, tags, "", false, true
		}
		if s[0] == ' ' {
			return meas, tags, s[1:], false, true
		}
		if leads(s[1:], "= ,") {
			return "", nil, "", false, false
		}
		var k, v string
		k, s = refCut(s[1:], "= ,")
		if s == "" || s[0] != '=' {
			return "", nil, "", true, true
		}
		if leads(s[1:], ", ") {
			return "", nil, "", false, false
		}
		v, s = refCut(s[1:], ", ")
		if v == "" {
			return "", nil, "", true, true
		}
		tags = append(tags, KV{refUnescape(k), refUnescape(v)})
	}
}

// refQuoted reads a quoted string.
func refQuoted(s string) (val, rest string, ok bool) {
	if len(s) < 2 || s[0] != '"' {
		return "", "", false
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			if s[i+1] != '"' {
				b.WriteByte('\\')
			}
			b.WriteByte(s[i+1])
			i++
		case s[i] == '"':
			return b.String(), s[i+1:], true
		default:
			b.WriteByte(s[i])
		}
	}
	return "", "", false
}

// refTS finds the timestamp: what follows the last space, if it's an
// integer of up to 19 digits.
func refTS(s string) (int64, int) {
	if len(s) < 6 {
		return -1, -1
	}
	s = strings.TrimSuffix(s, "\n")
	i := strings.LastIndexByte(s, ' ')
	if i < 0 || len(strings.TrimPrefix(s[i+1:], "-")) > 19 {
		return -1, -1
	}
	v, err := refInt(s[i+1:])
	if err != nil {
		return -1, -1
	}
	return v, i + 1
}

// refNanos expects a single space near the end.
func refNanos(s string) (int64, int) {
	if len(s) < 6 {
		return -1, -1
	}
	s = strings.TrimSuffix(s, "\n")
	from := len(s) - 20
	if from < 0 {
		from = 0
	}
	i := strings.IndexByte(s[from:], ' ')
	if i < 0 {
		return -1, -1
	}
	v, err := refInt(s[from+i+1:])
	if err != nil {
		return -1, -1
	}
	return v, from + i + 1
}

// ---------------------------------------------------------------------
// Guarded inputs

// guarded puts inputs into the middle of other bytes, once with room
// behind them and once without, so that reads and writes outside are seen.
type guarded struct {
	buf, orig []byte
	from, to  int
}

func guard(s string, behind string) *guarded {
	g := &guarded{from: 8, to: 8 + len(s)}
	g.buf = append(g.buf, "\\\"= ,x\\\\"...)
	g.buf = append(g.buf, s...)
	g.buf = append(g.buf, behind...)
	g.orig = append(g.orig, g.buf...)
	return g
}

func (g *guarded) in() []byte   { return g.buf[g.from:g.to] }
func (g *guarded) full() []byte { return g.buf[g.from:g.to:g.to] }

func (g *guarded) check(c *Ctx, what string) {
	if !bytes.Equal(g.buf, g.orig) {
		c.Fatal("%s changed its input or memory around it: %s", what, firstDiff(g.orig, g.buf))
	}
}

var behinds = []string{"", "123456 7\n\n", "\" \\,=", "9", "=a,b=c d=1 1\n"}

// primitives compares all functions on one input.
func primitives(c *Ctx, s string, n int) {
	g := guard(s, behinds[n%len(behinds)])
	in := g.in()
	if n%2 == 0 {
		in = g.full()
	}
	for _, until := range []string{", ", "= ,", "=", "\n", " "} {
		if leads(s, until) && len(s) > 1 {
			// Where the token is empty something else is returned; see
			// refCut.
			influx.Token(in, []byte(until))
			continue
		}
		wt, wr := refCut(s, until)
		if len(s) == 1 && leads(s, until) {
			wt, wr = "", s
		}
		t, r := influx.TokenEscaped(in, []byte(until))
		if string(t) != wt || string(r) != wr {
			c.Fatal("TokenEscaped(%q, %q) = %q, %q; expected %q, %q", s, until, t, r, wt, wr)
		}
		t, r = influx.Token(in, []byte(until))
		if string(t) != refUnescape(wt) || string(r) != wr {
			c.Fatal("Token(%q, %q) = %q, %q; expected %q, %q", s, until, t, r, refUnescape(wt), wr)
		}
	}
	g.check(c, fmt.Sprintf("Token(%q)", s))

	if u := influx.Unescape(in); string(u) != refUnescape(s) {
		c.Fatal("Unescape(%q) = %q, expected %q", s, u, refUnescape(s))
	}
	for chars, got := range map[string][]byte{
		",= ":   influx.EscapeTagPart(in),
		", ":    influx.EscapeMeasurement(in),
		"":      influx.Escape(in, nil),
		"\\a\n": influx.Escape(in, []byte("\\a\n")),
	} {
		if want := escBy(s, chars); string(got) != want {
			c.Fatal("escaping %q of %q gives %q, expected %q", chars, s, got, want)
		}
	}
	if q := influx.EscapeQuotedString(in); string(q) != `"`+escBy(s, `"`)+`"` {
		c.Fatal("EscapeQuotedString(%q) = %q", s, q)
	}
	g.check(c, fmt.Sprintf("escaping %q", s))

	wv, wr, wok := refQuoted(s)
	v, r, err := influx.QuotedString(in)
	if (err == nil) != wok || string(v) != wv || string(r) != wr {
		c.Fatal("QuotedString(%q) = %q, %q, %v; expected %q, %q, %v", s, v, r, err, wv, wr, wok)
	}
	g.check(c, fmt.Sprintf("QuotedString(%q)", s))

	ts, off := influx.ExtractTimestamp(in)
	if wts, woff := refTS(s); off != woff || (off >= 0 && ts != wts) {
		c.Fatal("ExtractTimestamp(%q) = %d at %d, expected %d at %d", s, ts, off, wts, woff)
	}
	ts, off = influx.ExtractNanos(in)
	if wts, woff := refNanos(s); off != woff || (off >= 0 && ts != wts) {
		c.Fatal("ExtractNanos(%q) = %d at %d, expected %d at %d", s, ts, off, wts, woff)
	}
	g.check(c, fmt.Sprintf("ExtractTimestamp(%q)", s))

	if v, err := convert.ToInt(in); true {
		if w, werr := refInt(s); (err == nil) != (werr == nil) || (err == nil && v != w) {
			c.Fatal("ToInt(%q) = %d, %v; expected %d, %v", s, v, err, w, werr)
		}
	}

	tagsOf(c, s, in)
	g.check(c, fmt.Sprintf("ParseTags(%q)", s))
}

func tagsOf(c *Ctx, s string, in []byte) {
	m, tags, rest, err := influx.ParseTags(in)
	wm, wtags, wrest, bad, ok := refTags(s)
	if !ok {
		return // only must not panic
	}
	if bad != (err != nil) {
		c.Fatal("ParseTags(%q): %v, malformed: %v", s, err, bad)
	}
	if err != nil {
		return
	}
	same := string(m) == wm && string(rest) == wrest && len(tags) == len(wtags)
	for i := 0; same && i < len(tags); i++ {
		same = string(tags[i].Key) == wtags[i].K && string(tags[i].Value) == wtags[i].V
	}
	if !same {
		c.Fatal("ParseTags(%q) = %q, %q, %q; expected %q, %q, %q", s, m, tags, rest, wm, wtags, wrest)
	}
}

var enumAlphabet = "a,= \\\"1\n-"

// c27enumerate goes through all short strings (with one first letter).
func c27enumerate(c *Ctx, first int) {
	max := c.N(6, 7)
	count := 0
	buf := make([]byte, max)
	buf[0] = enumAlphabet[first]
	var rec func(n int)
	rec = func(n int) {
		primitives(c, string(buf[:n]), count)
		count++
		if n == max {
			return
		}
		for i := 0; i < len(enumAlphabet); i++ {
			buf[n] = enumAlphabet[i]
			rec(n + 1)
		}
	}
	if first == 0 {
		primitives(c, "", 0)
	}
	rec(1)
	c.Obs("short strings enumerated", count)
	c.Eval(fmt.Sprintf("all strings of up to %d bytes starting with %q", max, buf[0]), true)
}

var enumPieces = []string{"a", "b=", ",", " ", "=", "\\", "\\,", "\\ ", "\\=", "\\\\", "\"", "c=d", ",e=f", " g=1i 12\n", "ü"}

// c27tags enumerates lines made of tokens.
func c27tags(c *Ctx, first int) {
	count := 0
	var rec func(s string, n int)
	rec = func(s string, n int) {
		g := guard(s, behinds[count%len(behinds)])
		tagsOf(c, s, g.in())
		g.check(c, fmt.Sprintf("ParseTags(%q)", s))
		count++
		if n == 0 {
			return
		}
		for _, p := range enumPieces {
			rec(s+p, n-1)
		}
	}
	rec(enumPieces[first], c.N(4, 5))
	rec("m,"+enumPieces[first], c.N(3, 4))
	c.Obs("tag sections enumerated", count)
	c.Eval(fmt.Sprintf("all sequences of tokens starting with %q", enumPieces[first]), true)
}

func randomString(r *rand.Rand) string {
	n := r.Intn(12)
	switch r.Intn(6) {
	case 0:
		n = r.Intn(60)
	case 1:
		n = r.Intn(400)
	case 2:
		if r.Intn(500) == 0 {
			n = 60000 + r.Intn(10000)
		}
	}
	b := make([]byte, n)
	style := r.Intn(4)
	for i := range b {
		switch style {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = "a,= \\\"1\n-0"[r.Intn(10)]
		case 2:
			b[i] = "abcdefghij,= \\"[r.Intn(14)]
		case 3:
			b[i] = "0123456789 -"[r.Intn(12)]
		}
	}
	return string(b)
}

func c27random(c *Ctx) {
	r := c.Rand("random")
	for i := 0; i < c.N(30000, 300000) && !c.Failed(); i++ {
		s := randomString(r)
		if r.Intn(3) == 0 {
			l, _ := genLine(r, genTS(r, 1), true)
			s = l.String()
			for r.Intn(2) == 0 && s != "" {
				j := r.Intn(len(s))
				s = s[:j] + string("a,= \\\"1\n"[r.Intn(8)]) + s[j+r.Intn(2):]
			}
			if r.Intn(2) == 0 {
				s += "\n"
			}
		}
		primitives(c, s, r.Intn(100))
		c.Eval("random "+short([]byte(s)), len(s) > 1)
		if i < 4 {
			c.Sample("%s", short([]byte(s)))
		}
	}
}

// c27ints converts texts near all limits.
func c27ints(c *Ctx) {
	r := c.Rand("ints")
	check := func(s string) {
		g := guard(s, "5")
		v, err := convert.ToInt(g.in())
		w, werr := refInt(s)
		if (err == nil) != (werr == nil) || (err == nil && v != w) {
			c.Fatal("ToInt(%q) = %d, %v; expected %d, %v", s, v, err, w, werr)
		}
		g.check(c, "ToInt")
		c.Eval("int "+s, true)
	}
	for sh := uint(0); sh <= 66; sh++ {
		for d := int64(-12); d <= 12; d++ {
			n := new(big.Int).Lsh(big.NewInt(1), sh)
			n.Add(n, big.NewInt(d))
			check(n.String())
			check("-" + n.String())
			check("0" + n.String())
		}
	}
	p := big.NewInt(1)
	for i := 0; i < 25; i++ {
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Add(p, big.NewInt(d))
			check(n.String())
			check("-" + n.String())
			check("-00" + n.String())
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	// Multiples of 2^64 and their neighbours look small when they wrap.
	for i := 0; i < 3000; i++ {
		n := new(big.Int).Mul(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1+r.Int63n(40)))
		n.Add(n, big.NewInt(r.Int63n(21)-10))
		check(n.String())
		check("-" + n.String())
	}
	for i := 0; i < c.N(20000, 200000); i++ {
		v := genValue64(r)
		check(fmt.Sprint(v))
		s := []byte(fmt.Sprint(v))
		s[r.Intn(len(s))] = "0123456789-+. eabi\x00\xff"[r.Intn(20)]
		check(string(s))
	}
	for _, s := range []string{"", "-", "--1", "+1", " 1", "1 ", "1.0", "1e3", "0x1", "1_0", "٣", "1\x00", "-0", "00", "/", ":", "1/", "1:"} {
		check(s)
	}
	for b := 0; b < 256; b++ {
		check(string([]byte{byte(b)}))
		check(string([]byte{'1', byte(b)}))
		check(string([]byte{'-', byte(b)}))
		check(string([]byte{'1', byte(b), '2'}))
	}
}

func c27times(c *Ctx) {
	r := c.Rand("times")
	mults := map[string]int64{"": 1, "ns": 1, "n": 1, "u": 1000, "ms": 1e6, "s": 1e9, "m": 6e10, "h": 36e11, "x": 1, "S": 1, "us": 1}
	lo, hi := big.NewInt(math.MinInt64+2), big.NewInt(math.MaxInt64-1)
	check := func(v int64, p string) {
		want := new(big.Int).Mul(big.NewInt(v), big.NewInt(mults[p]))
		ok := want.Cmp(lo) >= 0 && want.Cmp(hi) <= 0
		got, err := influx.SafeCalcTime(v, p)
		if ok != (err == nil) || (ok && got != want.Int64()) {
			c.Fatal("SafeCalcTime(%d, %q) = %d, %v; expected %v (in range: %v)", v, p, got, err, want, ok)
		}
		c.Eval(fmt.Sprintf("time %d %s", v, p), v != 0)
	}
	for p, m := range mults {
		for d := int64(-40); d <= 40; d++ {
			check(d, p)
			check(math.MaxInt64/m+d*btoi64(m > 1), p)
			check(math.MinInt64/m+d*btoi64(m > 1), p)
			if d <= 0 {
				check(math.MaxInt64+d, p)
				check(math.MinInt64-d, p)
			}
		}
		for i := 0; i < c.N(3000, 30000); i++ {
			check(genValue64(r), p)
			check(r.Int63()>>uint(r.Intn(63)), p)
			check(-(r.Int63() >> uint(r.Intn(63))), p)
			if m > 1 {
				check(math.MaxInt64/m+r.Int63n(2001)-1000, p)
				check(math.MinInt64/m+r.Int63n(2001)-1000, p)
			}
		}
	}
}

func btoi64(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// c27timestamps is about the ends of lines.
func c27timestamps(c *Ctx) {
	r := c.Rand("timestamps")
	heads := []string{"", "m", "m f=1", "m,a=b f=1i", "a b c d e f", "m f=\"x y\"", "x  ", "12 34", "m f=1 2", strings.Repeat("long ", 30)}
	for i := 0; i < c.N(30000, 300000); i++ {
		v := fmt.Sprint(genValue64(r))
		switch r.Intn(8) {
		case 0:
			v = strings.Repeat("9", r.Intn(24))
		case 1:
			v = v[:r.Intn(len(v)+1)]
		case 2:
			v += string("ix.e,\"\\\r"[r.Intn(8)])
		}
		s := heads[r.Intn(len(heads))] + []string{" ", "", "  ", "\t"}[r.Intn(8)&3] + v + []string{"", "\n", "\n\n", " ", "\r\n"}[r.Intn(10)%5]
		primitives(c, s, i)
		_, off := refTS(s)
		c.Eval("line "+short([]byte(s)), off >= 0)
	}
}

// c27roundtrip escapes and parses back.
func c27roundtrip(c *Ctx) {
	r := c.Rand("roundtrip")
	gen := func() string {
		for {
			s := randomString(r)
			if len(s) > 300 {
				s = s[:300]
			}
			// A backslash before a special character or at the end isn't
			// representable in the line protocol.
			for _, x := range []string{`\,`, `\=`, `\ `, `\"`} {
				s = strings.Replace(s, x, "x", -1)
			}
			s = strings.Trim(s, "\\")
			s = strings.Replace(s, "\n", "n", -1)
			if refUnescape(escBy(s, ",= ")) == s && s != "" {
				return s
			}
		}
	}
	for i := 0; i < c.N(15000, 150000) && !c.Failed(); i++ {
		meas := gen()
		var set influx.TagSet
		var want []KV
		for j := r.Intn(6); j > 0; j-- {
			k, v := gen(), gen()
			set = append(set, influx.NewTag(k, v))
			want = append(want, KV{k, v})
		}
		rest := "f=1 " + genTS(r, 1)
		line := append([]byte(nil), influx.EscapeMeasurement([]byte(meas))...)
		if len(set) > 0 {
			line = append(line, ',')
			line = append(line, set.Bytes()...)
		}
		line = append(line, " "+rest...)
		m, tags, rr, err := influx.ParseTags(line)
		if refUnescape(escBy(meas, ", ")) != meas {
			continue
		}
		if err != nil || string(m) != meas || string(rr) != rest || len(tags) != len(want) {
			c.Fatal("%q %q is written as %q and read as %q, %q, %q, %v", meas, want, line, m, tags, rr, err)
		}
		for j, t := range tags {
			if string(t.Key) != want[j].K || string(t.Value) != want[j].V {
				c.Fatal("%q %q is written as %q and read as %q, %q", meas, want, line, m, tags)
			}
		}
		// Tags can be rendered again after having been parsed.
		if again := tags.Bytes(); !bytes.Equal(again, set.Bytes()) {
			c.Fatal("tags %q are rendered as %q and then as %q", want, set.Bytes(), again)
		}
		c.Eval("roundtrip "+short(line), len(set) > 0)

		// Strings.
		s := randomString(r)
		s = strings.Replace(s, `\"`, "", -1)
		s = strings.TrimRight(s, `\`)
		q := influx.EscapeQuotedString([]byte(s))
		v, rem, err := influx.QuotedString(append(append([]byte(nil), q...), ",x=\"y\""...))
		if err != nil || string(v) != s || string(rem) != ",x=\"y\"" {
			if wv, _, ok := refQuoted(string(q)); ok && wv == s {
				c.Fatal("string %q is written as %q and read as %q, %q, %v", s, q, v, rem, err)
			}
		}
	}
}

// c27sets is about sets of tags.
func c27sets(c *Ctx) {
	r := c.Rand("sets")
	pool := []string{"a", "b", "aa", "ab", "B", "", "ü", "a,b", "\xff"}
	gen := func(n int) (influx.TagSet, []KV) {
		var set influx.TagSet
		var kvs []KV
		for j := r.Intn(n + 1); j > 0; j-- {
			k := KV{pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]}
			set = append(set, influx.NewTag(k.K, k.V))
			kvs = append(kvs, k)
		}
		return set, kvs
	}
	for i := 0; i < c.N(20000, 200000) && !c.Failed(); i++ {
		b, bk := gen(8)
		a, ak := gen(3)
		distinct := func(kvs []KV) bool {
			seen := map[KV]bool{}
			for _, k := range kvs {
				if seen[k] {
					return false
				}
				seen[k] = true
			}
			return true
		}
		if r.Intn(2) == 0 && len(b) > 0 { // mostly taken from b
			a, ak = nil, nil
			for _, j := range r.Perm(len(b))[:r.Intn(len(b)+1)] {
				a = append(a, b[j])
				ak = append(ak, bk[j])
			}
		}
		if !distinct(ak) {
			continue
		}
		want := true
		for _, k := range ak {
			found := false
			for _, l := range bk {
				found = found || k == l
			}
			want = want && found
		}
		if got := a.SubsetOf(b); got != want {
			c.Fatal("%q subset of %q: %v", ak, bk, got)
		}
		sort.Stable(b)
		sort.SliceStable(bk, func(i, j int) bool { return bk[i].K < bk[j].K })
		var text []string
		for j, t := range b {
			if string(t.Key) != bk[j].K || string(t.Value) != bk[j].V {
				c.Fatal("sorted wrongly: %q instead of %q", b, bk)
			}
			text = append(text, escBy(bk[j].K, ",= ")+"="+escBy(bk[j].V, ",= "))
		}
		if string(b.Bytes()) != strings.Join(text, ",") {
			c.Fatal("tags %q are rendered as %q", bk, b.Bytes())
		}
		c.Eval(fmt.Sprintf("sets %q %q", ak, bk), len(ak) > 0)
	}
}
