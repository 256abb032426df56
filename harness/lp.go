package harness

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync/atomic"
)

// An independent model of the line protocol.

// KV is an unescaped tag.
type KV struct{ K, V string }

// LP is a parsed line: what it means.
type LP struct {
	Meas string
	Tags []KV
	Rest string // fields and timestamp, raw
	Bare bool   // nothing follows measurement and tags
}

func unesc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && strings.IndexByte(`,= "`, s[i+1]) >= 0 {
			i++
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func escBy(s, chars string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(chars, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// cut returns s up to the first unescaped stop character.
func cut(s, stops string) (string, string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			i++
			continue
		}
		if strings.IndexByte(stops, s[i]) >= 0 {
			return s[:i], s[i:]
		}
	}
	return s, ""
}

// parseLP parses a line (without its newline).
func parseLP(line string) (LP, error) {
	var out LP
	m, rest := cut(line, ", ")
	out.Meas = unesc(m)
	for strings.HasPrefix(rest, ",") {
		var k, v string
		k, rest = cut(rest[1:], ",= ")
		if !strings.HasPrefix(rest, "=") {
			return out, errors.New("bad tag")
		}
		v, rest = cut(rest[1:], ", ")
		if v == "" {
			return out, errors.New("bad tag")
		}
		out.Tags = append(out.Tags, KV{unesc(k), unesc(v)})
	}
	if rest == "" {
		out.Bare = true
		return out, nil
	}
	out.Rest = rest[1:]
	return out, nil
}

func (l LP) sorted() LP {
	l.Tags = append([]KV(nil), l.Tags...)
	sort.SliceStable(l.Tags, func(i, j int) bool { return l.Tags[i].K < l.Tags[j].K })
	return l
}

func (l LP) isSorted() bool {
	return sort.SliceIsSorted(l.Tags, func(i, j int) bool { return l.Tags[i].K < l.Tags[j].K })
}

// String renders the line in canonical form.
func (l LP) String() string {
	var b strings.Builder
	b.WriteString(escBy(l.Meas, ", "))
	for _, t := range l.Tags {
		b.WriteString("," + escBy(t.K, ",= ") + "=" + escBy(t.V, ",= "))
	}
	if !l.Bare {
		b.WriteString(" " + l.Rest)
	}
	return b.String()
}

// unescText is what regular expressions are matched against.
func (l LP) unescText() string { return unesc(l.sorted().String()) }

func sameLP(a, b LP) bool {
	if a.Meas != b.Meas || a.Rest != b.Rest || len(a.Tags) != len(b.Tags) || (a.Bare && b.Rest != "") || (b.Bare && a.Rest != "") {
		return false
	}
	for i := range a.Tags {
		if a.Tags[i] != b.Tags[i] {
			return false
		}
	}
	return true
}

var lineID int64

// nextID returns a number that's unique within the process.
func nextID() int64 { return atomic.AddInt64(&lineID, 1) }

var (
	wordsPlain = []string{"cpu", "mem", "disk", "net", "io", "swap", "kernel", "a", "b", "x1", "load", "temperature_c"}
	wordsOdd   = []string{"two words", "a,b", "k=v", "ümläut", "日本", "a b,c=d", "semi;colon", "x'y", "per%cent", "tab\tbed", "{brace}", "ends ", " starts", ",", "=", "%d%s", "new$line^"}
)

func word(r *rand.Rand, odd bool) string {
	if odd && r.Intn(3) == 0 {
		return wordsOdd[r.Intn(len(wordsOdd))]
	}
	w := wordsPlain[r.Intn(len(wordsPlain))]
	if r.Intn(3) == 0 {
		w += fmt.Sprint(r.Intn(20))
	}
	return w
}

// genTags makes distinct tag keys, in random order.
func genTags(r *rand.Rand, max int, odd bool) []KV {
	n := r.Intn(max + 1)
	seen := map[string]bool{}
	var out []KV
	for i := 0; i < n; i++ {
		k := word(r, odd)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, KV{k, word(r, odd)})
	}
	return out
}

func genFields(r *rand.Rand, id int64, odd bool) string {
	parts := []string{fmt.Sprintf("id=%di", id)}
	last := "id"
	for n := r.Intn(3); n > 0; n-- {
		name := escBy(word(r, odd), ",= ")
		if name == last { // there are two others at most
			continue
		}
		last = name
		switch r.Intn(4) {
		case 0:
			parts = append(parts, fmt.Sprintf("%s=%di", name, r.Int63()-r.Int63()))
		case 1:
			parts = append(parts, fmt.Sprintf("%s=%g", name, r.NormFloat64()))
		case 2:
			parts = append(parts, fmt.Sprintf("%s=%v", name, r.Intn(2) == 0))
		case 3:
			parts = append(parts, fmt.Sprintf(`%s="%s"`, name, strings.Replace(word(r, odd), `"`, `\"`, -1)))
		}
	}
	return strings.Join(parts, ",")
}

// genLine makes a valid line with a unique id (and no newline).
func genLine(r *rand.Rand, ts string, odd bool) (LP, int64) {
	id := nextID()
	l := LP{Meas: word(r, odd), Tags: genTags(r, 5, odd)}
	l.Rest = genFields(r, id, odd)
	if ts != "" {
		l.Rest += " " + ts
	}
	return l, id
}

// splitLines cuts after each newline.
func splitLines(b []byte) [][]byte {
	var out [][]byte
	for _, l := range bytes.SplitAfter(b, []byte{'\n'}) {
		if len(l) > 0 {
			out = append(out, l)
		}
	}
	return out
}

// countLines returns how often each line (with terminator) occurs.
func countLines(b []byte) map[string]int {
	m := make(map[string]int)
	for _, l := range splitLines(b) {
		m[string(l)]++
	}
	return m
}

// diffCounts describes how got differs from want.
func diffCounts(want, got map[string]int) string {
	var out []string
	for l, n := range want {
		if got[l] != n {
			out = append(out, fmt.Sprintf("%s: want %d got %d", short([]byte(l)), n, got[l]))
		}
	}
	for l, n := range got {
		if want[l] == 0 {
			out = append(out, fmt.Sprintf("%s: want 0 got %d", short([]byte(l)), n))
		}
	}
	sort.Strings(out)
	total := len(out)
	if total > 6 {
		out = out[:6]
	}
	if total == 0 {
		return ""
	}
	return fmt.Sprintf("%d lines differ: %s", total, strings.Join(out, "; "))
}
