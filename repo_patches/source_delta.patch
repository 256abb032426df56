From 0049fbee287809cf71e1f5227694daafa4369fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/45] fix: batchsplitter could return chunks one byte over
 the limit

---
 batchsplitter/batch_splitter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batchsplitter/batch_splitter.go b/batchsplitter/batch_splitter.go
index 33e49e9..d5410f5 100644
--- a/batchsplitter/batch_splitter.go
+++ b/batchsplitter/batch_splitter.go
@@ -54,8 +54,9 @@ func (s *BatchSplitter) Next() bool {
 		return true
 	}
 
-	// Look backwards from the maximum size for a newline.
-	for i := s.chunkSize; i >= 0; i-- {
+	// Look backwards from the maximum size for a newline. The newline
+	// is part of the chunk so the last usable position is chunkSize-1.
+	for i := s.chunkSize - 1; i >= 0; i-- {
 		if s.buf[i] == '\n' {
 			i++
 			s.out = s.buf[:i]
-- 
2.43.0


From 66bff79966e1f349b314a254575fee1fb44631d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 02/45] fix: filter tag rules saw corrupted tags after a line's
 tags were sorted

---
 filter/rules.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index ddbc8ae..025f3f9 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -230,14 +230,8 @@ func (pl *parsedLine) SortTags() {
 		return
 	}
 
-	if len(newHdr)+len(pl.Remainder)+1 == len(pl.Escaped) {
-		// Length hasn't changed so reuse memory used by original,
-		// overwriting the measurement name and tags part.
-		copy(pl.Escaped, newHdr)
-		return
-	}
-
-	// Length as changed (original escaped differently?)
+	// The original line isn't overwritten because the parsed
+	// measurement and tags may still refer to its memory.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
 	pl.Escaped = newHdr
-- 
2.43.0


From 88142a8978952b923ed2bbfb1fb2710b563a8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 03/45] fix: filter moved the line terminator into the line
 when sorting tags of field-less lines

---
 filter/rules.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index 025f3f9..37fa4b7 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -15,6 +15,7 @@
 package filter
 
 import (
+	"bytes"
 	"fmt"
 	"hash/fnv"
 	"regexp"
@@ -163,7 +164,9 @@ func (rs *RuleSet) LookupParsed(line *parsedLine) int {
 }
 
 func newParsedLine(escaped []byte) (*parsedLine, error) {
-	measurement, tags, remainder, err := influx.ParseTags(escaped)
+	// The line terminator isn't part of the last tag's value.
+	content := bytes.TrimSuffix(escaped, []byte{'\n'})
+	measurement, tags, remainder, err := influx.ParseTags(content)
 	if err != nil {
 		return nil, err
 	}
@@ -173,6 +176,7 @@ func newParsedLine(escaped []byte) (*parsedLine, error) {
 		Measurement: measurement,
 		Tags:        tags,
 		Remainder:   remainder,
+		terminator:  escaped[len(content):],
 	}, nil
 }
 
@@ -191,6 +195,9 @@ type parsedLine struct {
 
 	Tags      influx.TagSet
 	Remainder []byte
+
+	// The newline at the end of the line (empty if there wasn't one).
+	terminator []byte
 }
 
 func (pl *parsedLine) Unescaped() []byte {
@@ -225,8 +232,8 @@ func (pl *parsedLine) SortTags() {
 	newHdr = append(newHdr, pl.Tags.Bytes()...)
 
 	if len(pl.Remainder) == 0 {
-		// Nothing left so "newHdr" is exactly what needs to be returned.
-		pl.Escaped = newHdr
+		// No fields so only the line terminator is left.
+		pl.Escaped = append(newHdr, pl.terminator...)
 		return
 	}
 
@@ -234,5 +241,5 @@ func (pl *parsedLine) SortTags() {
 	// measurement and tags may still refer to its memory.
 	newHdr = append(newHdr, ' ')
 	newHdr = append(newHdr, pl.Remainder...)
-	pl.Escaped = newHdr
+	pl.Escaped = append(newHdr, pl.terminator...)
 }
-- 
2.43.0


From 741c596a9be1581b4cf4b63c9294df34420bf9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 04/45] fix: basic rules matched measurements which only share
 a hash

---
 filter/rules.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filter/rules.go b/filter/rules.go
index 37fa4b7..e3e1c06 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -38,11 +38,13 @@ type Rule struct {
 // CreateBasicRule creates a simple rule that publishes measurements
 // with the name @measurement to the NATS @subject.
 func CreateBasicRule(measurement string, subject string) Rule {
-	hh := hashMeasurement([]byte(measurement))
+	name := []byte(measurement)
+	hh := hashMeasurement(name)
 
 	return Rule{
 		match: func(line *parsedLine) bool {
-			return hh == line.HashedMeasurement()
+			// Different measurements may have the same hash.
+			return hh == line.HashedMeasurement() && bytes.Equal(name, line.Measurement)
 		},
 		subject: subject,
 	}
-- 
2.43.0


From 733179a07fd48498e17c4ac4f5c0e7cba1ccd327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 05/45] fix: writer configurations could not use tags rules

---
 config/config.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/config/config.go b/config/config.go
index 31cffe4..36c51cb 100644
--- a/config/config.go
+++ b/config/config.go
@@ -161,23 +161,32 @@ func (c *Config) validateFilter() error {
 		if rule.Subject == "" {
 			return errors.New(`rule missing "subject"`)
 		}
-		if rule.Rtype != "tags" && rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
-		if rule.Rtype != "tags" && len(rule.Tags) > 0 {
-			return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	return nil
+}
+
+// validateMatch checks the parts of a rule which define the lines that
+// it matches.
+func (rule *Rule) validateMatch() error {
+	if rule.Rtype != "tags" && rule.Match == "" {
+		return errors.New(`rule missing "match"`)
+	}
+	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
+		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
+	}
+	if rule.Rtype == "tags" {
+		if rule.Match != "" {
+			return errors.New(`tags rule cannot use "match"`)
 		}
-		if rule.Rtype == "tags" {
-			if rule.Match != "" {
-				return errors.New(`tags rule cannot use "match"`)
-			}
-			if len(rule.Tags) == 0 {
-				return errors.New(`tags rule missing "tags"`)
-			}
-			for _, tag := range rule.Tags {
-				if len(tag) != 2 {
-					return errors.New("each tags item must contain 2 values")
-				}
+		if len(rule.Tags) == 0 {
+			return errors.New(`tags rule missing "tags"`)
+		}
+		for _, tag := range rule.Tags {
+			if len(tag) != 2 {
+				return errors.New("each tags item must contain 2 values")
 			}
 		}
 	}
@@ -215,8 +224,8 @@ func (c *Config) validateWriter() error {
 		if rule.Rtype == "" {
 			return errors.New(`rule missing "type"`)
 		}
-		if rule.Match == "" {
-			return errors.New(`rule missing "match"`)
+		if err := rule.validateMatch(); err != nil {
+			return err
 		}
 		if rule.Subject != "" {
 			return fmt.Errorf("writer rules shouldn't have subject (%q)", rule.Subject)
-- 
2.43.0


From e0057d2ec8066a4446820d66bcc87311a6290c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 06/45] fix: rules in the common config file leaked into the
 rules of the specific one

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index 36c51cb..8cc19d3 100644
--- a/config/config.go
+++ b/config/config.go
@@ -241,9 +241,17 @@ func NewConfigFromFile(fileName string) (*Config, error) {
 	if err := readConfig(commonFileName, conf); err != nil && !os.IsNotExist(err) {
 		return nil, err
 	}
+
+	// If the specific config file has rules they replace the common ones.
+	// The decoder would otherwise merge the two sets item by item.
+	commonRules := conf.Rule
+	conf.Rule = nil
 	if err := readConfig(fileName, conf); err != nil {
 		return nil, err
 	}
+	if conf.Rule == nil {
+		conf.Rule = commonRules
+	}
 
 	if conf.Mode == "" {
 		return nil, errors.New("mode not specified in config")
-- 
2.43.0


From 83945e0c783afe1cfede47fcdc014e5688b3a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 07/45] fix: HTTP bodies without a trailing newline were joined
 to the next body

---
 listener/listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 215eb3e..dddbd41 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -282,6 +282,8 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
+	// The previous body may not have ended with a newline.
+	l.batch.EnsureNewline()
 	return l.batch.ReadFrom(r.Body)
 }
 
@@ -304,6 +306,8 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 
 		newLine := applyTimestampPrecision(line, precision)
 		l.mu.Lock()
+		// The previous body may not have ended with a newline.
+		l.batch.EnsureNewline()
 		l.batch.Append(newLine)
 		l.mu.Unlock()
 	}
-- 
2.43.0


From c3ff3a7b7e113154d38205a81ec9c2c84b0a5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 08/45] fix: a stalled HTTP client blocked all other clients of
 the listener

---
 listener/listener.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/listener/listener.go b/listener/listener.go
index dddbd41..6b7a6df 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"net"
 	"net/http"
@@ -280,11 +281,19 @@ func (l *Listener) readHTTPBody(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
+	// The lock isn't held while reading from the client so that a slow
+	// client doesn't hold up other clients.
+	body, err := ioutil.ReadAll(r.Body)
+	if len(body) == 0 {
+		return 0, err
+	}
+
 	l.mu.Lock()
 	defer l.mu.Unlock()
 	// The previous body may not have ended with a newline.
 	l.batch.EnsureNewline()
-	return l.batch.ReadFrom(r.Body)
+	l.batch.Append(body)
+	return int64(len(body)), err
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-- 
2.43.0


From 4957b9a9dac0822dd374ef35ad03d1b04810b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 09/45] fix: HTTP listener forwarded cut off lines of aborted
 requests and dropped requests with long lines

A request body which can't be read completely may end part way through a
line. When converting timestamps, a line over 64KB silently ended the
processing of the request.
---
 listener/listener.go | 47 ++++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 6b7a6df..3fb2f56 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -20,6 +20,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net"
@@ -284,6 +285,10 @@ func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 	// The lock isn't held while reading from the client so that a slow
 	// client doesn't hold up other clients.
 	body, err := ioutil.ReadAll(r.Body)
+	if err != nil {
+		// The body is incomplete so its last line may be too.
+		body = body[:bytes.LastIndexByte(body, '\n')+1]
+	}
 	if len(body) == 0 {
 		return 0, err
 	}
@@ -297,17 +302,22 @@ func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 }
 
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
-	scanner := bufio.NewScanner(r.Body)
-
-	// scanLines is like bufio.ScanLines but the returned lines
-	// includes the trailing newlines. Leaving the newline on the line
-	// is useful for incoming lines that don't contain a timestamp and
-	// therefore should pass through unchanged.
-	scanner.Split(scanLines)
+	reader := bufio.NewReader(r.Body)
 
 	bytesRead := 0
-	for scanner.Scan() {
-		line := scanner.Bytes()
+	for {
+		// The returned line includes the trailing newline. Leaving the
+		// newline on the line is useful for incoming lines that don't
+		// contain a timestamp and therefore should pass through
+		// unchanged.
+		line, err := reader.ReadBytes('\n')
+		if err != nil && err != io.EOF {
+			// The last line may be incomplete.
+			return bytesRead, err
+		}
+		if len(line) == 0 {
+			return bytesRead, nil
+		}
 		bytesRead += len(line)
 		if len(line) <= 1 {
 			continue
@@ -320,25 +330,6 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 		l.batch.Append(newLine)
 		l.mu.Unlock()
 	}
-	return bytesRead, scanner.Err()
-}
-
-func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if atEOF && len(data) == 0 {
-		return 0, nil, nil
-	}
-	if i := bytes.IndexByte(data, '\n'); i >= 0 {
-		// We have a full newline-terminated line.
-		return i + 1, data[0 : i+1], nil
-
-	}
-	// If we're at EOF, we have a final, non-terminated line. Return it.
-	if atEOF {
-		return len(data), data, nil
-
-	}
-	// Request more data.
-	return 0, nil, nil
 }
 
 func applyTimestampPrecision(line []byte, precision string) []byte {
-- 
2.43.0


From 13552ff2433309e874e31375a25a73df462a9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 10/45] fix: ToInt wrapped around for numbers over 64 bits

---
 convert/convert.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/convert.go b/convert/convert.go
index b12830c..26a16a2 100644
--- a/convert/convert.go
+++ b/convert/convert.go
@@ -45,6 +45,9 @@ func ToInt(s []byte) (int64, error) {
 		} else {
 			return 0, errors.New("invalid char")
 		}
+		if n > math.MaxInt64/10 {
+			return 0, errors.New("overflow")
+		}
 		n = n*10 + uint64(c)
 	}
 
-- 
2.43.0


From a094552e3672fe7bacad1605f64303f26716e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 11/45] fix: downsampled integer averages drifted and could
 overflow

---
 downsampler/avgbucket.go | 50 +++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 7aead5b..f8f5a78 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,7 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math/bits"
 	"sort"
 	"strconv"
 	"time"
@@ -176,10 +177,7 @@ type fieldValue interface {
 func newFieldValue(v []byte) fieldValue {
 	if len(v) >= 2 && v[len(v)-1] == 'i' {
 		if iv, err := convert.ToInt(v[:len(v)-1]); err == nil {
-			return &intFieldValue{
-				average: iv,
-				count:   1,
-			}
+			return newIntFieldValue(iv)
 		}
 	}
 	if fv, err := strconv.ParseFloat(string(v), 64); err == nil {
@@ -195,9 +193,42 @@ func newStringValue(v []byte) fieldValue {
 	return &stringFieldValue{v}
 }
 
+func newIntFieldValue(i int64) *intFieldValue {
+	v := new(intFieldValue)
+	v.add(i)
+	return v
+}
+
+// intFieldValue averages integers. The exact sum is kept (as a 128 bit
+// two's complement integer) so that rounding errors don't accumulate.
 type intFieldValue struct {
-	average int64
-	count   int64
+	sumHi uint64
+	sumLo uint64
+	count uint64
+}
+
+func (v *intFieldValue) add(i int64) {
+	var carry uint64
+	v.count++
+	v.sumLo, carry = bits.Add64(v.sumLo, uint64(i), 0)
+	v.sumHi, _ = bits.Add64(v.sumHi, uint64(i>>63), carry)
+}
+
+// average returns the average of the values added so far, rounded
+// towards zero.
+func (v *intFieldValue) average() int64 {
+	hi, lo := v.sumHi, v.sumLo
+	negative := int64(hi) < 0
+	if negative {
+		var borrow uint64
+		lo, borrow = bits.Sub64(0, lo, 0)
+		hi, _ = bits.Sub64(0, hi, borrow)
+	}
+	quo, _ := bits.Div64(hi, lo, v.count)
+	if negative {
+		return -int64(quo)
+	}
+	return int64(quo)
 }
 
 func (v *intFieldValue) update(b []byte) error {
@@ -208,15 +239,12 @@ func (v *intFieldValue) update(b []byte) error {
 	if err != nil {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
-
-	// Update incremental average.
-	v.count++
-	v.average = v.average + ((bi - v.average) / v.count)
+	v.add(bi)
 	return nil
 }
 
 func (v *intFieldValue) bytes() []byte {
-	return append(strconv.AppendInt(nil, v.average, 10), 'i')
+	return append(strconv.AppendInt(nil, v.average(), 10), 'i')
 }
 
 type floatFieldValue struct {
-- 
2.43.0


From 07054a0482989c988197948ccf7505bf52ff8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 12/45] fix: downsampler rejected or altered string fields
 containing backslashes

---
 influx/token.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/influx/token.go b/influx/token.go
index 4b3fa56..8c35abd 100644
--- a/influx/token.go
+++ b/influx/token.go
@@ -87,16 +87,36 @@ func QuotedString(s []byte) ([]byte, []byte, error) {
 		if i >= length {
 			return nil, nil, errors.New("missing trailing double quote")
 		}
-		if s[i] == '"' {
-			if s[i-1] == '\\' {
+		switch s[i] {
+		case '\\':
+			// Skip the next character (it's escaped).
+			i++
+			if i < length && s[i] == '"' {
 				escaped = true
-				continue
 			}
+		case '"':
 			out := s[1:i]
 			if escaped {
-				out = Unescape(out)
+				out = unescapeQuotes(out)
 			}
 			return out, s[i+1:], nil
 		}
 	}
 }
+
+// unescapeQuotes unescapes the double quotes in the contents of a
+// string field. All other characters, including any other backslashes,
+// are kept as they are.
+func unescapeQuotes(in []byte) []byte {
+	out := make([]byte, 0, len(in))
+	for i := 0; i < len(in); i++ {
+		if in[i] == '\\' && i+1 < len(in) {
+			i++
+			if in[i] != '"' {
+				out = append(out, '\\')
+			}
+		}
+		out = append(out, in[i])
+	}
+	return out
+}
-- 
2.43.0


From 93e941e62423a8c5c867c532d1578f3f0dc7066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 13/45] fix: rendering a parsed metric could corrupt it

---
 prometheus/metric.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index ccc9ecc..43e8757 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -34,7 +34,9 @@ func (m *Metric) String() string {
 
 // ToBytes renders the metric to wire format.
 func (m *Metric) ToBytes() []byte {
-	out := bytes.NewBuffer(m.Name)
+	// Write to a new buffer because m.Name may refer to a larger slice.
+	out := new(bytes.Buffer)
+	out.Write(m.Name)
 	if len(m.Labels) > 0 {
 		out.Write(m.Labels.ToBytes())
 	}
-- 
2.43.0


From f77912ea8ce1504fc2d3aaaf796daae2c59c3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 14/45] fix: Labels.With results could overwrite each other

---
 prometheus/labels.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prometheus/labels.go b/prometheus/labels.go
index 94ee161..f15d8c8 100644
--- a/prometheus/labels.go
+++ b/prometheus/labels.go
@@ -62,7 +62,10 @@ func (labels Labels) sort() {
 
 // With returns a new Labels with the additional labels added.
 func (labels Labels) With(name, value string) Labels {
-	return append(labels, Label{
+	// Copy so that the result never shares memory with other Labels.
+	out := make(Labels, len(labels), len(labels)+1)
+	copy(out, labels)
+	return append(out, Label{
 		Name:  []byte(name),
 		Value: []byte(value),
 	})
-- 
2.43.0


From 7102629683721332e4f6c111b84b1a810b047b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 15/45] fix: truncated metrics crashed the monitor

---
 prometheus/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index f37555e..e9ddaed 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -70,6 +70,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 		i += n
 	}
 
+	if i >= len(s) || s[i] != ' ' {
+		return nil, errors.New("no value")
+	}
 	i++
 	j := bytes.IndexByte(s[i:], ' ')
 	if j == -1 {
@@ -92,6 +95,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 }
 
 func parseLabels(s []byte) (Labels, int, error) {
+	if len(s) == 0 {
+		return nil, 0, errors.New("invalid label")
+	}
 	if s[0] == '}' {
 		return nil, 1, nil
 	}
@@ -117,6 +123,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 
 		out = append(out, label)
 
+		if i >= len(s) {
+			return nil, i, errors.New("missing label closing brace")
+		}
 		switch s[i] {
 		case '}':
 			return out, i + 1, nil
-- 
2.43.0


From 0ad124a3df995c9b4a8f76cf8b40312da9da0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 16/45] fix: short timestamps bypassed the filter's
 max_time_delta check

---
 filter/worker.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/filter/worker.go b/filter/worker.go
index 3c028da..9a7476b 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -162,16 +162,11 @@ func (w *worker) publish(subject string, data []byte) {
 
 // Any realistic nanosecond timestamp will be at least 18 characters
 // long.
-const minTsLen = 18
-
 func extractTimestamp(line []byte, defaultTs int64) int64 {
-	// Reject lines that are too short to have a timestamp.
-	if len(line) <= minTsLen+6 {
-		return defaultTs
-	}
-
-	out, _ := influx.ExtractNanos(line)
-	if out == -1 {
+	// A timestamp with fewer digits than usual is still a timestamp
+	// (one which is a long time ago).
+	out, offset := influx.ExtractTimestamp(line)
+	if offset == -1 {
 		return defaultTs
 	}
 	return out
-- 
2.43.0


From a12538eeae39300d88ad9320eb91c5c76d7e48b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 17/45] fix: writer counted one write request for a split batch

---
 writer/writer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 5bfc905..cf00fb9 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -181,8 +181,6 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 		}
 
 		if w.shouldSend(batch) {
-			w.stats.Inc(statWriteRequests)
-
 			// It is possible for the batch to end up being slightly
 			// larger than the configured maximum batch size because
 			// inbound messages will almost never align exactly with
@@ -190,6 +188,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 			splitter := batchsplitter.New(batch.Bytes(), w.c.BatchMaxSize)
 			for splitter.Next() {
 				chunk := splitter.Chunk()
+				w.stats.Inc(statWriteRequests)
 				if err := dbClient.Write(chunk); err != nil {
 					w.stats.Inc(statFailedWrites)
 					log.Printf("Error: %v", err)
-- 
2.43.0


From 398563a1b21673663539509ba027edea6a0ada62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 18/45] fix: special characters in the database name weren't
 escaped

---
 writer/influxclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 800a44b..ebf8f8c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/jumptrading/influx-spout/v2/config"
@@ -26,7 +27,7 @@ import (
 
 func newInfluxClient(c *config.Config) *influxClient {
 	return &influxClient{
-		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, c.DBName),
+		url:      fmt.Sprintf("%s://%s:%d/write?db=%s", c.InfluxDBProtocol, c.InfluxDBAddress, c.InfluxDBPort, url.QueryEscape(c.DBName)),
 		username: c.InfluxDBUser,
 		password: c.InfluxDBPass,
 		debug:    c.Debug,
-- 
2.43.0


From b76cbf0aa4e8d9bb79902714e69b3cc6165fbcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 19/45] fix: influx-spout-tap mangled lines containing percent
 signs

---
 cmd/influx-spout-tap/influx-spout-tap.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 9dbe8b9..b87b798 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -19,7 +19,6 @@ package main
 import (
 	"bytes"
 	"flag"
-	"fmt"
 	"log"
 	"os"
 	"regexp"
@@ -57,10 +56,10 @@ func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
 			if r.Match(line) {
-				fmt.Printf(string(line))
+				os.Stdout.Write(line)
 			}
 		} else {
-			fmt.Printf(string(line))
+			os.Stdout.Write(line)
 		}
 	}
 }
-- 
2.43.0


From 52f65fd49006a19706d4edcbf2160ea87486f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 20/45] fix: regex rules using $ only matched lines without a
 line terminator

---
 filter/rules.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filter/rules.go b/filter/rules.go
index e3e1c06..acc0950 100644
--- a/filter/rules.go
+++ b/filter/rules.go
@@ -205,7 +205,10 @@ type parsedLine struct {
 func (pl *parsedLine) Unescaped() []byte {
 	// Cached unescaped version if it hasn't been generated yet.
 	if pl.unescaped == nil {
-		pl.unescaped = influx.Unescape(pl.Escaped)
+		// The line terminator isn't part of what rules are matched
+		// against ("$" wouldn't match otherwise).
+		content := pl.Escaped[:len(pl.Escaped)-len(pl.terminator)]
+		pl.unescaped = influx.Unescape(content)
 	}
 	return pl.unescaped
 }
-- 
2.43.0


From 95b6ebf27912e80dae7d1d3fde2b61c9d43a4826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 21/45] fix: filter reported ready before its subscription was
 active

---
 filter/filter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 7ab2f00..d8eea9c 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -101,6 +101,10 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 	if err := f.sub.SetPendingLimits(-1, int(conf.NATSMaxPendingSize.Bytes())); err != nil {
 		return nil, fmt.Errorf("NATS: failed to set pending limits: %v", err)
 	}
+	// Make sure the subscription is active before reporting ready.
+	if err := f.nc.Flush(); err != nil {
+		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
+	}
 
 	f.wg.Add(1)
 	go f.startStatistician(st, ruleSt, rules)
@@ -124,6 +128,7 @@ func (f *Filter) natsConnect() (natsConn, error) {
 type natsConn interface {
 	Publish(string, []byte) error
 	QueueSubscribe(string, string, nats.MsgHandler) (*nats.Subscription, error)
+	Flush() error
 	Close()
 }
 
-- 
2.43.0


From c8ade601304a8ef35386ec7e230aab1d9c8252d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 22/45] fix: HTTP listener and monitor reported ready before
 they accepted connections

---
 listener/listener.go | 6 +++++-
 monitor/monitor.go   | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 3fb2f56..23680e4 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -353,8 +353,12 @@ func (l *Listener) listenHTTP(server *http.Server) {
 	defer l.wg.Done()
 
 	go func() {
+		ln, err := net.Listen("tcp", server.Addr)
+		if err != nil {
+			log.Fatal(err)
+		}
 		l.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err = server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 3a3bdc8..9294057 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -18,6 +18,7 @@ package monitor
 import (
 	"fmt"
 	"log"
+	"net"
 	"net/http"
 	"sync"
 
@@ -126,8 +127,12 @@ func (m *Monitor) serveHTTP() {
 	}
 
 	go func() {
+		ln, err := net.Listen("tcp", server.Addr)
+		if err != nil {
+			log.Fatal(err)
+		}
 		m.probes.SetReady(true)
-		err := server.ListenAndServe()
+		err = server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
-- 
2.43.0


From 12e90800f1eb42a510ce8d219c2531391efd640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 23/45] fix: writer reused a batch's memory while it was still
 being sent

---
 writer/influxclient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index ebf8f8c..20bfeec 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -55,7 +55,11 @@ type influxClient struct {
 // Write submits a byte slice to an InfluxDB instance. It is goroutine
 // safe (because the underlying http.Client is goroutine safe).
 func (ic *influxClient) Write(buf []byte) error {
-	req, err := http.NewRequest("POST", ic.url, bytes.NewReader(buf))
+	// The HTTP transport may still be reading the request body when Write
+	// returns (e.g. if InfluxDB responded early) but the caller is free to
+	// reuse buf then, so the transport gets its own copy.
+	body := append([]byte(nil), buf...)
+	req, err := http.NewRequest("POST", ic.url, bytes.NewReader(body))
 	if err != nil {
 		return newClientError(err, true)
 	}
-- 
2.43.0


From a3dcfbc159016302eff18fde8e9dfd3a7b37c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 24/45] fix: a stalled client of the monitor blocked incoming
 metrics

---
 monitor/monitor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 9294057..54fbe32 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -116,9 +116,12 @@ func (m *Monitor) serveHTTP() {
 		r.Body.Close()
 		w.Header().Set("Content-Type", "text/plain")
 
-		defer m.mu.Unlock()
+		// The lock isn't held while writing to the client so that a slow
+		// client doesn't hold up incoming metrics.
 		m.mu.Lock()
-		w.Write(m.metrics.ToBytes())
+		out := m.metrics.ToBytes()
+		m.mu.Unlock()
+		w.Write(out)
 	})
 
 	server := &http.Server{
-- 
2.43.0


From b5a8b6dc1e0e07de55a7da6e0fe9317ae464ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 25/45] fix: listener kept its probe port when it failed to
 start

---
 listener/listener.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/listener/listener.go b/listener/listener.go
index 23680e4..6890f8b 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -143,6 +143,7 @@ func newListener(c *config.Config) (*Listener, error) {
 
 	nc, err := nats.Connect(l.c.NATSAddress, nats.MaxReconnects(-1), nats.Name(l.c.Name))
 	if err != nil {
+		l.probes.Close()
 		return nil, err
 	}
 	l.nc = nc
-- 
2.43.0


From 3288c0fecda1de1a792412ca913c0c83bb6cce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 26/45] fix: downsampler mixed strings, numbers and booleans
 within a field

---
 downsampler/avgbucket.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index f8f5a78..90911f5 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -125,7 +125,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			if !exists {
 				fp.fields[name] = newStringValue(rawValue)
 			} else {
-				if err := value.update(rawValue); err != nil {
+				if err := value.update(rawValue, true); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
 				}
 			}
@@ -136,7 +136,7 @@ func (fp *fieldPairs) update(raw []byte) (errs []error) {
 			if !exists {
 				fp.fields[name] = newFieldValue(rawValue)
 			} else {
-				if err := value.update(rawValue); err != nil {
+				if err := value.update(rawValue, false); err != nil {
 					errs = append(errs, err) // Non-fatal, so keep going.
 				}
 			}
@@ -170,7 +170,9 @@ func (fp *fieldPairs) bytes() []byte {
 }
 
 type fieldValue interface {
-	update([]byte) error
+	// update adds another value for the field. quoted indicates that the
+	// value is a string.
+	update(b []byte, quoted bool) error
 	bytes() []byte
 }
 
@@ -231,8 +233,8 @@ func (v *intFieldValue) average() int64 {
 	return int64(quo)
 }
 
-func (v *intFieldValue) update(b []byte) error {
-	if len(b) < 2 || b[len(b)-1] != 'i' {
+func (v *intFieldValue) update(b []byte, quoted bool) error {
+	if quoted || len(b) < 2 || b[len(b)-1] != 'i' {
 		return fmt.Errorf("wrong type for int: %s", b)
 	}
 	bi, err := convert.ToInt(b[:len(b)-1])
@@ -252,9 +254,9 @@ type floatFieldValue struct {
 	count   int64
 }
 
-func (v *floatFieldValue) update(b []byte) error {
+func (v *floatFieldValue) update(b []byte, quoted bool) error {
 	bf, err := strconv.ParseFloat(string(b), 64)
-	if err != nil {
+	if quoted || err != nil {
 		return fmt.Errorf("wrong type for float: %s", b)
 	}
 
@@ -270,7 +272,10 @@ func (v *floatFieldValue) bytes() []byte {
 
 type stringFieldValue struct{ b []byte }
 
-func (v *stringFieldValue) update(b []byte) error {
+func (v *stringFieldValue) update(b []byte, quoted bool) error {
+	if !quoted {
+		return fmt.Errorf("wrong type for string: %s", b)
+	}
 	v.b = b
 	return nil
 }
@@ -280,7 +285,13 @@ func (v *stringFieldValue) bytes() []byte {
 
 type rawFieldValue struct{ b []byte }
 
-func (v *rawFieldValue) update(b []byte) error {
+func (v *rawFieldValue) update(b []byte, quoted bool) error {
+	if quoted {
+		return fmt.Errorf("unexpected string: %s", b)
+	}
+	if _, ok := newFieldValue(b).(*rawFieldValue); !ok {
+		return fmt.Errorf("unexpected number: %s", b)
+	}
 	v.b = b
 	return nil
 }
-- 
2.43.0


From f8a9bb1edb619a7005915ca5fc97a006355b9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 27/45] fix: batch could offer less than the maximum datagram
 size to a read

---
 batch/batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch/batch.go b/batch/batch.go
index 9be7ef4..ad81f3d 100644
--- a/batch/batch.go
+++ b/batch/batch.go
@@ -141,7 +141,7 @@ func (b *Batch) ReadOnceFrom(r io.Reader) (int, error) {
 }
 
 func (b *Batch) growIfLow() {
-	if b.Remaining() < maxReadSize {
+	for b.Remaining() < maxReadSize {
 		b.grow()
 	}
 }
-- 
2.43.0


From f93e725c254e3dd81daea4446b515729db4294f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 28/45] fix: stopping a component with a full job queue leaked
 the NATS callback goroutine

---
 downsampler/downsampler.go |  5 ++++-
 filter/filter.go           |  5 ++++-
 writer/writer.go           | 14 ++++++++------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/downsampler/downsampler.go b/downsampler/downsampler.go
index 0eea6d7..e6472d7 100644
--- a/downsampler/downsampler.go
+++ b/downsampler/downsampler.go
@@ -82,7 +82,10 @@ func StartDownsampler(c *config.Config) (_ *Downsampler, err error) {
 		ds.wg.Add(1)
 		go ds.worker(subject, inputCh)
 		subscription, err := ds.nc.Subscribe(subject, func(msg *nats.Msg) {
-			inputCh <- msg.Data
+			select {
+			case inputCh <- msg.Data:
+			case <-ds.stop:
+			}
 		})
 		if err != nil {
 			return nil, fmt.Errorf("NATS: subscription for %q failed: %v", subject, err)
diff --git a/filter/filter.go b/filter/filter.go
index d8eea9c..21000a9 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -93,7 +93,10 @@ func StartFilter(conf *config.Config) (_ *Filter, err error) {
 		if conf.Debug {
 			log.Printf("filter received %d bytes", len(msg.Data))
 		}
-		jobs <- msg.Data
+		select {
+		case jobs <- msg.Data:
+		case <-f.stop:
+		}
 	})
 	if err != nil {
 		return nil, fmt.Errorf("NATS: failed to subscribe: %v", err)
diff --git a/writer/writer.go b/writer/writer.go
index cf00fb9..86cfad4 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -88,16 +88,18 @@ func StartWriter(c *config.Config) (_ *Writer, err error) {
 
 	// Subscribe the writer to the configured NATS subjects.
 	subs := make([]*nats.Subscription, 0, len(c.NATSSubject))
+	enqueue := func(msg *nats.Msg) {
+		select {
+		case jobs <- msg:
+		case <-w.stop:
+		}
+	}
 	for _, subject := range c.NATSSubject {
 		var sub *nats.Subscription
 		if c.QueueGroup == "" {
-			sub, err = w.nc.Subscribe(subject, func(msg *nats.Msg) {
-				jobs <- msg
-			})
+			sub, err = w.nc.Subscribe(subject, enqueue)
 		} else {
-			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, func(msg *nats.Msg) {
-				jobs <- msg
-			})
+			sub, err = w.nc.QueueSubscribe(subject, c.QueueGroup, enqueue)
 		}
 
 		if err != nil {
-- 
2.43.0


From 02a43a622f2a8a759ef2c608d9a194d3019530e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 29/45] fix: HTTP writes with a precision counted every line
 against batch_max_count

---
 listener/listener.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index 6890f8b..f744614 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -305,6 +305,20 @@ func (l *Listener) readHTTPBodyNanos(r *http.Request) (int64, error) {
 func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string) (int, error) {
 	reader := bufio.NewReader(r.Body)
 
+	// The converted lines are added to the batch together so that the
+	// request counts as one write to the batch.
+	var converted []byte
+	defer func() {
+		if len(converted) == 0 {
+			return
+		}
+		l.mu.Lock()
+		defer l.mu.Unlock()
+		// The previous body may not have ended with a newline.
+		l.batch.EnsureNewline()
+		l.batch.Append(converted)
+	}()
+
 	bytesRead := 0
 	for {
 		// The returned line includes the trailing newline. Leaving the
@@ -324,12 +338,7 @@ func (l *Listener) readHTTPBodyWithPrecision(r *http.Request, precision string)
 			continue
 		}
 
-		newLine := applyTimestampPrecision(line, precision)
-		l.mu.Lock()
-		// The previous body may not have ended with a newline.
-		l.batch.EnsureNewline()
-		l.batch.Append(newLine)
-		l.mu.Unlock()
+		converted = append(converted, applyTimestampPrecision(line, precision)...)
 	}
 }
 
-- 
2.43.0


From d5130f40729f2022b381ffd3e3d3ee0df713dbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 30/45] fix: metrics parser accepted malformed names and labels
 as other metrics

---
 prometheus/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prometheus/parse.go b/prometheus/parse.go
index e9ddaed..7db9a6b 100644
--- a/prometheus/parse.go
+++ b/prometheus/parse.go
@@ -59,6 +59,9 @@ func ParseMetric(s []byte) (*Metric, error) {
 		return nil, errors.New("no value")
 	}
 	out.Name = s[:i]
+	if len(out.Name) == 0 || bytes.ContainsAny(out.Name, `",=}`) {
+		return nil, errors.New("invalid name")
+	}
 
 	if s[i] == '{' {
 		i++
@@ -112,6 +115,9 @@ func parseLabels(s []byte) (Labels, int, error) {
 			return nil, i, errors.New("invalid label")
 		}
 		label.Name = s[i : i+j]
+		if len(label.Name) == 0 || bytes.ContainsAny(label.Name, `",={} `) {
+			return nil, i, errors.New("invalid label")
+		}
 		i = i + j + 2
 
 		j = bytes.IndexByte(s[i:], '"')
-- 
2.43.0


From efde4ab9b610aa81a526deb4318468464b925a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 31/45] fix: HTTP listener and monitor could bind their port
 and turn ready after being stopped

---
 listener/listener.go | 27 +++++++++++++++++----------
 monitor/monitor.go   | 23 +++++++++++------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/listener/listener.go b/listener/listener.go
index f744614..9938e2c 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -73,6 +73,7 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
+	listener.probes.SetReady(true)
 	go listener.listenUDP(sc)
 
 	log.Printf("UDP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
@@ -83,16 +84,27 @@ func StartListener(c *config.Config) (_ *Listener, err error) {
 // StartHTTPListener initialises listener configured to accept lines
 // from HTTP request bodies instead of via UDP. It starts the listener
 // and its statistician and never returns.
-func StartHTTPListener(c *config.Config) (*Listener, error) {
+func StartHTTPListener(c *config.Config) (_ *Listener, err error) {
 	listener, err := newListener(c)
 	if err != nil {
 		return nil, err
 	}
+	defer func() {
+		if err != nil {
+			listener.Stop()
+		}
+	}()
+
 	server := listener.setupHTTP()
+	ln, err := net.Listen("tcp", server.Addr)
+	if err != nil {
+		return nil, err
+	}
 
 	listener.wg.Add(2)
 	go listener.startStatistician()
-	go listener.listenHTTP(server)
+	listener.probes.SetReady(true)
+	go listener.listenHTTP(server, ln)
 
 	log.Printf("HTTP listener publishing to [%s] at %s", c.NATSSubject[0], c.NATSAddress)
 
@@ -187,7 +199,6 @@ func (l *Listener) listenUDP(sc *net.UDPConn) {
 		l.wg.Done()
 	}()
 
-	l.probes.SetReady(true)
 	for {
 		// Read deadline is used so that the stop channel can be
 		// periodically checked.
@@ -359,16 +370,11 @@ func applyTimestampPrecision(line []byte, precision string) []byte {
 	return append(newLine, '\n')
 }
 
-func (l *Listener) listenHTTP(server *http.Server) {
+func (l *Listener) listenHTTP(server *http.Server, ln net.Listener) {
 	defer l.wg.Done()
 
 	go func() {
-		ln, err := net.Listen("tcp", server.Addr)
-		if err != nil {
-			log.Fatal(err)
-		}
-		l.probes.SetReady(true)
-		err = server.Serve(ln)
+		err := server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
@@ -378,6 +384,7 @@ func (l *Listener) listenHTTP(server *http.Server) {
 	// Close the server if the stop channel is closed.
 	<-l.stop
 	server.Close()
+	ln.Close() // In case it wasn't being served yet.
 }
 
 func (l *Listener) maybeSendBatch() {
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 54fbe32..a34f8b5 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -57,8 +57,14 @@ func Start(conf *config.Config) (_ *Monitor, err error) {
 		return nil, fmt.Errorf("NATS: failed to flush: %v", err)
 	}
 
+	ln, err := net.Listen("tcp", fmt.Sprintf(":%d", m.c.Port))
+	if err != nil {
+		return nil, err
+	}
+
+	m.probes.SetReady(true)
 	m.wg.Add(1)
-	go m.serveHTTP()
+	go m.serveHTTP(ln)
 
 	log.Printf("monitor subscribed to [%s] at %s - serving HTTP on port %d",
 		m.c.NATSSubjectMonitor, m.c.NATSAddress, m.c.Port)
@@ -108,7 +114,7 @@ func (m *Monitor) natsConnect() (*nats.Conn, error) {
 	return nc, nil
 }
 
-func (m *Monitor) serveHTTP() {
+func (m *Monitor) serveHTTP(ln net.Listener) {
 	defer m.wg.Done()
 
 	mux := http.NewServeMux()
@@ -124,18 +130,10 @@ func (m *Monitor) serveHTTP() {
 		w.Write(out)
 	})
 
-	server := &http.Server{
-		Addr:    fmt.Sprintf(":%d", m.c.Port),
-		Handler: mux,
-	}
+	server := &http.Server{Handler: mux}
 
 	go func() {
-		ln, err := net.Listen("tcp", server.Addr)
-		if err != nil {
-			log.Fatal(err)
-		}
-		m.probes.SetReady(true)
-		err = server.Serve(ln)
+		err := server.Serve(ln)
 		if err == nil || err == http.ErrServerClosed {
 			return
 		}
@@ -145,6 +143,7 @@ func (m *Monitor) serveHTTP() {
 	// Close the server if the stop channel is closed.
 	<-m.stop
 	server.Close()
+	ln.Close() // In case it wasn't being served yet.
 }
 
 func (m *Monitor) receiveMetrics(msg *nats.Msg) {
-- 
2.43.0


From d4b74499df5d4ac008fc5f30c62b61081eba22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 32/45] fix: invalid regular expressions in rules crashed at
 startup instead of being reported

---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index 8cc19d3..10e9e8c 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"regexp"
 	"time"
 
 	"github.com/BurntSushi/toml"
@@ -177,6 +178,11 @@ func (rule *Rule) validateMatch() error {
 	if rule.Rtype != "tags" && len(rule.Tags) > 0 {
 		return fmt.Errorf(`%s rule cannot use "tags"`, rule.Rtype)
 	}
+	if rule.Rtype == "regex" || rule.Rtype == "negregex" {
+		if _, err := regexp.Compile(rule.Match); err != nil {
+			return fmt.Errorf(`%s rule has an invalid "match": %v`, rule.Rtype, err)
+		}
+	}
 	if rule.Rtype == "tags" {
 		if rule.Match != "" {
 			return errors.New(`tags rule cannot use "match"`)
-- 
2.43.0


From cea7959a8e31ddb3b39c22877f1c1e9545d61253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 33/45] fix: a stopped writer left idle connections to InfluxDB
 open

---
 writer/influxclient.go | 6 ++++++
 writer/writer.go       | 1 +
 2 files changed, 7 insertions(+)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 20bfeec..1807f6c 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -87,6 +87,12 @@ func (ic *influxClient) Write(buf []byte) error {
 	return nil
 }
 
+// Close releases the connections to InfluxDB. It must not be called
+// before all writes are done.
+func (ic *influxClient) Close() {
+	ic.client.CloseIdleConnections()
+}
+
 func isHTTPPOSTSuccess(code int) bool {
 	return code >= 200 && code < 300
 }
diff --git a/writer/writer.go b/writer/writer.go
index 86cfad4..45d4389 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -150,6 +150,7 @@ func (w *Writer) worker(jobs <-chan *nats.Msg) {
 	defer w.wg.Done()
 
 	dbClient := newInfluxClient(w.c)
+	defer dbClient.Close()
 
 	var (
 		retryCh      chan []byte
-- 
2.43.0


From fcfdebfbd0f7204d45fc8117972a9df8e46d119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:16 +0000
Subject: [PATCH 34/45] fix: expressions with $ didn't match lines in
 influx-spout-tap

---
 cmd/influx-spout-tap/influx-spout-tap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index b87b798..88c3b41 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -55,7 +55,8 @@ func main() {
 func process(msg *nats.Msg, r *regexp.Regexp) {
 	for _, line := range bytes.SplitAfter(msg.Data, []byte("\n")) {
 		if r != nil {
-			if r.Match(line) {
+			// The newline isn't part of what's matched so that $ works.
+			if r.Match(bytes.TrimSuffix(line, []byte("\n"))) {
 				os.Stdout.Write(line)
 			}
 		} else {
-- 
2.43.0


From f325aa53d4fb87cccff6f899a46d9f64971fd5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 35/45] fix: negative timestamps with 19 digits weren't
 recognised

---
 influx/timestamps.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/influx/timestamps.go b/influx/timestamps.go
index 25a8c86..fef2b37 100644
--- a/influx/timestamps.go
+++ b/influx/timestamps.go
@@ -50,7 +50,8 @@ const (
 )
 
 var (
-	// MaxTsLen is maximum number of characters a valid timestamp can be.
+	// MaxTsLen is maximum number of digits a valid timestamp can have
+	// (negative timestamps have a minus sign in addition).
 	MaxTsLen = len(fmt.Sprint(maxNanoTime))
 
 	// ErrTimeOutOfRange gets returned when time is out of the representable range using int64 nanoseconds since the epoch.
@@ -72,12 +73,15 @@ func ExtractTimestamp(line []byte) (int64, int) {
 		line = line[:length]
 	}
 
-	to := length - MaxTsLen - 1
+	to := length - MaxTsLen - 2
 	if to < 0 {
 		to = 0
 	}
 	for i := length - 1; i >= to; i-- {
 		if line[i] == ' ' {
+			if length-i-1 > MaxTsLen && line[i+1] != '-' {
+				return -1, -1
+			}
 			out, err := convert.ToInt(line[i+1:])
 			if err != nil {
 				return -1, -1
-- 
2.43.0


From 3e20df6e4075dee6754c0210f7829d5455a309a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 36/45] fix: a very large max_time_delta made the filter drop
 every line

---
 filter/worker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter/worker.go b/filter/worker.go
index 9a7476b..31fa7cd 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"log"
+	"math"
 	"sync"
 	"time"
 
@@ -89,6 +90,9 @@ func (w *worker) processBatch(batch []byte) {
 	now := time.Now().UnixNano()
 	minTs := now - int64(w.maxTimeDelta)
 	maxTs := now + int64(w.maxTimeDelta)
+	if maxTs < now {
+		maxTs = math.MaxInt64 // Overflow, there is no upper limit.
+	}
 
 	for _, line := range bytes.SplitAfter(batch, []byte("\n")) {
 		if len(line) == 0 {
-- 
2.43.0


From dadb40275032d05a98b33d67b505bc955bedb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 37/45] fix: writer's counters missed retries made during a
 long write

---
 writer/retryworker.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/writer/retryworker.go b/writer/retryworker.go
index 8341ae7..c9feb47 100644
--- a/writer/retryworker.go
+++ b/writer/retryworker.go
@@ -70,6 +70,10 @@ type retryWorker struct {
 	queue         *retryQueue
 	stop          chan struct{}
 	wg            sync.WaitGroup
+
+	// Reports which are waiting because the channel was full.
+	unreportedWrites int
+	unreportedErrors []error
 }
 
 func (w *retryWorker) Stop() {
@@ -93,9 +97,25 @@ func (w *retryWorker) loop() {
 		if nextSend == nil && w.queue.Len() > 0 {
 			nextSend = time.After(w.retryInterval)
 		}
+		// Attempts which couldn't be reported yet.
+		var writes chan<- struct{}
+		if w.unreportedWrites > 0 {
+			writes = w.writes
+		}
+		var writeErrors chan<- error
+		var nextErr error
+		if len(w.unreportedErrors) > 0 {
+			writeErrors = w.writeErrors
+			nextErr = w.unreportedErrors[0]
+		}
+
 		select {
 		case <-w.stop:
 			return
+		case writes <- struct{}{}:
+			w.unreportedWrites--
+		case writeErrors <- nextErr:
+			w.unreportedErrors = w.unreportedErrors[1:]
 		case buf := <-w.inputCh:
 			w.queue.Add(buf)
 		case <-nextSend:
@@ -124,6 +144,7 @@ func (w *retryWorker) reportWrite() {
 	select {
 	case w.writes <- struct{}{}:
 	default:
+		w.unreportedWrites++
 	}
 }
 
@@ -131,6 +152,7 @@ func (w *retryWorker) reportError(err error) {
 	select {
 	case w.writeErrors <- err:
 	default:
+		w.unreportedErrors = append(w.unreportedErrors, err)
 	}
 }
 
-- 
2.43.0


From 4eec336bf81162d7ca0e99cc8e05bf358db3c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 38/45] fix: negative timestamps of metrics weren't rendered

---
 prometheus/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/metric.go b/prometheus/metric.go
index 43e8757..6236a7a 100644
--- a/prometheus/metric.go
+++ b/prometheus/metric.go
@@ -41,7 +41,7 @@ func (m *Metric) ToBytes() []byte {
 		out.Write(m.Labels.ToBytes())
 	}
 	fmt.Fprintf(out, " %d", m.Value)
-	if m.Milliseconds > 0 {
+	if m.Milliseconds != 0 {
 		fmt.Fprintf(out, " %d", m.Milliseconds)
 	}
 	return out.Bytes()
-- 
2.43.0


From 683df783f3289a9bd1105d662bf816fbf88c1481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 39/45] fix: redirected writes were taken for successful

---
 writer/influxclient.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/writer/influxclient.go b/writer/influxclient.go
index 1807f6c..a7c5c6f 100644
--- a/writer/influxclient.go
+++ b/writer/influxclient.go
@@ -38,11 +38,21 @@ func newInfluxClient(c *config.Config) *influxClient {
 				IdleConnTimeout:     30 * time.Second,
 				DisableCompression:  true,
 			},
-			Timeout: c.WriteTimeout.Duration,
+			Timeout:       c.WriteTimeout.Duration,
+			CheckRedirect: checkRedirect,
 		},
 	}
 }
 
+// checkRedirect doesn't let a redirect turn a write into a GET, which
+// would succeed without anything having been written.
+func checkRedirect(req *http.Request, via []*http.Request) error {
+	if req.Method != "POST" || len(via) >= 10 {
+		return http.ErrUseLastResponse
+	}
+	return nil
+}
+
 // influxClient supports HTTP writes to an InfluxDB instance.
 type influxClient struct {
 	url      string
-- 
2.43.0


From acda0fa0bd653b749d481884578e80d7191569a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 40/45] fix: filter lost a message's lines when escaping made
 the batch too large for NATS

Tags are escaped again when they are sorted so the lines for a rule can be
longer than the message they came in. The whole batch was lost if it
was larger than NATS allows.
---
 filter/worker.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/filter/worker.go b/filter/worker.go
index 31fa7cd..248f8a5 100644
--- a/filter/worker.go
+++ b/filter/worker.go
@@ -22,6 +22,7 @@ import (
 	"sync"
 	"time"
 
+	"github.com/jumptrading/influx-spout/v2/config"
 	"github.com/jumptrading/influx-spout/v2/influx"
 	"github.com/jumptrading/influx-spout/v2/stats"
 )
@@ -127,17 +128,29 @@ func (w *worker) processLine(rawLine []byte) {
 	if idx == -1 {
 		// no rule for this => junkyard
 		w.st.Inc(statRejected)
+		w.makeRoom(w.junkBatch, w.junkSubject, len(line.Escaped))
 		w.junkBatch.Write(line.Escaped)
 		return
 	}
 
 	// write to the corresponding batch buffer
+	w.makeRoom(w.batches[idx], w.rules.rules[idx].subject, len(line.Escaped))
 	w.batches[idx].Write(line.Escaped)
 
 	w.st.Inc(statPassed)
 	w.ruleSt.Inc(idx)
 }
 
+// makeRoom publishes a batch if it would become too large for NATS with
+// another SIZE bytes. This is only possible if lines of the incoming
+// message got longer because characters in their tags had to be escaped.
+func (w *worker) makeRoom(batch *bytes.Buffer, subject string, size int) {
+	if batch.Len() > 0 && batch.Len()+size > int(config.MaxNATSMsgSize) {
+		w.publish(subject, batch.Bytes())
+		batch.Reset()
+	}
+}
+
 func (w *worker) sendOff() {
 	for i, subject := range w.rules.Subjects() {
 		batch := w.batches[i]
-- 
2.43.0


From e2da0cbf5aafcbdfc8120d8b2ff4bedb4c5fa886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:56 +0000
Subject: [PATCH 41/45] fix: benchcheck took higher throughput for a regression

A larger value is only worse for times and allocations, not for MB/s.
---
 cmd/benchcheck/benchcheck.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/benchcheck/benchcheck.go b/cmd/benchcheck/benchcheck.go
index f3aef93..0c32c52 100644
--- a/cmd/benchcheck/benchcheck.go
+++ b/cmd/benchcheck/benchcheck.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -90,7 +91,9 @@ func findProblems(tables []*benchstat.Table) (bool, error) {
 			if err != nil {
 				return false, err
 			}
-			if delta > *flagDelta {
+			// Change tells whether a delta is for the worse. That's not
+			// just its sign as larger is better for throughput.
+			if row.Change < 0 && math.Abs(delta) > *flagDelta {
 				return true, nil
 			}
 		}
-- 
2.43.0


From 2accc72b04cfca8d4f579f2cfcc67522368da2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 42/45] fix: influx-spout-tap crashed if it couldn't connect or
 the regexp was invalid

It claimed to be connected, ended with a deadlock report or a panic, and
hung if the subject was invalid.
---
 cmd/influx-spout-tap/influx-spout-tap.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmd/influx-spout-tap/influx-spout-tap.go b/cmd/influx-spout-tap/influx-spout-tap.go
index 88c3b41..82cc66c 100644
--- a/cmd/influx-spout-tap/influx-spout-tap.go
+++ b/cmd/influx-spout-tap/influx-spout-tap.go
@@ -37,16 +37,25 @@ func main() {
 	if err != nil {
 		log.Printf("Hostname lookup failed")
 	}
-	natsConnection, _ := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	natsConnection, err := nats.Connect(*url, nats.Name("influx-spout-tap "+hostname))
+	if err != nil {
+		log.Fatalf("NATS: failed to connect: %v", err)
+	}
 	log.Println("Connected to " + *url)
 	log.Printf("Subscribing to subject %s\n", *subject)
 
 	if *regexpString != "" {
-		r = regexp.MustCompile(*regexpString)
+		r, err = regexp.Compile(*regexpString)
+		if err != nil {
+			log.Fatalf("invalid regexp: %v", err)
+		}
 	}
-	natsConnection.Subscribe(*subject, func(msg *nats.Msg) {
+	_, err = natsConnection.Subscribe(*subject, func(msg *nats.Msg) {
 		process(msg, r)
 	})
+	if err != nil {
+		log.Fatalf("NATS: failed to subscribe: %v", err)
+	}
 
 	// Keep the connection alive
 	runtime.Goexit()
-- 
2.43.0


From 99d5da93c093614a1ab8906c4745841c606d52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 43/45] fix: downsampled float average overflowed for large
 values of different signs

---
 downsampler/avgbucket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/downsampler/avgbucket.go b/downsampler/avgbucket.go
index 90911f5..e47f881 100644
--- a/downsampler/avgbucket.go
+++ b/downsampler/avgbucket.go
@@ -17,6 +17,7 @@ package downsampler
 import (
 	"errors"
 	"fmt"
+	"math"
 	"math/bits"
 	"sort"
 	"strconv"
@@ -262,6 +263,11 @@ func (v *floatFieldValue) update(b []byte, quoted bool) error {
 
 	// Update incremental average.
 	v.count++
+	if math.IsInf(bf-v.average, 0) {
+		// The difference is too large for a float.
+		v.average += bf/float64(v.count) - v.average/float64(v.count)
+		return nil
+	}
 	v.average = v.average + ((bf - v.average) / float64(v.count))
 	return nil
 }
-- 
2.43.0


From 80d0491348ca90c2b444da4c938e90e91dd1a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 44/45] fix: downsampler dropped lines which arrived after a
 period's end before it released the period

---
 downsampler/assigner.go | 46 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/downsampler/assigner.go b/downsampler/assigner.go
index a196bd2..3b8a17d 100644
--- a/downsampler/assigner.go
+++ b/downsampler/assigner.go
@@ -44,14 +44,19 @@ func newAssigner(period time.Duration, newBucket bucketFactory, clock clock) *as
 		clock:     clock,
 		newBucket: newBucket,
 	}
-	tc := a.nextT(clock.Now())
+	a.reset()
+	return a
+}
+
+// reset starts with new buckets for the current time.
+func (a *assigner) reset() {
+	tc := a.nextT(a.clock.Now())
 	tp := a.prevT(tc)
 	tn := a.nextT(tc)
-	a.buckets[prev] = newBucket(tp)
-	a.buckets[curr] = newBucket(tc)
-	a.buckets[next] = newBucket(tn)
+	a.buckets[prev] = a.newBucket(tp)
+	a.buckets[curr] = a.newBucket(tc)
+	a.buckets[next] = a.newBucket(tn)
 	a.tmin = tp.Add(-a.period)
-	return a
 }
 
 // These consts define the indexes for the buckets available to the
@@ -85,6 +90,7 @@ type assigner struct {
 	newBucket bucketFactory
 	buckets   [3]bucket
 	tmin      time.Time
+	due       [][]byte // released but not returned by Bytes yet
 }
 
 // Update takes a byte slice of measurement lines and assigns them to
@@ -93,6 +99,7 @@ type assigner struct {
 // buckets will result in an error. Data errors for any lines will
 // also result in errors being returned.
 func (a *assigner) Update(lines []byte) (errs []error) {
+	a.catchUp()
 	for _, line := range bytes.Split(lines, []byte{'\n'}) {
 		if len(line) < 1 {
 			continue
@@ -119,6 +126,32 @@ func (a *assigner) Update(lines []byte) (errs []error) {
 // When data is returned, the oldest bucket is discarded and the other
 // buckets are cycled down.
 func (a *assigner) Bytes() []byte {
+	if len(a.due) > 0 {
+		out := a.due[0]
+		a.due = a.due[1:]
+		return out
+	}
+	return a.cycle()
+}
+
+// catchUp cycles the buckets until they match the current time, so
+// that lines which arrive after the end of a period aren't assigned
+// relative to that period. What is released is returned by Bytes later.
+func (a *assigner) catchUp() {
+	for cycles := 0; !a.clock.Now().Before(a.buckets[curr].EndTime()); cycles++ {
+		if cycles == len(a.buckets) {
+			// All of the buckets are new, so none has to be released.
+			a.reset()
+			return
+		}
+		if out := a.cycle(); len(out) > 0 {
+			a.due = append(a.due, out)
+		}
+	}
+}
+
+// cycle implements Bytes for the buckets.
+func (a *assigner) cycle() []byte {
 	if a.clock.Now().Before(a.buckets[curr].EndTime()) {
 		return nil
 	}
@@ -134,6 +167,9 @@ func (a *assigner) Bytes() []byte {
 // UntilNext returns the time until the next bucket will be released
 // for output.
 func (a *assigner) UntilNext() time.Duration {
+	if len(a.due) > 0 {
+		return time.Duration(0)
+	}
 	d := a.buckets[curr].EndTime().Sub(a.clock.Now())
 	if d < time.Duration(0) {
 		return time.Duration(0)
-- 
2.43.0


From 5d264a9092aa00edd3947477e7a6e4e815981967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:46 +0000
Subject: [PATCH 45/45] fix: HTTP listener doesn't spin with a batch_max_age of
 0

The goroutine which sends old batches woke up all the time, though each
write is sent at once then.
---
 listener/listener.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/listener/listener.go b/listener/listener.go
index 9938e2c..e40375a 100644
--- a/listener/listener.go
+++ b/listener/listener.go
@@ -242,6 +242,9 @@ func (l *Listener) setupHTTP() *http.Server {
 // because the UDP listener does batch age handling in-line.
 func (l *Listener) oldBatchSender() {
 	defer l.wg.Done()
+	if l.c.BatchMaxAge.Duration <= 0 {
+		return // Each write is sent by its handler.
+	}
 	for {
 		l.mu.Lock()
 		waitTime := l.c.BatchMaxAge.Duration - l.batch.Age()
-- 
2.43.0

