#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that it stays valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=quant),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","UDP listener publishes every received datagram once, whole and in order",
 "Every datagram the UDP listener reads (up to the largest possible UDP payload) is published to the configured NATS subject exactly once, byte for byte, in arrival order, and followed by a newline when it did not already end with one. Datagrams are never merged into one line, cut short or mixed with older data, whatever the batch settings and whatever sizes the datagrams have.",
 ["inputs","schedules","configurations"],"all sequences of datagrams (sizes 1..65507, with and without trailing newline) and all batch_max_count/size/age settings",
 "Unit tests send a handful of small datagrams with two or three batch settings; buffer reuse, growth and the interplay with the age and size triggers are only exercised at one or two points.",
 ["listener/listener.go","batch/batch.go"],
 [("read loop","listener/listener.go:listenUDP"),("single read into batch buffer and growth","batch/batch.go:ReadOnceFrom, grow"),("newline repair","batch/batch.go:EnsureNewline"),("publish","listener/listener.go:sendBatch")],
 ["NATS subject nats_subject[0]"])

p("C02","HTTP listener publishes each accepted write once with its lines intact",
 "For every /write request whose body is received completely, every line of the body is published to the configured NATS subject exactly once and unaltered, and the client gets a 204 response. Lines of one request keep their order, and lines of different requests are never joined or interleaved inside a line, whatever the number of concurrent clients, the transfer encoding and the body's final newline.",
 ["inputs","schedules"],"all interleavings of concurrent requests and all body shapes (empty, no trailing newline, chunked, larger than the batch size)",
 "One test uses concurrent clients with identical bodies and only counts bytes; bodies without a trailing newline are only sent alone.",
 ["listener/listener.go","batch/batch.go"],
 [("request handling under the batch lock","listener/listener.go:handleHTTPWrite, readHTTPBodyNanos, readHTTPBodyWithPrecision"),("age based sender","listener/listener.go:oldBatchSender"),("batch append and growth","batch/batch.go:Append")],
 ["NATS subject nats_subject[0]","HTTP response"])

p("C03","HTTP listener converts timestamps of any precision exactly",
 "For a /write request with precision u, ms, s, m or h, each line's trailing integer timestamp is replaced by exactly its nanosecond value and the rest of the line is unchanged. A line with no timestamp, or whose converted timestamp does not fit the supported nanosecond range, is passed on unchanged; with precision ns or none every body is passed on as it is.",
 ["inputs"],"all lines (measurement, tags, string fields with spaces, escapes), all int64 timestamps and all precisions",
 "Tests convert a few positive timestamps; overflow boundaries, negative values, long lines and lines without timestamps are sampled at one point each.",
 ["listener/listener.go","influx/timestamps.go","convert/convert.go"],
 [("line conversion","listener/listener.go:applyTimestampPrecision"),("range checked multiplication","influx/timestamps.go:SafeCalcTime"),("timestamp extraction","influx/timestamps.go:ExtractTimestamp")],
 ["NATS subject nats_subject[0]"])

p("C04","A slow, stalled or aborting HTTP client harms nobody else",
 "While any number of /write clients are slow or have stalled in the middle of their request body, other clients' writes are still accepted and published, and data already accepted is still published when it reaches the maximum batch age. When a request is cut off, nothing that follows its last complete line is ever published and nothing from other requests is lost or altered.",
 ["fault_sequences","schedules"],"every point of a request body at which a client can stall or disconnect, for any number of such clients, with all precisions",
 "Tests only use clients which send complete bodies at once.",
 ["listener/listener.go"],
 [("body is read without holding the batch lock","listener/listener.go:readHTTPBodyNanos, readHTTPBodyWithPrecision"),("age based sender","listener/listener.go:oldBatchSender")],
 ["NATS subject nats_subject[0]","HTTP response"])

p("C05","Batches are sent on when, and only when, a batch limit is reached",
 "Listeners and writers send their current batch on as soon as it holds batch_max_count writes, reaches the batch size threshold, or has reached batch_max_age, measured from the first write since the previous send; so no accepted data stays behind even if no more input ever arrives. Before any of the three limits is reached nothing is sent, and an empty batch is never sent.",
 ["schedules","configurations","histories"],"all input histories and all combinations of the three limits",
 "Tests check each limit once from a fresh batch; the counters' and timers' state after earlier sends is not exercised.",
 ["listener/listener.go","writer/writer.go","batch/batch.go"],
 [("listener triggers","listener/listener.go:shouldSend, oldBatchSender"),("writer triggers","writer/writer.go:shouldSend, worker"),("write counter and age","batch/batch.go:countWrite, Age, Reset")],
 ["NATS subject nats_subject[0]","InfluxDB /write requests"])

p("C06","Size limits hold and splitting an oversized batch loses nothing",
 "No message published by a listener or downsampler exceeds 1 MB (the NATS limit) and no InfluxDB write body exceeds the writer's batch_max_size. When a batch has to be split, the parts in order are exactly the batch, and every cut is just after a newline unless a single line is itself longer than the limit.",
 ["inputs","configurations"],"all batch contents, including lines ending exactly at, before and after the limit and lines longer than the limit, and all limits",
 "The splitter tests use a few hand-made buffers; the exact boundary positions and the callers' use of the limit are not covered.",
 ["batchsplitter/batch_splitter.go","listener/listener.go","writer/writer.go","downsampler/downsampler.go"],
 [("splitting","batchsplitter/batch_splitter.go:Next"),("users of the splitter","listener/listener.go:sendBatch; writer/writer.go:worker; downsampler/downsampler.go:worker")],
 ["NATS messages","InfluxDB /write requests"])

p("C07","Filter sends each line to the subject of the first rule that matches it",
 "A line is forwarded to the subject of the first rule, in configuration order, that matches it, and to the junkyard subject when none does. A basic rule matches exactly the lines with that (unescaped) measurement name, a tags rule the lines that contain all the listed tag values, a regex (negregex) rule the lines whose unescaped text does (does not) match; the outcome depends only on the line itself, not on its tag order, its neighbours or its line terminator.",
 ["inputs","configurations"],"all well-formed lines (escapes, any tag order) and all ordered rule sets",
 "Rule tests use a few literal lines per rule type; interactions between tag sorting, escapes, neighbouring lines and rule order are not enumerated.",
 ["filter/rules.go","filter/worker.go","influx/tags.go","influx/token.go"],
 [("rule lookup","filter/rules.go:LookupParsed, CreateBasicRule, CreateTagRule, CreateRegexRule, CreateNegativeRegexRule"),("tag subset","influx/tags.go:SubsetOf"),("per rule buffers","filter/worker.go:processLine, sendOff")],
 ["NATS subjects of the rules and the junkyard"])

p("C08","Filter conserves lines: each accepted line comes out exactly once",
 "Every line that enters the filters and is neither outside the time window nor malformed is published exactly once, on exactly one subject, however many filter workers and filter instances share the input. Lines matched by the same rule within one input message keep their order and no line is truncated, merged with or replaced by another.",
 ["schedules","inputs","configurations"],"all schedules of the worker goroutines and filter instances and all input batches",
 "Tests run one worker with a few lines; worker counts, buffer reuse between messages and several instances in the queue group are not exercised.",
 ["filter/filter.go","filter/worker.go"],
 [("queue group subscription","filter/filter.go:StartFilter"),("workers and buffers","filter/worker.go:run, processBatch, sendOff")],
 ["NATS subjects of the rules and the junkyard"])

p("C09","Filter drops exactly the lines outside the time window",
 "A line whose trailing timestamp (up to 19 digits, possibly negative) differs from the filter's current time by max_time_delta or more, in either direction, is dropped and counted as invalid; a line with a timestamp inside the window, or without a timestamp, is not dropped because of time. The decision is made per line and does not affect other lines of the same message.",
 ["inputs","configurations"],"all timestamps (including negative, short and boundary values), all max_time_delta values and all mixes of lines in a message",
 "Tests use timestamps far inside and far outside of the window; the boundary and unusual timestamp forms are not covered.",
 ["filter/worker.go","influx/timestamps.go"],
 [("time window","filter/worker.go:processBatch, extractTimestamp"),("timestamp extraction","influx/timestamps.go:ExtractTimestamp")],
 ["NATS subjects of the rules and the junkyard","invalid_time metric"])

p("C10","Filter output has sorted tags and means the same as the input line",
 "Every forwarded line carries the input line's measurement, set of tags, fields and timestamp, with its tags sorted by key. A line whose tags are already sorted is forwarded byte for byte; sorting never changes the fields and timestamp part, the line terminator or any other line.",
 ["inputs"],"all well-formed lines with any tag order and any escaping",
 "The sorting test has a few lines, compared one at a time, never within a batch of neighbours.",
 ["filter/rules.go","influx/tags.go","influx/escape.go"],
 [("tag sorting","filter/rules.go:SortTags"),("re-rendering","influx/tags.go:Bytes; influx/escape.go")],
 ["NATS subjects of the rules and the junkyard"])

p("C11","Downsampler output is the exact aggregate of each series' fields",
 "For every series (measurement and tags) and sampling period the downsampler emits one line in which each integer field is the average (rounded towards zero) of all the values received, each float field the average up to floating point error, and each string or boolean field the last value received. The result does not depend on how the lines were grouped into messages, and fields or series never influence each other.",
 ["inputs","histories"],"all sequences of lines for any number of series and fields, including extreme integers and escaped names and strings",
 "Tests average two or three small values of one series.",
 ["downsampler/avgbucket.go","downsampler/assigner.go","influx/token.go"],
 [("field aggregation","downsampler/avgbucket.go:update, intFieldValue, floatFieldValue"),("series key","downsampler/avgbucket.go:AddLine"),("string values","influx/token.go:QuotedString; influx/escape.go:EscapeQuotedString")],
 ["NATS subject with downsample_suffix"])

p("C12","Downsampler assigns by timestamp and emits each period exactly once",
 "Each line counts towards the period that contains its timestamp (the arrival time if it has none) when that is the current, previous or next period, and is otherwise dropped and counted as having an invalid timestamp. Each period's lines are emitted once, stamped with the end of the period, in period order and once the clock has passed the end of the following period, however long the input pauses and wherever within a period the downsampler was started.",
 ["histories","schedules","configurations"],"all arrival histories relative to the clock (late, early, boundary timestamps, pauses of many periods, any period length)",
 "Tests step a fake clock through a couple of periods with hand-made lines.",
 ["downsampler/assigner.go","downsampler/downsampler.go"],
 [("three bucket rotation","downsampler/assigner.go:Update, Bytes, findBucket, UntilNext"),("timer loop","downsampler/downsampler.go:worker")],
 ["NATS subject with downsample_suffix","invalid_timestamps metric"])

p("C13","Malformed or foreign lines do not disturb other downsampled series",
 "Lines that cannot be parsed, or whose field value has another type than the field already has in the period, are counted as invalid and leave all other series, all fields they do not mention and all other lines of the same message exactly as if they had not been sent; a value of another type does not keep the other fields of its line from counting. Each subject is aggregated separately and its results are only published to that subject with downsample_suffix appended.",
 ["inputs","histories","configurations"],"all mixes of valid and malformed lines in messages, over any number of subjects",
 "Tests send one malformed line alone, mostly to a bucket that holds nothing else.",
 ["downsampler/avgbucket.go","downsampler/assigner.go","downsampler/downsampler.go"],
 [("error collection per line","downsampler/assigner.go:Update"),("type checks","downsampler/avgbucket.go:update"),("one worker per subject","downsampler/downsampler.go:StartDownsampler, worker")],
 ["NATS subjects with downsample_suffix","invalid_lines metric"])

p("C14","Writer delivers everything it receives to InfluxDB exactly once",
 "While InfluxDB accepts writes, every byte received on any of the writer's NATS subjects is POSTed to the configured InfluxDB address, database and credentials exactly once, with the content of each message contiguous and unaltered, whatever the number of workers and subjects. Writers that share a queue_group deliver each message once between them; without a queue group every writer delivers every message.",
 ["schedules","inputs","configurations"],"all message sequences over several subjects, all schedules of the workers, and all numbers of writers with and without queue groups",
 "Tests publish one or two messages to one writer.",
 ["writer/writer.go","writer/influxclient.go","batch/batch.go"],
 [("subscriptions and job queue","writer/writer.go:StartWriter"),("per worker batch","writer/writer.go:worker"),("HTTP write","writer/influxclient.go:Write")],
 ["InfluxDB /write requests"])

p("C15","Writer rules drop exactly the lines that match no rule",
 "A writer with rules writes exactly those received lines that match at least one of its basic, tags, regex or negregex rules, unaltered and in their received order per message, and drops all others; rules mean the same as in the filter. Without rules everything is written.",
 ["inputs","configurations"],"all message contents (any tag order, escapes, missing final newline) and all rule sets",
 "Three tests use a single rule and two literal lines each; tags rules are not tested.",
 ["writer/writer.go","filter/rules.go","config/config.go"],
 [("line filter","writer/writer.go:getBatchWriteFunc, filterLine"),("rule lookup","filter/rules.go:Lookup")],
 ["InfluxDB /write requests"])

p("C16","Failed InfluxDB writes are retried until they succeed, unaltered",
 "When InfluxDB fails a write temporarily (connection failure, timeout, redirect or 5xx) and recovers within the retry limits, the writer repeats exactly the failed body until it is accepted, and then never again; no other data is lost, duplicated or altered meanwhile. A body that was accepted is never sent again and one that a retry finds rejected with a 4xx is dropped.",
 ["fault_sequences","schedules"],"all sequences of faults (refused, reset, timeout, 4xx, 5xx, early responses) over the writes, with one or several workers",
 "One test fails one write once.",
 ["writer/writer.go","writer/retryworker.go","writer/influxclient.go"],
 [("hand over of failed chunks","writer/writer.go:worker"),("retry loop","writer/retryworker.go:loop"),("error classification","writer/influxclient.go:Write, isPermanentError")],
 ["InfluxDB /write requests"])

p("C17","Retries respect the interval, the queue limit and the time limit",
 "The retry mechanism attempts at most one batch per writer_retry_interval, never before a full interval has passed, and cycles through waiting batches in order. It never holds more than writer_retry_batches batches (the oldest is discarded first), never attempts a batch after writer_retry_timeout, and drops a batch for good after a success or a permanent error.",
 ["histories","fault_sequences","configurations"],"all arrival times of failed batches, all outcomes of the attempts and all settings of the three limits",
 "Tests follow four short histories in real time with loose tolerances.",
 ["writer/retryworker.go"],
 [("retry loop","writer/retryworker.go:loop"),("queue","writer/retryworker.go:retryQueue")],
 ["calls to the database writer"])

p("C18","Monitor serves the latest value of every metric and survives bad input",
 "After any sequence of valid metric messages the monitor's /metrics endpoint lists each distinct metric (name and label set, in any label order) exactly once, with the value and timestamp of the last message for it and its labels unaltered. A malformed message changes nothing, crashes nothing and does not affect later messages, and a client that does not read its response does not stop the updates.",
 ["histories","inputs","schedules"],"all sequences of valid and malformed messages, with concurrent scrapes",
 "Tests send a couple of well-formed messages.",
 ["monitor/monitor.go","prometheus/metricset.go","prometheus/metric.go","prometheus/parse.go"],
 [("update under lock","monitor/monitor.go:receiveMetrics"),("metric identity","prometheus/metricset.go:metricKey"),("rendering","prometheus/metricset.go:ToBytes; prometheus/metric.go:ToBytes")],
 ["HTTP /metrics"])

p("C19","Each component's published metrics equal what really happened",
 "The counters every component publishes (received, sent, passed, processed, rejected, invalid_time, triggered per rule, write_requests, failed_writes, invalid_lines, invalid_timestamps, nats_dropped and so on) equal the number of the corresponding events once the component is idle, never decrease, and carry the documented component, host, name and other labels. This holds for any load, any number of workers and with failing writes.",
 ["histories","schedules","fault_sequences"],"all workloads and schedules of every component",
 "Tests compare the counters after one to three events.",
 ["stats/stats.go","stats/prometheus.go","listener/listener.go","filter/filter.go","filter/worker.go","writer/writer.go","downsampler/downsampler.go"],
 [("statisticians","listener/listener.go, filter/filter.go, writer/writer.go, downsampler/downsampler.go: startStatistician"),("rendering","stats/prometheus.go:SnapshotToPrometheus, CounterToPrometheus")],
 ["NATS subject nats_subject_monitor"])

p("C20","The metrics text format round-trips and rejects malformed lines",
 "Parsing a rendered metric set gives back the same names, labels, values and timestamps, and rendering is deterministic, repeatable and sorted, independent of label order. Labels derived from a common set never affect each other, and every malformed or truncated line is answered with an error instead of a crash or a wrong metric.",
 ["inputs"],"all metric names, label sets, int64 values and timestamps and all byte strings as input to the parser",
 "Tests parse about twenty literal lines.",
 ["prometheus/parse.go","prometheus/labels.go","prometheus/metric.go","prometheus/metricset.go","stats/prometheus.go"],
 [("parser","prometheus/parse.go"),("rendering","prometheus/labels.go:ToBytes; prometheus/metric.go:ToBytes"),("derived labels","prometheus/labels.go:With")],
 ["package API"])

p("C21","No component has a data race",
 "Whatever the load and configuration, no two goroutines of any component access the same memory without synchronisation with at least one of them writing, from start up through statistics reporting, write failures and reconnections until shutdown.",
 ["schedules"],"all schedules of the listener, filter, downsampler, writer, monitor and probe goroutines",
 "The test suite is run without the race detector and drives one component at a time with a few messages.",
 ["listener/listener.go","filter/filter.go","downsampler/downsampler.go","writer/writer.go","monitor/monitor.go","stats/stats.go","stats/anonstats.go","probes/probes.go"],
 [("locks and channels","listener/listener.go:mu; monitor/monitor.go:mu; worker channels"),("atomic counters","stats/stats.go; stats/anonstats.go; probes/probes.go"),("buffer ownership","writer/influxclient.go:Write; filter/worker.go:sendOff; listener/listener.go:sendBatch")],
 ["race detector reports"])

p("C22","No input can crash or wedge a component",
 "Whatever bytes arrive as UDP datagrams, HTTP requests, NATS messages or metrics, no component terminates, panics or stops processing; well-formed lines sent before, after and next to the garbage are processed as usual.",
 ["inputs","histories"],"all byte strings on all input channels of all components",
 "Tests send well-formed lines and a few fixed malformed ones.",
 ["listener/listener.go","filter/worker.go","filter/rules.go","influx/tags.go","influx/token.go","influx/timestamps.go","downsampler/avgbucket.go","prometheus/parse.go"],
 [("parsers with bounds checks","influx/*.go; downsampler/avgbucket.go; prometheus/parse.go")],
 ["process state","NATS subjects"])

p("C23","Configuration files are layered, defaulted and validated as documented",
 "The effective configuration is the documented defaults, overridden by the common file, overridden by the component's own file, where a file's rules, tags and subject lists replace earlier ones as a whole; mode-dependent defaults apply only to values neither file sets. A configuration with a setting outside of its documented range, or a malformed rule, for its mode is rejected with an error, and every other one is accepted.",
 ["configurations"],"all pairs of common and specific files over all settings and modes",
 "Tests use about thirty literal files; combinations of the two files are tried twice.",
 ["config/config.go","config/duration.go"],
 [("overlay","config/config.go:NewConfigFromFile, readConfig"),("defaults","config/config.go:newDefaultConfig"),("validation","config/config.go:Validate and validate*")],
 ["config.NewConfigFromFile"])

p("C24","Probe endpoints tell the truth about liveness and readiness",
 "A component with a probe port answers /healthz with 200 from start until it is being stopped, and /readyz with 200 only while it is able to take input, so that input sent after the first positive answer is processed. While a component shuts down both endpoints answer 503, and afterwards the port is closed; states set through the probes API are visible to every later request and the two states are independent.",
 ["schedules","histories"],"all interleavings of starts, state changes, probe requests and stops of every component",
 "Tests wait until a component is ready and then go on; they never look at the moment the state changes or at the shutdown.",
 ["probes/probes.go","listener/listener.go","filter/filter.go","writer/writer.go","downsampler/downsampler.go","monitor/monitor.go"],
 [("probe server","probes/probes.go"),("state changes","Start*/Stop of every component")],
 ["HTTP /healthz and /readyz"])

p("C25","Components start, stop and restart cleanly at any moment",
 "Stopping a component terminates in bounded time at any moment, including under full load, with stalled clients and with failing or hanging InfluxDB writes, and afterwards its goroutines, ports and NATS connections are gone, so that the same configuration can be started again at once and works. A component that cannot reach NATS or bind its port returns an error and leaves nothing behind either.",
 ["schedules","fault_sequences","histories"],"all moments and loads at which a component can be started or stopped",
 "Tests stop idle components.",
 ["listener/listener.go","filter/filter.go","downsampler/downsampler.go","writer/writer.go","writer/retryworker.go","monitor/monitor.go","probes/probes.go"],
 [("stop channel and wait group","Stop of every component"),("retry worker shutdown","writer/retryworker.go:Stop")],
 ["process goroutines","listening ports","NATS server connection list"])

p("C26","Components resume by themselves after a NATS outage",
 "When the NATS server goes away and comes back, for any length of time and any number of times, every component reconnects, keeps its subscriptions and continues to process input as before, without a restart. A component never terminates because of the outage and its readiness and later results are unaffected; what it publishes during a short outage is delivered afterwards.",
 ["fault_sequences","histories"],"all sequences of NATS server outages, with and without input during them",
 "No test restarts the NATS server.",
 ["listener/listener.go","filter/filter.go","downsampler/downsampler.go","writer/writer.go","monitor/monitor.go"],
 [("unlimited reconnects","nats.MaxReconnects(-1) in every component's connect")],
 ["NATS subjects","InfluxDB /write requests","HTTP /metrics"])

p("C27","The line protocol primitives agree with a reference for every input",
 "Extracting measurement, tags and remainder, extracting and scaling timestamps, converting integers, escaping, unescaping and reading quoted strings give the same results as straightforward reference definitions on every input, and escaping followed by parsing gives the original back. None of them reads outside of its input, modifies it or panics.",
 ["inputs"],"all byte strings and all int64 values",
 "Tests use some dozens of literals per function.",
 ["influx/tags.go","influx/token.go","influx/escape.go","influx/unescape.go","influx/timestamps.go","convert/convert.go"],
 [("tokeniser","influx/token.go"),("tag parser","influx/tags.go:ParseTags"),("integers","convert/convert.go:ToInt"),("time range","influx/timestamps.go:SafeCalcTime")],
 ["package API"])

p("C28","The tap prints exactly the matching lines of a subject",
 "influx-spout-tap prints every line published to the chosen subject byte for byte, in order and once, whatever characters it contains; with a regular expression it prints exactly the lines that match it. If it cannot connect or subscribe, or the expression is invalid, it ends with status 1 and a message and does not crash.",
 ["inputs"],"all line contents and regular expressions",
 "There are no tests for the tap.",
 ["cmd/influx-spout-tap/influx-spout-tap.go"],
 [("line output","cmd/influx-spout-tap/influx-spout-tap.go:process")],
 ["standard output of the program"])

p("C29","The batch buffer is an exact byte log with a correct count and age",
 "After any sequence of operations a batch holds exactly the bytes written since its last reset, in order, and reports the number of writes and the time since the first of them; growing and reusing its memory never loses, repeats or alters bytes. A single read takes at most one read from the source and never cuts a datagram of up to 64 KB short, and copies taken earlier never change.",
 ["inputs","histories"],"all sequences of appends, reads, resets and newline repairs for all capacities, and all readers",
 "Tests perform a few operations on one or two capacities.",
 ["batch/batch.go"],
 [("growth","batch/batch.go:grow, growIfLow, appendImpl"),("readers","batch/batch.go:ReadFrom, ReadOnceFrom"),("count and age","batch/batch.go:countWrite, Age, Reset")],
 ["package API"])

p("C30","Valid lines reach every right InfluxDB database once, end to end",
 "In a running deployment (listeners, filters, writers and downsamplers on one NATS server) every valid line given to any listener ends up exactly once in the database of each writer that consumes the matching rule's subject, with the same meaning, and in no other database. Lines without a matching rule reach only the junkyard's writer, and downsampled aggregates reach only the archive's writer.",
 ["inputs","schedules","configurations"],"all streams of lines through UDP and HTTP listeners at the same time, for all rule sets and numbers of workers",
 "The end-to-end test sends two lines through one pipeline.",
 ["listener/listener.go","filter/filter.go","writer/writer.go","downsampler/downsampler.go","cmd/influx-spout/main.go"],
 [("component wiring by NATS subjects","cmd/influx-spout/main.go and Start* of every component")],
 ["InfluxDB /write requests"])

p("C31","Shared counters never lose an update",
 "Counters keep exact counts under any number of concurrent increments and maximum updates; a value read concurrently lies between the updates finished before and those started before the read, and never goes backwards. Each counter is independent of the others.",
 ["schedules"],"all interleavings of increments, maximum updates, reads and snapshots",
 "One test increments concurrently and reads at the end.",
 ["stats/stats.go","stats/anonstats.go"],
 [("atomics","stats/stats.go:Inc, Max, Snapshot; stats/anonstats.go")],
 ["package API"])

p("C32","Writer trusts only the right InfluxDB and keeps its credentials to itself",
 "With influxdb_protocol https a writer sends data and credentials over TLS only, and only to a server whose certificate is valid for influxdb_address and was issued by an authority of the system; with any other server the write counts as failed and is retried. The credentials from the environment accompany every write to that server, and never appear in the clear with https, in logs, metrics or request targets, or at another host that a redirect leads to.",
 ["configurations","fault_sequences"],"all servers and certificates met at any attempt, all answers, and all credentials",
 "No test uses https; one uses credentials.",
 ["writer/influxclient.go","writer/writer.go","config/config.go"],
 [("HTTP client and credentials","writer/influxclient.go:newInfluxClient, Write, checkRedirect")],
 ["InfluxDB /write requests","bytes on the wire","log output","NATS monitor subject"])

p("C33","The program runs exactly the configured component or fails with a reason",
 "Started with a configuration file, influx-spout runs the component of its mode with the file's settings and defaults until a signal ends it: it is named after the file unless name is set, listens on nothing but the component's port, probe_port and (if set, and only there) pprof_port with Go profiles, and a writer makes workers writes at a time (with 0, twice the number of processors). With wrong arguments, an unreadable or invalid configuration, an unreachable NATS server or a component port that is taken it exits with status 1 and a message that says why, and does not crash; a pprof_port that is taken does not keep the component from working.",
 ["configurations","fault_sequences"],"all modes and configurations and all ways to fail at start",
 "Tests call runComponent for one end-to-end set-up; the program itself, its exit status and pprof_port are not tested.",
 ["cmd/influx-spout/main.go","config/config.go"],
 [("choice of the component","cmd/influx-spout/main.go:runComponent"),("arguments","cmd/influx-spout/main.go:getConfigFileName, usageExit")],
 ["process exit status and output","listening sockets","inputs and outputs of the component"])
p("C34","What a component holds on to does not grow with the work it has done",
 "However long a component runs, its memory, goroutines and open files are bounded by its configuration and the work in progress (buffered batches, series of the downsampler's open buckets, distinct metrics of the monitor, batches queued for retry, open connections): they do not keep growing with the number of datagrams, requests, messages, lines, writes, scrapes, broken connections or failures it has handled, even when the names in them are always new. A component with nothing to do, or only with a batch that is not due, does not spin: it uses little CPU time.",
 ["inputs","fault_sequences","schedules"],"all lengths of runs of every component",
 "Tests run each component for at most a few seconds and never look at its resources.",
 ["listener","filter","writer","downsampler","monitor","stats"],
 [("response bodies","writer/influxclient.go:Write"),("retries","writer/retryworker.go:retryQueue"),("buckets","downsampler/assigner.go:Bytes"),("request handling","listener/listener.go:handleHTTPWrite"),("metrics","prometheus/metricset.go")],
 ["heap after garbage collection, goroutines (pprof)","file descriptors and CPU time of the process"])

p("C35","The benchmark checker reports exactly the regressions",
 "benchcheck OLD NEW ends with status 1 and reports a regression exactly when a benchmark that is in both files got worse in one of its measures (time, allocations or throughput) by more than max-delta percent with a significance below alpha; improvements, insignificant or smaller changes and benchmarks in one file only never count, whatever their order and number. Otherwise it ends with status 0, the comparison is printed for a regression or with -print only, and wrong arguments or unreadable files end it with an error.",
 ["inputs","configurations"],"all pairs of benchmark results and settings",
 "There are no tests for benchcheck.",
 ["cmd/benchcheck/benchcheck.go"],
 [("judgement","cmd/benchcheck/benchcheck.go:findProblems"),("arguments and output","cmd/benchcheck/benchcheck.go:main")],
 ["process exit status and output"])

p("C36","The slow stand-in delays every write, each for itself",
 "slowinfluxd (for slow consumer tests) listens on -port (8086) and answers every request to /write, whatever its method, parameters and body, with an empty 204 not before -delay (30 s) has passed, and each about that time after it was received however many other requests are waiting; requests for other paths are answered with 404 at once, also while writes wait. Clients which go away or send garbage don't affect others. Wrong arguments or a port in use end it with an error.",
 ["inputs","schedules","configurations"],"all requests, numbers of concurrent clients, delays",
 "There are no tests for slowinfluxd.",
 ["cmd/slowinfluxd/main.go"],
 [("all","cmd/slowinfluxd/main.go:main")],
 ["HTTP answers and their times, process exit status and output"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
