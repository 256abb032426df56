RM = "runtime monitoring: "
CHECKS = {
"C01": dict(
    technique=RM + "generated datagram streams against the real listener, exact conservation/order oracle over the recorded NATS messages; race detector",
    rule="a case is one datagram sent to a running listener; cases differ by batch limits, datagram length and final newline; all hold data",
    note="Every published byte of the streams that ran was compared with the bytes sent; assumes the kernel delivers loopback datagrams in order and reports drops in /proc/net/udp."),
"C02": dict(
    technique=RM + "concurrent generated HTTP writes, offline exactly-once/order checker over the recorded NATS messages; race detector",
    rule="a case is one /write request; cases differ by number of clients, batch limits, transfer encoding, final newline and number of lines",
    note="Every line of every request was accounted for; a message's end counts as a line end."),
"C03": dict(
    technique=RM + "generated lines and precisions, online comparison with an arbitrary-precision reference conversion",
    rule="a case is one line sent with a precision; distinct by precision and last token",
    note="Exact reference (big integers); timestamps of up to 19 digits, as documented by the code."),
"C04": dict(
    technique=RM + "fault injection (stalled, resumed, aborted, malformed requests over raw TCP) with conservation and progress monitors",
    rule="a case is one request made while others are stalled, or one aborted or resumed request; distinct by its shape and cut point",
    note="Progress is judged with a 25 s limit on a stall-compensated clock."),
"C05": dict(
    technique=RM + "trace-specification monitor: exact batching model plus lower and upper bounds on the time batches are held",
    rule="a case is one write in a batching schedule; distinct by component, limits, and fill state",
    note="Count and size triggers are compared exactly; age has an exact lower bound and an upper bound with 2.2 s of tolerance (three tries)."),
"C06": dict(
    technique=RM + "size/conservation/cut-point oracle over recorded messages and request bodies, splitter driven exhaustively on small inputs",
    rule="a case is one generated body/message/string that's split; distinct by size and limit; strings up to length 11 over {a, newline} are enumerated with all limits",
    note="All messages were seen by a NATS server which accepts more than 1 MB, so oversized ones aren't hidden."),
"C07": dict(
    technique=RM + "generated rule sets and lines against the real filter (workers and complete filters), independent rule model as online oracle; race detector",
    rule="a case is one line given to a filter; distinct by number of rules, index and type of the matching rule, number of tags, sortedness and terminator",
    note="The model parses and matches lines on its own; rule sets share subjects and include names with equal hashes."),
"C08": dict(
    technique=RM + "conservation/order checker over everything several filters and workers publish under concurrent load; race detector",
    rule="a case is one input message; distinct by number of filters, workers and lines",
    note="Every line is unique, so each one is followed from its message to its subject."),
"C09": dict(
    technique=RM + "time window oracle in virtual time (testing/synctest) with exact boundaries, and a complete filter in real time; race detector",
    rule="a case is one line; distinct by max_time_delta, kind of timestamp and the outcome",
    note="Virtual time makes the filter's clock known exactly, so timestamps 0, 1 and 2 ns from the boundaries are judged."),
"C10": dict(
    technique=RM + "independent line protocol parser compares meaning, order and bytes of every line before and after the filter; race detector",
    rule="a case is one line; distinct by number of tags, sortedness, canonical escaping; counted as nontrivial with at least two tags",
    note="Lines come in messages of up to 25 neighbours with and without final newline."),
"C15": dict(
    technique=RM + "generated rule sets and messages against the real writer, rule model and conservation/order oracle over the accepted bodies; race detector",
    rule="a case is one line given to a writer; distinct by number of rules, outcome and matching rule",
    note="With one worker the written bytes are compared exactly, with several per message."),
"C11": dict(
    technique=RM + "the real aggregation driven in virtual time and complete downsamplers in real time, against an exact (arbitrary precision) aggregate model; race detector",
    rule="a case is one field of one series in one period; distinct by type, number of values, value range and escapes; nontrivial with at least two values",
    note="Every stream is fed twice, line by line and grouped into messages. Floats may differ by accumulated rounding (a few ulp per value)."),
"C12": dict(
    technique=RM + "virtual-clock driver stepping every period boundary with an exact window/emission model, and complete downsamplers in real time; race detector",
    rule="a case is one line relative to the clock; distinct by kind of timestamp, phase and period",
    note="In virtual time the emission instant is checked exactly, also the time the worker sleeps until; stalls of several periods are injected."),
"C13": dict(
    technique=RM + "differential: streams with malformed, mistyped and untimely lines against the model of the stream without them, virtual and real time; race detector",
    rule="a case is one bad line; distinct by its form and by whether its series exists",
    note="Errors are counted exactly per message and by the published metrics."),
"C14": dict(
    technique=RM + "framed messages from concurrent publishers through real writers into a fake InfluxDB; exactly-once/integrity oracle over the recorded requests; race detector",
    rule="a case is one message; distinct by number of subjects, workers, limits and message size",
    note="Every message carries its own length and checksum, so joined, cut or mixed bodies are seen; the request's path, query, and credentials are compared too."),
"C16": dict(
    technique=RM + "fault injection (refused, reset, timeout, 4xx, 5xx, early responses) at the fake InfluxDB; offline checker over the history of attempts; race detector",
    rule="a case is one write or retry; distinct by fault, attempt number and number of workers",
    note="The history of every body is judged: attempts are identical, go on until success and stop there."),
"C17": dict(
    technique=RM + "the real retry worker in virtual time (testing/synctest) against a queue model with exact instants; complete writers in real time; race detector",
    rule="a case is one attempt or one batch handed over; distinct by settings, state of the queue and outcome",
    note="In virtual time every attempt's instant and order is predicted exactly."),
"C18": dict(
    technique=RM + "model based: generated valid and malformed metric messages, /metrics compared with a map model; interval oracle for concurrent scrapes; stalled clients; race detector",
    rule="a case is one metrics message or one concurrent scrape; distinct by size and validity",
    note="Responses are parsed by an independent strict parser. Scrapes during updates are judged by bounds per metric."),
"C19": dict(
    technique=RM + "event counting model for every component compared with the published metrics at idle, monotonicity and label monitor over all metrics; faults at InfluxDB and NATS limits; race detector",
    rule="a case is one comparison of all counters of a component at idle; distinct by component and counts",
    note="Drops are judged by conservation: received + nats_dropped = sent."),
"C20": dict(
    technique=RM + "differential: parser and renderer against an independent strict codec, on generated, mutated, truncated and enumerated inputs with aliasing monitors",
    rule="a case is one metric, set or string; distinct by its text or shape",
    note="All strings of up to 6 characters over a 9 letter alphabet are enumerated, and label sections of up to 4 tokens; memory around the parsed slices is compared."),
"C27": dict(
    technique=RM + "differential: every primitive against independent reference definitions on enumerated, boundary and random inputs placed in guarded memory",
    rule="a case is one input; distinct by its text (enumerations count once per first token)",
    note="All strings of up to 6 bytes over a 9 letter alphabet and all sequences of up to 5 tokens are enumerated, numbers around all powers of 2 and 10 and around the limits of every precision. Names which begin with a separator only have to be survived."),
"C28": dict(
    technique=RM + "the built influx-spout-tap as a child process on a real NATS server; its output is compared line by line with an independent model of its selection, for generated rules and batches; race detector",
    rule="a case is one line judged or one run of the tap; distinct by kind of rule, selection and line",
    note="Lines contain formatting verbs, escapes and bytes outside ASCII; batches are split at every message boundary."),
"C29": dict(
    technique=RM + "model based: random operation sequences on real batches in virtual time (testing/synctest), compared with a byte log after every step",
    rule="a case is one operation; distinct by kind, size class, capacity and number of writes",
    note="Readers scribble over the memory they're offered, return data with errors and take time; contents, count, age and earlier copies are compared after every operation."),
"C30": dict(
    technique=RM + "complete deployments of the built programs with random rules, routes, queue groups, second filter stages, downsampler and InfluxDB faults; every line is followed from all listeners to every database by its id and compared with an independent model of its route; race detector",
    rule="a case is one line; distinct by route, number of tags, timestamp and whether InfluxDB failed",
    note="Exactly-once, placement and meaning are judged for every line; of the archive's lines the series, stamps and uniqueness are."),
"C31": dict(
    technique=RM + "concurrent histories checked for linearizability, interval bounds for concurrent reads and exactness of final values and of returned values; race detector",
    rule="a case is one recorded history or concurrent read; a history is nontrivial if operations overlap",
    note="Every history is explained by an exhaustive search for an order of its operations."),
"C32": dict(
    technique=RM + "complete writers against TLS servers whose certificates change between valid and six kinds of invalid, with a recorder on the wire and searches of wire, logs, metrics and requests for the credentials; race detector",
    rule="a case is one untrustworthy server met or one kind of answer; distinct by host, kind and answer",
    note="The certificate authority is generated and made a system one for the process; the wire is recorded below TLS."),
"C33": dict(
    technique=RM + "the built influx-spout as a child process in every mode with mostly default settings: input/output, sockets, metrics, profiles, concurrency of its writes and its exit status are observed; race detector",
    rule="a case is one run of the program; distinct by mode, settings and kind of failure",
    note="/etc/influx-spout.toml doesn't exist for these runs (C23 covers it on a file system in memory)."),
"C34": dict(
    technique=RM + "the built influx-spout as a child process under rounds of hostile work for each component: heap after garbage collection, goroutines and open files (pprof, /proc) are measured between rounds and must not grow with every one; CPU time of idle components; race detector",
    rule="a case is one measurement; distinct by load and what was measured",
    note="Something is judged as growing only if it did in each of five further rounds after a suspicion; a round is 2000 to 8000 operations."),
"C35": dict(
    technique=RM + "the built benchcheck as a child process on generated pairs of benchmark results, whose changes are significant (or not) and large enough (or not) by construction; exit status and output monitors",
    rule="a case is one measure of a benchmark in both files; distinct by unit, kind of change and settings",
    note="Significance is exact: values of old and new don't overlap and are as many as the U test needs, or too few."),
"C36": dict(
    technique=RM + "the built slowinfluxd as a child process met by up to 120 clients at the same time, going away clients, other paths and wrong arguments; each answer's time, status and body are monitored; race detector",
    rule="a case is one request answered or one run with wrong arguments; distinct by request, delay and number of concurrent ones",
    note="Lower bounds of times are exact; upper ones are generous and repeated before they count."),
"C21": dict(
    technique=RM + "race detector over complete deployments (listeners, filters, writers, downsampler, monitor) and the built programs under concurrent load with faults, reconnections and shutdown",
    rule="a case is one component run or phase of a deployment; distinct by component, settings and fault",
    note="A race is reported if one of its accesses is in the code under test."),
"C22": dict(
    technique=RM + "hostile inputs (random, mutated, oversized, malformed protocol data) against the built programs as child processes; liveness, crash and conservation-of-good-lines monitors; race detector",
    rule="a case is one hostile input; distinct by kind and size class",
    note="Every component has to process well-formed lines before, after and next to the garbage."),
"C23": dict(
    technique=RM + "differential: generated pairs of configuration files against an independent model of layering, defaults and validation",
    rule="a case is one pair of files; distinct by mode, settings present and outcome",
    note="What the documentation leaves open isn't judged."),
"C24": dict(
    technique=RM + "online probe monitors polling /healthz and /readyz through start (with delayed and silent NATS), run and shutdown; input at the first positive answer; concurrent state histories; race detector",
    rule="a case is one answer judged or one start/stop observed; distinct by component, phase and answer",
    note="Input sent right after the first positive /readyz has to be processed."),
"C25": dict(
    technique=RM + "start/stop histories at random moments, under load and with faults at InfluxDB, NATS and clients; monitors for bounded time, goroutines, ports, connections at both servers, open files; race detector",
    rule="a case is one stop or one failed start; distinct by component, situation and moment",
    note="After each one the same configuration is started again at once and has to work."),
"C26": dict(
    technique=RM + "fault injection at the NATS server and on the network to it (restarts, cuts, flapping, silent loss, outages longer than any finite number of attempts), conservation, probe and liveness monitors; race detector",
    rule="a case is one outage; distinct by component, kind and duration",
    note="The NATS client library is built with shorter reconnect intervals so that hundreds of attempts take seconds; a deployment of the built programs uses the real ones."),
}
