"""Which jobs decide which property."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUMPTIONS = []

class MC:
    """One scenario of a model-checking harness, explored to a deviation bound."""
    def __init__(self, harness, scenario, what, quick=1, thorough=2, qtime=90, ttime=1800, caps="", qcaps="", assumptions=()):
        self.target = "mc:" + harness; self.harness = harness; self.scenario = scenario; self.what = what
        self.name = scenario; self.q = quick; self.t = thorough; self.quick = quick is not None; self.qt = qtime; self.tt = ttime; self.caps = caps; self.qcaps = qcaps; self.assumptions = list(assumptions)
    def time(self, tier): return self.qt if tier == "quick" else self.tt
    def command(self, tier, base, known, left):
        c = [os.path.join(ROOT, "build/bin/mc_" + self.harness), "--scenario", self.scenario,
             "--bound", str(self.q if tier == "quick" else self.t), "--time", str(int(min(self.time(tier), left))),
             "--replay-out", base + ".replay", "--trace", base + ".trace"] + self.caps.split() + (self.qcaps.split() if tier == "quick" else [])
        for k in known: c += ["--known", k]
        return c

class SEQ:
    """An exhaustive enumeration of operation sequences or inputs on the real code against a reference model."""
    def __init__(self, prog, case, what, qargs="", targs=None, qtime=120, ttime=1800, mode="seq", quick=True, assumptions=()):
        self.target = mode + ":" + prog; self.quick = quick; self.prog = prog; self.case = case; self.what = what; self.name = case; self.mode = mode
        self.qa = qargs; self.ta = targs if targs is not None else qargs; self.qt = qtime; self.tt = ttime; self.assumptions = list(assumptions)
    def time(self, tier): return self.qt if tier == "quick" else self.tt
    def command(self, tier, base, known, left):
        c = [os.path.join(ROOT, "build/bin/%s_%s" % (self.mode, self.prog)), self.case, "--tier", tier, "--time", str(int(min(self.time(tier), left))), "--replay-out", base + ".replay"]
        c += (self.qa if tier == "quick" else self.ta).split()
        for k in known: c += ["--known", k]
        return c

class SCRIPT:
    def __init__(self, argv, name, what, qtime=200, ttime=3000, targets=None, quick=True, assumptions=()):
        self.quick = quick; self.target = targets; self.argv = argv; self.name = name; self.what = what; self.qt = qtime; self.tt = ttime; self.assumptions = list(assumptions)
    def time(self, tier): return self.qt if tier == "quick" else self.tt
    def command(self, tier, base, known, left):
        c = ["python3", os.path.join(ROOT, self.argv[0])] + self.argv[1:] + ["--tier", tier, "--time", str(int(min(self.time(tier), left))), "--replay-out", base + ".replay"]
        for k in known: c += ["--known", k]
        return c

C = "h_client"
client = {
 "replies": MC(C, "replies_any_order", "two asynchronous and one synchronous call over one connection; every reply order, duplicated and unsolicited replies"),
 "late": MC(C, "late_replies", "replies 50..300 ms after calls with a 150 ms timeout, then another call on the connection"),
 "late_stall": MC(C, "late_replies_stall", "the same with threads stalled for 120/400 ms at any scheduling point"),
 "lost": MC(C, "conn_lost", "connection closed or reset after every prefix of requests and (partial) replies, then a call that must reconnect"),
 "share": MC(C, "share_connection", "three threads making their first call to one address at once", quick=2, qtime=60),
 "cfail": MC(C, "connect_fail", "refused, silent (with and without connect timeout) and refused-while-pending connects, then a reachable server"),
 "sd": MC(C, "shutdown_pending", "Shutdown at every point of three calls with 0..3 answers, with threads stalled for 1 s at any point; calls after it"),
 "sdc": MC(C, "shutdown_connecting", "Shutdown while the connection is being made to a silent or refusing address", quick=1),
 "destroy": MC(C, "destroy_pending", "client destroyed or shut down by two threads with calls pending"),
}
S = "h_server"
F = "h_flow"
server = {
 "pipe": MC(S, "srv_pipeline", "two clients pipeline requests (inline, slow, unknown service/method, failing) in several write patterns; completion in every order", qtime=60),
 "fail": MC(S, "srv_service_failure", "services that fail with and without a reason, unknown services and methods, several requests on one connection", qtime=60),
 "partial": MC(S, "srv_partial_writes", "replies written under every short write / EAGAIN within the bound", qtime=120),
 "broken": MC(S, "srv_conn_broken", "connection reset or closed while requests are queued, running or being answered", qtime=50),
 "deadline": MC(S, "srv_deadline", "requests whose handling outlives the connection or the server, then Stop and restart", qtime=40),
 "stop": MC(S, "srv_stop", "Stop at every point of connections being made, requests running and replies being written, with stalled threads", qtime=60),
 "stop_pools": MC(S, "srv_stop_pools", "Stop with several io services, clients connecting and sending meanwhile", qtime=60),
 "accept_fail": MC(S, "srv_accept_fail", "accept failures, listener restarted by the maintain thread, Stop meanwhile", qtime=30),
 "destroy": MC(S, "srv_destroy", "server destroyed with idle and busy connections", qtime=40),
 "limit": MC(S, "srv_limit", "connections made and closed around the connection limit, in every order", qtime=40),
 "slots": MC(S, "srv_slots", "every history of connections opened in each state and closed in each way around the limit", quick=0, thorough=0),
 "keepalive": MC(S, "srv_keepalive", "keep-alive expiry against traffic, long calls and option changes", qtime=60),
}
flow = {
 "in": MC(F, "srv_limit_in", "server input throughput limit, several connections, limit changed and removed at run time", qtime=150, qcaps="--policies 1"),
 "out": MC(F, "srv_limit_out", "server output throughput limit, several connections, limit changed and removed at run time", qtime=150, qcaps="--policies 1"),
 "cin": MC(F, "cl_limit_in", "client input throughput limit", qtime=120, qcaps="--policies 1"),
 "cout": MC(F, "cl_limit_out", "client output throughput limit", qtime=120, qcaps="--policies 1"),
 "big": MC(F, "big_limit", "messages larger than the quota of a slice, each side and direction", quick=0, thorough=0),
 "slow": MC(F, "slow_peer", "a peer that reads slowly, limits of 1 and 2 MB changed on the way, both sides: what is held stays near the limit", quick=0, thorough=0),
 "sbp": MC(F, "srv_backpressure", "peer that does not read replies; pending buffer of the server connection", qtime=140),
 "cbp": MC(F, "cl_backpressure", "peer that does not read requests; pending buffer of the client connection", qtime=40),
 "cpw": MC(F, "cl_partial_writes", "requests written under every short write / EAGAIN within the bound", qtime=120),
 "cst": MC(F, "cl_send_timeout", "calls that time out while queued or half sent, followed by other calls", qtime=40),
 "cka": MC(F, "cl_keepalive", "client keep-alive expiry against calls and option changes", qtime=130),
 "csc": MC(F, "cl_send_chain", "calls issued one after the other while the previous request is being written: none is left in the queue", qtime=40),
 "ssc": MC(F, "srv_send_chain", "replies completed one after the other while the previous reply is being written: none is left in the queue", qtime=40),
 "srr": MC(F, "srv_resume_race", "reading suspended by the pending limit is resumed whichever way the drain and the suspension interleave", qtime=40),
}
W = "h_wire"
def wire(sc, what, **kw): kw.setdefault("quick", 0); kw.setdefault("thorough", 1 if kw["quick"] is not None else 0); return MC(W, sc, what, **kw)
wires = {
 "cut1": wire("srv_cut1", "six request streams (binary, HTTP, mixed, failing) cut at every byte; four read buffer sizes", qtime=120, thorough=0),
 "cut2": wire("srv_cut2", "request streams cut at every pair of bytes", quick=None),
 "cut3": wire("srv_cut3", "request streams cut at every triple of field boundaries, and in equal slices", quick=None),
 "short": wire("srv_short_reads", "short reads on the receiving side", quick=2, thorough=3, qtime=40),
 "ccut": wire("cl_cut", "reply streams (orders of three replies) cut at every pair of bytes", qtime=110, thorough=0),
 "ccutb": wire("cl_cut_big", "replies larger than the read buffer cut at every byte", qtime=40),
 "hdr": wire("srv_bad_header", "every combination of boundary values in the four header fields of a request, alone, followed by a request, followed by a close", qtime=60, thorough=0),
 "byte": wire("srv_bad_byte", "every byte of a request replaced by 45 values, removed, doubled; every truncation", qtime=60, thorough=0),
 "pair": wire("srv_bad_pair", "every pair of bytes of a request replaced", quick=None),
 "http": wire("srv_bad_http", "every byte of three HTTP requests replaced by 19 values, removed, doubled; every truncation", qtime=60, thorough=0),
 "hlen": wire("srv_http_length", "announced lengths of an HTTP body, header names in several cases", qtime=40),
 "hjson": wire("srv_http_json", "malformed, mistyped, out-of-range and deeply nested JSON documents", qtime=40),
 "chdr": wire("cl_bad_header", "every combination of boundary values in the header fields of a reply", qtime=60, thorough=0),
 "cbyte": wire("cl_bad_byte", "every byte of three kinds of reply replaced, removed, doubled; every truncation", qtime=60, thorough=0),
 "comp": wire("compress_echo", "calls with every request/response compression, six sizes, three kinds of content, client and server", qtime=60, thorough=0),
 "any": wire("any_message", "requests and replies of seven shapes, empty ones included, in both directions, every compression, HTTP JSON and protobuf", qtime=60, thorough=0),
 "sbadc": wire("srv_bad_compressed", "every byte of compressed requests changed, removed, truncated", qtime=80, thorough=0),
 "cbadc": wire("cl_bad_compressed", "every byte of compressed replies changed, removed, truncated", qtime=60, thorough=0),
}
def seqs(prog, **cases): return [SEQ(prog, c, w) for c, w in cases.items()]
compress = seqs("s_compress",
  round_trip="30 sizes around every block boundary x 4 contents x 4 codecs x chunkings of both underlying streams x writing and reading patterns: out == in, byte counts, no leak, no bad memory handed to zlib",
  write_patterns="every sequence of partial writes, back-ups and flushes up to the depth",
  read_patterns="every sequence of reads, back-ups and skips up to the depth, then the rest",
  abandoned="the reader stops after any number of reads, then everything is destroyed",
  corrupt="every byte of short compressed streams changed to every value, removed, everything after it cut off",
  garbage="all short strings over 8 byte values as compressed data",
  messages="protobuf messages of every size near block boundaries through real buffers",
  members="concatenated gzip or zlib streams")
buffers = seqs("s_buffer",
  write_read="every sequence of write-side operations (Next, BackUp, Reserve, SetData, Append) up to the depth, then a read, against a byte-string model",
  read_ops="every sequence of read-side operations (Next, BackUp, Skip, ByteCount, iteration) up to the depth against the model",
  swap_chain="every sequence of Append / SwapOut / Clear between several buffers up to the depth against the model",
  sharing="two buffers sharing blocks, destroyed in every order",
  messages="sequences of messages of 8 sizes, empty ones included, serialized into and parsed from a buffer")
http = seqs("s_http",
  targets="every request target of up to 5 tokens over '/', letters, dots, percent escapes, blanks: path decoded as by a reference decoder, or rejected",
  queries="every query string of up to 5 tokens over '=', '&', '+', escapes: parameters decoded as by the reference",
  header_chars="every byte in every position of header names and values, with and without blanks",
  request_line="every deviation of the request line: methods, versions, blanks, line ends",
  streams="sequences of requests on one connection, cut at every point, through the real parser",
  bodies="bodies of every announced and actual length over block boundaries")
routing = seqs("s_http",
  servlets="every register / unregister / route sequence up to the depth over paths with redundant slashes against a reference map",
  ownership="who frees servlets under every sequence of registrations and server destruction",
  pages="every built-in page with every parameter shape")
json = seqs("s_json",
  one_field="every field of every type (singular, repeated, nested) at every boundary value: message -> JSON -> message",
  two_fields="every pair of fields set at boundary values",
  nested="every shape of nested and repeated sub-messages up to the depth",
  literals="every JSON literal for every field type: accepted with the right value or rejected",
  documents="every JSON text of up to 6 tokens over the grammar: no crash, accepted only if valid",
  object_without_allocator="pb2jsonobject without allocator returns a usable object",
  http_calls="every field value through an HTTP call in every encoding of request and response",
  http_sizes="response sizes around every buffer boundary: exact Content-Length",
  http_errors="every kind of failing HTTP call gives a complete error response",
  http_reasons="every byte value in the reason of a failed call: the error response is valid JSON")
strings = seqs("s_string",
  classes="every byte through the character classes", letter_case="every string of 2 bytes",
  trim="every string of up to 2 bytes, or 6 over blanks and letters", prefix_suffix="every text and match over 3 letters",
  split_join="every text of up to 7 and delimiter of up to 3 over 3 letters, against a reference splitter", join_split="every list of parts",
  replace="every text, pattern and replacement over 2-3 letters",
  c_escape="every string of up to 2 bytes, or 4 over special characters: escaped text is printable, stands for the input, is unescaped to it",
  c_unescape="every escape sequence over 11 characters against a reference decoder",
  xml_escape="every string of up to 2 bytes, or 4 over special characters", json_escape="the same, decoded as a JSON string",
  url="every string x flags: encoding against a reference, decoded back", url_decode="every text x flags against a reference decoder",
  hex="round trip", hex_text="every text: decoded or refused", base64="round trip against a reference encoder", base64_text="every text: decoded or refused",
  numbers="hexadecimal rendering", resize="every old and new size")
U = "h_units"
timeouts = [
 MC(U, "tm_ops", "every sequence of add / add repeating / erase / clear / wait operations up to the depth, in virtual time, against a reference", quick=0, thorough=0),
 MC(U, "tm_inside", "every choice of what a callback does to its own manager: add, erase itself, erase another, clear", quick=0, thorough=0),
 MC(U, "tm_race", "events becoming due while other threads add, erase, clear and destroy the manager", quick=2, thorough=3, qtime=150),
 MC(U, "tm_users", "two threads adding and erasing events of one manager at once, every schedule up to the bound", quick=2, thorough=3),
 MC(U, "tm_late_timer", "timer thread delayed past several deadlines", quick=1, thorough=2),
]
groups = [
 MC(U, "tg_tasks", "tasks posted and dispatched from two threads and from tasks, start and stop at any point, started again", quick=2, thorough=3, qtime=40),
 MC(U, "tg_init", "init functions that fail in any subset of the threads, with tasks posted before", quick=2, thorough=3, qtime=40),
 MC(U, "tg_pool", "io service pool: services handed out round robin, tasks of stopped pools, start and stop", quick=2, thorough=3, qtime=40),
 MC(U, "tg_server", "work threads' init and destroy functions of a server that is started, fails to start, is stopped and started again", quick=1, thorough=2, qtime=40),
 MC(U, "tg_timer", "timer worker: periods kept, no run after stop, stop while running", quick=2, thorough=3, qtime=90),
]
locks = [
 MC(U, "lk_exclusion", "three threads in critical sections of every lock, readers and writers, try-locks", quick=3, thorough=4, qtime=40),
 MC(U, "lk_progress", "every waiter of every lock gets it in the end", quick=3, thorough=4, qtime=40),
 MC(U, "lk_condition", "signal and broadcast before, during and after waits", quick=3, thorough=5, qtime=40),
 MC(U, "lk_timed_wait", "timed waits against signals before, at and after the deadline", quick=3, thorough=4, qtime=40),
 MC(U, "lk_event", "wait events set before, during and after waits, reset", quick=3, thorough=5, qtime=40),
 MC(U, "lk_counter", "counters raised and lowered by several threads", quick=3, thorough=5, qtime=40),
] + [SEQ("s_atomic", c, w, mode="fast") for c, w in (
 ("values", "every atomic operation on boundary values of every type against a reference"),
 ("pairs32", "every pair of atomic operations of two threads on one 32-bit variable, interleaved at every machine instruction"),
 ("pairs64", "the same for 64 bits"),
 ("refcount", "two threads copying, assigning, locking and dropping shared and weak pointers, interleaved at every machine instruction of the reference counting"))] + seqs("s_ptr",
  sequences="every sequence of operations on shared, weak and shared-from-this pointers up to the depth against a reference ownership model",
  scoped="every sequence of operations on scoped pointers and arrays")
registry = [
 MC("h_registry", "reg_race", "three threads registering services whose names share a cache slot and looking them up", quick=2, thorough=3, qtime=40),
 MC("h_registry", "stat_race", "calls ending in two threads while time slots advance and a third thread reads, also at the end of the ring", quick=3, thorough=5, qtime=40),
 MC("h_registry", "stat_server", "a real server: calls that succeed, fail, take time, lose their connection or cannot be executed, then what Stat, Health, List and Status say", quick=0, thorough=1),
] + seqs("s_registry",
  registry="every sequence of registrations (names sharing a cache slot, owned or not, repeated) with all lookups and lists after each, against a reference map",
  registry_many="more services than cache slots",
  stats="every sequence of ends of calls and slot advances from seven places in the ring, read for fourteen periods, against a reference accumulator",
  builtin_list_stat="every sequence of register / call / slot / list / stat requests to the builtin services",
  builtin_options="builtin services with the server or registry gone; every subset of options updated")
closures = seqs("s_closure", ext="every generated closure class: function, method and shared-pointer method, once and permanent, every count of bound and call-time arguments, values and references", plain="the same for the closures without call-time arguments")
D = "h_dyn"
dynamic = [
 MC(D, "dyn_ops", "every sequence of call / reply / failure / add / remove / health check operations over two servers up to the depth, against a reference balancer", quick=0, thorough=0, qtime=60),
 MC(D, "dyn_ops3", "the same over three servers with a shorter alphabet", quick=0, thorough=0, qtime=80),
 MC(D, "dyn_answers", "calls answered at once, well or badly, by two or three servers any of which may be ill: which server is next while some or all are suspected", quick=0, thorough=0, qtime=60),
 MC(D, "dyn_answers_deep", "the same, nine operations", quick=None, thorough=0),
 MC(D, "dyn_ops_deep", "the same, one operation deeper", quick=None, thorough=0),
 MC(D, "dyn_edge", "channels without servers, with unresolvable or duplicate addresses, shut down, never initialised, restarted health checks", quick=0, thorough=0),
 MC(D, "dyn_race", "two callers, failing servers and list changes at the same time", quick=1, thorough=2, qtime=90),
 MC(D, "dyn_destroy", "channel destroyed with calls in flight, while callers, health checks or the address provider are active", quick=1, thorough=2, qtime=120),
]
mocks = [
 MC("h_mock", "mock_ops", "every sequence of enable / disable / register / clear / call operations up to the depth against a reference map", quick=0, thorough=0, qtime=60),
 MC("h_mock", "mock_ops_deep", "the same, deeper", quick=None, thorough=0),
 MC("h_mock", "mock_race", "calls while other threads register and clear mocks", quick=2, thorough=3, qtime=90),
]
agents = [
 MC("h_agent", "agent_calls", "calls by name: every combination of method, request format and content, sync / async, and service behaviour, against the typed call", quick=0, thorough=0),
 MC("h_agent", "agent_listings", "every sequence of answers to the queries for descriptions, good and bad, with calls and listings in between", quick=0, thorough=0),
 MC("h_agent", "agent_update", "a call in flight while the descriptions are updated (to the same, other or no descriptions), other threads call and list, or the agent is destroyed", quick=1, thorough=2, qtime=120),
 MC("h_agent", "agent_inside", "completion callbacks, of early failures and of replies, that list, call, update and destroy", quick=1, thorough=2, qtime=120),
]
controls = [
 MC("h_ctl", "ctl_options", "timeouts and compression from controller, method and service options, in every combination; again after Reset()", quick=0, thorough=0),
 MC("h_ctl", "ctl_outcomes", "every sequence of outcomes of calls on one controller with Reset() in between: results, texts, sent bytes, addresses", quick=0, thorough=0),
 MC("h_ctl", "ctl_service", "what services see of requests of both protocols from two connections at once, and what they report back", quick=1, thorough=2, qtime=60),
]
PROPERTIES = {
 "C01": [client[k] for k in ("replies", "late_stall", "lost", "cfail", "sd", "sdc")] + [flow["csc"]],
 "C02": [client[k] for k in ("replies", "late", "late_stall", "lost", "share")] + [wires["any"]],
 "C03": [client[k] for k in ("late", "late_stall", "cfail")] + [flow["cst"]],
 "C04": [client[k] for k in ("sd", "sdc", "destroy")] + [server[k] for k in ("stop", "stop_pools", "accept_fail", "destroy", "deadline")],
 "C05": [client[k] for k in ("share", "lost", "cfail", "sdc")],
 "C06": [flow[k] for k in ("csc", "ssc", "srr", "cst")] + [server["partial"], flow["cpw"], flow["sbp"]],
 "C07": [wires[k] for k in ("ccutb", "short", "ccut", "cut1", "cut2", "cut3")],
 "C08": [wires[k] for k in ("hdr", "byte", "http", "hlen", "hjson", "chdr", "cbyte", "sbadc", "cbadc", "pair")],
 "C13": [wires[k] for k in ("comp", "any", "sbadc", "cbadc")] + compress,
 "C14": buffers + [MC(U, "buf_refs", "a message shared by the buffers of several threads, which copy, read, drop and recycle their shares at once", quick=3, thorough=5, qtime=40)],
 "C15": http + [wires[k] for k in ("hlen", "http")],
 "C16": json + [wires["hjson"], wires["any"]],
 "C17": routing + [MC(S, "srv_servlets", "servlets registered and unregistered by two threads while requests for them and their parents are routed", qtime=60)],
 "C24": strings,
 "C09": [server[k] for k in ("pipe", "fail", "broken", "deadline")] + [flow["ssc"], wires["any"]],
 "C10": [server["limit"], server["slots"], server["keepalive"], flow["cka"]],
 "C11": [flow[k] for k in ("big", "in", "out", "cin", "cout")],
 "C12": [flow["srr"], flow["slow"], flow["cbp"], flow["sbp"]],
 "C19": timeouts, "C20": groups + [server["stop_pools"]], "C23": locks,
 "C18": registry, "C21": closures, "C22": dynamic, "C26": mocks, "C27": agents, "C28": controls,
 "C25": [SCRIPT(["py/client_check.py", c], c, w) for c, w in (
  ("histories", "every history of calls up to the depth: server behaviours, connection faults, reply delays against deadlines"),
  ("segments", "replies delivered in every segmentation, stalls and ends of stream at every byte"),
  ("big", "requests and replies around the buffer sizes of the socket calls, short sends included"),
  ("interface", "addresses, method names, timeouts and controllers of every shape the interface takes"))],
}
