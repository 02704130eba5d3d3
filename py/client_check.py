#!/usr/bin/env python3
"""Exhaustive exploration of the Python client (C25): the real client.py runs against a simulated socket and clock.
Every history of calls, server behaviours, connection faults and read segmentations up to the depth is executed.
usage: client_check.py CASE [--tier quick|thorough] [--time S] [--replay-out F] [--replay F] [--known SIG]..."""
import importlib.util, json, os, re, struct, sys, types
import time as real_time
REPO = os.environ.get("VERIF_REPO", "/repo")
CLIENT = os.path.join(REPO, "python/sofa/pbrpc/client.py"); PROTO = os.path.join(REPO, "src/sofa/pbrpc/rpc_meta.proto")

class Violation(BaseException):
    def __init__(self, sig, msg): self.sig, self.msg = sig, msg
class Skip(BaseException): pass
class Hang(BaseException): pass          # blocked for ever without a deadline: the end of a history

# ---------------------------------------------------------------------------------------------- decisions
class Chooser:
    def __init__(self, fixed=None): self.path, self.limit, self.depth, self.fixed, self.nodes, self.ops = [], [], 0, fixed, 0, 0; self.trace = []
    def pick(self, n, label):
        if n <= 1: return 0
        self.ops += 1
        if self.fixed is not None: v = self.fixed[self.depth] if self.depth < len(self.fixed) else 0; self.depth += 1; self.trace.append("pick %s = %d of %d" % (label, v, n)); return min(v, n - 1)
        if self.depth == len(self.path): self.path.append(0); self.limit.append(n); self.nodes += 1
        v = self.path[self.depth]; self.limit[self.depth] = n; self.depth += 1
        if self.depth == 3 and self.workers > 1:      # this worker's share of the prefixes
            if self.path[:3] != self.last: self.last = self.path[:3]; self.count += 1
            if self.count % self.workers != self.me: raise Skip()
        return v
    me, workers, last, count = 0, 1, None, 0
    def next(self):
        del self.path[self.depth:]; del self.limit[self.depth:]
        while self.path:
            if self.path[-1] + 1 < self.limit[-1]: self.path[-1] += 1; self.depth = 0; return True
            self.path.pop(); self.limit.pop()
        return False
C = None
def of(seq, label): return seq[C.pick(len(seq), label)]
def check(c, sig, msg, *a):
    if not c: raise Violation(sig, msg % a if a else msg)

# ---------------------------------------------------------------------------------------------- protobuf, as far as the meta message needs it
def varint(v):
    v &= (1 << 64) - 1; r = b""
    while v > 127: r += bytes([v & 127 | 128]); v >>= 7
    return r + bytes([v])
class RpcException(Exception): pass
class DecodeError(Exception): pass
class EncodeError(Exception): pass
def unvarint(b, i):
    v = s = 0
    while True:
        if i >= len(b) or s > 63: raise DecodeError("truncated")
        v |= (b[i] & 127) << s; s += 7; i += 1
        if b[i - 1] < 128: return v, i
FIELDS = {}
for m in re.finditer(r"^\s*(required|optional)\s+(\w+)\s+(\w+)\s*=\s*(\d+)", open(PROTO).read(), re.M): FIELDS[m.group(3)] = (int(m.group(4)), m.group(2), m.group(1) == "required")
ENUMS = {m.group(1): int(m.group(2)) for m in re.finditer(r"^\s*([A-Z]+)\s*=\s*(\d+)\s*;", open(PROTO).read(), re.M)}
class RpcMeta(object):
    def __init__(self): self.__dict__["v"] = {}
    def __getattr__(self, k):
        if k not in FIELDS: raise AttributeError(k)
        return self.v.get(k, "" if FIELDS[k][1] == "string" else False if FIELDS[k][1] == "bool" else 0)
    def __setattr__(self, k, x):
        if k not in FIELDS: raise AttributeError(k)
        t = FIELDS[k][1]
        if t == "string":
            if not isinstance(x, str): raise TypeError(k)
        elif not isinstance(x, int): raise TypeError(k)
        elif t == "uint64" and not 0 <= x < 1 << 64: raise ValueError(k)
        self.v[k] = x
    def HasField(self, k): return k in self.v
    def Clear(self): self.v.clear()
    def IsInitialized(self): return all(k in self.v for k in FIELDS if FIELDS[k][2])
    def SerializePartialToString(self):
        r = b""
        for k in sorted(self.v, key=lambda k: FIELDS[k][0]):
            n, t, _ = FIELDS[k]
            if t == "string": b = self.v[k].encode(); r += varint(n << 3 | 2) + varint(len(b)) + b
            else: r += varint(n << 3) + varint(int(self.v[k]))
        return r
    def SerializeToString(self):
        if not self.IsInitialized(): raise EncodeError("missing required fields")
        return self.SerializePartialToString()
    def MergeFromString(self, b):
        if not isinstance(b, (bytes, bytearray, memoryview)): raise TypeError("bytes needed")
        b = bytes(b); i = 0; by_n = {FIELDS[k][0]: k for k in FIELDS}
        while i < len(b):
            t, i = unvarint(b, i); n, w = t >> 3, t & 7
            if n == 0: raise DecodeError("field 0")
            if w == 0: x, i = unvarint(b, i)
            elif w == 2:
                l, i = unvarint(b, i)
                if i + l > len(b): raise DecodeError("truncated")
                x = b[i:i + l]; i += l
            elif w in (1, 5):
                i += 8 if w == 1 else 4; x = None
                if i > len(b): raise DecodeError("truncated")
            else: raise DecodeError("wire type")
            k = by_n.get(n)
            if k is None: continue
            ft = FIELDS[k][1]
            if ft == "string" and w == 2:
                try: self.v[k] = x.decode()
                except UnicodeDecodeError: raise DecodeError("utf8")
            elif ft != "string" and w == 0: self.v[k] = bool(x) if ft == "bool" else (x - (1 << 64) if ft.startswith("int") and x >> 63 else x)
        return len(b)
    def ParseFromString(self, b): self.Clear(); return self.MergeFromString(b)
    @classmethod
    def FromString(cls, b): m = cls(); m.MergeFromString(b); return m
for k, x in ENUMS.items(): setattr(RpcMeta, k, x)

class Message(object):
    def __init__(self, b=b""): self.b = b
    def SerializeToString(self): return self.b
    def SerializePartialToString(self): return self.b
    def IsInitialized(self): return True
    def ParseFromString(self, b): self.MergeFromString(b)
    def MergeFromString(self, b):
        if not isinstance(b, (bytes, bytearray, memoryview)): raise TypeError("bytes needed")
        if bytes(b[:1]) == b"\xff": raise DecodeError("bad body")
        self.b = bytes(b)
    @classmethod
    def FromString(cls, b): m = cls(); m.MergeFromString(b); return m

# ---------------------------------------------------------------------------------------------- simulated clock and sockets
class World:
    def __init__(self): self.now = 1000.0; self.socks = []; self.server = None; self.connects = 0; self.segment = None
W = None
class timeout(OSError): pass
class Sock(object):
    def __init__(self, *a, **k): self.to = None; self.state = "new"; self.rx = []; self.tx = b""; self.closed = False; W.socks.append(self); self.recvs = 0
    def settimeout(self, t):
        check(not self.closed, "use_after_close", "settimeout on a closed socket")
        if t is not None and t < 0: raise ValueError("Timeout value out of range")
        self.to = t
    def gettimeout(self): return self.to
    def setblocking(self, f): self.to = None if f else 0.0
    def setsockopt(self, *a): pass
    def getsockopt(self, *a): return 0
    def fileno(self): return 3
    def bind(self, a): raise Violation("bind", "the client binds a socket")
    def wait(self, until):
        """blocks until the given time (None: for ever) or the timeout"""
        if self.to is not None and (until is None or until > W.now + self.to):
            if self.to == 0.0: raise BlockingIOError("would block")
            W.now += self.to; raise timeout("timed out")
        if until is None: raise Hang()
        W.now = max(W.now, until)
    def connect(self, a):
        check(not self.closed and self.state == "new", "use_after_close", "connect on a used socket"); check(a == ("server.host", 8888), "address", "connects to %r", a); W.connects += 1
        how, delay = W.server.connect(self)
        if delay is None: self.wait(W.now + 127 if self.to is None or self.to > 127 else None); raise OSError(110, "Connection timed out")
        self.wait(W.now + delay)
        if how == "refused": self.state = "bad"; raise ConnectionRefusedError(111, "Connection refused")
        self.state = "open"
    def connect_ex(self, a):
        try: self.connect(a); return 0
        except OSError as e: return e.errno or 110
    def sendall(self, data, flags=0):
        if self.closed: raise OSError(9, "Bad file descriptor")
        check(self.state == "open", "not_connected", "send on a socket that is not connected")
        data = bytes(data); how, n, delay = W.server.sending(self, data)
        self.tx += data[:n]; W.server.received(self)
        if how == "block": self.wait(None if delay is None else W.now + delay); self.tx += data[n:]; W.server.received(self); return None
        if how == "error": self.state = "broken"; raise BrokenPipeError(32, "Broken pipe")
    def send(self, data, flags=0):
        data = bytes(data); n = min(len(data), 7) if len(data) > 7 else len(data); self.sendall(data[:n]); return n
    def recv(self, n, flags=0):
        if self.closed: raise OSError(9, "Bad file descriptor")
        check(self.state in ("open", "broken"), "not_connected", "recv on a socket that is not connected"); check(n > 0, "recv", "recv of %d bytes", n)
        self.recvs += 1; check(self.recvs < 100000, "livelock", "receives for ever")
        if not self.rx: self.wait(None)
        t, x = self.rx[0]; self.wait(t)
        if x == "eof": return b""
        if x == "reset": self.state = "broken"; self.rx[0] = (t, "eof"); raise ConnectionResetError(104, "Connection reset by peer")
        k = min(n, len(x)) if W.segment is None else max(1, min(n, len(x), W.segment))
        if k < len(x): self.rx[0] = (t, x[k:])
        else: self.rx.pop(0)
        return x[:k]
    def recv_into(self, buf, n=0, flags=0): d = self.recv(n or len(buf)); buf[:len(d)] = d; return len(d)
    def shutdown(self, how): pass
    def close(self): self.closed = True; self.rx = []
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def create_connection(a, timeout=None, source_address=None):
    s = Sock(); s.settimeout(timeout)
    try: s.connect(a)
    except BaseException: s.close(); raise
    return s
def fake_modules():
    s = types.ModuleType("socket"); import socket as rs
    for k in dir(rs):
        if k.isupper(): setattr(s, k, getattr(rs, k))
    s.socket = Sock; s.error = OSError; s.timeout = timeout; s.gaierror = rs.gaierror; s.herror = rs.herror; s.create_connection = create_connection; s.setdefaulttimeout = lambda t: check(False, "global", "changes the process-wide default timeout"); s.getdefaulttimeout = lambda: None
    t = types.ModuleType("time"); t.time = lambda: W.now; t.monotonic = lambda: W.now - 900.0; t.clock = lambda: W.now; t.perf_counter = t.monotonic
    def sleep(x): W.now += x
    t.sleep = sleep
    g = types.ModuleType("google"); gp = types.ModuleType("google.protobuf"); sv = types.ModuleType("google.protobuf.service"); ms = types.ModuleType("google.protobuf.message"); g.__path__ = []; gp.__path__ = []
    sv.RpcException = RpcException; sv.RpcController = type("RpcController", (object,), {}); sv.RpcChannel = type("RpcChannel", (object,), {}); ms.DecodeError = DecodeError; ms.EncodeError = EncodeError; ms.Message = Message; ms.Error = Exception
    g.protobuf = gp; gp.service = sv; gp.message = ms
    so = types.ModuleType("sofa"); sp = types.ModuleType("sofa.pbrpc"); so.__path__ = []; sp.__path__ = []; rm = types.ModuleType("sofa.pbrpc.rpc_meta_pb2"); rm.RpcMeta = RpcMeta; so.pbrpc = sp; sp.rpc_meta_pb2 = rm
    for k, x in ENUMS.items(): setattr(rm, k, x)
    return {"socket": s, "time": t, "google": g, "google.protobuf": gp, "google.protobuf.service": sv, "google.protobuf.message": ms, "sofa": so, "sofa.pbrpc": sp, "sofa.pbrpc.rpc_meta_pb2": rm}
def load():
    mods = fake_modules(); saved = {k: sys.modules.get(k) for k in mods}; sys.modules.update(mods)
    try: spec = importlib.util.spec_from_file_location("client_under_test", CLIENT); m = importlib.util.module_from_spec(spec); sys.dont_write_bytecode = True; spec.loader.exec_module(m)
    finally:
        for k, x in saved.items():
            if x is None: sys.modules.pop(k, None)
            else: sys.modules[k] = x
    return m
CL = None

# ---------------------------------------------------------------------------------------------- the server
def frame(meta, body, magic=b"SOFA", dm=0, dd=0, dt=0): return struct.pack("<4siqq", magic, len(meta) + dm, len(body) + dd, len(meta) + len(body) + dt) + meta + body
def reply(seq, body, failed=None, code=None, reason=None, type_=None):
    m = RpcMeta(); m.type = ENUMS["RESPONSE"] if type_ is None else type_; m.sequence_id = seq
    if failed is not None: m.failed = failed
    if code is not None: m.error_code = code
    if reason is not None: m.reason = reason
    return frame(m.SerializePartialToString(), body)
# behaviour -> (events as (delay, bytes|'eof'|'reset'), outcome): ok, fail, error (an error must be raised), time (nothing comes within any deadline), maybe (works; junk follows)
def behave(name, seq, body):
    good = reply(seq, body, False)
    if name == "good": return [(0, good)], "ok"
    if name == "no_failed_field": return [(0, reply(seq, body))], "ok"
    if name == "two_packets": return [(0, good[:30]), (0.1, good[30:])], "ok"
    if name == "service_failure": return [(0, reply(seq, b"", True, 12345, "because"))], "fail"
    if name == "late": return [(1.5, good)], "late"
    if name == "dribble": return [(0.3 * (i + 1), good[i * 6:(i + 1) * 6 if i < 5 else None]) for i in range(6)], "late"
    if name == "nothing": return [], "time"
    if name == "close": return [(0, "eof")], "error"
    if name == "close_middle": return [(0, good[:-1]), (0, "eof")], "error"
    if name == "close_header": return [(0, good[:10]), (0, "eof")], "error"
    if name == "reset": return [(0, "reset")], "error"
    if name == "reset_middle": return [(0, good[:30]), (0.2, "reset")], "error"
    if name == "stale": return [(0, reply(seq + 7, b"STALE", False)), (0.01, good)], "error"
    if name == "old_seq": return [(0, reply(seq - 1, b"STALE", False)), (0, good)], "error"
    if name == "request_type": return [(0, reply(seq, body, False, type_=ENUMS["REQUEST"]))], "error"
    if name == "magic": return [(0, b"HTTP" + good[4:])], "error"
    if name == "sizes": return [(0, frame(good[24:24 + 10], body, dt=1) + b"x" * 40)], "error"
    if name == "negative": return [(0, struct.pack("<4siqq", b"SOFA", -5, 5, 0) + good)], "error"
    if name == "negative_data": return [(0, struct.pack("<4siqq", b"SOFA", len(good), -len(good) - 100, -100) + good)], "error"
    if name == "bad_meta": return [(0, frame(b"\x0a\xff\xff\xff\xff\x0f", body))], "error"
    if name == "empty_meta": return [(0, frame(b"", body))], "error"
    if name == "bad_body": return [(0, reply(seq, b"\xffbad", False))], "error"
    if name == "junk_after": return [(0, good + b"junk")], "maybe"
    if name == "dup_after": return [(0, good + good)], "maybe"
    if name == "dup_later": return [(0, good), (0.001, good)], "maybe"
    if name == "close_after": return [(0, good), (0, "eof")], "maybe"
    if name == "reset_after": return [(0, good), (0.001, "reset")], "maybe"
    raise KeyError(name)
REPLIES = ["good", "two_packets", "service_failure", "late", "dribble", "nothing", "close", "close_middle", "close_header", "reset", "reset_middle", "stale", "old_seq", "request_type", "magic", "sizes", "negative", "negative_data", "bad_meta", "empty_meta", "bad_body", "junk_after", "dup_after", "dup_later", "close_after", "reset_after", "no_failed_field"]
FAULTS = ["refused", "blackhole", "slow_connect", "send_error", "send_partial_error", "send_block", "send_slow"]
FEWER = ["good", "service_failure", "late", "nothing", "close", "close_middle", "stale", "magic", "dup_later", "close_after", "blackhole", "send_partial_error"]
class Server:
    def __init__(self): self.plan = "good"; self.body = b""; self.requests = []; self.expect = None; self.sent_fault = False
    def connect(self, s):
        if self.plan == "refused": return "refused", 0
        if self.plan == "blackhole": return "hole", None
        if self.plan == "slow_connect": return "ok", 1.5
        return "ok", 0
    def sending(self, s, data):
        if not self.sent_fault:
            if self.plan == "send_error": self.sent_fault = True; return "error", 0, 0
            if self.plan == "send_partial_error": self.sent_fault = True; return "error", len(data) // 2, 0
            if self.plan == "send_block": self.sent_fault = True; return "block", len(data) // 2, None
            if self.plan == "send_slow": self.sent_fault = True; return "block", len(data) // 2, 1.5
        return "ok", len(data), 0
    def received(self, s):
        while len(s.tx) >= 24:
            magic, ms, ds, ts = struct.unpack("<4siqq", s.tx[:24])
            check(magic == b"SOFA" and ms > 0 and ds >= 0 and ts == ms + ds, "request", "the request header is not well-formed: %r %d %d %d", magic, ms, ds, ts)
            if len(s.tx) < 24 + ts: return
            raw = s.tx[24:24 + ms]; body = s.tx[24 + ms:24 + ts]; s.tx = s.tx[24 + ts:]
            m = RpcMeta()
            try: m.ParseFromString(raw)
            except DecodeError: check(False, "request", "the request meta does not parse")
            check(m.IsInitialized() and m.type == ENUMS["REQUEST"] and m.HasField("sequence_id"), "request", "the meta is not that of a request: %r", m.v)
            check(self.expect is not None, "request", "a request outside of a call"); check(m.method == self.expect[0] and body == self.expect[1], "request", "request for %r with %r, expected %r with %r", m.method, body, self.expect[0], self.expect[1])
            check(m.sequence_id not in [q for q, _ in self.requests], "request", "sequence id %d used twice", m.sequence_id)
            self.expect = None; self.requests.append((m.sequence_id, body))
            self.answer(s, m.sequence_id)
    def answer(self, s, seq):
        ev, self.outcome = behave(self.plan if self.plan in REPLIES else "good", seq, self.body)
        if self.cuts is not None:
            whole = b"".join(b for _, b in ev); ev = []; last = 0
            for c in sorted(set(self.cuts) | {len(whole)}):
                if c > last: ev.append((0.01 * len(ev) if self.spread else 0, whole[last:c])); last = c
        t = W.now
        for d, b in ev: s.rx.append((W.now + d, b))
    cuts = None; spread = False; outcome = None
class Method(object):
    def __init__(self, n): self.full_name = n; self.name = n.rsplit(".")[-1]
class Run:
    """one channel, a history of calls, and what is allowed to happen"""
    def __init__(self):
        global W
        W = World(); W.server = self.s = Server(); self.ch = CL.Channel("server.host:8888"); self.dirty = False; self.n = 0; self.obs = []
    def call(self, plan, to, body=b"reply", cntl=None):
        self.n += 1; s = self.s; s.plan, s.body, s.sent_fault, s.outcome = plan, body + bytes([48 + self.n]) if body else body, False, None
        want = s.body; c = cntl or CL.Controller(); method = Method("pkg.Service.Method%d" % self.n); req = Message(b"request%d" % self.n); s.expect = (method.full_name, req.b); nreq = len(s.requests)
        if to is not None: c.SetTimeout(to)
        t0 = W.now; fresh = not any(not k.closed and k.state == "open" for k in W.socks); r = e = None
        what = "call %d (%s, timeout %s)" % (self.n, plan, to)
        try: r = self.ch.CallMethod(method, c, req, Message, None)
        except Hang: check(to is None, "deadline", "%s blocks for ever", what); raise
        except Exception as x: e = x
        dt = W.now - t0; s.expect = None
        check(len(s.requests) - nreq <= 1, "request", "%s sent %d requests", what, len(s.requests) - nreq)
        if to is not None: check(dt <= to + 0.01, "deadline", "%s returned after %.2f s", what, dt)
        check(sum(not k.closed for k in W.socks) <= 1, "leak", "%s leaves %d sockets open", what, sum(not k.closed for k in W.socks))
        if e is not None: check(isinstance(e, (CL.Error, DecodeError)), "exception", "%s raised %s: %s", what, type(e).__name__, e); check(not c.Failed(), "controller", "%s raised an error and set the controller failed", what)
        # what must have happened
        out = s.outcome or "none"; timed = to is not None; relevant = fresh or plan not in ("refused", "blackhole", "slow_connect")
        if plan in ("refused", "send_error", "send_partial_error") and relevant: exp = "error"
        elif plan == "blackhole" and relevant: exp = "timeout" if timed else "error"
        elif plan in ("slow_connect", "send_slow") and relevant: exp = "timeout" if timed and to < 1.5 else "ok"
        elif plan == "send_block": exp = "timeout" if timed else "error"
        elif out == "late": exp = "timeout" if timed and to < 1.5 else "ok"
        elif out == "time": exp = "timeout" if timed else "error"
        else: exp = {"ok": "ok", "maybe": "ok", "fail": "fail", "error": "error", "none": "error"}[out]
        got = "ok" if e is None and r is not None else "fail" if e is None else "timeout" if isinstance(e, CL.TimeoutError) else "error"
        self.obs.append(got)
        if got == "ok": check(isinstance(r, Message) and r.b == want and not c.Failed() and c.ErrorCode() == 0, "wrong_reply", "%s returned %r, the server answered %r", what, getattr(r, "b", r), want)
        if got == "fail": check(exp == "fail" and c.Failed() and c.ErrorCode() == 12345 and c.ErrorText() == "because", "wrong_failure", "%s reported failure %s %d %r", what, c.Failed(), c.ErrorCode(), c.ErrorText())
        if got == "timeout": check(timed and dt >= to - 0.01, "early_timeout", "%s timed out after %.3f s", what, dt)
        if self.dirty and exp in ("ok", "fail") and got != exp: check(got == "error", "wrong_outcome", "%s: %s instead of %s", what, got, exp)      # the server spoiled the connection after the last reply
        elif self.dirty: check(got in (exp, "error"), "wrong_outcome", "%s: %s instead of %s (%s)", what, got, exp, e)
        else: check(got == exp, "wrong_outcome" if not self.after_failure else "not_recovered", "%s: %s instead of %s (%s)", what, got, exp, e)
        self.after_failure = got in ("error", "timeout"); self.dirty = out == "maybe" and got == "ok"
    after_failure = False
    def done(self): self.ch = None; return "/".join(self.obs)

CASES = {}
def case(f): CASES[f.__name__] = f; return f
@case
def histories(thorough):
    """every history of calls, server behaviours and connection faults"""
    deep = thorough and C.pick(2, "four calls with fewer behaviours") == 1; W_seg = of([None, 1, 23] if thorough else [None, 5], "bytes per read"); r = Run(); W.segment = W_seg; n = 4 if deep else 3
    for i in range(n):
        plans = ["good"] if i == n - 1 else FEWER if deep else REPLIES + FAULTS
        try: r.call(of(plans, "plan"), of([None, 1.0, 2.0] if i < n - 1 else [None, 1.0], "timeout"))
        except Hang: return r.done() + "/blocked"
        if of([0, 1], "pause"): W.now += 5.0
    return r.done()
@case
def segments(thorough):
    """every way to cut a reply into pieces, arriving together or one after the other"""
    size = of([0, 5, 60], "body"); plan = of(["good", "service_failure", "no_failed_field"], "plan"); to = of([None, 1.0], "timeout"); r = Run(); r.s.spread = of([False, True], "spread"); body = b"" if size == 0 else b"b" * size
    n = len(behave(plan, 1, body + b"1" if body else body)[0][0][1]); i = 1 + C.pick(n - 1, "cut"); j = i + C.pick(n - i, "cut"); k = j + C.pick(n - j, "cut") if thorough else j
    r.s.cuts = [i, j, k]; r.call(plan, to, body); r.s.cuts = None; r.call("good", to); return r.done()
@case
def big(thorough):
    """replies larger than a read, cut around every read boundary"""
    size = of([4040, 4050, 4051, 4052, 4053, 4054, 4055, 4056, 4057, 4058, 4059, 4060, 4072, 8192, 12000], "body"); r = Run(); r.s.spread = of([False, True], "spread"); W.segment = of([None, 4095, 1000, 7], "bytes per read"); cut = of([1, 23, 24, 25, 40, 4095, 4096, 4097], "cut")
    r.s.cuts = [cut] if cut < size else []; r.call("good", of([None, 3.0], "timeout"), b"x" * size); r.s.cuts = None; r.call("good", None); return r.done()
@case
def interface(thorough):
    """addresses, timeouts and reuse of controllers"""
    what = C.pick(3, "what")
    if what == 0:
        global W
        W = World(); bad = of(["server.host", "server.host:", "server.host:x", "server.host:65536", "server.host:-1", "server.host:1:2"], "address"); e = None
        try: CL.Channel(bad)
        except Exception as x: e = x
        check(isinstance(e, CL.Error), "address", "address %s: %r", bad, e); return "refused"
    if what == 1:
        W = World(); v = of([0, -1, -0.5], "timeout"); e = None
        try: CL.Controller().SetTimeout(v)
        except Exception as x: e = x
        check(isinstance(e, CL.Error), "timeout", "timeout %s accepted", v); return "refused"
    r = Run(); c = CL.Controller(); check(not c.Failed(), "controller", "a new controller has failed")
    r.call(of(["good", "service_failure"], "plan"), of([None, 1.0], "timeout"), cntl=c); c.Reset(); check(not c.Failed() and c.ErrorCode() == 0 and not c.ErrorText(), "controller", "Reset keeps the failure")
    try: r.call(of(["late", "good", "service_failure"], "plan"), None, cntl=c)     # Reset dropped the timeout
    except Hang: raise Violation("hang", "no reply")
    return r.done()

def explore(name, o, known, me, workers):
    global C
    f = CASES[name]; thorough = o["--tier"] == "thorough"; t0 = real_time.time(); execs = 0; hits = {}; outs = {}; viol = None; complete = True; fixed = None
    if o["--replay"]: j = json.load(open(o["--replay"])); fixed = j["choices"]; thorough = j["tier"] == "thorough"
    C = Chooser(fixed); C.me, C.workers = me, workers
    while True:
        try: x = f(thorough); execs += C.depth >= 3 or me == 0; outs[x] = outs.get(x, 0) + 1
        except Skip: pass
        except Violation as v:
            execs += 1; hit = [k for k in known if v.sig.startswith(k)]
            if hit: hits[hit[0]] = hits.get(hit[0], 0) + 1
            else: viol = {"sig": v.sig, "msg": v.msg, "choices": C.path[:C.depth] if fixed is None else fixed}; break
        if fixed is not None or not C.next(): break
        if execs % 64 == 0 and real_time.time() - t0 > float(o["--time"]): complete = False; break
    if fixed is not None: print("\n".join(C.trace), file=sys.stderr)
    return {"execs": execs, "ops": C.ops, "nodes": C.nodes, "outs": sorted(outs), "known": hits, "violation": viol, "complete": complete}
def main():
    global CL
    a = sys.argv[1:]; name = a.pop(0); o = {"--tier": "quick", "--time": "100", "--replay-out": None, "--replay": None, "--workers": str(os.cpu_count() or 4)}; known = []
    while a:
        k = a.pop(0)
        if k == "--known": known.append(a.pop(0))
        else: o[k] = a.pop(0)
    t0 = real_time.time(); CL = load(); n = 1 if o["--replay"] else int(o["--workers"]); res = []
    if n == 1: res = [explore(name, o, known, 0, 1)]
    else:
        kids = []
        for i in range(n):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try: os.write(w, json.dumps(explore(name, o, known, i, n)).encode())
                except Exception: import traceback; traceback.print_exc(); os._exit(3)
                os._exit(0)
            os.close(w); kids.append((pid, r))
        for pid, r in kids:
            b = b""
            while True:
                x = os.read(r, 65536)
                if not x: break
                b += x
            os.waitpid(pid, 0); os.close(r)
            if not b: print("a worker failed", file=sys.stderr); return 2
            res.append(json.loads(b))
    viol = next((r["violation"] for r in res if r["violation"]), None); complete = all(r["complete"] for r in res) and not viol; tot = lambda k: sum(r[k] for r in res); hits = {}
    for r in res:
        for k, x in r["known"].items(): hits[k] = hits.get(k, 0) + x
    d = {"scenario": name, "bound_requested": 1, "bound_completed": 1 if complete else 0, "complete": complete, "executions": tot("execs"), "decision_points": tot("ops"), "choice_tree_nodes": tot("nodes"), "states": tot("nodes"), "transitions": tot("ops"), "distinct_outcomes": len(set(x for r in res for x in r["outs"])), "known": hits, "wall_s": real_time.time() - t0}
    if viol:
        d["violation"] = {"sig": viol["sig"], "msg": viol["msg"]}
        if o["--replay-out"]: json.dump(dict(viol, case=name, tier=o["--tier"], how="python3 py/client_check.py %s --replay FILE" % name), open(o["--replay-out"], "w"))
    print(json.dumps(d)); return 1 if viol else 0
sys.exit(main())
