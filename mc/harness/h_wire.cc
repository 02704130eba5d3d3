// Wire-level enumerations end to end on the real client and server: segmentation (C07), hostile input (C08),
// compression (C13). Every input is a free choice, so bound 0 already covers all of them under one schedule.
#include "ref.h"
#include <sofa/pbrpc/compressed_stream.h>
#include <sofa/pbrpc/pbjson.h>
#include "vall.pb.h"
using namespace vh;

static const uint64_t SETTLE = 500; // virtual us: everything that can happen without a timer has happened afterwards

// ------------------------------------------------------------------------------------------------ helpers
namespace vh {
struct Peer { // raw connection whose received bytes accumulate
    Conn c; std::string in; bool eof, rst;
    Peer() : eof(false), rst(false) {}
    void open() { c = dial(PORT); MC_CHECK(c.ok(), "not_accepted", "a connection was not accepted"); }
    void poll() { char b[8192]; while (!eof && !rst) { ssize_t k = ::recv(c.fd, b, sizeof b, MSG_DONTWAIT); if (k > 0) { in.append(b, k); continue; } if (k == 0) eof = true; else if (errno != EAGAIN) rst = true; return; } }
    void put(const std::string& s) { if (!s.empty()) c.send_all(s); mc::sleep_us(SETTLE); poll(); }
    bool closed() const { return eof || rst; }
};
// takes one binary reply off the front
static bool take_reply(std::string& s, Meta* m, std::string* body) {
    if (s.size() < 24) return false;
    RefHeader h = ref_header(s, 0);
    MC_CHECK(memcmp(s.data(), "SOFA", 4) == 0 && h.meta >= 0 && h.data >= 0 && h.meta + h.data == h.msg, "malformed_reply", "reply with a malformed header (meta %d data %ld message %ld)", h.meta, (long)h.data, (long)h.msg);
    if ((int64_t)s.size() - 24 < h.msg) return false;
    MC_CHECK(m->ParseFromString(s.substr(24, h.meta)), "malformed_reply", "reply with malformed meta");
    *body = s.substr(24 + h.meta, h.data); s.erase(0, 24 + h.msg);
    return true;
}
static void check_echo_service(const char* when) {
    Peer p; p.open(); p.put(request(77, 1000077, "alive"));
    Meta m; std::string b;
    MC_CHECK(take_reply(p.in, &m, &b), "not_serving", "%s another connection is no longer served", when);
    verif::EchoResponse r; MC_CHECK(m.sequence_id() == 77 && !m.failed() && r.ParseFromString(b) && r.id() == 1000077 && r.data() == "alive", "wrong_reply", "%s another connection got a wrong reply", when);
    p.c.close();
}
// sends the stream in the given pieces; after each piece exactly the messages completed so far have been executed;
// in the end every message has been answered in order
struct StreamMsg { bool http; int mode; uint64_t seq, id; std::string data; size_t end; };
struct Stream { std::string bytes; std::vector<StreamMsg> msgs; };
static void add_bin(Stream& s, uint64_t id, const std::string& d) { s.bytes += request(id + 500, id, d); StreamMsg m = { false, 0, id + 500, id, d, s.bytes.size() }; s.msgs.push_back(m); }
static void add_http(Stream& s, int mode, uint64_t id, const std::string& d) {
    char b[512]; std::string q;
    if (mode == 0) { snprintf(b, sizeof b, "/verif.EchoServer.Echo?request={\"id\":%lu,\"data\":\"%s\",\"must\":1}", (unsigned long)id, base64(d).c_str()); q = http_get(b); }
    else if (mode == 1) { snprintf(b, sizeof b, "{\"id\":%lu,\"data\":\"%s\",\"must\":1}", (unsigned long)id, base64(d).c_str()); q = http_post("/verif.EchoServer.Echo", b); }
    else q = http_post("/verif.EchoServer.Echo", req_body(id, d), "Accept: application/protobuf\r\n");
    s.bytes += q; StreamMsg m = { true, mode, 0, id, d, s.bytes.size() }; s.msgs.push_back(m);
}
static Stream make_stream(int k) {
    Stream s;
    switch (k) {
    case 0: add_bin(s, 1, ""); add_bin(s, 2, "xy"); add_bin(s, 3, repeat('b', 120)); break;
    case 1: add_http(s, 0, 1, "g"); add_http(s, 1, 2, "post"); add_http(s, 2, 3, "pb"); break;
    case 2: add_bin(s, 1, "1"); add_http(s, 1, 2, "j"); add_bin(s, 3, "3"); break;
    case 3: add_http(s, 1, 1, repeat('h', 130)); add_http(s, 0, 2, ""); break;
    case 4: add_bin(s, 1, repeat('k', 3000)); add_bin(s, 2, ""); add_bin(s, 3, repeat('m', 700)); break;
    case 5: add_bin(s, 1, repeat('a', 24)); add_bin(s, 2, repeat('a', 25)); break;
    }
    return s;
}
static void run_stream(const Stream& s, int factor, const std::vector<size_t>& cuts) {
    LogServer sv; RpcServerOptions o = server_options(); o.read_buffer_base_block_factor = factor; o.write_buffer_base_block_factor = factor; sv.make(o);
    Peer p; p.open();
    size_t from = 0;
    for (size_t i = 0; i <= cuts.size(); ++i) {
        size_t to = i < cuts.size() ? cuts[i] : s.bytes.size();
        if (to <= from) continue;
        p.put(s.bytes.substr(from, to - from)); from = to;
        size_t n = 0; while (n < s.msgs.size() && s.msgs[n].end <= to) ++n;
        MC_CHECK(!p.closed(), "closed", "the server closed the connection after byte %zu of a well-formed stream", to);
        MC_CHECK(sv.impl->log.size() <= n, "executed_early", "%zu requests executed when only %zu had arrived completely (byte %zu)", sv.impl->log.size(), n, to);
        MC_CHECK(sv.impl->log.size() >= n, "not_processed", "%zu requests arrived completely (byte %zu) but only %zu were executed", n, to, sv.impl->log.size());
    }
    std::string in = p.in;
    for (size_t i = 0; i < s.msgs.size(); ++i) {
        const StreamMsg& m = s.msgs[i];
        MC_CHECK(sv.impl->log[i].first == m.id && sv.impl->log[i].second == m.data, "wrong_request", "request %zu reached the service as id %lu data %s", i, (unsigned long)sv.impl->log[i].first, sv.impl->log[i].second.c_str());
        verif::EchoResponse r; std::string body;
        if (m.http) {
            HttpReply h; int k = take_http(in, &h);
            MC_CHECK(k == 1, "not_answered", "request %zu: no complete HTTP reply (%d)", i, k);
            if (m.mode == 2) MC_CHECK(h.type == "application/protobuf" && r.ParseFromString(h.body) && r.id() == m.id && r.data() == m.data, "wrong_reply", "wrong protobuf reply over HTTP");
            else {
                char b[512]; snprintf(b, sizeof b, "\"id\":%lu", (unsigned long)m.id);
                MC_CHECK(h.type == "application/json" && h.body.find(b) != std::string::npos && h.body[0] == '{', "wrong_reply", "wrong JSON reply: %s", h.body.c_str());
            }
        } else {
            Meta meta;
            MC_CHECK(take_reply(in, &meta, &body), "not_answered", "request %zu was not answered", i);
            MC_CHECK(meta.sequence_id() == m.seq && !meta.failed() && r.ParseFromString(body) && r.id() == m.id && r.data() == m.data, "wrong_reply", "request %zu got a wrong reply", i);
        }
    }
    MC_CHECK(in.empty(), "extra_reply", "%zu more bytes than the replies", in.size());
    p.c.close();
}
}
static void plain_cfg(mc::Config& cfg) { cfg.bound = 0; cfg.points_plain = 0; cfg.horizon_us = 20000000; cfg.cap[mc::K_STALL] = 0; } // a stall would outlast the waits for quiescence

// one or two cuts anywhere, in every stream, for several receive block sizes
MC_SCENARIO(srv_cut1) { plain_cfg(cfg); }
MC_BODY(srv_cut1) {

    int k = mc::pick(6, "stream"); static const int F[] = { 0, 1, 2, 9 }; int f = F[mc::pick(4, "factor")];
    Stream s = make_stream(k);
    std::vector<size_t> cuts; int n = (int)s.bytes.size();
    int i = mc::pick(n, "cut"); if (i) cuts.push_back(i);
    run_stream(s, f, cuts);
    mc::obs("stream %d factor %d", k, f);
}
MC_SCENARIO(srv_cut2) { plain_cfg(cfg); }
MC_BODY(srv_cut2) {

    static const int K[] = { 2, 5, 0 }; int k = K[mc::pick(3, "stream")];
    Stream s = make_stream(k);
    int n = (int)s.bytes.size();
    int i = 1 + mc::pick(n - 1, "cut1"), j = i + mc::pick(n - i, "cut2");
    std::vector<size_t> cuts; cuts.push_back(i); if (j > i) cuts.push_back(j);
    run_stream(s, 0, cuts);
    mc::obs("stream %d", k);
}
// three cuts around message and field boundaries, and regular slicing
MC_SCENARIO(srv_cut3) { plain_cfg(cfg); }
MC_BODY(srv_cut3) {

    int k = mc::pick(6, "stream"); static const int F[] = { 0, 2, 9 }; int f = F[mc::pick(3, "factor")];
    Stream s = make_stream(k); std::vector<size_t> cuts;
    int slice = mc::pick(9, "slice");
    if (slice) { static const int S[] = { 0, 1, 2, 3, 7, 23, 24, 25, 56 }; for (size_t x = S[slice]; x < s.bytes.size(); x += S[slice]) cuts.push_back(x); }
    else {
        std::set<size_t> b; size_t beg = 0;
        for (size_t i = 0; i < s.msgs.size(); ++i) { static const int D[] = { 0, 1, 3, 4, 23, 24, 25 }; for (int d = 0; d < 7; ++d) if (beg + D[d] < s.msgs[i].end) b.insert(beg + D[d]); b.insert(s.msgs[i].end - 1); beg = s.msgs[i].end; }
        b.erase(0); std::vector<size_t> v(b.begin(), b.end());
        int i = mc::pick((int)v.size(), "c1"), j = i + mc::pick((int)v.size() - i, "c2"), l = j + mc::pick((int)v.size() - j, "c3");
        cuts.push_back(v[i]); cuts.push_back(v[j]); cuts.push_back(v[l]);
    }
    run_stream(s, f, cuts);
    mc::obs("stream %d factor %d", k, f);
}
// the same requests under every short read of the receiving side and up to the deviation bound
MC_SCENARIO(srv_short_reads) { plain_cfg(cfg); cfg.bound = 2; cfg.short_io = 1; cfg.cap[mc::K_SCHED] = 0; }
MC_BODY(srv_short_reads) {
    int k = mc::pick(6, "stream"); static const int F[] = { 0, 9 }; int f = F[mc::pick(2, "factor")];
    run_stream(make_stream(k), f, std::vector<size_t>());
    mc::obs("stream %d factor %d", k, f);
}

// ------------------------------------------------------------------------------------------------ client side segmentation
namespace vh {
struct ReplyStream { std::string bytes; std::vector<size_t> end; std::vector<int> which; };
struct RawServer { // reads n requests of one connection and remembers their sequence ids by request id
    Listener l; Conn c; std::map<uint64_t, uint64_t> seq; bool ready;
    RawServer() : ready(false) { MC_CHECK(l.open(), "harness", "listen"); }
    void take(int n) {
        if (!c.ok()) c = l.accept();
        while (n--) { Meta m; std::string b; MC_CHECK(c.read_msg(&m, &b) == 1, "malformed_request", "the client sent no complete request"); verif::EchoRequest q; MC_CHECK(q.ParseFromString(b) && m.type() == Meta::REQUEST, "malformed_request", "bad request"); seq[q.id()] = m.sequence_id(); }
        ready = true;
    }
    ~RawServer() { c.close(); l.close(); }
};
}
static void client_stream(int kind, const std::vector<std::pair<int, int> >& cutspec /* (boundary index, offset) */, int slice, bool all_cuts) {
    RawServer rs; RpcClient cl(client_options()); RpcChannel ch(&cl, addr());
    Call c[3]; std::string d2 = repeat('z', kind == 1 ? 33000 : kind == 2 ? 70000 : 90);
    c[0].set(1, "", 5000); c[1].set(2, "err", 5000); c[2].set(3, d2, 5000);
    int t = mc::spawn("peer", [&rs]() { rs.take(3); });
    for (int i = 0; i < 3; ++i) call_async(&ch, &c[i]);
    mc::join(t);
    std::string s; std::vector<size_t> end; int order[3] = { 0, 1, 2 };
    if (kind == 2) { order[0] = 2; order[2] = 0; }
    for (int i = 0; i < 3; ++i) {
        int k = order[i]; uint64_t q = rs.seq[c[k].id];
        if (k == 1) s += error_response(q, 9001, "because"); else s += response(q, c[k].id, c[k].data);
        end.push_back(s.size());
    }
    std::set<size_t> cuts;
    if (all_cuts) { int i = mc::pick((int)s.size(), "cut"); if (i) cuts.insert(i); int j = mc::pick((int)s.size() - i, "cut2"); cuts.insert(i + j); }
    else {
        std::set<size_t> b; size_t beg = 0;
        for (int i = 0; i < 3; ++i) { static const int D[] = { 0, 1, 4, 23, 24, 25, 40 }; for (int d = 0; d < 7; ++d) if (beg + D[d] < end[i]) b.insert(beg + D[d]); b.insert(end[i] - 1); beg = end[i]; }
        if (s.size() > 32760) for (size_t x = 32750; x < 32770 && x < s.size(); ++x) b.insert(x);
        if (s.size() > 65520) for (size_t x = 65516; x < 65524; ++x) b.insert(x);
        std::vector<size_t> v(b.begin(), b.end());
        int i = mc::pick((int)v.size(), "c1"), j = i + mc::pick((int)v.size() - i, "c2");
        cuts.insert(v[i]); cuts.insert(v[j]);
    }
    cuts.erase(0); cuts.insert(s.size());
    size_t from = 0;
    for (std::set<size_t>::iterator it = cuts.begin(); it != cuts.end(); ++it) {
        rs.c.send_all(s.substr(from, *it - from)); from = *it; mc::sleep_us(SETTLE);
        for (int i = 0; i < 3; ++i) {
            bool complete = end[i] <= from; Call& k = c[order[i]];
            MC_CHECK(complete || !k.done, "completed_early", "call %lu completed when only %zu of %zu bytes of its reply had arrived", (unsigned long)k.id, from, end[i]);
            MC_CHECK(!complete || k.done, "not_processed", "call %lu has not completed although its whole reply arrived", (unsigned long)k.id);
        }
    }
    MC_CHECK(!c[0].failed && !c[2].failed, "wrong_reply", "calls failed: %d %d", c[0].code, c[2].code);
    MC_CHECK(c[1].failed && c[1].code == 9001, "wrong_error", "failed call: code %d", c[1].code);
    MC_CHECK(c[1].cntl.ErrorText().find("because") != std::string::npos, "wrong_error", "reason lost: %s", c[1].cntl.ErrorText().c_str());
    cl.Shutdown();
}
MC_SCENARIO(cl_cut) { plain_cfg(cfg); }
MC_BODY(cl_cut) { client_stream(0, std::vector<std::pair<int, int> >(), 0, true); mc::obs("ok"); }
MC_SCENARIO(cl_cut_big) { plain_cfg(cfg); }
MC_BODY(cl_cut_big) { int k = 1 + mc::pick(2, "kind"); client_stream(k, std::vector<std::pair<int, int> >(), 0, false); mc::obs("kind %d", k); }

// ------------------------------------------------------------------------------------------------ hostile clients
namespace vh {
static std::string raw_header(uint32_t magic, int32_t meta, int64_t data, int64_t msg) {
    std::string s(24, 0); memcpy(&s[0], &magic, 4); memcpy(&s[4], &meta, 4); memcpy(&s[8], &data, 8); memcpy(&s[16], &msg, 8); return s;
}
static std::string decompress(const std::string& z, int type);
// feeds bytes to a server and checks that it does what the reference decoder says
static void feed_server(const std::string& s, bool then_close, const char* what) {
    LogServer sv; sv.make(server_options());
    { Peer p; p.open(); p.put(s);
      RefStream r = ref_server(s);
      std::vector<std::pair<uint64_t, std::string> > want;
      for (size_t i = 0; i < r.ev.size(); ++i) if (r.ev[i].kind == RefEvent::EXEC) want.push_back(std::make_pair(r.ev[i].id, r.ev[i].data));
      if (r.state != RefStream::EITHER) MC_CHECK(sv.impl->log.size() <= want.size(), "executed_malformed", "%s: a request was executed that was never (completely) sent", what);
      MC_CHECK(sv.impl->log.size() >= want.size(), "not_processed", "%s: %zu well-formed requests, %zu executed", what, want.size(), sv.impl->log.size());
      for (size_t i = 0; i < want.size(); ++i) MC_CHECK(sv.impl->log[i] == want[i], "wrong_request", "%s: request %zu was executed with other contents", what, i);
      // a request before the point where the stream breaks may lose its reply with the connection, but no reply may be wrong
      std::string in = p.in; Meta m; std::string body; size_t n = 0;
      while (r.state != RefStream::EITHER && take_reply(in, &m, &body)) {
          MC_CHECK(n < r.ev.size(), "extra_reply", "%s: reply to nothing", what);
          if (m.has_compress_type() && m.compress_type() != CompressTypeNone) body = decompress(body, m.compress_type());
          const RefEvent& e = r.ev[n++];
          MC_CHECK(m.sequence_id() == e.seq, "wrong_reply", "%s: reply for sequence id %lu instead of %lu", what, (unsigned long)m.sequence_id(), (unsigned long)e.seq);
          if (e.kind == RefEvent::EXEC) { verif::EchoResponse q; MC_CHECK(!m.failed() && q.ParseFromString(body) && q.id() == e.id && q.data() == e.data, "wrong_reply", "%s: wrong reply: failed %d code %d %s, id %lu for %lu, %zu bytes for %zu", what, m.failed(), m.error_code(), m.reason().c_str(), (unsigned long)q.id(), (unsigned long)e.id, q.data().size(), e.data.size()); }
          else MC_CHECK(m.failed() && m.error_code() == e.code, "wrong_error", "%s: expected error %d, got failed=%d %d", what, e.code, m.failed(), m.error_code());
      }
      if (r.state == RefStream::OPEN) { MC_CHECK(!p.closed(), "closed", "%s: the connection was closed although nothing was wrong so far", what); MC_CHECK(n == r.ev.size(), "not_answered", "%s: %zu of %zu requests answered", what, n, r.ev.size()); }
      if (r.state == RefStream::CLOSED) MC_CHECK(p.closed(), "not_closed", "%s: the server keeps a connection open whose stream is broken", what);
      mc::obs("%zu/%d/%d", r.ev.size(), (int)r.state, p.closed());
      if (then_close) { p.c.close(); mc::sleep_us(SETTLE); }
      check_echo_service(what);
      if (!then_close && !p.closed() && r.state == RefStream::OPEN && r.ev.size() && r.ev.back().end == s.size()) {
          p.in.clear(); p.put(request(99, 99, "again"));
          MC_CHECK(take_reply(p.in, &m, &body) && m.sequence_id() == 99 && !m.failed(), "not_answered", "%s: the connection is no longer served", what);
      }
    }
    mc::sleep_us(SETTLE);
    delete sv.srv; sv.srv = NULL;
}
}
// every combination of boundary values in the header fields
MC_SCENARIO(srv_bad_header) { plain_cfg(cfg); }
MC_BODY(srv_bad_header) {

    std::string good = request(5, 7, "payload"); RefHeader h = ref_header(good, 0); std::string body = good.substr(24);
    int64_t L = h.msg;
    static const uint32_t MAGIC[] = { SOFA_RPC_MAGIC, 0, SOFA_RPC_MAGIC ^ 0x20, 0xffffffffu };
    const int64_t META[] = { h.meta, INT32_MIN, -1, 0, 1, h.meta - 1, h.meta + 1, L, L + 1, INT32_MAX };
    const int64_t DATA[] = { h.data, INT64_MIN, -1, 0, h.data - 1, h.data + 1, L, int64_t(1) << 31, (int64_t(1) << 32) + h.data, INT64_MAX };
    const int64_t MSG[] = { L, -2, INT64_MIN, -1, 0, 1, L - 1, L + 1, MAX_MSG, MAX_MSG + 1, MAX_MSG + 24, MAX_MSG + 25, int64_t(1) << 31, (int64_t(1) << 32) + L, INT64_MAX };
    uint32_t mg = MAGIC[mc::pick(4, "magic")]; int64_t me = META[mc::pick(10, "meta")], da = DATA[mc::pick(10, "data")]; int mi = mc::pick(15, "msg");
    int64_t ms = mi == 1 ? (int64_t)((uint64_t)me + (uint64_t)da) : MSG[mi];
    int tail = mg == MAGIC[0] ? mc::pick(3, "tail") : 0;
    std::string s = raw_header(mg, (int32_t)me, da, ms) + body;
    if (tail == 1) s += request(6, 8, "next");
    feed_server(s, tail == 2, "bad header");
}
// every byte of a request replaced by several values, and every truncation
MC_SCENARIO(srv_bad_byte) { plain_cfg(cfg); }
MC_BODY(srv_bad_byte) {

    std::string s = request(5, 7, "payload", mc::pick(2, "method") ? "verif.EchoServer.Echo" : "noSuchMethod");
    int i = mc::pick((int)s.size(), "pos"), v = mc::pick(48, "value");
    static const int V[] = { 0, 1, 0x7f, 0x80, 0xff, 0x08, 0x12, 0x0a, '.', 'S' };
    if (v < 10) s[i] = (char)V[v]; else if (v < 18) s[i] = (char)(s[i] ^ (1 << (v - 10))); else if (v == 18) s[i] = (char)(s[i] + 1); else if (v == 19) s[i] = (char)(s[i] - 1);
    else if (v == 20) s.resize(i); else if (v == 21) s.erase(i, 1); else if (v == 22) s.insert(i, 1, s[i]); else s[i] = (char)((unsigned char)s[i] * 7 + v * 11);
    if (v < 20 || v > 22) s += request(6, 8, "next");
    feed_server(s, v == 20 && mc::pick(2, "close"), "bad byte");
}
// two corrupted header/meta bytes at once
MC_SCENARIO(srv_bad_pair) { plain_cfg(cfg); }
MC_BODY(srv_bad_pair) {

    std::string s = request(5, 7, "p"); int n = (int)s.size();
    int i = mc::pick(n, "i"), j = i + mc::pick(n - i, "j"), v = mc::pick(4, "v"); static const int V[] = { 0, 0xff, 0x80, 1 };
    s[i] = (char)V[v]; s[j] = (char)V[mc::pick(4, "w")];
    s += request(6, 8, "next");
    feed_server(s, false, "bad pair");
}
// HTTP: every byte of a request replaced or removed; oracle: no crash, others served, at most one execution of what was sent
MC_SCENARIO(srv_bad_http) { plain_cfg(cfg); }
MC_BODY(srv_bad_http) {

    Stream st; int mode = mc::pick(3, "mode"); add_http(st, mode, 7, "pay"); std::string s = st.bytes;
    int i = mc::pick((int)s.size(), "pos"), v = mc::pick(24, "value");
    static const char V[] = " \r\n:/?&%=#\"{}[\\\0\xff-9"; const int NV = sizeof V - 1; // NUL included
    if (v < NV) s[i] = V[v]; else if (v == NV) s.resize(i); else if (v == NV + 1) s.erase(i, 1); else if (v == NV + 2) s.insert(i, 1, s[i]); else return;
    LogServer sv; sv.make(server_options());
    Peer p; p.open(); p.put(s);
    MC_CHECK(sv.impl->log.size() <= 1, "executed_malformed", "one request executed %zu times", sv.impl->log.size());
    std::string in = p.in; HttpReply h; int n = 0, r;
    while ((r = take_http(in, &h)) == 1) ++n;
    MC_CHECK(r == 0 && in.empty(), "malformed_reply", "malformed HTTP reply: %s", in.c_str());
    MC_CHECK(n <= 1, "extra_reply", "%d replies to one request", n);
    MC_CHECK(sv.impl->log.empty() || n == 1, "not_answered", "executed without a reply");
    if (v == NV) MC_CHECK(n == 0 && sv.impl->log.empty(), "executed_malformed", "a truncated request was executed");
    mc::obs("%d/%zu/%d", n, sv.impl->log.size(), p.closed());
    check_echo_service("bad http");
    p.c.close(); mc::sleep_us(SETTLE);
}
// announced body lengths, repeated headers, oversized numbers, deeply nested JSON, odd JSON
MC_SCENARIO(srv_http_length) { plain_cfg(cfg); cfg.max_steps = 60000000; }
MC_BODY(srv_http_length) {

    static const char* LEN[] = { "0", "2", "3", "1", "-1", "+2", " 2", "2 ", "0x2", "02", "abc", "", "2147483647", "2147483648", "4294967295", "4294967296", "4294967298", "9223372036854775807", "9223372036854775808", "18446744073709551618", "99999999999999999999999", "2,2", "1e1" };
    int k = mc::pick(sizeof LEN / sizeof *LEN, "len"); int name = mc::pick(3, "name"); static const char* NAME[] = { "Content-Length", "content-length", "CONTENT-LENGTH" };
    int follow = mc::pick(3, "follow");
    std::string s = std::string("POST /verif.EchoServer.Echo HTTP/1.1\r\n") + NAME[name] + ": " + LEN[k] + "\r\n\r\n";
    std::string body = "{}";
    long n = -1; { const char* c = LEN[k]; bool digits = *c != 0; for (const char* q = c; *q; ++q) digits = digits && *q >= '0' && *q <= '9'; if (digits && strlen(c) < 11) n = atol(c); }
    bool empty = LEN[k][0] == 0;
    s += body;
    if (follow == 1) s += request(6, 8, "next");
    LogServer sv; sv.make(server_options());
    { Peer p; p.open(); p.put(s);
      std::string in = p.in; HttpReply h;
      if (n < 0 && !empty && k != 5 && k != 6) { // not a number, or one no body can have (an over-limit one may instead just wait for the body)
          MC_CHECK(take_http(in, &h) != 1 || k > 100, "accepted_malformed", "Content-Length %s: the request was processed", LEN[k]);
          MC_CHECK(sv.impl->log.empty(), "executed_malformed", "Content-Length %s: executed", LEN[k]);
          bool number = LEN[k][strspn(LEN[k], "0123456789")] == 0; // a huge length may be refused or waited for
          MC_CHECK(number || p.closed(), "not_closed", "Content-Length %s: the connection stays open", LEN[k]);
      } else if (n == 2 || k == 5 || k == 6) {
          int r = take_http(in, &h); if (k < 5) MC_CHECK(r == 1, "not_answered", "Content-Length %s: not answered", LEN[k]);
          if (follow == 1 && r == 1) { Meta m; std::string b; MC_CHECK(take_reply(in, &m, &b) && m.sequence_id() == 6, "not_answered", "the request after the body was not answered"); }
      }       else if (n > (long)s.size()) MC_CHECK(in.empty() && sv.impl->log.empty(), "executed_malformed", "Content-Length %s: executed without its body", LEN[k]);
      mc::obs("%s %d", LEN[k], p.closed());
      check_echo_service("http length");
      p.c.close(); mc::sleep_us(SETTLE);
    }
}
MC_SCENARIO(srv_http_json) { plain_cfg(cfg); cfg.max_steps = 400000000; }
MC_BODY(srv_http_json) {

    static const char* DOC[] = { "", "{}", "[]", "null", "true", "1", "-1", "1.5", "\"x\"", "{", "}", "[", "]", "\"", "{\"id\"", "{\"id\":", "{\"id\":}", "{\"id\":1", "{\"id\":1,}", "{id:1}", "nul", "tru", "1e", "-", "\\",
        "{\"id\":-1,\"must\":1}", "{\"id\":1.5,\"must\":1}", "{\"id\":1e30,\"must\":1}", "{\"id\":18446744073709551615,\"must\":1}", "{\"id\":18446744073709551616,\"must\":1}", "{\"id\":\"1\",\"must\":1}", "{\"id\":null,\"must\":1}", "{\"id\":true,\"must\":1}", "{\"id\":[1],\"must\":1}", "{\"id\":{},\"must\":1}",
        "{\"id\":1,\"must\":2147483648}", "{\"id\":1,\"must\":-2147483649}", "{\"id\":1,\"must\":1.0}", "{\"id\":1,\"must\":\"1\"}", "{\"id\":1,\"must\":[]}", "{\"id\":1,\"must\":null}", "{\"id\":1}", "{\"must\":1}", "{\"must\":1,\"must\":2}", "{\"must\":1,\"nosuch\":{\"a\":[1,2,{\"b\":null}]}}",
        "{\"must\":1,\"data\":1}", "{\"must\":1,\"data\":null}", "{\"must\":1,\"data\":\"\\u0041\\u00e9\\ud83d\\ude00\"}", "{\"must\":1,\"data\":\"\\ud83d\"}", "{\"must\":1,\"data\":\"\\uZZZZ\"}", "{\"must\":1,\"data\":\"\\x\"}", "{\"must\":1,\"data\":\"\xff\xfe\"}", "{\"must\":1}garbage", "{\"must\":1}{\"must\":2}", " {\"must\":1} ", "{\"must\" : 1 , \"id\":3}", "{\"\":1,\"must\":1}",
        "/*c*/{\"must\":1}", "{\"must\":01}", "{\"must\":+1}", "{\"must\":0x1}", "{\"must\":1e400}", "{\"must\":-0}", "NaN", "{\"must\":Infinity}" };
    const int ND = sizeof DOC / sizeof *DOC;
    int k = mc::pick(ND + 12, "doc"), get = mc::pick(2, "get");
    std::string d;
    if (k < ND) d = DOC[k]; else {
        int n = k - ND; static const int DEPTH[] = { 50, 1000, 20000, 200000 }; int dep = DEPTH[n % 4];
        if (n / 4 == 0) d = repeat('[', dep); else if (n / 4 == 1) { for (int i = 0; i < dep; ++i) d += "{\"a\":"; } else { d = "{\"must\":1,\"x\":" + repeat('[', dep) + repeat(']', dep) + "}"; }
    }
    if (get && d.size() > 3000) return;
    std::string s = get ? http_get("/verif.EchoServer.Echo?request=" + d) : http_post("/verif.EchoServer.Echo", d);
    if (get && d.find_first_of(" ") != std::string::npos) return;
    LogServer sv; sv.make(server_options());
    { Peer p; p.open(); p.put(s);
      std::string in = p.in; HttpReply h;
      MC_CHECK(take_http(in, &h) == 1 && in.empty(), "not_answered", "JSON document %.60s: no (single) reply", d.c_str());
      bool err = h.body.find("ERROR") != std::string::npos;
      MC_CHECK(err == sv.impl->log.empty(), "wrong_reply", "JSON document %.60s: executed %zu, reply %s", d.c_str(), sv.impl->log.size(), h.body.c_str());
      mc::obs("%d %d", k, err);
      check_echo_service("http json");
      p.put(http_post("/verif.EchoServer.Echo", "{\"must\":1,\"id\":5}")); in = p.in.substr(p.in.size() - in.size() > 0 ? 0 : 0);
      p.c.close(); mc::sleep_us(SETTLE);
    }
}

// ------------------------------------------------------------------------------------------------ hostile servers
static void feed_client(const std::function<std::string(uint64_t)>& make, bool then_close) {
    RawServer rs; RpcClient cl(client_options()); RpcChannel ch(&cl, addr());
    Call c, c2; c.lax = true; c.set(1, "one", 300); c2.set(2, "two", 300);
    int t = mc::spawn("peer", [&rs]() { rs.take(1); });
    call_async(&ch, &c);
    mc::join(t);
    uint64_t q = rs.seq[1]; std::string s = make(q); RefReply r = ref_client(s, q);
    rs.c.send_all(s); mc::sleep_us(SETTLE);
    std::string later = s; // a reply may be followed by another one in the same stream
    if (then_close) { rs.c.close(); mc::sleep_us(SETTLE); }
    switch (r.kind) {
    case RefReply::OK: MC_CHECK(c.done && !c.failed && c.rid == r.id && c.rdata == r.data, "wrong_reply", "a well-formed reply was not delivered (done %d code %d)", c.done, c.code); break;
    case RefReply::FAIL: MC_CHECK(c.done, "not_processed", "a reply for the call did not complete it"); if (r.code != -1) MC_CHECK(c.failed && c.code == r.code, "wrong_error", "expected error %d, got failed=%d code %d", r.code, c.failed, c.code); break;
    case RefReply::IGNORED: case RefReply::INCOMPLETE: if (then_close) MC_CHECK(c.done && c.failed, "not_completed", "connection closed but the call is pending"); else if (r.kind == RefReply::INCOMPLETE) MC_CHECK(!c.done || c.failed, "wrong_reply", "an incomplete reply completed the call"); else if (c.done) MC_CHECK(c.failed, "wrong_reply", "a reply that is not for this call completed it successfully"); break;
    case RefReply::CLOSED: MC_CHECK(c.done && c.failed, "not_closed", "the stream is broken but the client keeps the call waiting (done %d failed %d)", c.done, c.failed); break;
    }
    MC_CHECK(r.kind == RefReply::OK || r.code == -1 || !c.done || c.failed, "wrong_reply", "the call succeeded without a valid reply");
    mc::obs("%d/%d/%s", (int)r.kind, r.code, c.outcome());
    mc::sleep_us(600000);
    MC_CHECK(c.done, "never_completed", "the call did not complete by its timeout");
    // the next call on the channel works
    bool open = rs.c.ok() && r.kind != RefReply::CLOSED && r.kind != RefReply::INCOMPLETE;
    if (open && s.size() > 24 && (int64_t)s.size() - 24 > ref_header(s, 0).msg) open = false; // bytes left over break the stream later
    if (!open) { rs.c.close(); mc::sleep_us(SETTLE); rs.c = Conn(); }
    bool ok = true;
    int t2 = mc::spawn("peer2", [&rs]() {
        mc::net::set_raw(true);
        for (int i = 0; i < 2; ++i) {
            if (!rs.c.ok()) rs.c = rs.l.accept();
            Meta m; std::string b; int k = rs.c.read_msg(&m, &b);
            if (k == 1) { verif::EchoRequest e; e.ParseFromString(b); rs.c.send_all(response(m.sequence_id(), e.id(), e.data())); return; }
            rs.c.close(); rs.c = Conn();
        }
    });
    call_sync(&ch, &c2);
    if (c2.failed) ok = false;
    MC_CHECK(ok, "not_recovered", "the call after the malformed reply failed with %d %s", c2.code, c2.error.c_str());
    cl.Shutdown(); rs.c.close(); rs.l.close(); mc::join(t2);
}
MC_SCENARIO(cl_bad_header) { plain_cfg(cfg); }
MC_BODY(cl_bad_header) {

    static const uint32_t MAGIC[] = { SOFA_RPC_MAGIC, 0, 0xffffffffu };
    int a = mc::pick(3, "magic"), b = a ? 0 : mc::pick(10, "meta"), d = a ? 0 : mc::pick(10, "data"), m = a ? 0 : mc::pick(13, "msg"); bool cl = mc::pick(2, "close");
    feed_client([=](uint64_t q) {
        std::string good = response(q, 1, "one"), body = good.substr(24); RefHeader h = ref_header(good, 0); int64_t L = h.msg;
        const int64_t META[] = { h.meta, INT32_MIN, -1, 0, 1, h.meta - 1, h.meta + 1, L, L + 1, INT32_MAX };
        const int64_t DATA[] = { h.data, INT64_MIN, -1, 0, h.data - 1, h.data + 1, L, int64_t(1) << 31, (int64_t(1) << 32) + h.data, INT64_MAX };
        const int64_t MSG[] = { L, -2, INT64_MIN, -1, 0, 1, L - 1, L + 1, MAX_MSG, int64_t(1) << 31, (int64_t(1) << 32) + L, INT64_MAX, -L };
        int64_t ms = m == 1 ? (int64_t)((uint64_t)META[b] + (uint64_t)DATA[d]) : MSG[m];
        return raw_header(MAGIC[a], (int32_t)META[b], DATA[d], ms) + body;
    }, cl);
}
MC_SCENARIO(cl_bad_byte) { plain_cfg(cfg); }
MC_BODY(cl_bad_byte) {

    int kind = mc::pick(3, "kind"), v = mc::pick(40, "value"); int n = (int)(kind == 0 ? response(1, 1, "one") : kind == 1 ? error_response(1, 9001, "because") : error_response(1, 0, "zero")).size();
    int i = mc::pick(n, "pos");
    feed_client([=](uint64_t q) {
        std::string s = kind == 0 ? response(q, 1, "one") : kind == 1 ? error_response(q, 9001, "because") : error_response(q, 0, "zero");
        if (i >= (int)s.size()) return s;
        static const int V[] = { 0, 1, 0x7f, 0x80, 0xff, 0x08, 0x12, 0x0a };
        if (v < 8) s[i] = (char)V[v]; else if (v < 16) s[i] = (char)(s[i] ^ (1 << (v - 8))); else if (v == 16) s[i] = (char)(s[i] + 1); else if (v == 17) s[i] = (char)(s[i] - 1);
        else if (v == 18) s.resize(i); else if (v == 19) s.erase(i, 1); else if (v == 20) s.insert(i, 1, s[i]); else s[i] = (char)((unsigned char)s[i] * 7 + v * 11);
        return s;
    }, v == 18);
}

// ------------------------------------------------------------------------------------------------ compression
namespace vh {
static std::string compress(const std::string& body, int type, bool message = true) {
    WriteBuffer w; CompressType t = (CompressType)type;
    { sofa::pbrpc::scoped_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&w, t));
      void* p; int n; size_t o = 0;
      while (o < body.size()) { os->Next(&p, &n); size_t k = std::min<size_t>(n, body.size() - o); memcpy(p, body.data() + o, k); o += k; if ((int)k < n) os->BackUp(n - (int)k); }
      os->Flush(); }
    ReadBuffer r; w.SwapOut(&r); return r.ToString();
}
static std::string decompress(const std::string& z, int type) {
    WriteBuffer w; w.Append(z); ReadBuffer r; w.SwapOut(&r);
    sofa::pbrpc::scoped_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&r, (CompressType)type));
    std::string out; const void* p; int n; while (is->Next(&p, &n)) out.append((const char*)p, n);
    return out;
}
static std::string content(int cls, int n) { std::string s; unsigned x = 12345; for (int i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s += cls == 0 ? 'a' : cls == 1 ? (char)(x >> 16) : (char)('a' + i % 7); } return s; }
}
// real client and real server, every compression type in both directions, several sizes
MC_SCENARIO(compress_echo) { plain_cfg(cfg); cfg.max_steps = 100000000; }
MC_BODY(compress_echo) {

    static const int T[] = { CompressTypeNone, CompressTypeGzip, CompressTypeZlib, CompressTypeSnappy, CompressTypeLZ4 };
    int rt = T[mc::pick(5, "req")], st = T[mc::pick(5, "res")]; static const int N[] = { 0, 1, 100, 4000, 66000, 200000 }; int n = N[mc::pick(6, "size")], cls = mc::pick(3, "class");
    LogServer sv; sv.make(server_options()); RpcClient cl(client_options()); RpcChannel ch(&cl, addr());
    for (int i = 0; i < 2; ++i) {
        Call c; c.set(7 + i, content(cls, n), 5000); c.cntl.SetRequestCompressType((CompressType)rt); c.cntl.SetResponseCompressType((CompressType)st);
        call_sync(&ch, &c);
        MC_CHECK(!c.failed, "call_failed", "compressed call failed: request type %d response type %d size %d: %d %s", rt, st, n, c.code, c.error.c_str());
        MC_CHECK(sv.impl->log.size() == (size_t)i + 1 && sv.impl->log[i].second == c.data, "wrong_request", "the service saw another request (type %d size %d)", rt, n);
    }
    cl.Shutdown();
    mc::obs("%d %d", rt, st);
}
// messages of any size, empty ones included, in both directions, binary and HTTP
namespace vh {
struct AllImpl : public verif::AllServer {
    std::vector<std::string> seen; verif::All reply;
    virtual void Call(google::protobuf::RpcController*, const verif::All* r, verif::All* p, google::protobuf::Closure* done) { seen.push_back(r->SerializeAsString()); p->CopyFrom(reply); done->Run(); }
};
static void shape(verif::All* m, int k) {
    switch (k) { case 0: break; case 1: m->set_b(false); break; case 2: m->mutable_m()->set_r(true); break; case 3: m->set_s(std::string(5000, 's')); break; case 4: m->mutable_deep(); break; case 5: m->set_by(std::string("\0\xff", 2)); break; case 6: m->set_s(std::string(70000, 't')); break; }
}
}
MC_SCENARIO(any_message) { plain_cfg(cfg); cfg.max_steps = 100000000; }
MC_BODY(any_message) {
    static const int T[] = { CompressTypeNone, CompressTypeGzip, CompressTypeZlib, CompressTypeSnappy, CompressTypeLZ4 };
    int rq = mc::pick(7, "request"), rs = mc::pick(7, "response"), how = mc::pick(7, "how"); verif::All q; shape(&q, rq);
    AllImpl impl; RpcServer srv(server_options()); srv.RegisterService(&impl, false); shape(&impl.reply, rs); char b[32]; snprintf(b, sizeof b, "0.0.0.0:%d", PORT); MC_CHECK(srv.Start(b), "harness", "Start failed");
    if (how < 5) {
        RpcClient cl(client_options()); RpcChannel ch(&cl, addr()); verif::AllServer_Stub stub(&ch);
        for (int i = 0; i < 2; ++i) {
            RpcController c; c.SetTimeout(5000); c.SetRequestCompressType((CompressType)T[how]); c.SetResponseCompressType((CompressType)T[(how + 2 * i) % 5]); verif::All p; stub.Call(&c, &q, &p, NULL);
            MC_CHECK(!c.Failed(), "call_failed", "call with request %d reply %d compression %d failed: %s", rq, rs, how, c.ErrorText().c_str());
            MC_CHECK(impl.seen.size() == (size_t)i + 1 && impl.seen[i] == q.SerializeAsString(), "wrong_request", "the service saw another request (%d)", rq);
            MC_CHECK(p.SerializeAsString() == impl.reply.SerializeAsString(), "wrong_reply", "the caller got another reply (%d)", rs);
        }
        cl.Shutdown();
    } else {
        Peer p; p.open(); std::string json; pb2json(&q, json); bool pb = how == 6;
        for (int i = 0; i < 2; ++i) {
            p.put(pb ? http_post("/verif.AllServer.Call", q.SerializeAsString(), "Accept: application/protobuf\r\n") : http_post("/verif.AllServer.Call", json));
            for (int k = 0; k < 4; ++k) { mc::sleep_us(SETTLE); p.poll(); }
            HttpReply h; MC_CHECK(take_http(p.in, &h) == 1, "not_answered", "HTTP call with request %d was not answered completely", rq);
            MC_CHECK(impl.seen.size() == (size_t)i + 1 && impl.seen[i] == q.SerializeAsString(), "wrong_request", "the service saw another request (%d)", rq);
            verif::All r; std::string err; if (pb) MC_CHECK(r.ParseFromString(h.body), "wrong_reply", "protobuf body does not parse"); else MC_CHECK(json2pb(h.body, &r, err) >= 0, "wrong_reply", "JSON body does not parse: %s", err.c_str());
            MC_CHECK(r.SerializeAsString() == impl.reply.SerializeAsString(), "wrong_reply", "HTTP caller got another reply (%d)", rs);
        }
        MC_CHECK(p.in.empty() && !p.closed(), "wrong_reply", "stray bytes or closed connection after the replies"); p.c.close(); mc::sleep_us(SETTLE);
    }
    srv.Stop();
    mc::obs("%d", how);
}
// a compressed body with one byte changed, removed, or truncated; or compressed data that claims other lengths
static std::string bad_compressed(const std::string& body, int type, int pos, int v) {
    std::string z = compress(body, type);
    if (pos >= (int)z.size()) pos = (int)z.size() - 1;
    static const int V[] = { 0, 1, 0x7f, 0x80, 0xff };
    if (v < 5) z[pos] = (char)V[v]; else if (v < 13) z[pos] = (char)(z[pos] ^ (1 << (v - 5))); else if (v == 13) z.resize(pos); else if (v == 14) z.erase(pos, 1); else z = repeat((char)V[v - 15], 40);
    return z;
}
MC_SCENARIO(srv_bad_compressed) { plain_cfg(cfg); cfg.max_steps = 100000000; }
MC_BODY(srv_bad_compressed) {

    static const int T[] = { CompressTypeGzip, CompressTypeZlib, CompressTypeSnappy, CompressTypeLZ4 };
    int type = T[mc::pick(4, "type")]; int big = mc::pick(2, "big"); std::string body = req_body(7, content(2, big ? 70000 : 30));
    int L = (int)compress(body, type).size(); int pos = mc::pick(std::min(L, 90), "pos"), v = mc::pick(20, "value");
    if (v >= 15 && pos) return;
    if (pos > 45 && big) pos = L - (90 - pos);
    Meta m; m.set_type(Meta::REQUEST); m.set_sequence_id(5); m.set_method("verif.EchoServer.Echo"); m.set_compress_type((CompressType)type);
    std::string s = frame(m, bad_compressed(body, type, pos, v));
    LogServer sv; sv.make(server_options());
    { Peer p; p.open(); p.put(s + request(6, 8, "next")); mc::sleep_us(SETTLE); p.poll();
      Meta a; std::string b;
      MC_CHECK(take_reply(p.in, &a, &b) && a.sequence_id() == 5, "not_answered", "corrupted compressed request (type %d pos %d) was not answered", type, pos);
      bool ok = !a.failed();
      if (!ok) MC_CHECK(a.error_code() == RPC_ERROR_PARSE_REQUEST_MESSAGE, "wrong_error", "error code %d", a.error_code());
      MC_CHECK(sv.impl->log.size() == (ok ? 2u : 1u), "wrong_reply", "executed %zu", sv.impl->log.size());
      MC_CHECK(take_reply(p.in, &a, &b) && a.sequence_id() == 6 && !a.failed(), "not_answered", "the next request was not answered");
      mc::obs("%d %d %d", type, v, ok); p.c.close(); mc::sleep_us(SETTLE); }
}
MC_SCENARIO(cl_bad_compressed) { plain_cfg(cfg); cfg.max_steps = 100000000; }
MC_BODY(cl_bad_compressed) {

    static const int T[] = { CompressTypeGzip, CompressTypeZlib, CompressTypeSnappy, CompressTypeLZ4 };
    int type = T[mc::pick(4, "type")]; std::string body = res_body(1, content(2, 30));
    int L = (int)compress(body, type).size(), pos = mc::pick(L, "pos"), v = mc::pick(20, "value"); if (v >= 15 && pos) return;
    feed_client([=](uint64_t q) {
        Meta m; m.set_type(Meta::RESPONSE); m.set_sequence_id(q); m.set_failed(false); m.set_compress_type((CompressType)type);
        return frame(m, bad_compressed(body, type, pos, v));
    }, false);
}
