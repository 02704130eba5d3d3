// What a controller is set to and what it says afterwards (C28), seen from both ends.
#include "ref.h"
#include "voption.pb.h"
#include <sofa/pbrpc/compressed_stream.h>
#include <sofa/pbrpc/buffer.h>

namespace vh {
static std::string packed(const std::string& body, int type) {
    if (type == CompressTypeNone) return body;
    WriteBuffer w;
    { sofa::pbrpc::scoped_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&w, (CompressType)type));
      void* p; int n; size_t o = 0;
      while (o < body.size()) { os->Next(&p, &n); size_t k = std::min<size_t>(n, body.size() - o); memcpy(p, body.data() + o, k); o += k; if ((int)k < n) os->BackUp(n - (int)k); }
      os->Flush(); }
    ReadBuffer r; w.SwapOut(&r); return r.ToString();
}
static std::string unpacked(const std::string& z, int type) {
    if (type == CompressTypeNone) return z;
    WriteBuffer w; w.Append(z); ReadBuffer r; w.SwapOut(&r);
    sofa::pbrpc::scoped_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&r, (CompressType)type));
    std::string out; const void* p; int n; while (is->Next(&p, &n)) out.append((const char*)p, n);
    return out;
}
static std::string peer_of(int fd) { struct sockaddr_in a; socklen_t l = sizeof a; if (getpeername(fd, (struct sockaddr*)&a, &l)) return "?"; char b[64]; snprintf(b, sizeof b, "%s:%d", inet_ntoa(a.sin_addr), ntohs(a.sin_port)); return b; }
static std::string local_of(int fd) { struct sockaddr_in a; socklen_t l = sizeof a; if (getsockname(fd, (struct sockaddr*)&a, &l)) return "?"; char b[64]; snprintf(b, sizeof b, "%s:%d", inet_ntoa(a.sin_addr), ntohs(a.sin_port)); return b; }
struct MethodInfo { const char* name; int64_t method_timeout, service_timeout; int rq, rs; };
static const MethodInfo METHODS[5] = {
    { "verif.PlainServer.A", -1, 10000, CompressTypeNone, CompressTypeNone }, { "verif.PlainServer.M", 300, 10000, CompressTypeGzip, CompressTypeNone },
    { "verif.PlainServer.Z", 0, 10000, CompressTypeNone, CompressTypeZlib }, { "verif.TimedServer.A", -1, 700, CompressTypeNone, CompressTypeNone }, { "verif.TimedServer.M", 2500, 700, CompressTypeSnappy, CompressTypeLZ4 } };
// everything the peer does is told by `mode`; it notes what it saw of the last request
struct OptPeer {
    enum { ANSWER, SILENT, FAIL_CODE, FAIL_USER, CUT, TYPES_OF_ITS_OWN };
    Listener l; int mode, code; std::string reason; int tid; bool stopping; Conn cur; Meta meta; std::string body, from; uint64_t wire; int n, conns;
    OptPeer() : mode(ANSWER), code(0), tid(-1), stopping(false), wire(0), n(0), conns(0) {}
    void start() { MC_CHECK(l.open(), "harness", "listen"); OptPeer* p = this; tid = mc::spawn("peer", [p]() { p->loop(); }); }
    void loop() { for (;;) { Conn k = l.accept(); if (!k.ok()) return; if (stopping) { k.close(); return; } ++conns; cur = k; serve(k); cur.fd = -1; k.close(); if (stopping) return; } }
    void serve(Conn k) {
        for (;;) {
            Meta m; std::string b; if (k.read_msg(&m, &b) != 1) return;
            meta = m; std::string ms; m.SerializePartialToString(&ms); wire = 24 + ms.size() + b.size(); from = peer_of(k.fd); body = unpacked(b, m.compress_type()); ++n;
            if (mode == SILENT) continue;
            if (mode == CUT) return;
            Meta r; r.set_type(Meta::RESPONSE); r.set_sequence_id(m.sequence_id());
            if (mode == FAIL_CODE || mode == FAIL_USER) { r.set_failed(true); r.set_error_code(mode == FAIL_USER ? (int)RPC_ERROR_FROM_USER : code); r.set_reason(reason); k.send_all(frame(r, "")); continue; }
            int t = mode == ANSWER ? m.expected_response_compress_type() : code; verif::EchoRequest q; MC_CHECK(q.ParseFromString(body), "wrong_request", "the request does not parse (compression %d)", m.compress_type());
            r.set_failed(false); if (!(mode == TYPES_OF_ITS_OWN && t == CompressTypeNone)) r.set_compress_type((CompressType)t); k.send_all(frame(r, packed(res_body(q.id(), q.data()), t)));
        }
    }
    void stop() { stopping = true; if (cur.fd >= 0) ::shutdown(cur.fd, SHUT_RDWR); ::shutdown(l.fd, SHUT_RDWR); l.close(); mc::join(tid); }
};
struct CtlCall {
    verif::EchoRequest q; verif::EchoResponse p; RpcController* c; int done; uint64_t t0, t1;
    CtlCall(RpcController* c_) : c(c_), done(0), t0(0), t1(0) {}
    static void fin(CtlCall* x) { if (x->done > 0) mc::fail("completed_twice", "completed twice"); ++x->done; x->t1 = mc::now_us(); }
    void run(RpcChannel* ch, int method, bool sync, uint64_t id, const std::string& data) {
        q.set_id(id); q.set_data(data); q.set_must(1); t0 = mc::now_us(); google::protobuf::Closure* d = sync ? NULL : NewClosure(&CtlCall::fin, this);
        verif::PlainServer_Stub a(ch); verif::TimedServer_Stub b(ch);
        switch (method) { case 0: a.A(c, &q, &p, d); break; case 1: a.M(c, &q, &p, d); break; case 2: a.Z(c, &q, &p, d); break; case 3: b.A(c, &q, &p, d); break; default: b.M(c, &q, &p, d); }
        if (sync) fin(this); for (int i = 0; i < 400 && !done; ++i) mc::sleep_us(50000);
        MC_CHECK(done == 1, "no_completion", "the call did not complete");
    }
};
static std::string error_text(int code, const std::string& reason) { return std::string(RpcErrorCodeToString(code)) + (reason.empty() ? "" : ": " + reason); }
static void expect_ctl(RpcController& c, bool failed, int code, const char* text) {
    MC_CHECK(c.Failed() == failed && c.ErrorCode() == code, "wrong_result", "failed=%d code=%d %s instead of failed=%d code=%d", c.Failed(), c.ErrorCode(), c.ErrorText().c_str(), failed, code);
    if (text) MC_CHECK(c.ErrorText() == text, "wrong_text", "error text is '%s' instead of '%s'", c.ErrorText().c_str(), text);
}
} // namespace vh
using namespace vh;

// every source of every option: the controller, the method, the service
static void ctl_cfg(mc::Config& cfg) { cfg.bound = 0; cfg.points_plain = 0; cfg.max_steps = 400000000; cfg.horizon_us = 120000000; }
MC_SCENARIO(ctl_options) { ctl_cfg(cfg); }
MC_BODY(ctl_options) {
    static const int64_t T[] = { -7777, 0, -5, 40, 1500 }; static const int K[] = { -1, CompressTypeNone, CompressTypeGzip, CompressTypeZlib, CompressTypeSnappy, CompressTypeLZ4 };
    int method = mc::pick(5, "method"), ti = mc::pick(5, "timeout"), rq = mc::pick(6, "request type"), rs = mc::pick(6, "response type"); bool silent = mc::pick(2, "silent"), sync = (method + ti + rq) & 1;
    if (silent && (rq || rs)) return;
    OptPeer peer; peer.start(); RpcClient cl(client_options()); RpcChannel ch(&cl, addr()); const MethodInfo& m = METHODS[method]; std::string data = repeat('d', 300);
    {
        RpcController c; peer.mode = silent ? OptPeer::SILENT : OptPeer::ANSWER;
        for (int round = 0; round < 2; ++round) {          // the second time after Reset(): nothing may remain of the first
            if (round == 0) { if (ti) c.SetTimeout(T[ti]); if (rq) c.SetRequestCompressType((CompressType)K[rq]); if (rs) c.SetResponseCompressType((CompressType)K[rs]); }
            else { c.Reset(); MC_CHECK(!c.Failed() && c.ErrorCode() == 0 && !c.IsRequestSent() && c.SentBytes() == 0, "reset", "Reset() leaves results of the call before"); }
            bool set = round == 0; int64_t want = set && ti && T[ti] > 0 ? T[ti] : m.method_timeout != -1 ? m.method_timeout : m.service_timeout; if (want <= 0) want = 1;
            int wrq = set && rq ? K[rq] : m.rq, wrs = set && rs ? K[rs] : m.rs, before = peer.n;
            CtlCall x(&c); x.run(&ch, method, sync, 5 + round, data);
            if (want > 1) MC_CHECK(peer.n == before + 1, "not_sent", "the peer got %d requests", peer.n - before);
            else if (peer.n == before) { expect_ctl(c, true, RPC_ERROR_REQUEST_TIMEOUT, NULL); continue; }
            MC_CHECK(c.Timeout() == want, "timeout", "Timeout() of a call of %s is %ld instead of %ld", m.name, (long)c.Timeout(), (long)want);
            MC_CHECK(peer.meta.method() == m.name && peer.meta.server_timeout() == want, "timeout", "the request for %s says timeout %ld instead of %ld", peer.meta.method().c_str(), (long)peer.meta.server_timeout(), (long)want);
            MC_CHECK(peer.meta.compress_type() == wrq && peer.meta.expected_response_compress_type() == wrs, "compress_type", "the request for %s says compression %d and %d instead of %d and %d", m.name, peer.meta.compress_type(), peer.meta.expected_response_compress_type(), wrq, wrs);
            verif::EchoRequest q; MC_CHECK(q.ParseFromString(peer.body) && q.id() == 5u + round && q.data() == data, "wrong_request", "the peer got another request");
            if (silent) { expect_ctl(c, true, RPC_ERROR_REQUEST_TIMEOUT, NULL); uint64_t t = x.t1 - x.t0; MC_CHECK(t >= (uint64_t)want * 1000 && t <= (uint64_t)want * 1000 + 110000, "timeout", "a call of %s timed out after %lu us instead of %ld ms", m.name, (unsigned long)t, (long)want); }
            else { expect_ctl(c, false, 0, NULL); MC_CHECK(x.p.id() == 5u + round && x.p.data() == data, "wrong_reply", "the caller got another reply"); }
            MC_CHECK(c.IsRequestSent(), "sent", "IsRequestSent() is false although the request arrived"); MC_CHECK(c.SentBytes() == (int64_t)peer.wire, "sent_bytes", "SentBytes() is %ld, the message had %ld bytes", (long)c.SentBytes(), (long)peer.wire);
            MC_CHECK(c.LocalAddress() == peer.from, "address", "LocalAddress() is %s, the peer saw %s", c.LocalAddress().c_str(), peer.from.c_str()); MC_CHECK(c.RemoteAddress() == addr(), "address", "RemoteAddress() is %s", c.RemoteAddress().c_str());
        }
    }
    cl.Shutdown(); peer.stop(); mc::obs("%d %d", method, silent);
}
// every sequence of outcomes on one controller, with Reset() in between
MC_SCENARIO(ctl_outcomes) { ctl_cfg(cfg); }
MC_BODY(ctl_outcomes) {
    static const char* R[] = { "", "why", "several\nlines: 100% \xe4\xbd\xa0", NULL }; std::string longr = repeat('r', 3000);
    OptPeer peer; peer.start(); RpcClient cl(client_options()); RpcChannel ch(&cl, addr()), gone(&cl, "127.0.0.1:12399"), hole(&cl, "127.0.0.1:12398"), badaddr(&cl, "127.0.0.1"); mc::net::set_port_mode(12398, mc::net::BLACKHOLE);
    {
        RpcController c; std::string o;
        for (int k = 0; k < 3; ++k) {
            int what = mc::pick(9, "outcome"); bool sync = mc::pick(2, "sync"); std::string reason; int code = 0; bool sent = true; RpcChannel* h = &ch; peer.mode = OptPeer::ANSWER; if (k) c.Reset();
            c.SetTimeout(what == 4 || what == 6 ? 300 : 5000);
            switch (what) {
            case 1: case 2: { int r = k ? 1 : mc::pick(4, "reason"); reason = R[r] ? R[r] : longr; peer.reason = reason; peer.mode = what == 1 ? OptPeer::FAIL_USER : OptPeer::FAIL_CODE; peer.code = code = what == 1 ? RPC_ERROR_FROM_USER : RPC_ERROR_SERVER_BUSY; break; }
            case 3: peer.mode = OptPeer::CUT; code = -2; break;
            case 4: peer.mode = OptPeer::SILENT; code = RPC_ERROR_REQUEST_TIMEOUT; break;
            case 5: h = &gone; code = -1; sent = false; break;
            case 6: h = &hole; code = RPC_ERROR_REQUEST_TIMEOUT; sent = false; break;
            case 7: h = &badaddr; code = RPC_ERROR_RESOLVE_ADDRESS; sent = false; break;
            case 8: peer.mode = OptPeer::TYPES_OF_ITS_OWN; peer.code = k ? CompressTypeSnappy : mc::pick(5, "type"); c.SetResponseCompressType(CompressTypeGzip); break;
            }
            if (k && what == 0) break;
            int before = peer.n; CtlCall x(&c); x.run(h, 0, sync, 10 + k, "dat"); o += (char)('0' + what);
            MC_CHECK(peer.n == before + sent, "sent", "the peer got %d requests", peer.n - before);
            if (!code) { expect_ctl(c, false, 0, NULL); MC_CHECK(x.p.id() == 10u + k && x.p.data() == "dat", "wrong_reply", "the caller got another reply"); }
            else if (code < 0) { MC_CHECK(c.Failed() && c.ErrorCode() != RPC_SUCCESS && c.ErrorCode() != RPC_ERROR_FROM_USER, "wrong_result", "failed=%d code=%d", c.Failed(), c.ErrorCode()); MC_CHECK(c.ErrorText().compare(0, strlen(RpcErrorCodeToString(c.ErrorCode())), RpcErrorCodeToString(c.ErrorCode())) == 0, "wrong_text", "error text '%s'", c.ErrorText().c_str()); }
            else { expect_ctl(c, true, code, what == 1 || what == 2 ? error_text(code, reason).c_str() : NULL); }
            if (code == RPC_ERROR_REQUEST_TIMEOUT) MC_CHECK((c.ErrorText().find(sent ? "already sent" : "not sent") != std::string::npos), "wrong_text", "error text '%s' (request sent: %d)", c.ErrorText().c_str(), sent);
            MC_CHECK(c.IsRequestSent() == sent, "sent", "IsRequestSent() is %d after outcome %d", c.IsRequestSent(), what); MC_CHECK(c.SentBytes() == (sent ? (int64_t)peer.wire : 0), "sent_bytes", "SentBytes() is %ld after outcome %d", (long)c.SentBytes(), what);
            if (sent) MC_CHECK(c.LocalAddress() == peer.from && c.RemoteAddress() == addr(), "address", "addresses %s and %s", c.LocalAddress().c_str(), c.RemoteAddress().c_str());
            else if (what != 7) MC_CHECK(c.RemoteAddress() == (what == 5 ? "127.0.0.1:12399" : "127.0.0.1:12398"), "address", "RemoteAddress() is %s", c.RemoteAddress().c_str());
            bool f = c.Failed(); int e = c.ErrorCode(); std::string t = c.ErrorText(); mc::sleep_us(400000);
            MC_CHECK(c.Failed() == f && c.ErrorCode() == e && c.ErrorText() == t && c.IsRequestSent() == sent, "result_changed", "the result changed after completion");
        }
        mc::obs("%s", o.c_str());
    }
    cl.Shutdown(); peer.stop();
}
// what a service sees of a request, for requests of both kinds from several connections at once
namespace vh {
struct Seen { bool http; std::string local, remote, path, q, h; int n; };
struct SeeImpl : public verif::EchoServer {
    Seen s[4]; std::string fail[4]; bool fails[4];
    SeeImpl() { for (int i = 0; i < 4; ++i) { s[i].n = 0; fails[i] = false; } }
    void look(google::protobuf::RpcController* g, uint64_t id) {
        RpcController* c = dynamic_cast<RpcController*>(g); MC_CHECK(c && id < 4, "harness", "controller");
        Seen& x = s[id]; ++x.n; x.http = c->IsHttp(); x.local = c->LocalAddress(); x.remote = c->RemoteAddress(); x.path = x.q = x.h = "";
        if (x.http) { x.path = c->HttpPath(); const std::map<std::string, std::string>& q = c->HttpQueryParams(); for (std::map<std::string, std::string>::const_iterator i = q.begin(); i != q.end(); ++i) x.q += i->first + "=" + i->second + ";"; const std::map<std::string, std::string>& h = c->HttpHeaders(); for (std::map<std::string, std::string>::const_iterator i = h.begin(); i != h.end(); ++i) if (i->first[0] == 'X') x.h += i->first + "=" + i->second + ";"; }
    }
    virtual void Echo(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) {
        look(c, r->id()); p->set_id(r->id()); p->set_data(r->data()); p->set_must(1); if (fails[r->id()]) c->SetFailed(fail[r->id()]); done->Run();
    }
    Pending held[4]; int nheld;
    virtual void Slow(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) { look(c, r->id()); Pending x = { c, r, p, done, r->id() }; held[nheld++] = x; }
};
}
MC_SCENARIO(ctl_service) { ctl_cfg(cfg); cfg.bound = 1; }
MC_BODY(ctl_service) {
    int kind = mc::pick(4, "kinds"), fl = mc::pick(4, "fail"); bool slow = mc::pick(2, "slow"), swap = slow && mc::pick(2, "swap");
    SeeImpl impl; impl.nheld = 0; RpcServer srv(server_options(2)); srv.RegisterService(&impl, false); char b[32]; snprintf(b, sizeof b, "0.0.0.0:%d", PORT); MC_CHECK(srv.Start(b), "harness", "Start failed");
    static const char* R[] = { "", "no \"way\"\n", "" }; for (int i = 0; i < 2; ++i) { impl.fails[i] = !slow && (fl == 1 ? i == 0 : fl == 2 ? true : fl == 3 ? i == 1 : false); impl.fail[i] = fl == 3 ? repeat('f', 2000) : R[fl == 2 ? 1 : 0]; }
    if (slow && fl) { srv.Stop(); return; }
    Conn c[2]; std::string mine[2];
    for (int i = 0; i < 2; ++i) { c[i] = dial(); MC_CHECK(c[i].ok(), "harness", "dial"); mine[i] = local_of(c[i].fd); }
    for (int i = 0; i < 2; ++i) {
        bool http = kind >> i & 1; char j[200];
        if (http) { snprintf(j, sizeof j, "{\"id\":%d,\"data\":\"ZA==\",\"must\":1}", i); c[i].send_all(http_post(std::string("/verif.EchoServer.") + (slow ? "Slow" : "Echo") + (i ? "?a=1&b=%20x" : "?z="), j, i ? "X-One: first\r\n" : "X-Two: second\r\n")); }
        else c[i].send_all(request(50 + i, i, "d", slow ? "verif.EchoServer.Slow" : "verif.EchoServer.Echo"));
    }
    if (slow) { for (int k = 0; k < 100 && impl.nheld < 2; ++k) mc::sleep_us(1000); MC_CHECK(impl.nheld == 2, "not_executed", "%d of 2 requests executed", impl.nheld); for (int k = 0; k < 2; ++k) { Pending& x = impl.held[swap ? 1 - k : k]; impl.look(x.cntl, x.id); x.res->set_id(x.id); x.res->set_data("d"); x.res->set_must(1); x.done->Run(); } }
    for (int i = 0; i < 2; ++i) {
        bool http = kind >> i & 1; Seen& s = impl.s[i];
        if (http) {
            std::string in; HttpReply r; int got = 0; char buf[4096]; while (!(got = take_http(in, &r))) { ssize_t n = ::recv(c[i].fd, buf, sizeof buf, 0); if (n <= 0) break; in.append(buf, n); }
            MC_CHECK(got == 1, "not_answered", "HTTP request %d was not answered", i); char e[32]; snprintf(e, sizeof e, "\"ERROR: %d: ", (int)RPC_ERROR_FROM_USER); MC_CHECK((r.body.compare(0, strlen(e), e) == 0) == impl.fails[i], "wrong_reply", "HTTP call (service fails: %d) answered with %s", impl.fails[i], r.body.c_str());
        } else {
            Meta m; std::string body; MC_CHECK(c[i].read_msg(&m, &body) == 1 && m.sequence_id() == 50u + i, "not_answered", "request %d was not answered", i);
            MC_CHECK(m.failed() == impl.fails[i], "wrong_result", "failed=%d", m.failed()); if (impl.fails[i]) MC_CHECK(m.error_code() == RPC_ERROR_FROM_USER && m.reason() == impl.fail[i], "wrong_text", "the caller is told %d '%s'", m.error_code(), m.reason().c_str());
        }
        MC_CHECK(s.n == 1 + slow && s.http == http, "kind", "request %d was seen %d times, IsHttp() %d", i, s.n, s.http);
        MC_CHECK(s.remote == mine[i] && s.local == addr(), "address", "the service sees addresses %s and %s instead of %s and %s", s.remote.c_str(), s.local.c_str(), mine[i].c_str(), addr().c_str());
        if (http) MC_CHECK(s.path == (slow ? "/verif.EchoServer.Slow" : "/verif.EchoServer.Echo") && s.q == (i ? "a=1;b= x;" : "z=;") && s.h == (i ? "X-One=first;" : "X-Two=second;"), "http", "the service sees path '%s' parameters '%s' headers '%s'", s.path.c_str(), s.q.c_str(), s.h.c_str());
    }
    for (int i = 0; i < 2; ++i) c[i].close();
    srv.Stop(); mc::obs("%d %d %d", kind, fl, slow);
}
