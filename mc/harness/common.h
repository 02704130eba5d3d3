// Shared by the scenario files: calls with completion records, an echo service with controllable completion, raw peers
// that speak the wire protocol byte by byte. Everything lives in namespace vh, which the runtime treats as observer
// code (no scheduling points, no conflicts).
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include "mc.h"
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/rpc_message_header.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include "vecho.pb.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

using namespace sofa::pbrpc;

namespace vh {

inline void log_to_trace(LogLevel level, const char* file, int line, const char* fmt, va_list ap) {
    char b[512]; vsnprintf(b, sizeof b, fmt, ap);
    const char* s = strrchr(file, '/'); s = s ? s + 1 : file;
    if (level == LOG_LEVEL_FATAL) { char sig[160]; snprintf(sig, sizeof sig, "fatal:%s:%.60s", s, b); mc::fail(sig, "%s:%d %s", s, line, b); }
    mc::note("LOG%d %s:%d %s", (int)level, s, line, b);
}
inline void no_pb_log(google::protobuf::LogLevel, const char*, int, const std::string&) {}
struct LogInit { LogInit() { google::protobuf::SetLogHandler(&no_pb_log); set_log_handler(log_to_trace); internal::set_log_level(LOG_LEVEL_FATAL); } };
static LogInit log_init;

static const int PORT = 12321;
inline std::string addr(int port = PORT) { char b[64]; snprintf(b, sizeof b, "127.0.0.1:%d", port); return b; }

// ------------------------------------------------------------------------------------------------ wire format
typedef sofa::pbrpc::RpcMeta Meta;
inline std::string frame(const Meta& m, const std::string& body) {
    std::string ms; m.SerializePartialToString(&ms);
    RpcMessageHeader h; h.meta_size = ms.size(); h.data_size = body.size(); h.message_size = ms.size() + body.size();
    return std::string((const char*)&h, sizeof h) + ms + body;
}
inline std::string req_body(uint64_t id, const std::string& data) { verif::EchoRequest r; r.set_id(id); r.set_data(data); r.set_must(1); return r.SerializeAsString(); }
inline std::string res_body(uint64_t id, const std::string& data) { verif::EchoResponse r; r.set_id(id); r.set_data(data); r.set_must(1); return r.SerializeAsString(); }
inline std::string request(uint64_t seq, uint64_t id, const std::string& data, const char* method = "verif.EchoServer.Echo", int64_t timeout = 0) {
    Meta m; m.set_type(Meta::REQUEST); m.set_sequence_id(seq); m.set_method(method); m.set_compress_type(CompressTypeNone); m.set_expected_response_compress_type(CompressTypeNone);
    if (timeout) m.set_server_timeout(timeout);
    return frame(m, req_body(id, data));
}
inline std::string response(uint64_t seq, uint64_t id, const std::string& data) {
    Meta m; m.set_type(Meta::RESPONSE); m.set_sequence_id(seq); m.set_failed(false); m.set_compress_type(CompressTypeNone);
    return frame(m, res_body(id, data));
}
inline std::string error_response(uint64_t seq, int code, const std::string& reason) {
    Meta m; m.set_type(Meta::RESPONSE); m.set_sequence_id(seq); m.set_failed(true); m.set_error_code(code); m.set_reason(reason);
    return frame(m, "");
}

// ------------------------------------------------------------------------------------------------ raw sockets
struct Conn {
    int fd;
    Conn(int f = -1) : fd(f) {}
    bool ok() const { return fd >= 0; }
    // returns false at end of stream or on error
    bool read_n(char* p, size_t n) {
        while (n) { ssize_t k = ::recv(fd, p, n, 0); if (k <= 0) return false; p += k; n -= k; }
        return true;
    }
    // 1 message, 0 clean end of stream at a message boundary, -1 broken stream or malformed header
    int read_msg(Meta* m, std::string* body) {
        RpcMessageHeader h; char* p = (char*)&h; size_t got = 0;
        while (got < sizeof h) { ssize_t k = ::recv(fd, p + got, sizeof h - got, 0); if (k == 0 && got == 0) return 0; if (k <= 0) return -1; got += k; }
        if (!h.CheckMagicString() || h.meta_size < 0 || h.data_size < 0 || h.message_size != h.meta_size + h.data_size || h.message_size > (64 << 20)) return -2;
        std::string b(h.message_size, 0);
        if (h.message_size && !read_n(&b[0], b.size())) return -1;
        if (!m->ParseFromString(b.substr(0, h.meta_size))) return -3;
        *body = b.substr(h.meta_size);
        return 1;
    }
    bool send_all(const std::string& s) {
        size_t o = 0;
        while (o < s.size()) { ssize_t k = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (k <= 0) return false; o += k; }
        return true;
    }
    // everything until end of stream
    std::string read_all() { std::string r; char b[4096]; for (;;) { ssize_t k = ::recv(fd, b, sizeof b, 0); if (k <= 0) return r; r.append(b, k); } }
    void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
};
struct Listener {
    int fd; int port;
    Listener() : fd(-1), port(0) {}
    bool open(int p = PORT) {
        mc::net::set_raw(true);
        port = p; fd = ::socket(AF_INET, SOCK_STREAM, 0);
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(INADDR_ANY);
        bool ok = ::bind(fd, (struct sockaddr*)&a, sizeof a) == 0 && ::listen(fd, 64) == 0;
        mc::net::set_raw(false);
        return ok;
    }
    Conn accept() { mc::net::set_raw(true); int c = ::accept(fd, NULL, NULL); mc::net::set_raw(false); return Conn(c); }
    void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
};
inline Conn dial(int port = PORT) {
    mc::net::set_raw(true);
    int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int r = ::connect(fd, (struct sockaddr*)&a, sizeof a);
    mc::net::set_raw(false);
    if (r != 0) { ::close(fd); return Conn(-1); }
    return Conn(fd);
}

// ------------------------------------------------------------------------------------------------ calls
struct Call {
    RpcController cntl; verif::EchoRequest req; verif::EchoResponse res;
    int done; uint64_t t_start, t_done; uint64_t id; std::string data; bool returned;
    int code; bool failed; std::string error; uint64_t rid; std::string rdata; int thread; bool lax;
    Call() : lax(false), done(0), t_start(0), t_done(0), id(0), returned(false), code(0), failed(false), rid(0), thread(0) {}
    void set(uint64_t i, const std::string& d, int64_t timeout) { id = i; data = d; req.set_id(i); req.set_data(d); req.set_must(1); if (timeout > 0) cntl.SetTimeout(timeout); }
    void record() {
        if (done > 0) mc::fail("completed_twice", "call %lu completed a second time (first at %lu us)", (unsigned long)id, (unsigned long)t_done);
        ++done; t_done = mc::now_us(); failed = cntl.Failed(); code = cntl.ErrorCode(); error = cntl.ErrorText(); rid = res.id(); rdata = res.data();
        mc::note("call %lu done failed=%d code=%d %s", (unsigned long)id, failed, code, error.c_str());
    }
    // the reply a successful call carries must be the one produced for it
    void check_reply() {
        if (!lax && !failed && (rid != id || rdata != data)) mc::fail("wrong_reply", "call %lu (%s) succeeded with the reply of another request: id %lu data %s", (unsigned long)id, data.c_str(), (unsigned long)rid, rdata.c_str());
        if (failed && code == 0) mc::fail("failed_without_code", "call %lu failed with error code 0", (unsigned long)id);
        if (!failed && code != 0) mc::fail("success_with_code", "call %lu succeeded with error code %d", (unsigned long)id, code);
    }
    const char* outcome() { static char b[32]; if (!done) return "pending"; if (!failed) return "ok"; snprintf(b, sizeof b, "err%d", code); return b; }
};
inline void on_done(Call* c) { c->record(); c->check_reply(); }
inline void call_async(google::protobuf::RpcChannel* ch, Call* c, int method = 0) {
    verif::EchoServer_Stub stub(ch);
    c->t_start = mc::now_us();
    google::protobuf::Closure* d = NewClosure(&on_done, c);
    if (method == 0) stub.Echo(&c->cntl, &c->req, &c->res, d); else stub.Slow(&c->cntl, &c->req, &c->res, d);
    c->returned = true;
}
inline void call_sync(google::protobuf::RpcChannel* ch, Call* c, int method = 0) {
    verif::EchoServer_Stub stub(ch);
    c->t_start = mc::now_us();
    if (method == 0) stub.Echo(&c->cntl, &c->req, &c->res, NULL); else stub.Slow(&c->cntl, &c->req, &c->res, NULL);
    c->record(); c->check_reply(); c->returned = true;
}
// final state must not change after completion
inline void check_stable(Call* c) {
    if (!c->done) return;
    if (c->cntl.Failed() != c->failed || c->cntl.ErrorCode() != c->code) mc::fail("result_changed", "call %lu: result changed after completion (%d/%d -> %d/%d)", (unsigned long)c->id, c->failed, c->code, c->cntl.Failed(), c->cntl.ErrorCode());
    if (!c->failed && (c->res.id() != c->rid || c->res.data() != c->rdata)) mc::fail("reply_changed", "call %lu: response changed after completion", (unsigned long)c->id);
}

// ------------------------------------------------------------------------------------------------ echo service
struct Pending { google::protobuf::RpcController* cntl; const verif::EchoRequest* req; verif::EchoResponse* res; google::protobuf::Closure* done; uint64_t id; };
struct EchoImpl : public verif::EchoServer {
    std::map<uint64_t, int> seen;      // how often a request id was executed
    std::deque<Pending> pending;       // Slow: completed by complete_one()
    int running, max_running, total;
    bool fail_with_reason; uint64_t delay_us; int repeat;
    EchoImpl() : running(0), max_running(0), total(0), fail_with_reason(false), delay_us(0), repeat(1) {}
    std::string reply_data(const std::string& d) const { std::string r; for (int i = 0; i < repeat; ++i) r += d; return r; }
    void enter(const verif::EchoRequest* r) {
        int n = ++seen[r->id()]; ++total;
        if (n > 1) mc::fail("executed_twice", "request %lu was executed %d times", (unsigned long)r->id(), n);
        mc::note("service executes request %lu", (unsigned long)r->id());
    }
    virtual void Echo(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) {
        enter(r);
        if (delay_us) { mc::sleep_us(delay_us); }
        p->set_id(r->id()); p->set_data(reply_data(r->data())); p->set_must(1);
        if (fail_with_reason) c->SetFailed("user error");
        done->Run();
    }
    virtual void Slow(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) {
        enter(r);
        Pending x = { c, r, p, done, r->id() }; pending.push_back(x);
    }
    bool complete(size_t i) {
        if (i >= pending.size()) return false;
        Pending x = pending[i]; pending.erase(pending.begin() + i);
        x.res->set_id(x.req->id()); x.res->set_data(reply_data(x.req->data())); x.res->set_must(1);
        x.done->Run();
        return true;
    }
};

inline RpcServerOptions server_options(int threads = 1) {
    RpcServerOptions o; o.work_thread_num = threads; o.keep_alive_time = -1; o.disable_builtin_services = true;
    return o;
}
inline RpcClientOptions client_options(int work = 1, int cb = 1) { RpcClientOptions o; o.work_thread_num = work; o.callback_thread_num = cb; return o; }

inline int count_done(const std::vector<Call*>& v) { int n = 0; for (size_t i = 0; i < v.size(); ++i) n += v[i]->done > 0; return n; }
inline bool all_done(const std::vector<Call*>& v) { return count_done(v) == (int)v.size(); }
// waits until every call has completed; reports the ones that have not within `us` of virtual time
inline void wait_all(const std::vector<Call*>& v, uint64_t us) {
    if (mc::wait_until([&v]() { return all_done(v); }, us)) return;
    for (size_t i = 0; i < v.size(); ++i) if (!v[i]->done) mc::fail("never_completed", "call %lu (timeout %ld ms) has not completed %lu ms after all timeouts and failures are due", (unsigned long)v[i]->id, (long)v[i]->cntl.Timeout(), (unsigned long)(us / 1000));
}
} // namespace vh
#endif
