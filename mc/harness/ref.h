// Reference decoders of the wire formats, written from the protocol description, used as oracles.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include "server.h"

namespace vh {
static const int64_t MAX_MSG = 64 << 20;

// What a server must do with a (prefix of a) byte stream of binary requests.
struct RefEvent { enum Kind { EXEC, ERR, SILENT } kind; uint64_t seq, id; std::string data; int code; size_t end; };
struct RefStream {
    std::vector<RefEvent> ev;
    enum State { OPEN, CLOSED, EITHER } state; // after the whole stream: still open, must be closed, or allowed to be either
};
struct RefHeader { uint32_t magic; int32_t meta; int64_t data, msg; };
inline RefHeader ref_header(const std::string& s, size_t o) {
    RefHeader h; memcpy(&h.magic, s.data() + o, 4); memcpy(&h.meta, s.data() + o + 4, 4); memcpy(&h.data, s.data() + o + 8, 8); memcpy(&h.msg, s.data() + o + 16, 8); return h;
}
inline bool is_service_error(int code) { return code == RPC_ERROR_PARSE_METHOD_NAME || code == RPC_ERROR_FOUND_METHOD || code == RPC_ERROR_PARSE_REQUEST_MESSAGE; }
inline RefStream ref_server(const std::string& s) {
    RefStream r; r.state = RefStream::OPEN;
    size_t o = 0;
    while (o < s.size()) {
        size_t have = s.size() - o;
        if (have < 4) return r;
        if (memcmp(s.data() + o, "SOFA", 4) != 0) {
            if (memcmp(s.data() + o, "GET ", 4) == 0 || memcmp(s.data() + o, "POST", 4) == 0) { r.state = RefStream::EITHER; return r; } // HTTP: other oracle
            r.state = RefStream::CLOSED; return r;
        }
        if (have < 24) return r;
        RefHeader h = ref_header(s, o);
        bool bad = h.meta < 0 || h.data < 0 || h.msg < 0 || h.msg > MAX_MSG + 24 || (__int128)h.meta + h.data != h.msg;
        if (bad) { r.state = have > 24 ? RefStream::CLOSED : RefStream::EITHER; return r; }
        if (h.msg > MAX_MSG) { r.state = RefStream::EITHER; return r; }
        if ((int64_t)have - 24 < h.msg) return r;
        std::string ms = s.substr(o + 24, h.meta), body = s.substr(o + 24 + h.meta, h.data);
        o += 24 + h.msg;
        Meta m;
        if (!m.ParseFromString(ms)) { if (h.msg == 0) { RefEvent e = { RefEvent::ERR, 0, 0, "", RPC_ERROR_PARSE_METHOD_NAME, o }; r.ev.push_back(e); r.state = RefStream::EITHER; return r; } r.state = RefStream::CLOSED; return r; }
        RefEvent e; e.kind = RefEvent::ERR; e.seq = m.sequence_id(); e.id = 0; e.code = 0; e.end = o;
        size_t dot = m.method().rfind('.');
        if (dot == std::string::npos) e.code = RPC_ERROR_PARSE_METHOD_NAME;
        else if (m.method() != "verif.EchoServer.Echo" && m.method() != "verif.EchoServer.Slow") e.code = RPC_ERROR_FOUND_METHOD;
        else if (m.has_compress_type() && m.compress_type() != CompressTypeNone) { r.state = RefStream::EITHER; return r; } // other oracle
        else {
            verif::EchoRequest q;
            if (!q.ParseFromString(body)) e.code = RPC_ERROR_PARSE_REQUEST_MESSAGE;
            else { e.kind = RefEvent::EXEC; e.id = q.id(); e.data = q.data(); }
        }
        r.ev.push_back(e);
    }
    return r;
}
// expected reaction of a client to one reply for a call with sequence id seq
struct RefReply { enum Kind { OK, FAIL, IGNORED, CLOSED, INCOMPLETE } kind; int code; uint64_t id; std::string data; };
inline RefReply ref_client(const std::string& s, uint64_t seq) {
    RefReply r; r.kind = RefReply::INCOMPLETE; r.code = 0; r.id = 0;
    if (s.size() < 24) return r;
    RefHeader h = ref_header(s, 0);
    if (memcmp(s.data(), "SOFA", 4) != 0 || h.meta < 0 || h.data < 0 || h.msg < 0 || (__int128)h.meta + h.data != h.msg) { r.kind = RefReply::CLOSED; return r; }
    if ((int64_t)s.size() - 24 < h.msg) return r;
    Meta m; r.kind = RefReply::IGNORED;
    if (!m.ParseFromString(s.substr(24, h.meta))) return r;
    if (m.type() != Meta::RESPONSE || m.sequence_id() != seq) return r;
    r.kind = RefReply::FAIL; r.code = RPC_ERROR_PARSE_RESPONSE_MESSAGE;
    if (!m.has_failed()) return r;
    if (m.failed()) { if (m.has_error_code() && m.has_reason() && m.error_code() != 0) r.code = m.error_code(); return r; }
    if (m.has_compress_type() && m.compress_type() != CompressTypeNone) { r.code = -1; return r; }
    verif::EchoResponse q;
    if (!q.ParseFromString(s.substr(24 + h.meta, h.data))) return r;
    r.kind = RefReply::OK; r.code = 0; r.id = q.id(); r.data = q.data();
    return r;
}

// bytes fields travel as base64 in JSON
inline std::string base64(const std::string& s) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned b[3] = { 0, 0, 0 }; size_t n = std::min<size_t>(3, s.size() - i); for (size_t k = 0; k < n; ++k) b[k] = (unsigned char)s[i + k];
        r += A[b[0] >> 2]; r += A[(b[0] & 3) << 4 | b[1] >> 4]; r += n > 1 ? A[(b[1] & 15) << 2 | b[2] >> 6] : '='; r += n > 2 ? A[b[2] & 63] : '=';
    }
    return r;
}
// HTTP replies
struct HttpReply { bool ok; std::string status, type, body; std::map<std::string, std::string> headers; };
// 1: complete reply parsed and removed from the front of s; 0: incomplete; -1 malformed
inline int take_http(std::string& s, HttpReply* r) {
    size_t e = s.find("\r\n\r\n");
    if (e == std::string::npos) return 0;
    std::string head = s.substr(0, e + 2); r->headers.clear();
    size_t o = head.find("\r\n"); r->status = head.substr(0, o);
    if (r->status.compare(0, 9, "HTTP/1.1 ") != 0) return -1;
    o += 2;
    while (o < head.size()) {
        size_t n = head.find("\r\n", o), c = head.find(": ", o);
        if (c == std::string::npos || c > n) return -1;
        r->headers[head.substr(o, c - o)] = head.substr(c + 2, n - c - 2); o = n + 2;
    }
    if (!r->headers.count("Content-Length") || !r->headers.count("Content-Type")) return -1;
    const std::string& cl = r->headers["Content-Length"];
    if (cl.empty() || cl.size() > 9) return -1;
    size_t len = 0; for (size_t i = 0; i < cl.size(); ++i) { if (cl[i] < '0' || cl[i] > '9') return -1; len = len * 10 + (cl[i] - '0'); }
    if (s.size() < e + 4 + len) return 0;
    r->type = r->headers["Content-Type"]; r->body = s.substr(e + 4, len); s.erase(0, e + 4 + len); r->ok = true;
    return 1;
}
inline std::string http_post(const std::string& path, const std::string& body, const char* extra = "") {
    char b[256]; snprintf(b, sizeof b, "POST %s HTTP/1.1\r\nHost: h\r\n%sContent-Length: %zu\r\n\r\n", path.c_str(), extra, body.size());
    return b + body;
}
inline std::string http_get(const std::string& target) { return "GET " + target + " HTTP/1.1\r\nHost: h\r\n\r\n"; }
// the service as seen from the wire, with a record of what it executed and in which order
struct LogEcho : public EchoImpl {
    std::vector<std::pair<uint64_t, std::string> > log;
    virtual void Echo(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) {
        log.push_back(std::make_pair(r->id(), r->data())); p->set_id(r->id()); p->set_data(reply_data(r->data())); p->set_must(1);
        if (fail_with_reason) c->SetFailed("user error"); done->Run();
    }
    virtual void Slow(google::protobuf::RpcController* c, const verif::EchoRequest* r, verif::EchoResponse* p, google::protobuf::Closure* done) { Echo(c, r, p, done); }
};
struct LogServer {
    LogEcho* impl; RpcServer* srv;
    LogServer() : impl(new LogEcho), srv(NULL) {}
    void make(const RpcServerOptions& o) { srv = new RpcServer(o); MC_CHECK(srv->RegisterService(impl, false), "harness", "RegisterService failed"); char b[32]; snprintf(b, sizeof b, "0.0.0.0:%d", PORT); MC_CHECK(srv->Start(b), "harness", "Start failed"); }
    ~LogServer() { delete srv; delete impl; }
};
}
#endif
