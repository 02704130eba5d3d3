// Raw peers that check replies, and a real server with the echo service.
#ifndef VERIF_SERVER_H_
#define VERIF_SERVER_H_
#include "common.h"

namespace vh {
struct Reply { Meta meta; uint64_t id; std::string data; };
// reads replies until the end of the stream or n of them; checks that each is complete, known and not repeated
struct Client {
    Conn c; std::map<uint64_t, Reply> got; int broken;
    Client() : broken(0) {}
    bool open(int port = PORT) { c = dial(port); return c.ok(); }
    bool read_one(const std::set<uint64_t>& expected) {
        Meta m; std::string b; int r = c.read_msg(&m, &b);
        if (r == -1) { broken = 1; return false; }
        if (r == 0) return false;
        MC_CHECK(r == 1, "malformed_reply", "server sent a malformed message (%d)", r);
        MC_CHECK(m.type() == Meta::RESPONSE && m.has_failed(), "malformed_reply", "server sent a message that is not a valid response");
        MC_CHECK(expected.count(m.sequence_id()), "unknown_reply", "server answered sequence id %lu that was not requested", (unsigned long)m.sequence_id());
        MC_CHECK(!got.count(m.sequence_id()), "answered_twice", "sequence id %lu was answered twice", (unsigned long)m.sequence_id());
        Reply p; p.meta = m; p.id = 0;
        if (!m.failed()) { verif::EchoResponse q; MC_CHECK(q.ParseFromString(b), "malformed_reply", "reply body of %lu does not parse", (unsigned long)m.sequence_id()); p.id = q.id(); p.data = q.data(); }
        else MC_CHECK(m.has_error_code() && m.error_code() != 0 && m.has_reason(), "malformed_reply", "failed reply without code or reason");
        got[m.sequence_id()] = p;
        return true;
    }
};
struct Server {
    EchoImpl* impl; RpcServer* srv;
    Server() : impl(new EchoImpl), srv(NULL) {}
    void make(const RpcServerOptions& o, RpcServer::EventHandler* h = NULL) { srv = new RpcServer(o, h); MC_CHECK(srv->RegisterService(impl, false), "harness", "RegisterService failed"); }
    bool start(int port = PORT) { char b[32]; snprintf(b, sizeof b, "0.0.0.0:%d", port); return srv->Start(b); }
    ~Server() { delete srv; delete impl; }
};
inline void expect_echo(Client& c, uint64_t seq, uint64_t id, const std::string& data) {
    std::map<uint64_t, Reply>::iterator it = c.got.find(seq);
    MC_CHECK(it != c.got.end(), "not_answered", "request %lu was not answered", (unsigned long)seq);
    MC_CHECK(!it->second.meta.failed(), "wrong_reply", "request %lu failed with %d %s", (unsigned long)seq, it->second.meta.error_code(), it->second.meta.reason().c_str());
    MC_CHECK(it->second.id == id && it->second.data == data, "wrong_reply", "request %lu was answered with the reply for id %lu", (unsigned long)seq, (unsigned long)it->second.id);
}
inline void expect_error(Client& c, uint64_t seq, int code) {
    std::map<uint64_t, Reply>::iterator it = c.got.find(seq);
    MC_CHECK(it != c.got.end(), "not_answered", "request %lu was not answered", (unsigned long)seq);
    MC_CHECK(it->second.meta.failed() && it->second.meta.error_code() == code, "wrong_error", "request %lu: expected error %d, got failed=%d code=%d", (unsigned long)seq, code, it->second.meta.failed(), it->second.meta.error_code());
}
inline std::string repeat(char c, size_t n) { return std::string(n, c); }
}
#endif
