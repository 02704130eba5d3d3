// The HTTP agent (C27): calls by name with text or JSON requests through descriptors fetched from the server.
// vbuild also: src/sofa/pbrpc/http-agent/*.cc
#include "server.h"
#include "vall.pb.h"
#include <sofa/pbrpc/http-agent/http_agent.h>
#include <sofa/pbrpc/builtin_service.pb.h>
#include <sofa/pbrpc/pbjson.h>
#include <google/protobuf/text_format.h>
#include <google/protobuf/descriptor.pb.h>
using sofa::pbrpc::http_agent::HttpAgent;
typedef sofa::pbrpc::builtin::ListServiceResponse Listing;

namespace vh {
struct AllImpl : public verif::AllServer {
    std::string seen; int n; int how; AllImpl() : n(0), how(0) {}
    virtual void Call(google::protobuf::RpcController* c, const verif::All* r, verif::All* p, google::protobuf::Closure* done) { ++n; seen = r->SerializeAsString(); p->CopyFrom(*r); p->set_i32(r->i32() + 1); if (how == 1) c->SetFailed("refused"); done->Run(); }
};
static void shape(verif::All* m, int k) {
    switch (k) {
    case 0: break;
    case 1: m->set_i32(-7); m->set_s("a \"quoted\"\n{text}"); m->set_b(true); m->set_c(verif::NEG); break;
    case 2: m->mutable_m()->set_r(true); m->mutable_m()->add_b("x"); m->mutable_m()->add_b(""); m->mutable_deep()->mutable_deep()->set_u64(18446744073709551615ull); break;
    case 3: for (int i = 0; i < 3; ++i) { m->add_ri64(i - 1); m->add_rs(std::string(i, 'z')); m->add_rc(verif::BLUE); m->add_rm()->set_r(i & 1); } m->set_by(std::string("\x01\x02", 2)); break;
    }
}
// a call by name and what is known about it
struct AgentCall {
    RpcController cntl; std::string method, request, response; int done; bool failed; int code; bool sync;
    void (*also)(void*); void* arg;
    AgentCall() : done(0), failed(false), code(0), sync(false), also(NULL), arg(NULL) { cntl.SetTimeout(5000); }
    static void finished(AgentCall* c) {
        if (c->done > 0) mc::fail("completed_twice", "a call of %s completed twice", c->method.c_str());
        ++c->done; c->failed = c->cntl.Failed(); c->code = c->cntl.ErrorCode(); mc::note("agent call of %s done failed=%d code=%d", c->method.c_str(), c->failed, c->code);
        if (c->also) c->also(c->arg);
    }
    void start(HttpAgent* a, bool s) {
        sync = s; a->CallMethod(method, &cntl, &request, &response, s ? NULL : NewClosure(&AgentCall::finished, this));
        if (s) finished(this);
    }
    void wait() { for (int i = 0; i < 80 && !done; ++i) mc::sleep_us(100000); MC_CHECK(done == 1, "no_completion", "the call of %s did not complete", method.c_str()); }
};
inline void echo_request(AgentCall* c, const char* method, uint64_t id, const char* data) { char b[128]; snprintf(b, sizeof b, "id: %lu data: \"%s\" must: 1", (unsigned long)id, data); c->method = method; c->request = b; }
inline std::string echo_text(uint64_t id, const char* data) { verif::EchoResponse r; r.set_id(id); r.set_data(data); r.set_must(1); std::string t; google::protobuf::TextFormat::PrintToString(r, &t); return t; }
inline void add_file(Listing* l, const google::protobuf::FileDescriptor* fd) {
    for (int i = 0; i < fd->dependency_count(); ++i) add_file(l, fd->dependency(i));
    for (int i = 0; i < l->files_size(); ++i) if (l->files(i).name() == fd->name()) return;
    fd->CopyTo(l->add_files());
}
enum { HAS_ECHO = 1, HAS_ALL = 2 };
enum { L_ECHO, L_BOTH, L_ALL, L_EMPTY, L_TWICE, L_BAD_FILE, L_BAD_SERVICE, L_ERROR, L_GARBAGE, L_CLOSE, NLIST };
static const int HAS[NLIST] = { HAS_ECHO, HAS_ECHO | HAS_ALL, HAS_ALL, 0, HAS_ECHO, -1, -1, -1, -1, -1 };
static std::string listing(int k) {
    Listing l; const google::protobuf::ServiceDescriptor* e = verif::EchoServer::descriptor(); const google::protobuf::ServiceDescriptor* a = verif::AllServer::descriptor();
    int has = k == L_BAD_FILE || k == L_BAD_SERVICE ? HAS_ECHO : HAS[k];
    if (has & HAS_ECHO) { add_file(&l, e->file()); l.add_services(e->full_name()); }
    if (has & HAS_ALL) { add_file(&l, a->file()); l.add_services(a->full_name()); }
    if (k == L_TWICE) { google::protobuf::FileDescriptorProto last = l.files(l.files_size() - 1); l.add_files()->CopyFrom(last); l.add_services(e->full_name()); }
    if (k == L_BAD_FILE) { google::protobuf::FileDescriptorProto* f = l.add_files(); f->set_name("broken.proto"); f->add_dependency("nowhere.proto"); }
    if (k == L_BAD_SERVICE) { l.add_services("verif.Nowhere"); }
    return l.SerializeAsString();
}
// a server that answers as told
struct Fake {
    Listener l; int list, listed, calls; bool hold, stopping; int tid; Conn held; uint64_t held_seq, held_id; int nheld; Conn cur;
    Fake() : list(L_ECHO), listed(0), calls(0), hold(false), stopping(false), tid(-1), held_seq(0), held_id(0), nheld(0) {}
    void start() { MC_CHECK(l.open(), "harness", "listen"); Fake* f = this; tid = mc::spawn("server", [f]() { f->loop(); }); }
    void loop() { for (;;) { Conn k = l.accept(); if (!k.ok()) return; if (stopping) { k.close(); return; } cur = k; serve(k); cur.fd = -1; k.close(); if (stopping) return; } }
    void serve(Conn k) {
        for (;;) {
            Meta m; std::string b; if (k.read_msg(&m, &b) != 1) return;
            if (m.method() == "sofa.pbrpc.builtin.BuiltinService.ListService") {
                ++listed; Meta r; r.set_type(Meta::RESPONSE); r.set_sequence_id(m.sequence_id()); r.set_failed(false); r.set_compress_type(CompressTypeNone);
                if (list == L_CLOSE) return;
                if (list == L_ERROR) k.send_all(error_response(m.sequence_id(), RPC_ERROR_FROM_USER, "service disabled"));
                else if (list == L_GARBAGE) k.send_all(frame(r, "\xff\xff\xff garbage"));
                else k.send_all(frame(r, listing(list)));
            } else if (m.method() == "verif.AllServer.Call") { ++calls; verif::All q; q.ParseFromString(b); q.set_i32(q.i32() + 1); Meta r; r.set_type(Meta::RESPONSE); r.set_sequence_id(m.sequence_id()); r.set_failed(false); r.set_compress_type(CompressTypeNone); k.send_all(frame(r, q.SerializeAsString())); }
            else {
                ++calls; verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "wrong_request", "the server got a request that does not parse");
                if (hold) { held = k; held_seq = m.sequence_id(); held_id = q.id(); ++nheld; continue; }
                k.send_all(response(m.sequence_id(), q.id(), q.data()));
            }
        }
    }
    void release(const char* data) { held.send_all(response(held_seq, held_id, data)); --nheld; }
    void stop() { stopping = true; if (cur.fd >= 0) ::shutdown(cur.fd, SHUT_RDWR); ::shutdown(l.fd, SHUT_RDWR); l.close(); mc::join(tid); }
};
// what the agent lists must be exactly one of the sets allowed; -1 = nothing known
static int listed_by(HttpAgent* a) {
    std::map<std::string, google::protobuf::ServiceDescriptorProto> m; std::map<std::string, std::string> t; bool r = a->ListService(&m);
    MC_CHECK(a->ListService(&t) == r, "listing", "the two forms of ListService disagree");
    if (!r) return -1;
    int has = 0; const google::protobuf::ServiceDescriptor* sd[2] = { verif::EchoServer::descriptor(), verif::AllServer::descriptor() };
    for (int i = 0; i < 2; ++i) if (m.count(sd[i]->full_name())) {
        google::protobuf::ServiceDescriptorProto p; sd[i]->CopyTo(&p); has |= 1 << i;
        MC_CHECK(m[sd[i]->full_name()].SerializeAsString() == p.SerializeAsString() && t[sd[i]->full_name()] == sd[i]->DebugString(), "listing", "the description of %s differs from the server's", sd[i]->full_name().c_str());
    }
    int extra = (int)m.count("sofa.pbrpc.builtin.BuiltinService");
    MC_CHECK((int)m.size() == (has & 1) + (has >> 1) + extra && t.size() == m.size(), "listing", "ListService returned %d services", (int)m.size());
    return has;
}
static void check_descriptors(HttpAgent* a, int has) {
    static const struct { const char* name; HttpAgent::ProtobufType t; int need; } D[] = {
        { "verif.EchoServer", HttpAgent::PT_SERVICE, HAS_ECHO }, { "verif.EchoRequest", HttpAgent::PT_MESSAGE, HAS_ECHO },
        { "verif.AllServer", HttpAgent::PT_SERVICE, HAS_ALL }, { "verif.Leaf", HttpAgent::PT_MESSAGE, HAS_ALL }, { "verif.Color", HttpAgent::PT_ENUM, HAS_ALL }, { "verif.Nowhere", HttpAgent::PT_ENUM, 4 }, { "verif", HttpAgent::PT_ENUM, 4 }, { "", HttpAgent::PT_ENUM, 4 } };
    const google::protobuf::DescriptorPool* p = google::protobuf::DescriptorPool::generated_pool();
    for (size_t i = 0; i < sizeof D / sizeof *D; ++i) {
        HttpAgent::ProtobufType t; std::string d; bool r = a->GetDescriptor(D[i].name, &t, &d);
        MC_CHECK(r == (has >= 0 && (has & D[i].need) != 0), "descriptor", "GetDescriptor(%s) returned %d", D[i].name, r);
        if (!r) continue;
        std::string want = D[i].t == HttpAgent::PT_SERVICE ? p->FindServiceByName(D[i].name)->DebugString() : D[i].t == HttpAgent::PT_MESSAGE ? p->FindMessageTypeByName(D[i].name)->DebugString() : p->FindEnumTypeByName(D[i].name)->DebugString();
        MC_CHECK(t == D[i].t && d == want, "descriptor", "GetDescriptor(%s) describes something else", D[i].name);
    }
}
static void expect_call(AgentCall& c, int code, const std::string& text) {
    if (code) MC_CHECK(c.failed && c.code == code, "wrong_error", "%s: expected error %d, got failed=%d code=%d %s", c.method.c_str(), code, c.failed, c.code, c.cntl.ErrorText().c_str());
    else { MC_CHECK(!c.failed, "call_failed", "%s failed with %d %s", c.method.c_str(), c.code, c.cntl.ErrorText().c_str()); MC_CHECK(c.response == text, "wrong_reply", "%s returned %s", c.method.c_str(), c.response.c_str()); }
}
} // namespace vh
using namespace vh;

// every combination of method, request format and content, way of calling, and what the service does
MC_SCENARIO(agent_calls) { cfg.bound = 0; cfg.points_plain = 0; cfg.max_steps = 100000000; }
MC_BODY(agent_calls) {
    mc::fill_freed(1 << 20);
    int method = mc::pick(6, "method"), format = mc::pick(6, "format"), content = mc::pick(4, "content"), how = mc::pick(2, "how"); bool sync = mc::pick(2, "sync");
    if (content && (method != 0 || format > 1)) return;
    EchoImpl e; AllImpl a; a.how = how; e.fail_with_reason = how == 1; RpcServerOptions so = server_options(); so.disable_builtin_services = false; RpcServer srv(so); srv.RegisterService(&a, false); srv.RegisterService(&e, false);
    char b[32]; snprintf(b, sizeof b, "0.0.0.0:%d", PORT); MC_CHECK(srv.Start(b), "harness", "Start failed");
    RpcClient cl(client_options());
    {
        HttpAgent agent(&cl); MC_CHECK(agent.Init(addr()), "init", "Init failed against a running server");
        MC_CHECK(listed_by(&agent) == 3, "listing", "ListService does not return the registered services"); check_descriptors(&agent, 3);
        static const char* N[] = { "verif.AllServer.Call", "verif.EchoServer.Echo", "verif.AllServer.Nothing", "verif.Nobody.Call", "Call", "" };
        for (int i = 0; i < 2; ++i) {
            AgentCall c; c.method = N[method]; int code = 0; std::string want; verif::All q;
            if (method == 1) {       // required fields
                static const char* F[] = { "id: 5 data: \"d\" must: 1", "{\"id\":5,\"data\":\"ZA==\",\"must\":1}", "id: 5", "{\"id\":5}", "", "id: x" }; c.request = F[format];
                if (format > 1) code = RPC_ERROR_PARSE_REQUEST_MESSAGE; else want = echo_text(5, "d");
            } else {
                shape(&q, content);
                if (format == 0) google::protobuf::TextFormat::PrintToString(q, &c.request); else if (format == 1) { pb2json(&q, c.request); c.request = " \n" + c.request + "\t "; }
                else { static const char* F[] = { "", "   ", "{", "nofield: 1" }; c.request = F[format - 2]; if (format > 3) code = RPC_ERROR_PARSE_REQUEST_MESSAGE; }
                verif::All p = q; p.set_i32(q.i32() + 1); google::protobuf::TextFormat::PrintToString(p, &want);
                if (method == 2) code = RPC_ERROR_FOUND_METHOD; else if (method == 3) code = RPC_ERROR_FOUND_SERVICE; else if (method >= 4) code = RPC_ERROR_PARSE_METHOD_NAME;
            }
            bool reached = !code; if (!code && how == 1) code = RPC_ERROR_FROM_USER;
            int before = a.n + e.total; e.seen.clear(); c.start(&agent, sync); c.wait(); expect_call(c, code, want);
            MC_CHECK(a.n + e.total == before + (reached ? 1 : 0), "executions", "a call by name reached the service %d times", a.n + e.total - before);
            if (reached && method == 0) MC_CHECK(a.seen == q.SerializeAsString(), "wrong_request", "the service saw another request (format %d content %d)", format, content);
        }
    }
    cl.Shutdown(); srv.Stop(); mc::obs("%d %d", method, format);
}
// every sequence of answers to the agent's queries for descriptions, with calls in between
MC_SCENARIO(agent_listings) { cfg.bound = 0; cfg.points_plain = 0; cfg.max_steps = 100000000; }
static void listings(int depth) {
    mc::fill_freed(1 << 20);
    RpcClient cl(client_options()); Fake f; f.start(); std::string o;
    {
        HttpAgent agent(&cl); int good = -1;      // the last description received
        for (int k = 0; k < depth; ++k) {
            int ans = mc::pick(NLIST, "answer"); f.list = ans; if (ans == 0 && k && mc::pick(2, "stop")) break;
            bool r = k == 0 ? agent.Init(addr()) : agent.UpdateServiceInfo();
            MC_CHECK(r == (HAS[ans] >= 0), "update_result", "an update answered with %d returned %d", ans, r);
            if (r) good = HAS[ans];
            int now = listed_by(&agent); MC_CHECK(now == good || (!r && now == -1), "listing", "after an update answered with %d the agent lists %d, the server described %d", ans, now, good);
            if (now == -1) good = -1;
            check_descriptors(&agent, now);
            for (int i = 0; i < 2; ++i) {
                AgentCall c; int before = f.calls, asked = f.listed; std::string want;
                if (i == 0) { echo_request(&c, "verif.EchoServer.Echo", 7, "d"); want = echo_text(7, "d"); } else { c.method = "verif.AllServer.Call"; c.request = "i32: 4"; want = "i32: 5\n"; }
                c.start(&agent, (k + i) & 1); c.wait();
                if (now == -1) { MC_CHECK(f.listed == asked + 1 || ans == L_CLOSE, "no_refetch", "an agent without descriptions did not ask for them"); if (HAS[ans] < 0) { expect_call(c, RPC_ERROR_CREATE_STREAM, ""); continue; } }
                expect_call(c, good & (1 << i) ? 0 : RPC_ERROR_FOUND_SERVICE, want);
                MC_CHECK(f.calls == before + ((good >> i) & 1), "executions", "the call reached the server %d times", f.calls - before);
            }
            o += (char)('0' + ans);
        }
    }
    cl.Shutdown(); f.stop(); mc::obs("%zu", o.size());
}
MC_BODY(agent_listings) { listings(4); }
// calls in flight while the descriptions are replaced or the agent goes away
MC_SCENARIO(agent_update) { cfg.bound = 1; cfg.points_plain = 0; cfg.max_steps = 100000000; }
namespace vh { struct Deleter { HttpAgent* a; }; }
MC_BODY(agent_update) {
    mc::fill_freed(1 << 20);
    RpcClient cl(client_options()); Fake f; f.start(); HttpAgent* agent = new HttpAgent(&cl); MC_CHECK(agent->Init(addr()), "init", "Init failed");
    int what = mc::pick(6, "what"), end = mc::pick(2, "end");
    AgentCall c, d; echo_request(&c, "verif.EchoServer.Slow", 9, "q"); f.hold = true;
    int th = -1; bool result = false, upd = false;
    c.start(agent, false);
    for (int i = 0; i < 50 && !f.nheld; ++i) mc::sleep_us(2000);
    MC_CHECK(f.nheld == 1, "not_sent", "the request did not reach the server");
    if (what == 0) f.list = L_ALL; else if (what == 1) f.list = L_BAD_SERVICE; else if (what == 2) f.list = L_BOTH; else if (what == 3) f.list = L_ERROR; else f.list = L_ECHO;
    if (what < 4) { upd = true; if (end) { Fake* pf = &f; th = mc::spawn("peer", [pf]() { pf->release("late"); }); } result = agent->UpdateServiceInfo(); MC_CHECK(result == (HAS[f.list] >= 0), "update_result", "update returned %d", result); }
    else if (what == 4) { delete agent; agent = NULL; }
    else { AgentCall* pd = &d; HttpAgent* pa = agent; f.hold = false; echo_request(&d, "verif.EchoServer.Echo", 10, "r"); th = mc::spawn("user", [pa, pd]() { pd->start(pa, true); }); agent->UpdateServiceInfo(); if (end) agent->UpdateServiceInfo(); listed_by(agent); }
    if (!(what < 4 && end)) f.release("late");
    if (th >= 0) mc::join(th);
    c.wait(); expect_call(c, 0, echo_text(9, "late")); (void)upd;
    if (what == 5) { expect_call(d, 0, echo_text(10, "r")); }
    delete agent; cl.Shutdown(); f.stop(); mc::obs("%d %d", what, end);
}
// a completion callback that uses the agent again
MC_SCENARIO(agent_inside) { cfg.bound = 1; cfg.points_plain = 0; cfg.max_steps = 100000000; }
namespace vh {
static HttpAgent* inner_agent; static AgentCall* inner; static int inner_what;
static void again(void*) {
    if (inner_what == 0) MC_CHECK(listed_by(inner_agent) == 1, "listing", "ListService in a callback");
    else if (inner_what == 1) inner->start(inner_agent, false);
    else if (inner_what == 2) inner_agent->UpdateServiceInfo();
    else { HttpAgent* a = inner_agent; inner_agent = NULL; delete a; }
}
}
MC_BODY(agent_inside) {
    mc::fill_freed(1 << 20);
    RpcClient cl(client_options()); Fake f; f.start(); inner_agent = new HttpAgent(&cl); MC_CHECK(inner_agent->Init(addr()), "init", "Init failed");
    int when = mc::pick(4, "when"); inner_what = mc::pick(when ? 3 : 4, "what");
    AgentCall c, d; inner = &d; echo_request(&c, "verif.EchoServer.Echo", 3, "x"); echo_request(&d, "verif.EchoServer.Echo", 4, "y");
    if (when == 1) c.method = "verif.EchoServer.None"; else if (when == 2) c.request = "{"; else if (when == 3) c.method = "verif.None.Echo";
    c.also = &again; c.start(inner_agent, false); c.wait(); if (inner_what == 1) d.wait();
    static const int CODE[] = { 0, RPC_ERROR_FOUND_METHOD, RPC_ERROR_PARSE_REQUEST_MESSAGE, RPC_ERROR_FOUND_SERVICE };
    expect_call(c, CODE[when], echo_text(3, "x")); if (inner_what == 1) expect_call(d, 0, echo_text(4, "y"));
    delete inner_agent; inner_agent = NULL; cl.Shutdown(); f.stop(); mc::obs("%d %d", when, inner_what);
}
