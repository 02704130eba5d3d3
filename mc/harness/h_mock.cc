// Mocked methods (C26): every history of enabling, registering, clearing and calling, against a reference map.
#include "common.h"
#include <sofa/pbrpc/mock_test_helper.h>

namespace vh {
struct Held { google::protobuf::RpcController* c; const google::protobuf::Message* q; google::protobuf::Message* p; google::protobuf::Closure* done; uint64_t id; };
static Held held[16]; static int nheld; static int hits[8]; static uint64_t last_req; static int how;   // what the functions do: answer, fail, answer later
static void answer(Held h) {
    verif::EchoResponse* p = dynamic_cast<verif::EchoResponse*>(h.p);
    p->set_id(h.id); p->set_data("d"); p->set_must(1); h.done->Run();
}
static void mocked(int which, google::protobuf::RpcController* c, const google::protobuf::Message* q, google::protobuf::Message* p, google::protobuf::Closure* done) {
    const verif::EchoRequest* r = dynamic_cast<const verif::EchoRequest*>(q);
    MC_CHECK(r && p && done && c, "bad_argument", "a mock function was called with wrong arguments");
    ++hits[which]; last_req = r->id(); mc::note("function %d called for call %lu", which, (unsigned long)r->id());
    Held h = { c, q, p, done, r->id() };
    if (how == 1) { c->SetFailed("mocked failure"); done->Run(); return; }
    if (how == 2) { MC_CHECK(nheld < 16, "harness", "held"); held[nheld++] = h; return; }
    answer(h);
}
static MockMethodHookFunction* fn[4];
// a real server
struct Real {
    Listener l; int arrived; int tid; bool stopping; Conn c;
    Real() : arrived(0), tid(-1), stopping(false) {}
    void start() { MC_CHECK(l.open(), "harness", "listen"); Real* r = this; tid = mc::spawn("server", [r]() { r->loop(); }); }
    void loop() { for (;;) { Conn k = l.accept(); if (!k.ok()) return; if (stopping) { k.close(); return; } c = k; serve(k); if (stopping) return; } }
    void serve(Conn k) { for (;;) { Meta m; std::string b; if (k.read_msg(&m, &b) != 1) { k.close(); return; } verif::EchoRequest q; q.ParseFromString(b); ++arrived; k.send_all(response(m.sequence_id(), q.id(), q.data())); } }
    void stop() { stopping = true; ::shutdown(l.fd, SHUT_RDWR); l.close(); mc::join(tid); }
};
static const char* NAMES[2] = { "verif.EchoServer.Echo", "verif.EchoServer.Slow" };
struct MCall { Call c; int expect; uint64_t id; };   // expect: 0 ok, 1 user failure, 2 held, else the error code
} // namespace vh
using namespace vh;

static void reset_mock() { nheld = 0; memset(hits, 0, sizeof hits); how = 0; last_req = 0; SOFA_PBRPC_DISABLE_MOCK(); SOFA_PBRPC_CLEAR_MOCK_METHOD(); for (int i = 0; i < 4; ++i) fn[i] = NewPermanentExtClosure(&mocked, i); }
static void drop_mock() { SOFA_PBRPC_CLEAR_MOCK_METHOD(); SOFA_PBRPC_DISABLE_MOCK(); for (int i = 0; i < 4; ++i) { delete fn[i]; fn[i] = NULL; } }

static void mock_history(int depth) {
    reset_mock();
    Real srv; srv.start();
    RpcClient* cli = new RpcClient(client_options(1, 1));
    bool enabled = false; int reg[2] = { -1, -1 };                    // the reference
    RpcChannel* ch[3] = { NULL, NULL, NULL }; bool is_mock[3] = { false, false, false };
    MCall* calls[16]; int n = 0; uint64_t id = 0;
    auto make = [&](int k) {
        if (k == 2) { std::vector<std::string> l(1, "/mock/b"); ch[k] = new RpcChannel(cli, l); }
        else ch[k] = new RpcChannel(cli, k == 0 ? std::string("/mock/a") : addr());
        is_mock[k] = k != 1 && enabled;
    };
    if (mc::pick(2, "enabled first")) { SOFA_PBRPC_ENABLE_MOCK(); enabled = true; }
    int kind = mc::pick(3, "channel"); bool sync = mc::pick(2, "sync");
    if (kind != 2) make(kind);
    for (int d = 0; d < depth; ++d) {
        int op = mc::pick(10, "operation"); mc::note("operation %d", op);
        switch (op) {
        case 0: SOFA_PBRPC_ENABLE_MOCK(); enabled = true; break;
        case 1: SOFA_PBRPC_DISABLE_MOCK(); enabled = false; break;
        case 2: case 3: { int m = op - 2; reg[m] = m * 2; SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[m], fn[reg[m]]); break; }
        case 4: reg[0] = 1; SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[0], fn[1]); break;
        case 5: reg[0] = reg[1] = -1; SOFA_PBRPC_CLEAR_MOCK_METHOD(); break;
        case 6: how = (how + 1) % 3; if (sync && how == 2) how = 0; break;
        case 7: if (nheld) { Held h = held[0]; for (int i = 1; i < nheld; ++i) held[i - 1] = held[i]; --nheld; answer(h);
                    for (int i = 0; i < n; ++i) if (calls[i]->id == h.id) { calls[i]->expect = 0; mc::sleep_us(500); MC_CHECK(calls[i]->c.done == 1 && !calls[i]->c.failed, "never_completed", "call %lu answered later: %s", (unsigned long)h.id, calls[i]->c.outcome()); } }
                else { delete ch[kind]; ch[kind] = NULL; make(kind); } break;
        default: {
            int m = op - 8; int before[8]; memcpy(before, hits, sizeof hits); int arr = srv.arrived;
            if (!ch[kind]) make(kind);
            MCall* c = new MCall; calls[n++] = c; c->id = ++id; c->c.set(id, "d", 5000); RpcChannel* h = ch[kind]; Call* pc = &c->c;
            if (sync) { int t = mc::spawn("caller", [pc, h, m]() { call_sync(h, pc, m); }); mc::join(t); } else call_async(h, pc, m);
            if (kind == 2) mc::sleep_us(2500000);
            mc::sleep_us(5000);
            int called = -1, ncalled = 0; for (int i = 0; i < 4; ++i) { ncalled += hits[i] - before[i]; if (hits[i] > before[i]) called = i; }
            bool to_mock = is_mock[kind] && enabled; int want = to_mock ? reg[m] : -1;
            if (kind == 1) {                  // a real address
                MC_CHECK(ncalled + srv.arrived - arr == 1, "misdirected", "call %lu on a real address called %d functions and the server %d times", (unsigned long)id, ncalled, srv.arrived - arr);
                if (!enabled) MC_CHECK(!ncalled, "misdirected", "a call was redirected to a mock function with mocking disabled");
                c->expect = ncalled && how == 1 ? 1 : ncalled && how == 2 ? 2 : 0;
            } else {
                MC_CHECK(srv.arrived == arr, "misdirected", "a call on a mock address reached the server");
                MC_CHECK(ncalled == (want >= 0) && called == want, "misdirected", "call %lu of %s called function %d (%d calls), expected %d", (unsigned long)id, NAMES[m], called, ncalled, want);
                c->expect = want < 0 ? 3 : how;
                if (want >= 0) MC_CHECK(last_req == id, "bad_argument", "the function got another request");
            }
            if (c->expect == 2) { MC_CHECK(!c->c.done, "wrong_result", "call %lu completed before its function called done", (unsigned long)id); break; }
            MC_CHECK(c->c.done == 1, "never_completed", "call %lu has not completed", (unsigned long)id);
            if (c->expect == 0) MC_CHECK(!c->c.failed && c->c.rid == id, "wrong_result", "call %lu: %s", (unsigned long)id, c->c.outcome());
            else MC_CHECK(c->c.failed, "wrong_result", "call %lu succeeded, expected failure", (unsigned long)id);
            if (c->expect == 1) MC_CHECK(c->c.code == RPC_ERROR_FROM_USER && c->c.error.find("mocked failure") != std::string::npos, "wrong_code", "call %lu: code %d %s", (unsigned long)id, c->c.code, c->c.error.c_str());
            mc::obs("%d%d ", called, c->expect);
            }
        }
    }
    while (nheld) answer(held[--nheld]);
    mc::sleep_us(5000);
    for (int i = 0; i < n; ++i) { MC_CHECK(calls[i]->c.done == 1, "never_completed", "call %lu has completed %d times", (unsigned long)calls[i]->id, calls[i]->c.done); check_stable(&calls[i]->c); }
    for (int i = 0; i < 3; ++i) delete ch[i];
    delete cli; srv.stop(); drop_mock();
    for (int i = 0; i < n; ++i) delete calls[i];
}
MC_SCENARIO(mock_ops) { cfg.bound = 0; }
MC_BODY(mock_ops) { mock_history(3); }
MC_SCENARIO(mock_ops_deep) { cfg.bound = 0; }
MC_BODY(mock_ops_deep) { mock_history(4); }

// calls against registering, clearing and disabling in another thread
MC_SCENARIO(mock_race) { cfg.bound = 2; }
MC_BODY(mock_race) {
    reset_mock(); int what = mc::pick(4, "what happens"); bool sync = mc::pick(2, "sync");
    SOFA_PBRPC_ENABLE_MOCK(); SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[0], fn[0]);
    RpcClient* cli = new RpcClient(client_options(1, 1)); RpcChannel* ch = new RpcChannel(cli, "/mock/a");
    Call a, b, c; Call* pa = &a; Call* pb = &b; a.set(1, "d", 1000); b.set(2, "d", 1000); c.set(3, "d", 1000);
    auto go = [ch, sync](Call* x) { if (sync) call_sync(ch, x); else call_async(ch, x); };
    int t1 = mc::spawn("caller 1", [go, pa]() { go(pa); }), t2 = mc::spawn("caller 2", [go, pb]() { go(pb); });
    switch (what) {
    case 0: SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[0], fn[1]); break;
    case 1: SOFA_PBRPC_CLEAR_MOCK_METHOD(); break;
    case 2: SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[1], fn[2]); break;
    case 3: SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[0], fn[1]); SOFA_PBRPC_CLEAR_MOCK_METHOD(); SOFA_PBRPC_REGISTER_MOCK_METHOD(NAMES[0], fn[3]); break;
    }
    mc::join(t1); mc::join(t2);
    MC_CHECK(mc::wait_until([&]() { return a.done && b.done; }, 3000000), "never_completed", "a mocked call has not completed");
    int h[4]; memcpy(h, hits, sizeof h); go(&c); MC_CHECK(mc::wait_until([&]() { return c.done > 0; }, 3000000), "never_completed", "the last call has not completed");
    static const int last[4] = { 1, -1, 0, 3 };
    for (int i = 0; i < 4; ++i) MC_CHECK(hits[i] - h[i] == (i == last[what]), "misdirected", "the last call called function %d %d times", i, hits[i] - h[i]);
    MC_CHECK(c.failed == (what == 1), "wrong_result", "the last call: %s", c.outcome());
    int total = hits[0] + hits[1] + hits[2] + hits[3]; int ok = !a.failed + !b.failed + !c.failed;
    MC_CHECK(total == ok, "misdirected", "%d functions were called for %d successful calls", total, ok);
    if (what == 0 || what == 2) MC_CHECK(ok == 3, "wrong_result", "a call failed while a function was registered all the time");
    MC_CHECK(hits[2] == 0, "misdirected", "the function of another method was called");
    mc::obs("%d %d%d%d%d", what, hits[0], hits[1], hits[2], hits[3]);
    check_stable(&a); check_stable(&b); check_stable(&c);
    delete ch; delete cli; drop_mock();
}
