// Dynamic channels (C22): a real client with a multi-server channel against scripted servers.
#include "common.h"
#include <sofa/pbrpc/builtin_service.pb.h>

namespace vh {
enum { MAXS = 3 };
enum Health { H_OK, H_BAD, H_ERROR, H_SILENT, H_DOWN };
struct Req { uint64_t seq, id; };
// a server that records which calls arrive and answers when told to
struct Fake {
    int idx, port; Listener l; Conn c; int health; Req pend[32]; int npend; int arrived; uint64_t last_id; int health_calls; int mode; bool stopping; int tid;
    Fake() : idx(0), port(0), health(H_OK), npend(0), arrived(0), last_id(0), health_calls(0), mode(0), stopping(false), tid(-1) {}
    void start(int i, int m) { idx = i; port = PORT + i; mode = m; up(); }
    void up() {
        MC_CHECK(l.open(port), "harness", "listen failed");
        stopping = false; Fake* f = this;
        tid = mc::spawn("server", [f]() { f->loop(); });
    }
    void down() { stopping = true; if (l.fd >= 0) ::shutdown(l.fd, SHUT_RDWR); l.close(); drop(); if (tid >= 0) mc::join(tid); tid = -1; }
    void drop() { if (c.ok()) { Conn k = c; c = Conn(); ::shutdown(k.fd, SHUT_RDWR); k.close(); } npend = 0; }
    void loop() {
        for (;;) {
            Conn k = l.accept();
            if (!k.ok()) return;
            if (stopping) { k.close(); return; }
            c = k; serve(k);
            if (c.fd == k.fd) { c = Conn(); k.close(); npend = 0; }
            if (stopping) return;
        }
    }
    void serve(Conn k) {
        for (;;) {
            Meta m; std::string b; int r = k.read_msg(&m, &b);
            if (r != 1) return;
            if (m.method().find("Health") != std::string::npos) {
                ++health_calls; mc::note("server %d: health call, answers %d", idx, health);
                if (health == H_SILENT) continue;
                if (health == H_ERROR) { k.send_all(error_response(m.sequence_id(), 5, "ill")); continue; }
                sofa::pbrpc::builtin::HealthResponse h; h.set_health(health == H_OK ? "OK" : "NOT_OK");
                Meta rm; rm.set_type(Meta::RESPONSE); rm.set_sequence_id(m.sequence_id()); rm.set_failed(false); rm.set_compress_type(CompressTypeNone);
                k.send_all(frame(rm, h.SerializeAsString())); continue;
            }
            verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "malformed_request", "server %d got a request that does not parse", idx);
            ++arrived; last_id = q.id(); mc::note("server %d: call %lu arrives", idx, (unsigned long)q.id());
            if (mode == 1) { k.send_all(response(m.sequence_id(), q.id(), q.data())); continue; }
            if (mode == 2) { k.send_all(error_response(m.sequence_id(), 9, "no")); continue; }
            MC_CHECK(npend < 32, "harness", "too many calls"); pend[npend].seq = m.sequence_id(); pend[npend].id = q.id(); ++npend;
        }
    }
    uint64_t answer(int i, bool ok) {
        Req r = pend[i]; for (int j = i + 1; j < npend; ++j) pend[j - 1] = pend[j]; --npend;
        c.send_all(ok ? response(r.seq, r.id, "d") : error_response(r.seq, 9, "no"));
        return r.id;
    }
};
struct Provider : public RpcChannel::AddressProvider {
    std::vector<std::string> init; RpcChannel::EventHandler* h; int inits;
    Provider() : h(NULL), inits(0) {}
    ~Provider() { delete h; }
    virtual void GetInitAddress(std::vector<std::string>* l) { ++inits; *l = init; }
    virtual bool RegisterEventHandler(RpcChannel::EventHandler* e) { delete h; h = e; return true; }
    void add(const std::string& a) { std::vector<std::string> v(1, a); h->OnAddressAdded(v); }
    void remove(const std::string& a) { std::vector<std::string> v(1, a); h->OnAddressRemoved(v); }
};
// ---- the reference balancer
struct RefServer { bool added, live, last_ok; int wait; uint64_t seq; int gen; };
struct Ref {
    RefServer s[MAXS]; int n; uint64_t seq; int cap;
    Ref(int n_, int cap_) : n(n_), seq(0), cap(cap_) { memset(s, 0, sizeof s); }
    void add(int i) { int g = s[i].gen; memset(&s[i], 0, sizeof s[i]); s[i].gen = g + 1; s[i].added = s[i].live = s[i].last_ok = true; }
    // the servers that may get the next call; -1 unavailable, -2 busy
    std::set<int> choose() {
        std::set<int> r; bool any = false; int mw = 1 << 30; uint64_t ms = ~0ull;
        for (int i = 0; i < n; ++i) if (s[i].added && s[i].live) {
            any = true;
            if (s[i].wait < mw || (s[i].wait == mw && s[i].seq < ms)) { mw = s[i].wait; ms = s[i].seq; }
        }
        if (any) {
            if (cap > 0 && mw >= cap) { r.insert(-2); return r; }
            for (int i = 0; i < n; ++i) if (s[i].added && s[i].live && s[i].wait == mw && s[i].seq == ms) r.insert(i);
            return r;
        }
        bool ok = false; for (int i = 0; i < n; ++i) if (s[i].added && s[i].last_ok) ok = true;
        for (int i = 0; i < n; ++i) if (s[i].added && s[i].last_ok == ok && s[i].seq < ms) ms = s[i].seq;
        for (int i = 0; i < n; ++i) if (s[i].added && s[i].last_ok == ok && s[i].seq == ms) r.insert(i);
        if (r.empty()) r.insert(-1);
        return r;
    }
};
struct OpenCall { Call c; int server, gen; bool over; };
static const uint64_t PERIOD = 5000000, RETRY = 2400000;
struct World {
    Fake f[MAXS]; Ref ref; Provider prov; RpcClient* cli; RpcChannel* ch; OpenCall* call[24]; int ncall; uint64_t next_detect; int bad; bool sync, ambiguous; uint64_t id;
    World(int n, int cap, int init, bool syn, int bad_) : ref(n, cap), ncall(0), bad(bad_), sync(syn), ambiguous(false), id(0) {
        for (int i = 0; i < n; ++i) f[i].start(i, 0);
        cli = new RpcClient(client_options(1, 1));
        for (int i = 0; i < init; ++i) { prov.init.push_back(addr(PORT + i)); ref.add(i); }
        RpcChannelOptions o; o.server_load_capacity = cap;
        next_detect = mc::now_us() + PERIOD;
        ch = new RpcChannel(cli, &prov, o);
        settle();
    }
    void settle() { mc::sleep_us(3000); }
    // waits until the next health check is over; keeps checks away from the operations
    void detect() {
        mc::note("waits for the health check");
        mc::sleep_us(next_detect + 200000 - mc::now_us()); next_detect += PERIOD;
        for (int i = 0; i < ref.n; ++i) {
            RefServer& r = ref.s[i];
            if (r.added && !r.live && f[i].health == H_OK) r.live = true;
        }
    }
    void align() { if (mc::now_us() + RETRY + 150000 > next_detect) detect(); }
    void fail_calls_of(int i) {             // the connection to server i is gone
        for (int k = 0; k < ncall; ++k) if (!call[k]->over && call[k]->server == i) ended(k, false);
    }
    void ended(int k, bool ok) {
        OpenCall* o = call[k]; o->over = true;
        MC_CHECK(o->c.done == 1, "never_completed", "call %lu has not completed", (unsigned long)o->c.id);
        MC_CHECK(o->c.failed == !ok, "wrong_result", "call %lu: %s, expected %s", (unsigned long)o->c.id, o->c.outcome(), ok ? "ok" : "failure");
        RefServer& r = ref.s[o->server];
        if (r.added && r.gen == o->gen) { --r.wait; r.last_ok = ok; if (!ok) r.live = false; }
    }
    void make_call() {
        MC_CHECK(ncall < 24, "harness", "too many calls");
        std::set<int> allowed = ref.choose(); int before[MAXS]; for (int i = 0; i < ref.n; ++i) before[i] = f[i].arrived;
        OpenCall* o = new OpenCall; call[ncall++] = o; o->over = false; o->server = -1; o->gen = 0; o->c.set(++id, "d", 1000000);
        Call* c = &o->c; RpcChannel* h = ch; uint64_t t0 = mc::now_us();
        if (sync) mc::spawn("caller", [c, h]() { call_sync(h, c); }); else call_async(h, c);
        bool none = *allowed.begin() < 0;
        if (sync && none) mc::sleep_us(RETRY);
        settle();
        int got = -1; for (int i = 0; i < ref.n; ++i) { MC_CHECK(f[i].arrived - before[i] <= 1, "duplicated", "one call reached server %d twice", i); if (f[i].arrived > before[i]) { MC_CHECK(got < 0, "duplicated", "one call reached two servers"); got = i; } }
        std::string al; for (int a : allowed) al += std::to_string(a) + " ";
        if (none) {
            MC_CHECK(got < 0, "wrong_server", "call %lu went to server %d, but should have failed (%s)", (unsigned long)id, got, al.c_str());
            MC_CHECK(c->done == 1 && c->failed, "never_completed", "call %lu with no usable server: %s", (unsigned long)id, c->outcome());
            int want = *allowed.begin() == -2 ? RPC_ERROR_SERVER_BUSY : RPC_ERROR_SERVER_UNAVAILABLE;
            MC_CHECK(c->code == want, "wrong_code", "call %lu failed with %d (%s), expected %d", (unsigned long)id, c->code, c->error.c_str(), want);
            o->over = true; mc::obs("none%d", want); (void)t0; return;
        }
        if (got < 0) {                       // allowed only if the chosen server is down
            MC_CHECK(c->done == 1 && c->failed, "wrong_server", "call %lu reached no server (%s), expected one of %s", (unsigned long)id, c->outcome(), al.c_str());
            int down = -1, downs = 0; for (int a : allowed) if (a >= 0 && f[a].health == H_DOWN) { down = a; ++downs; }
            MC_CHECK(down >= 0, "wrong_server", "call %lu failed with %d %s, expected it to go to one of %s", (unsigned long)id, c->code, c->error.c_str(), al.c_str());
            MC_CHECK(c->code != RPC_ERROR_SERVER_UNAVAILABLE && c->code != RPC_ERROR_SERVER_BUSY, "wrong_code", "call %lu to a server that is down failed with %d", (unsigned long)id, c->code);
            if (downs > 1) { o->over = true; ambiguous = true; return; }   // not known which of them was tried
            o->server = down; o->gen = ref.s[down].gen; ref.s[down].seq = ++ref.seq; ++ref.s[down].wait; ended(ncall - 1, false); mc::obs("down"); return;
        }
        MC_CHECK(allowed.count(got), "wrong_server", "call %lu went to server %d, expected one of %s", (unsigned long)id, got, al.c_str());
        MC_CHECK(!c->done, "wrong_result", "call %lu completed without a reply: %s", (unsigned long)id, c->outcome());
        o->server = got; o->gen = ref.s[got].gen; ref.s[got].seq = ++ref.seq; ++ref.s[got].wait; mc::obs("s%d", got);
    }
    bool pending_of(int i) { for (int k = 0; k < ncall; ++k) if (!call[k]->over && call[k]->server == i) return true; return false; }
    void reply(int i, int which, bool ok) {
        uint64_t r = f[i].answer(which, ok); settle();
        for (int k = 0; k < ncall; ++k) if (call[k]->c.id == r) { MC_CHECK(!call[k]->over, "harness", "reply to a finished call"); ended(k, ok); }
    }
    void toggle(int i) {
        if (ref.s[i].added) { ref.s[i].added = false; prov.remove(addr(PORT + i)); }
        else { ref.add(i); prov.add(addr(PORT + i)); }
    }
    void sick(int i) {
        if (f[i].health == H_OK) {
            if (!bad) bad = 1 + mc::pick(4, "kind of sickness");
            f[i].health = bad;
            if (bad == H_DOWN) { f[i].down(); settle(); fail_calls_of(i); }
        } else { bool down = f[i].health == H_DOWN; f[i].health = H_OK; if (down) { mc::sleep_us(1000); f[i].up(); settle(); } }
    }
    // calls still open get their replies, and must complete
    void finish(bool channel_first) {
        if (channel_first && !sync) { delete ch; ch = NULL; }
        for (int i = 0; i < ref.n; ++i) while (f[i].npend) { reply(i, 0, true); }
        settle();
        for (int k = 0; k < ncall; ++k) { MC_CHECK(call[k]->c.done == 1, "never_completed", "call %lu has completed %d times", (unsigned long)call[k]->c.id, call[k]->c.done); check_stable(&call[k]->c); }
        delete ch; delete cli;
        for (int i = 0; i < ref.n; ++i) f[i].down();
        mc::sleep_us(1000);
        for (int k = 0; k < ncall; ++k) delete call[k];
    }
    void step() {
        enum { CALL, OK, FAIL, OK_LAST, TOGGLE, SICK, WAIT };
        struct O { int op, i; } ops[32]; int n = 0;
        ops[n].op = CALL; ops[n++].i = 0;
        for (int i = 0; i < ref.n; ++i) {
            if (f[i].npend) { ops[n].op = OK; ops[n++].i = i; ops[n].op = FAIL; ops[n++].i = i; }
            if (!pending_of(i) || ref.s[i].added) { ops[n].op = TOGGLE; ops[n++].i = i; }
            if (ref.s[i].added) { ops[n].op = SICK; ops[n++].i = i; }
        }
        bool unlive = false; for (int i = 0; i < ref.n; ++i) if (ref.s[i].added && !ref.s[i].live) unlive = true;
        if (unlive) { ops[n].op = WAIT; ops[n++].i = 0; }
        int k = mc::pick(n, "operation"); align();
        int i = ops[k].i; mc::note("operation %d server %d", ops[k].op, i);
        switch (ops[k].op) {
        case CALL: make_call(); break;
        case OK: if (f[i].npend) reply(i, 0, true); break;
        case FAIL: if (f[i].npend) reply(i, 0, false); break;
        case TOGGLE: toggle(i); break;
        case SICK: sick(i); break;
        case WAIT: detect(); break;
        }
    }
};
} // namespace vh
using namespace vh;

static void dyn_history(int n, int depth) {
    int cap = mc::pick(2, "capacity"); int init = mc::pick(n + 1, "initial servers"); bool sync = mc::pick(2, "sync"); 
    World* w = new World(n, cap * (n == 2 ? 1 : 2), init, sync, 0);
    for (int d = 0; d < depth && !w->ambiguous; ++d) w->step();
    bool open = false; for (int i = 0; i < n; ++i) if (w->f[i].npend) open = true;
    w->finish(open && !sync && mc::pick(2, "order of destruction"));
    delete w;
}
MC_SCENARIO(dyn_ops) { cfg.bound = 0; }
MC_BODY(dyn_ops) { dyn_history(2, 4); }
MC_SCENARIO(dyn_ops_deep) { cfg.bound = 0; }
MC_BODY(dyn_ops_deep) { dyn_history(2, 5); }
MC_SCENARIO(dyn_ops3) { cfg.bound = 0; }
MC_BODY(dyn_ops3) { dyn_history(3, 4); }

// calls answered at once, well or badly: which server is next while some or all of them are suspected
static void dyn_answered(int depth) {
    int n = 2 + mc::pick(2, "servers"); int ill = mc::pick(1 << n, "ill servers");
    World* w = new World(n, 0, n, false, 0);
    for (int i = 0; i < n; ++i) if (ill >> i & 1) w->f[i].health = H_BAD;
    for (int d = 0; d < depth; ++d) {
        bool unlive = false; for (int i = 0; i < n; ++i) if (!w->ref.s[i].live) unlive = true;
        int k = mc::pick(unlive ? 3 : 2, "answer"); if (mc::now_us() + 200000 > w->next_detect) w->detect();
        if (k == 2) { w->detect(); continue; }
        w->make_call(); for (int i = 0; i < n; ++i) if (w->f[i].npend) w->reply(i, 0, k == 0);
    }
    w->finish(false); delete w;
}
MC_SCENARIO(dyn_answers) { cfg.bound = 0; cfg.max_steps = 40000000; }
MC_BODY(dyn_answers) { dyn_answered(6); }
MC_SCENARIO(dyn_answers_deep) { cfg.bound = 0; cfg.max_steps = 40000000; }
MC_BODY(dyn_answers_deep) { dyn_answered(9); }

// ---- single situations, sync and async
static void one_call(RpcChannel* ch, Call* c, uint64_t id, bool sync, uint64_t timeout = 20000) {
    c->set(id, "d", timeout);
    if (sync) mc::spawn("caller", [c, ch]() { call_sync(ch, c); }); else call_async(ch, c);
}
static void must_end(Call* c, bool ok, int code, uint64_t us) {
    MC_CHECK(mc::wait_until([c]() { return c->done > 0; }, us), "never_completed", "call %lu has not completed after %lu ms", (unsigned long)c->id, (unsigned long)us / 1000);
    MC_CHECK(c->failed == !ok, "wrong_result", "call %lu: %s (%s)", (unsigned long)c->id, c->outcome(), c->error.c_str());
    if (code) MC_CHECK(c->code == code, "wrong_code", "call %lu failed with %d (%s), expected %d", (unsigned long)c->id, c->code, c->error.c_str(), code);
}
MC_SCENARIO(dyn_edge) { cfg.bound = 0; }
MC_BODY(dyn_edge) {
    bool sync = mc::pick(2, "sync"); int what = mc::pick(11, "situation");
    Fake f[2]; f[0].start(0, 1); f[1].start(1, 1);
    RpcClient* cli = new RpcClient(client_options(1, 1)); RpcChannel* ch = NULL; RpcChannelOptions o; std::vector<std::string> list; Provider prov;
    Call a, b, c, d; const uint64_t S = 30000000;
    switch (what) {
    case 0:    // never initialized
        o.create_with_init = false; list.push_back(addr(PORT)); ch = new RpcChannel(cli, list, o);
        if (mc::pick(2, "call")) { one_call(ch, &a, 1, sync); must_end(&a, false, 0, S); }
        break;
    case 1:    // initialized later
        o.create_with_init = false; list.push_back(addr(PORT)); ch = new RpcChannel(cli, list, o);
        MC_CHECK(ch->Init(), "init", "Init of a dynamic channel returned false");
        one_call(ch, &a, 1, sync); must_end(&a, true, 0, S);
        break;
    case 2: case 3: {   // a name that cannot be resolved beside a good server whose only call failed
        list.push_back(what == 2 ? "no-such-host:12321" : "nonsense"); list.push_back(addr(PORT)); ch = new RpcChannel(cli, list, o);
        f[0].mode = 2; f[0].health = H_BAD;
        one_call(ch, &a, 1, sync); must_end(&a, false, 0, S); MC_CHECK(f[0].arrived == 1, "wrong_server", "the call did not reach the only server that exists (%s)", a.error.c_str());
        f[0].mode = 1;
        one_call(ch, &b, 2, sync); must_end(&b, true, 0, S);
        one_call(ch, &c, 3, sync); must_end(&c, true, 0, S);
        break; }
    case 4:    // nothing but names that cannot be resolved; then a server is added
        prov.init.push_back("no-such-host:1"); prov.init.push_back("nonsense"); ch = new RpcChannel(cli, &prov, o);
        one_call(ch, &a, 1, sync); must_end(&a, false, RPC_ERROR_SERVER_UNAVAILABLE, S);
        prov.add(addr(PORT)); one_call(ch, &b, 2, sync); must_end(&b, true, 0, S);
        break;
    case 5: {  // changes announced after the channel is gone, with and without a call in flight
        prov.init.push_back(addr(PORT)); ch = new RpcChannel(cli, &prov, o); bool fly = mc::pick(2, "in flight") && !sync;
        f[0].mode = fly ? 0 : 1; one_call(ch, &a, 1, sync); if (!fly) must_end(&a, true, 0, S); else mc::sleep_us(3000);
        delete ch; ch = NULL;
        prov.add(addr(PORT + 1)); prov.remove(addr(PORT)); prov.remove(addr(PORT + 1)); prov.add(addr(PORT));
        if (fly) { f[0].answer(0, true); must_end(&a, true, 0, S); }
        prov.remove(addr(PORT));
        break; }
    case 6:    // duplicate, empty and unknown addresses
        prov.init.push_back(addr(PORT)); prov.init.push_back(""); prov.init.push_back(addr(PORT)); prov.init.push_back(addr(PORT + 1)); ch = new RpcChannel(cli, &prov, o);
        prov.add(addr(PORT)); prov.add(""); prov.remove("unknown:1"); prov.remove("");
        one_call(ch, &a, 1, sync); must_end(&a, true, 0, S); one_call(ch, &b, 2, sync); must_end(&b, true, 0, S);
        MC_CHECK(f[0].arrived == 1 && f[1].arrived == 1, "wrong_server", "two calls went to servers %d and %d times", f[0].arrived, f[1].arrived);
        prov.remove(addr(PORT)); prov.remove(addr(PORT));
        one_call(ch, &c, 3, sync); must_end(&c, true, 0, S); MC_CHECK(f[1].arrived == 2, "wrong_server", "a call went to a removed server");
        prov.remove(addr(PORT + 1)); one_call(ch, &d, 4, sync); must_end(&d, false, RPC_ERROR_SERVER_UNAVAILABLE, S);
        break;
    case 7:    // client shut down before the first and before a later call
        list.push_back(addr(PORT)); ch = new RpcChannel(cli, list, o);
        if (mc::pick(2, "used")) { one_call(ch, &a, 1, sync); must_end(&a, true, 0, S); }
        cli->Shutdown(); one_call(ch, &b, 2, sync); must_end(&b, false, 0, S); mc::sleep_us(6000000);
        break;
    case 8: {  // removed and added again while a call of the old time is in flight
        prov.init.push_back(addr(PORT)); ch = new RpcChannel(cli, &prov, o); f[0].mode = 0;
        one_call(ch, &a, 1, sync); mc::sleep_us(3000);
        prov.remove(addr(PORT)); bool early = mc::pick(2, "early"), ok = mc::pick(2, "ok");
        if (early) { f[0].answer(0, ok); must_end(&a, ok, 0, S); }
        prov.add(addr(PORT));
        if (!early) { f[0].answer(0, ok); must_end(&a, ok, 0, S); }
        f[0].mode = 1; one_call(ch, &b, 2, sync); must_end(&b, true, 0, S); one_call(ch, &c, 3, sync); must_end(&c, true, 0, S);
        break; }
    case 9: {  // a server that was avoided comes back with the health check only
        list.push_back(addr(PORT)); list.push_back(addr(PORT + 1)); ch = new RpcChannel(cli, list, o); uint64_t t0 = mc::now_us();
        f[0].mode = 2; f[0].health = H_BAD;
        one_call(ch, &a, 1, sync); one_call(ch, &b, 2, sync); mc::sleep_us(3000); MC_CHECK(a.done && b.done && f[0].arrived == 1, "wrong_server", "two calls, server 0 got %d", f[0].arrived);
        Call more[6]; for (int i = 0; i < 3; ++i) { one_call(ch, &more[i], 10 + i, sync); must_end(&more[i], true, 0, S); }
        mc::sleep_us(11000000); MC_CHECK(f[0].health_calls == 2, "detect", "%d health checks in two periods", f[0].health_calls); MC_CHECK(f[1].health_calls == 0, "detect", "a server in use was checked");
        one_call(ch, &more[3], 13, sync); must_end(&more[3], true, 0, S); MC_CHECK(f[0].arrived == 1, "wrong_server", "a server that failed its health checks was used");
        f[0].health = H_OK; f[0].mode = 1; mc::sleep_us(5200000);
        one_call(ch, &more[4], 14, sync); must_end(&more[4], true, 0, S); MC_CHECK(f[0].arrived == 2, "wrong_server", "a server that passed its health check is not used"); (void)t0;
        break; }
    case 10: { // down servers: connect refused, later up
        f[0].down(); f[0].health = H_DOWN; list.push_back(addr(PORT)); ch = new RpcChannel(cli, list, o);
        one_call(ch, &a, 1, sync); must_end(&a, false, 0, S); one_call(ch, &b, 2, sync); must_end(&b, false, 0, S);
        mc::sleep_us(1000); f[0].health = H_OK; f[0].up(); if (mc::pick(2, "wait")) mc::sleep_us(5200000);
        one_call(ch, &c, 3, sync); must_end(&c, true, 0, S);
        break; }
    }
    mc::obs("%d %s %s %s %s", what, a.outcome(), b.outcome(), c.outcome(), d.outcome());
    Call* all[4] = { &a, &b, &c, &d }; for (int i = 0; i < 4; ++i) check_stable(all[i]);
    delete ch; delete cli; f[0].down(); f[1].down(); mc::sleep_us(1000);
}

// ---- two callers, a changing list, failing servers, destruction: every interleaving within the bound
MC_SCENARIO(dyn_race) { cfg.bound = 1; cfg.points_plain = 0; }
MC_BODY(dyn_race) {
    int what = mc::pick(4, "what happens"); bool sync = mc::pick(2, "sync");
    Fake f[2]; f[0].start(0, 1); f[1].start(1, 1);
    RpcClient* cli = new RpcClient(client_options(1, 1)); RpcChannelOptions o; Provider prov;
    prov.init.push_back(addr(PORT)); if (what != 1) prov.init.push_back(addr(PORT + 1));
    RpcChannel* ch = new RpcChannel(cli, &prov, o);
    Call a, b, c; Call* all[3] = { &a, &b, &c };
    if (what == 2 || what == 3) f[0].mode = 2;
    int t[2]; Provider* p = &prov; Fake* ff = f; Call* pc = &c;
    auto go = [ch, sync](Call* x) { if (sync) call_sync(ch, x); else call_async(ch, x); };
    a.set(1, "d", 20000); b.set(2, "d", 20000); c.set(3, "d", 20000);
    Call* pa = &a; Call* pb = &b;
    t[0] = mc::spawn("caller 1", [go, pa]() { go(pa); });
    t[1] = mc::spawn("caller 2", [go, pb]() { go(pb); });
    int gone = -1, removed_at = 0;
    switch (what) {
    case 0: p->remove(addr(PORT)); gone = 0; break;
    case 1: p->add(addr(PORT + 1)); break;
    case 2: break;
    case 3: p->remove(addr(PORT)); p->add(addr(PORT)); break;
    }
    mc::join(t[0]); mc::join(t[1]);
    for (int i = 0; i < 2; ++i) MC_CHECK(mc::wait_until([&]() { return all[i]->done > 0; }, 30000000), "never_completed", "call %d has not completed", i + 1);
    if (gone >= 0) { int n = ff[0].arrived; go(pc); MC_CHECK(mc::wait_until([pc]() { return pc->done > 0; }, 30000000), "never_completed", "call 3 has not completed"); MC_CHECK(ff[0].arrived == n && !c.failed, "wrong_server", "a call after the removal of server 0 went there (%s)", c.outcome()); }
    if (what == 2) { int n = ff[0].arrived; go(pc); MC_CHECK(mc::wait_until([pc]() { return pc->done > 0; }, 30000000), "never_completed", "call 3 has not completed"); if (n) MC_CHECK(ff[0].arrived == n && !c.failed, "wrong_server", "a call after the failure of server 0 went there (%s)", c.outcome()); }
    MC_CHECK(ff[0].arrived + ff[1].arrived == 2 + c.done, "duplicated", "%d calls arrived at servers %d and %d times", 2 + c.done, ff[0].arrived, ff[1].arrived);
    mc::obs("%d %s %s %s %d", what, a.outcome(), b.outcome(), c.outcome(), ff[0].arrived); (void)removed_at;
    for (int i = 0; i < 3; ++i) check_stable(all[i]);
    delete ch; delete cli; f[0].down(); f[1].down(); mc::sleep_us(1000);
}
// the channel is destroyed while a call is in flight, a health check is running or the list changes
MC_SCENARIO(dyn_destroy) { cfg.bound = 1; cfg.points_plain = 0; }
MC_BODY(dyn_destroy) {
    int what = mc::pick(4, "what happens");
    Fake f[2]; f[0].start(0, 1); f[1].start(1, 1);
    RpcClient* cli = new RpcClient(client_options(1, 1)); RpcChannelOptions o; Provider prov;
    prov.init.push_back(addr(PORT)); prov.init.push_back(addr(PORT + 1));
    RpcChannel* ch = new RpcChannel(cli, &prov, o); Call a; a.set(1, "d", 20000); Provider* p = &prov; int t = -1;
    if (what < 2) { f[0].mode = f[1].mode = 2; call_async(ch, &a); if (what == 1) { mc::wait_until([&]() { return a.done > 0; }, 1000000); mc::arm(false); mc::sleep_us(4995000); mc::arm(true); } }
    if (what == 2) { call_async(ch, &a); t = mc::spawn("provider", [p]() { p->remove(addr(PORT)); p->add(addr(PORT)); p->remove(addr(PORT + 1)); }); }
    if (what == 3) { f[0].mode = f[1].mode = 2; call_async(ch, &a); t = mc::spawn("shutdown", [cli]() { cli->Shutdown(); }); }
    if (what == 1) { t = mc::spawn("provider", [p]() { mc::sleep_us(4000); p->remove(addr(PORT)); }); mc::sleep_us(5000); }
    delete ch;
    if (t >= 0) mc::join(t);
    MC_CHECK(mc::wait_until([&]() { return a.done > 0; }, 30000000), "never_completed", "the call has not completed");
    mc::arm(false); mc::sleep_us(6000000); check_stable(&a); mc::obs("%d %s", what, a.outcome());
    delete cli; f[0].down(); f[1].down(); mc::sleep_us(1000);
}
