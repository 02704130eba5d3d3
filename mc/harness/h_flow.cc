// Throughput limits, pending-buffer back-pressure and the send path, both sides.
#include "server.h"
#include <sofa/pbrpc/common_internal.h>
#include <sofa/pbrpc/rpc_server_impl.h>
using namespace vh;

namespace vh {
// samples a byte counter and checks every window of it against the limit
struct Meter {
    std::vector<std::pair<uint64_t, uint64_t> > s; bool stop; int fiber; uint64_t (*count)();
    Meter(uint64_t (*c)()) : stop(false), fiber(-1), count(c) {}
    void start() { fiber = mc::spawn("meter", [this]() { while (!stop && s.size() < 400) { s.push_back(std::make_pair(mc::now_us(), count())); mc::sleep_us(20000); } }); }
    void finish() { stop = true; mc::join(fiber); }
    // quota per slice from `from` on; slack: bytes of operations already under way
    void check(const char* what, uint64_t quota, uint64_t slack, uint64_t from, uint64_t to) {
        for (size_t i = 0; i < s.size(); ++i) for (size_t j = i + 1; j < s.size(); ++j) {
            if (s[i].first < from || s[j].first > to) continue;
            uint64_t n = (s[j].first - s[i].first) / 100000 + 1, b = s[j].second - s[i].second;
            MC_CHECK(b <= (n + 1) * quota + slack, "limit_exceeded", "%lu bytes %s within %lu us, limit is %lu bytes per 100 ms", (unsigned long)b, what, (unsigned long)(s[j].first - s[i].first), (unsigned long)quota);
        }
    }
};
static const uint64_t MB10 = 1024 * 1024 / 10;
}

// server limits: 14 requests of 20 KB over two connections; the limit is there from the start, introduced, removed or doubled
static void server_limit(bool in, int N = 14, size_t size = 20000) {
    bool big = size > 100000; int change = big ? 0 : mc::pick(4, "change"); int conns = 1 + mc::pick(2, "conns");
    Server s; RpcServerOptions o = server_options(2);
    int before = change == 1 ? -1 : 1, after = change == 0 ? 1 : change == 1 ? 1 : change == 2 ? -1 : 2;
    if (in) o.max_throughput_in = before; else o.max_throughput_out = before;
    s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    std::string data = repeat('q', size);
    Client c[2]; std::set<uint64_t> exp; for (int i = 0; i < N; ++i) exp.insert(1 + i);
    for (int k = 0; k < conns; ++k) MC_CHECK(c[k].open(), "harness", "dial failed");
    Meter m(in ? mc::net::lib_rx : mc::net::lib_tx); m.start();
    uint64_t t0 = mc::now_us(), tchange = ~0ull, tend = 0;
    bool fin[2] = { false, false }; std::vector<int> fs;
    for (int k = 0; k < conns; ++k) {
        fs.push_back(mc::spawn("sender", [&, k]() { for (int i = k; i < N; i += conns) c[k].c.send_all(request(1 + i, 1 + i, data)); }));
        fs.push_back(mc::spawn("reader", [&, k]() { size_t want = 0; for (int i = k; i < N; i += conns) ++want; while (c[k].got.size() < want && c[k].read_one(exp)) {} tend = mc::now_us(); fin[k] = true; }));
    }
    if (change) {
        if (change == 1) mc::wait_until([&]() { return s.impl->total >= 3; }, 5000000); else mc::sleep_us(150000);
        RpcServerOptions n = s.srv->GetOptions(); if (in) n.max_throughput_in = after; else n.max_throughput_out = after;
        tchange = mc::now_us();
        s.srv->ResetOptions(n);
        RpcServerOptions g = s.srv->GetOptions(); MC_CHECK((in ? g.max_throughput_in : g.max_throughput_out) == after, "options_lost", "ResetOptions did not take the new limit");
    }
    MC_CHECK(mc::wait_until([&]() { return fin[0] && (conns == 1 || fin[1]); }, 10000000), "stalled", "traffic stalled: %zu + %zu of %d requests answered 10 s after they were sent", c[0].got.size(), c[1].got.size(), N);
    m.finish();
    for (int i = 0; i < N; ++i) expect_echo(c[i % conns], 1 + i, 1 + i, data);
    uint64_t slack = conns * (size + 13000ull);
    if (before > 0) m.check(in ? "read" : "written", before * MB10, slack, 0, tchange);
    if (after > 0 && change) m.check(in ? "read" : "written", after * MB10, slack, tchange + 100000, ~0ull);
    if (after > 0 && before > 0) m.check(in ? "read" : "written", std::max(before, after) * MB10, slack, 0, ~0ull);
    if (after < 0 && !mc::exploring()) MC_CHECK(tend - tchange <= 200000, "limited_without_limit", "traffic took %lu us after the limit was removed", (unsigned long)(tend - tchange));
    for (size_t k = 0; k < fs.size(); ++k) mc::join(fs[k]);
    for (int k = 0; k < conns; ++k) c[k].c.close();
    s.srv->Stop();
    mc::obs("%d %d %lu", change, conns, (unsigned long)((tend - t0) / 100000));
}
MC_SCENARIO(srv_limit_in) { cfg.bound = 1; cfg.horizon_us = 60000000; cfg.points_plain = 0; }
MC_BODY(srv_limit_in) { server_limit(true); }
MC_SCENARIO(srv_limit_out) { cfg.bound = 1; cfg.horizon_us = 60000000; cfg.points_plain = 0; }
MC_BODY(srv_limit_out) { server_limit(false); }

// the same for the client
static void client_limit(bool in, int N = 14, size_t size = 20000) {
    bool big = size > 100000; int change = big ? 0 : mc::pick(4, "change");
    int before = change == 1 ? -1 : 1, after = change == 0 ? 1 : change == 1 ? 1 : change == 2 ? -1 : 2;
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    int served = 0;
    int fs = mc::spawn("peer", [&]() {
        Conn c = l.accept(); Meta m; std::string b;
        while (c.read_msg(&m, &b) == 1) { verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "malformed_request", "request does not parse"); if (!c.send_all(response(m.sequence_id(), q.id(), q.data()))) break; ++served; }
        c.close();
    });
    RpcClientOptions o = client_options(2, 1); if (in) o.max_throughput_in = before; else o.max_throughput_out = before;
    {
        RpcClient cl(o); RpcChannel ch(&cl, addr());
        std::string data = repeat('q', size); std::vector<Call*> calls;
        Meter m(in ? mc::net::lib_rx : mc::net::lib_tx); m.start();
        uint64_t t0 = mc::now_us(), tchange = ~0ull, tend;
        for (int i = 0; i < N; ++i) { calls.push_back(new Call); calls[i]->set(1 + i, data, 20000); call_async(&ch, calls[i]); }
        if (change) {
            if (change == 1) mc::wait_until([&]() { return served >= 3; }, 5000000); else mc::sleep_us(150000);
            RpcClientOptions n = cl.GetOptions(); if (in) n.max_throughput_in = after; else n.max_throughput_out = after;
            tchange = mc::now_us();
            cl.ResetOptions(n);
        }
        MC_CHECK(mc::wait_until([&]() { return all_done(calls); }, 10000000), "stalled", "traffic stalled: %d of %d calls completed after 10 s", count_done(calls), N);
        tend = mc::now_us(); m.finish();
        for (int i = 0; i < N; ++i) MC_CHECK(!calls[i]->failed, "call_failed", "call %d failed with %d %s", i, calls[i]->code, calls[i]->error.c_str());
        uint64_t slack = size + 13000;
        if (before > 0) m.check(in ? "read" : "written", before * MB10, slack, 0, tchange);
        if (after > 0 && change) m.check(in ? "read" : "written", after * MB10, slack, tchange + 100000, ~0ull);
        if (after > 0 && before > 0) m.check(in ? "read" : "written", std::max(before, after) * MB10, slack, 0, ~0ull);
        if (after < 0 && !mc::exploring()) MC_CHECK(tend - tchange <= 200000, "limited_without_limit", "traffic took %lu us after the limit was removed", (unsigned long)(tend - tchange));
        if (change == 3 && !mc::exploring()) MC_CHECK(tend - t0 <= 250000, "limit_not_raised", "280 KB took %lu us with a limit raised to 2 MB/s", (unsigned long)(tend - t0));
        cl.Shutdown();
        for (int i = 0; i < N; ++i) delete calls[i];
        mc::obs("%d %lu", change, (unsigned long)((tend - t0) / 100000));
    }
    mc::join(fs); l.close();
}
MC_SCENARIO(cl_limit_in) { cfg.bound = 1; cfg.horizon_us = 60000000; cfg.points_plain = 0; }
MC_BODY(cl_limit_in) { client_limit(true); }
MC_SCENARIO(cl_limit_out) { cfg.bound = 1; cfg.horizon_us = 60000000; cfg.points_plain = 0; }
MC_BODY(cl_limit_out) { client_limit(false); }

// messages larger than the quota of a slice: what is overdrawn is owed
MC_SCENARIO(big_limit) { cfg.bound = 0; cfg.horizon_us = 120000000; cfg.points_plain = 0; cfg.max_steps = 400000000; }
MC_BODY(big_limit) {
    int who = mc::pick(4, "who"), size = mc::pick(4, "size"); static const int S[] = { 104000, 130000, 350000, 700000 }, N[] = { 12, 9, 5, 4 };
    if (who < 2) server_limit(who == 0, N[size], S[size]); else client_limit(who == 2, N[size], S[size]);
}
// ---------------------------------------------------------------------------------------------------------------
// a peer that does not read its replies: the server stops reading its requests, others are served, and it resumes
MC_SCENARIO(srv_backpressure) { cfg.bound = 1; cfg.sock_buf = 600; }
MC_BODY(srv_backpressure) {
    int slow = mc::pick(2, "slow"); int limit = 0; const int N = 24;
    Server s; RpcServerOptions o = server_options(2); o.max_pending_buffer_size = limit; s.impl->repeat = 10; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; std::string d = repeat('z', 150);
    bool completing = true;
    int fc = slow ? mc::spawn("completer", [&]() { while (completing) { mc::wait_until([&]() { return !s.impl->pending.empty() || !completing; }, 0); s.impl->complete(0); } }) : -1;
    for (int i = 0; i < N; ++i) exp.insert(1 + i);
    int sent = 0;
    int f = mc::spawn("sender", [&]() { for (int i = 0; i < N; ++i) { c.c.send_all(request(1 + i, 1 + i, d, slow ? "verif.EchoServer.Slow" : "verif.EchoServer.Echo")); ++sent; if (slow) mc::wait_until([&]() { return s.impl->total > i && s.impl->pending.empty(); }, 4000); } });
    mc::sleep_us(300000);
    // reply 1500 bytes: one in the peer's 600 byte buffer and half sent, the rest pending; requests are read 600 bytes at a time
    int at_rest = s.impl->total;
    MC_CHECK(at_rest >= 1, "not_answered", "no request executed");
    MC_CHECK(at_rest <= 14, "unbounded_pending", "%d requests of a peer that reads nothing were executed (limit 0 MB)", at_rest);
    mc::sleep_us(500000);
    MC_CHECK(s.impl->total == at_rest, "unbounded_pending", "requests of a peer that reads nothing go on being executed: %d then %d", at_rest, s.impl->total);
    { Client e; MC_CHECK(e.open(), "harness", "dial failed"); std::set<uint64_t> x; x.insert(77); e.c.send_all(request(77, 777, "other")); bool ok = e.read_one(x); MC_CHECK(ok, "others_blocked", "a connection is not served while another one is blocked"); e.c.close(); }
    while ((int)c.got.size() < N && c.read_one(exp)) {}
    mc::join(f); completing = false; if (fc >= 0) mc::join(fc);
    for (int i = 0; i < N; ++i) { std::string r; for (int k = 0; k < 10; ++k) r += d; expect_echo(c, 1 + i, 1 + i, r); }
    int64 a = 0, b = 0, z = 0; s.srv->impl()->GetPendingStat(&a, &b, &z);
    MC_CHECK(a == 0 && b == 0 && z == 0, "pending_not_zero", "pending counters after everything was sent: %ld messages %ld buffer %ld data", (long)a, (long)b, (long)z);
    c.c.close(); s.srv->Stop();
    mc::obs("%d", at_rest);
}

// client: peer reads nothing; limit 0 MB: calls beyond the queued one fail at once; after draining everything works again
MC_SCENARIO(cl_backpressure) { cfg.bound = 1; cfg.sock_buf = 600; }
MC_BODY(cl_backpressure) {
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    bool go = false; bool threads = mc::pick(2, "threads");
    int fs = mc::spawn("peer", [&]() {
        Conn c = l.accept(); Meta m; std::string b;
        mc::wait_until([&]() { return go; }, 0);
        while (c.read_msg(&m, &b) == 1) { verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "malformed_request", "request does not parse"); if (!c.send_all(response(m.sequence_id(), q.id(), q.data()))) break; }
        c.close();
    });
    RpcClientOptions o = client_options(1, 1); o.max_pending_buffer_size = 0;
    {
        RpcClient cl(o); RpcChannel ch(&cl, addr());
        std::string big = repeat('y', 2000); std::vector<Call*> calls; for (int i = 0; i < 6; ++i) { calls.push_back(new Call); calls[i]->set(1 + i, big, 10000); }
        call_async(&ch, calls[0]);
        mc::sleep_us(100000);                                  // connected and half sent
        MC_CHECK(!calls[0]->done, "harness", "call 0 is done");
        if (threads) {
            std::vector<int> f; for (int i = 1; i < 4; ++i) f.push_back(mc::spawn("caller", [&, i]() { call_async(&ch, calls[i]); }));
            for (size_t k = 0; k < f.size(); ++k) mc::join(f[k]);
        } else for (int i = 1; i < 4; ++i) call_async(&ch, calls[i]);
        mc::sleep_us(100000);
        int full = 0, queued = 0;
        for (int i = 1; i < 4; ++i) { if (calls[i]->done) { MC_CHECK(calls[i]->code == RPC_ERROR_SEND_BUFFER_FULL, "wrong_error", "call %d failed with %d", i, calls[i]->code); ++full; } else ++queued; }
        MC_CHECK(queued >= 1, "full_below_limit", "no call was queued although the queue was empty");
        if (!threads) MC_CHECK(full == 2, "not_refused", "%d of 2 calls above the limit were refused", full);
        go = true;
        std::vector<Call*> w(calls.begin(), calls.begin() + 4);
        wait_all(w, 12000000);
        MC_CHECK(!calls[0]->failed, "call_failed", "call 0 failed with %d", calls[0]->code);
        for (int i = 1; i < 4; ++i) MC_CHECK(!calls[i]->failed || calls[i]->code == RPC_ERROR_SEND_BUFFER_FULL, "call_failed", "call %d failed with %d", i, calls[i]->code);
        for (int i = 4; i < 6; ++i) { call_async(&ch, calls[i]); std::vector<Call*> one(1, calls[i]); wait_all(one, 12000000); MC_CHECK(!calls[i]->failed, "full_after_drain", "call %d failed with %d after the queue drained", i, calls[i]->code); }
        cl.Shutdown();
        for (int i = 0; i < 6; ++i) { check_stable(calls[i]); delete calls[i]; }
        mc::obs("%d", full);
    }
    mc::join(fs); l.close();
}

// a peer that reads slowly, limits above zero, changed on the way: what was accepted and not yet taken stays near the limit
static void slow_server(int change, int chunk) {
    const size_t SZ = 30000; const int N = 260; static const int64_t B[] = { 1, 1, 2 }, A[] = { 1, 2, 1 };
    Server s; RpcServerOptions o = server_options(2); o.max_pending_buffer_size = B[change]; s.impl->repeat = 200; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; for (int i = 0; i < N; ++i) exp.insert(1 + i);
    std::string d = repeat('z', SZ / 200);
    int f = mc::spawn("sender", [&]() { for (int i = 0; i < N; ++i) if (!c.c.send_all(request(1 + i, 1 + i, d))) return; });
    int read = 0; size_t lo = ~0ul, hi = 0; int64_t limit = B[change];
    for (int round = 0; read + chunk <= N; ++round) {
        mc::sleep_us(400000);
        size_t held = (s.impl->total - read) * SZ, room = limit << 20;
        MC_CHECK(held <= room + 600000, "unbounded_pending", "%zu bytes of replies held for a peer that has read %d replies, limit is %ld MB", held, read, (long)limit);
        if (s.impl->total < N) { MC_CHECK(held >= room * 2 / 5, "suspended_below_limit", "reading is suspended with %zu bytes of replies, limit is %ld MB", held, (long)limit); lo = std::min(lo, held); hi = std::max(hi, held); }
        if (change && round == 1) { RpcServerOptions n = s.srv->GetOptions(); n.max_pending_buffer_size = limit = A[change]; s.srv->ResetOptions(n); c.c.close(); mc::join(f); break; }
        for (int i = 0; i < chunk; ++i) { MC_CHECK(c.read_one(exp), "not_answered", "no reply after %d replies", read); ++read; }
    }
    while (!change && read < N) { MC_CHECK(c.read_one(exp), "not_answered", "no reply after %d replies", read); ++read; }
    if (!change) mc::join(f);
    c.c.close();
    if (change) {   // the new limit holds for a connection made afterwards
        s.impl->total = 0; Client e; MC_CHECK(e.open(), "harness", "dial failed");
        f = mc::spawn("sender", [&]() { for (int i = 0; i < N; ++i) if (!e.c.send_all(request(1 + i, 1001 + i, d))) return; });
        mc::sleep_us(800000); size_t held = s.impl->total * SZ, room = limit << 20;
        MC_CHECK(held <= room + 600000, "unbounded_pending", "%zu bytes of replies held for a peer that reads nothing, limit was set to %ld MB", held, (long)limit);
        MC_CHECK(held >= room * 2 / 5, "suspended_below_limit", "reading is suspended with %zu bytes of replies, limit was set to %ld MB", held, (long)limit);
        lo = hi = held; e.c.close(); mc::join(f);
    }
    s.srv->Stop();
    mc::obs("server %d %d: %zu..%zu", change, chunk, lo / 1000, hi / 1000);
}
static void slow_client(int change, int chunk) {
    const size_t SZ = 30000; const int N = 400; static const int64_t B[] = { 1, 1, 2 }, A[] = { 1, 2, 1 };
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    int taken = 0, go = 0; bool all = false;
    int fs = mc::spawn("peer", [&]() {
        Conn c = l.accept(); Meta m; std::string b;
        for (;;) {
            mc::wait_until([&]() { return go > 0 || all; }, 0); if (go > 0) --go;
            if (c.read_msg(&m, &b) != 1) break;
            ++taken; verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "malformed_request", "request does not parse");
            if (!c.send_all(response(m.sequence_id(), q.id(), q.data()))) break;
        }
        c.close();
    });
    RpcClientOptions o = client_options(1, 1); o.max_pending_buffer_size = B[change];
    {
        RpcClient cl(o); RpcChannel ch(&cl, addr()); std::string big = repeat('y', SZ); std::vector<Call*> calls, in; int accepted = 0; size_t lo = ~0ul, hi = 0; int64_t limit = B[change];
        for (int round = 0; round < 8 && (int)calls.size() < N; ++round) {
            bool full = false;
            while (!full && (int)calls.size() < N) {
                Call* x = new Call; x->set(1 + calls.size(), big, 100000); calls.push_back(x); call_async(&ch, x); mc::sleep_us(5000);
                if (x->done && x->failed) { MC_CHECK(x->code == RPC_ERROR_SEND_BUFFER_FULL, "wrong_error", "call failed with %d", x->code); full = true; } else { ++accepted; in.push_back(x); }
                size_t held = (accepted - taken) * SZ, room = limit << 20;
                MC_CHECK(held <= room + 200000, "unbounded_pending", "%zu bytes of requests accepted for a peer that has taken %d, limit is %ld MB", held, taken, (long)limit);
                if (full) { MC_CHECK(held >= room * 2 / 5, "full_below_limit", "call refused with %zu bytes queued, limit is %ld MB", held, (long)limit); lo = std::min(lo, held); hi = std::max(hi, held); }
            }
            if (change && round == 1) { RpcClientOptions n = cl.GetOptions(); n.max_pending_buffer_size = limit = A[change]; cl.ResetOptions(n); if (change == 2) { go = 40; mc::sleep_us(300000); } }
            else { go = chunk; mc::sleep_us(300000); }
        }
        all = true; wait_all(in, 12000000);
        for (size_t i = 0; i < in.size(); ++i) MC_CHECK(!in[i]->failed, "call_failed", "an accepted call failed with %d", in[i]->code);
        cl.Shutdown();
        for (size_t i = 0; i < calls.size(); ++i) delete calls[i];
        mc::obs("client %d %d: %zu..%zu", change, chunk, lo / 1000, hi / 1000);
    }
    mc::join(fs); l.close();
}
MC_SCENARIO(slow_peer) { cfg.bound = 0; cfg.sock_buf = 600; cfg.horizon_us = 400000000; cfg.points_plain = 0; cfg.max_steps = 400000000; }
MC_BODY(slow_peer) {
    int who = mc::pick(2, "who"), change = mc::pick(3, "change"), chunk = mc::pick(3, "chunk"); static const int C[] = { 3, 11, 25 };
    if (who == 0) slow_server(change, C[chunk]); else slow_client(change, C[chunk]);
}

// ---------------------------------------------------------------------------------------------------------------
// client send path: three threads call at once on one connection that takes 40 bytes at a time
MC_SCENARIO(cl_partial_writes) { cfg.bound = 1; cfg.sock_buf = 40; }
MC_BODY(cl_partial_writes) {
    int n = 2 + mc::pick(2, "calls"); int size = mc::pick(2, "size") ? 1500 : 10;
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    std::map<uint64_t, int> seen;
    int fs = mc::spawn("peer", [&]() {
        Conn c = l.accept(); Meta m; std::string b; int r;
        while ((r = c.read_msg(&m, &b)) == 1) {
            verif::EchoRequest q; MC_CHECK(q.ParseFromString(b) && m.type() == Meta::REQUEST, "malformed_request", "request does not parse");
            MC_CHECK(++seen[q.id()] == 1, "sent_twice", "request %lu was sent twice", (unsigned long)q.id());
            MC_CHECK(q.data() == repeat('a' + q.id(), size), "mixed_request", "request %lu carries other data", (unsigned long)q.id());
            if (!c.send_all(response(m.sequence_id(), q.id(), q.data()))) break;
        }
        MC_CHECK(r >= -1, "malformed_request", "client sent a malformed message (%d)", r);
        c.close();
    });
    {
        RpcClient cl(client_options(2, 1)); RpcChannel ch(&cl, addr());
        std::vector<Call*> calls; std::vector<int> f;
        for (int i = 0; i < n; ++i) { calls.push_back(new Call); calls[i]->set(i, repeat('a' + i, size), 5000); }
        for (int i = 0; i < n; ++i) f.push_back(mc::spawn("caller", [&, i]() { if (i == 1) call_sync(&ch, calls[i]); else call_async(&ch, calls[i]); }));
        for (int i = 0; i < n; ++i) mc::join(f[i]);
        wait_all(calls, 8000000);
        for (int i = 0; i < n; ++i) MC_CHECK(!calls[i]->failed, "call_failed", "call %d failed with %d %s", i, calls[i]->code, calls[i]->error.c_str());
        cl.Shutdown();
        for (int i = 0; i < n; ++i) { check_stable(calls[i]); delete calls[i]; }
    }
    mc::join(fs); l.close();
    mc::obs("%d %d", n, size);
}

// calls that time out while queued or half sent must not disturb the stream
MC_SCENARIO(cl_send_timeout) { cfg.bound = 1; cfg.sock_buf = 60; }
MC_BODY(cl_send_timeout) {
    int which = mc::pick(8, "timeouts");    // bit i: call i has a short timeout
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    bool go = false; std::set<uint64_t> seen;
    int fs = mc::spawn("peer", [&]() {
        Conn c = l.accept(); Meta m; std::string b; int r;
        mc::wait_until([&]() { return go; }, 0);
        while ((r = c.read_msg(&m, &b)) == 1) {
            verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "malformed_request", "request does not parse");
            MC_CHECK(seen.insert(q.id()).second, "sent_twice", "request %lu was sent twice", (unsigned long)q.id());
            if (!c.send_all(response(m.sequence_id(), q.id(), q.data()))) break;
        }
        MC_CHECK(r >= -1, "malformed_request", "client sent a malformed message (%d)", r);
        c.close();
    });
    {
        RpcClient cl(client_options(1, 1)); RpcChannel ch(&cl, addr());
        std::vector<Call*> calls;
        for (int i = 0; i < 4; ++i) { calls.push_back(new Call); calls[i]->set(10 + i, repeat('a' + i, 30), (i < 3 && (which >> i & 1)) ? 200 : 5000); call_async(&ch, calls[i]); }
        mc::sleep_us(400000);
        for (int i = 0; i < 3; ++i) if (which >> i & 1) MC_CHECK(calls[i]->done && calls[i]->code == RPC_ERROR_REQUEST_TIMEOUT, "not_timed_out", "call %d with a timeout of 200 ms: done=%d code=%d after 400 ms", i, calls[i]->done, calls[i]->code);
        go = true;
        wait_all(calls, 8000000);
        for (int i = 0; i < 4; ++i) if (i == 3 || !(which >> i & 1)) MC_CHECK(!calls[i]->failed, "call_failed", "call %d failed with %d %s", i, calls[i]->code, calls[i]->error.c_str());
        cl.Shutdown();
        for (int i = 0; i < 4; ++i) { check_stable(calls[i]); delete calls[i]; }
    }
    mc::join(fs); l.close();
    mc::obs("%d %zu", which, seen.size());
}

// client keep alive 2 s
MC_SCENARIO(cl_keepalive) { cfg.bound = 1; cfg.horizon_us = 120000000; }
MC_BODY(cl_keepalive) {
    int hist = mc::pick(4, "history");
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    int conns = 0; uint64_t last = 0, closed_at = 0; uint64_t hold = hist == 2 ? 5000000 : 0;
    int fs = mc::spawn("peer", [&]() {
        for (;;) {
            Conn c = l.accept(); if (!c.ok()) return; ++conns; last = mc::now_us();
            Meta m; std::string b;
            while (c.read_msg(&m, &b) == 1) { verif::EchoRequest q; q.ParseFromString(b); if (q.id() == 999) { c.close(); return; } last = mc::now_us(); if (hold) mc::sleep_us(hold); if (!c.send_all(response(m.sequence_id(), q.id(), q.data()))) break; last = mc::now_us(); }
            closed_at = mc::now_us(); c.close();
        }
    });
    {
        RpcClientOptions o = client_options(1, 1); o.keep_alive_time = 2;
        RpcClient cl(o); RpcChannel ch(&cl, addr());
        int n = hist == 1 ? 4 : 1;
        for (int i = 0; i < n; ++i) { Call c; c.set(1 + i, "tick", 20000); call_sync(&ch, &c); MC_CHECK(!c.failed, "closed_with_pending_call", "call failed with %d %s", c.code, c.error.c_str()); if (i + 1 < n) mc::sleep_us(1500000); }
        MC_CHECK(conns == 1, "closed_early", "%d connections were needed for traffic every 1.5 s (keep alive 2 s)", conns);
        if (hist == 3) {                                        // keep alive switched off, then on again just after some traffic
            RpcClientOptions n = cl.GetOptions(); n.keep_alive_time = -1; cl.ResetOptions(n); mc::sleep_us(6000000);
            MC_CHECK(closed_at == 0 && cl.ConnectionCount() == 1, "closed_early", "idle connection closed although keep alive was switched off");
            Call c; c.set(30, "tock", 20000); call_sync(&ch, &c); MC_CHECK(!c.failed, "closed_early", "call failed with %d", c.code);
            n.keep_alive_time = 2; cl.ResetOptions(n);
        }
        MC_CHECK(mc::wait_until([&]() { return closed_at != 0; }, 4500000), "idle_not_closed", "an idle connection was not closed (keep alive 2 s)");
        int64_t idle = (int64_t)closed_at - (int64_t)last;
        MC_CHECK(idle >= 1800000, "closed_early", "connection closed %ld us after its last traffic (keep alive 2 s)", (long)idle);
        MC_CHECK(idle <= 2600000, "closed_late", "connection closed %ld us after its last traffic (keep alive 2 s)", (long)idle);
        MC_CHECK(cl.ConnectionCount() == 0, "connection_count", "closed connection still counted");
        Call e; e.set(50, "again", 20000); hold = 0; call_sync(&ch, &e);                 // reconnects
        MC_CHECK(!e.failed && conns == 2, "no_reconnect", "call after idle close failed with %d (%d connections)", e.code, conns);
        Call z; z.set(999, "", 300); call_sync(&ch, &z);
        cl.Shutdown();
    }
    mc::join(fs); l.close();
    mc::obs("%d", hist);
}

// ---------------------------------------------------------------------------------------------------------------
// hand-over of the send path: each call is made by another thread at the moment the peer has the previous request (or its
// reply has been delivered), while the connection is finishing the previous send
MC_SCENARIO(cl_send_chain) { cfg.bound = 1; }
MC_BODY(cl_send_chain) {
    int on_reply = mc::pick(2, "on_reply"), sync = mc::pick(2, "sync"); const int N = 3;
    Listener l; MC_CHECK(l.open(), "harness", "listen failed");
    int received = 0, answered = 0; uint64_t at[N + 1] = { 0 };
    int fs = mc::spawn("peer", [&]() {
        Conn c = l.accept(); Meta m; std::string b; std::vector<std::string> held;
        while (c.read_msg(&m, &b) == 1) {
            verif::EchoRequest q; MC_CHECK(q.ParseFromString(b), "malformed_request", "request does not parse");
            at[received++] = mc::now_us(); held.push_back(response(m.sequence_id(), q.id(), q.data()));
            if (on_reply || received == N) { for (size_t i = 0; i < held.size(); ++i) { ++answered; if (!c.send_all(held[i])) return; } held.clear(); }
        }
        c.close();
    });
    {
        RpcClient cl(client_options(2, 1)); RpcChannel ch(&cl, addr());
        std::vector<Call*> calls; std::vector<int> f;
        for (int i = 0; i < N; ++i) { calls.push_back(new Call); calls[i]->set(i, repeat('a' + i, 10), 5000); }
        for (int i = 0; i < N; ++i) f.push_back(mc::spawn("caller", [&, i]() { if (i) mc::wait_until([&]() { return on_reply ? answered >= i : received >= i; }, 0); if (sync) call_sync(&ch, calls[i]); else call_async(&ch, calls[i]); }));
        bool ok = mc::wait_until([&]() { return received == N; }, 2000000);
        for (int i = 0; i < N; ++i) if (calls[i]->t_start && (!ok && i >= received)) mc::fail("not_sent", "request %d has not been sent within 2 s although the connection is idle", i);
        MC_CHECK(ok, "not_sent", "only %d of %d requests were sent", received, N);
        for (int i = 0; i < N; ++i) mc::join(f[i]);
        wait_all(calls, 8000000);
        for (int i = 0; i < N; ++i) { MC_CHECK(!calls[i]->failed, "call_failed", "call %d failed with %d %s", i, calls[i]->code, calls[i]->error.c_str()); MC_CHECK(calls[i]->t_done <= at[N - 1] + 100000, "late", "call %d completed %lu us after its reply was sent", i, (unsigned long)(calls[i]->t_done - at[N - 1])); }
        cl.Shutdown();
        for (int i = 0; i < N; ++i) { check_stable(calls[i]); delete calls[i]; }
    }
    mc::join(fs); l.close();
    mc::obs("%d%d", on_reply, sync);
}

// the same on the server: requests completed by different threads at the moment the peer has the previous reply
MC_SCENARIO(srv_send_chain) { cfg.bound = 1; }
MC_BODY(srv_send_chain) {
    int next = mc::pick(3, "next"); const int N = 3;      // 0: complete the next request, 1: send the next request, 2: both kinds mixed
    Server s; s.make(server_options(2)); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed"); std::set<uint64_t> e; for (int i = 0; i < N; ++i) e.insert(1 + i);
    std::vector<int> f; uint64_t sent[N] = { 0 }, got[N] = { 0 };
    auto slow = [&](int i) { return next == 0 || (next == 2 && i == 1); };
    for (int i = 0; i < N; ++i) if (slow(i)) { c.c.send_all(request(1 + i, 1 + i, "x", "verif.EchoServer.Slow")); }
    int ns = next == 0 ? N : next == 2 ? 1 : 0;
    MC_CHECK(mc::wait_until([&]() { return s.impl->total == ns; }, 1000000), "harness", "requests not received");
    for (int i = 0; i < N; ++i) f.push_back(mc::spawn("actor", [&, i]() {
        if (i) mc::wait_until([&]() { return (int)c.got.size() >= i; }, 0);
        sent[i] = mc::now_us();
        if (slow(i)) { s.impl->complete(0); } else c.c.send_all(request(1 + i, 1 + i, "x"));
    }));
    while ((int)c.got.size() < N) { size_t k = c.got.size(); MC_CHECK(c.read_one(e), "not_answered", "connection closed after %zu of %d replies", k, N); got[k] = mc::now_us(); MC_CHECK(!sent[k] || got[k] <= sent[k] + 100000, "late", "reply %zu was sent %lu us after its request was completed", k, (unsigned long)(got[k] - sent[k])); }
    for (int i = 0; i < N; ++i) mc::join(f[i]);
    for (int i = 0; i < N; ++i) expect_echo(c, 1 + i, 1 + i, "x");
    c.c.close(); s.srv->Stop();
    mc::obs("%d", next);
}

// receiving suspended for pending replies is resumed also when the replies drain while a request is being received
MC_SCENARIO(srv_resume_race) { cfg.bound = 1; cfg.sock_buf = 2000; }
MC_BODY(srv_resume_race) {
    int order = mc::pick(2, "order"); const int N = 4;
    Server s; RpcServerOptions o = server_options(2); o.max_pending_buffer_size = 0; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed"); std::set<uint64_t> e; for (int i = 0; i < N; ++i) e.insert(1 + i);
    std::string big = repeat('b', 1850);          // the reply does not fit into the peer's buffer together with the next one
    auto rq = [&](int i) { return request(1 + i, 1 + i, i == 0 ? big : std::string("s")); };
    { std::string a = rq(0); c.c.send_all(a.substr(0, 1000)); mc::sleep_us(1000); c.c.send_all(a.substr(1000) + rq(1) + rq(2)); }
    mc::sleep_us(10000);
    int reader = order ? mc::spawn("reader", [&]() { while ((int)c.got.size() < N && c.read_one(e)) {} }) : -1;
    c.c.send_all(rq(3));
    if (!order) while ((int)c.got.size() < N && c.read_one(e)) {}
    else mc::join(reader);
    expect_echo(c, 1, 1, big); for (int i = 1; i < N; ++i) expect_echo(c, 1 + i, 1 + i, "s");
    c.c.close(); s.srv->Stop();
}
