// Client side: a real RpcClient against a raw peer that decides what to answer, when, and how the connection ends.
#include "common.h"
using namespace vh;

namespace vh {
struct Peer {                 // raw server: collects requests, answers on command
    Listener l; Conn c; bool up; int fiber; std::vector<std::pair<uint64_t, verif::EchoRequest> > got; bool eof; int conns;
    Peer() : up(false), fiber(-1), eof(false), conns(0) {}
    void start(int port = PORT) { MC_CHECK(l.open(port), "harness", "listen failed"); up = true; }
    bool read_request() {
        Meta m; std::string b; int r = c.read_msg(&m, &b);
        if (r == 1) {
            verif::EchoRequest q;
            MC_CHECK(m.type() == Meta::REQUEST, "bad_request", "client sent a non-request message");
            MC_CHECK(q.ParseFromString(b), "bad_request", "client sent a request body that does not parse");
            for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i].first != m.sequence_id(), "duplicate_sequence", "sequence id %lu was sent twice", (unsigned long)m.sequence_id());
            got.push_back(std::make_pair(m.sequence_id(), q));
            return true;
        }
        MC_CHECK(r == 0 || r == -1, "bad_request", "client sent a malformed message (%d)", r);
        return false;
    }
    void answer(size_t i) { c.send_all(response(got[i].first, got[i].second.id(), got[i].second.data())); }
};
}

// two asynchronous calls and a synchronous one in flight; replies in every order, duplicated, and for unknown ids
MC_SCENARIO(replies_any_order) { cfg.bound = 1; }
MC_BODY(replies_any_order) {
    Peer p; p.start();
    RpcClient client(client_options(1, 1));
    Call a, b; a.set(101, "alpha", 1000); b.set(102, "beta", 1000);
    Call s; s.set(103, "gamma", 1000);
    int order = mc::pick(6, "order"); int extra = mc::pick(3, "extra");
    int pf = mc::spawn("peer", [&]() {
        p.c = p.l.accept();
        for (int i = 0; i < 3; ++i) if (!p.read_request()) return;
        int perm[3] = { 0, 1, 2 }; for (int k = 0; k < order; ++k) std::next_permutation(perm, perm + 3);
        for (int i = 0; i < 3; ++i) {
            if (extra == 1) p.c.send_all(response(999999, 77, "bogus"));
            p.answer(perm[i]);
            if (extra == 2) p.answer(perm[i]);
        }
        char x; while (::recv(p.c.fd, &x, 1, 0) > 0) {}
        p.c.close();
    });
    {
        RpcChannel ch(&client, addr());
        int sf = mc::spawn("sync", [&]() { call_sync(&ch, &s); });
        call_async(&ch, &a); call_async(&ch, &b);
        std::vector<Call*> v; v.push_back(&a); v.push_back(&b); v.push_back(&s);
        wait_all(v, 3000000);
        mc::join(sf);
        for (int i = 0; i < 3; ++i) MC_CHECK(!v[i]->failed, "lost_reply", "call %lu failed (%d %s) although its reply was delivered", (unsigned long)v[i]->id, v[i]->code, v[i]->error.c_str());
        for (int i = 0; i < 3; ++i) check_stable(v[i]);
        mc::obs("%s %s %s", a.outcome(), b.outcome(), s.outcome());
    }
    client.Shutdown();
    for (Call* c : { &a, &b, &s }) check_stable(c);
    mc::join(pf);
    p.l.close();
}

// ---------------------------------------------------------------------------------------------------------------
// replies around the timeout tick: exactly once, a failure only after the timeout, never later than the slack; the reply
// that comes too late must not disturb the next call on the connection
namespace vh {
static const int64_t SLACK_US = 250000; // 100 ms timer period, one missed period, scheduling
inline void check_timeout(Call* c, int64_t timeout_ms) {
    int64_t el = (int64_t)c->t_done - (int64_t)c->t_start;
    if (c->failed && c->code == RPC_ERROR_REQUEST_TIMEOUT) {
        MC_CHECK(el >= timeout_ms * 1000 - 1000, "early_timeout", "call %lu timed out after %ld us, timeout is %ld ms", (unsigned long)c->id, (long)el, (long)timeout_ms);
    }
}
}
static void late_reply_body(bool stalls) {
    Peer p; p.start();
    RpcClient client(client_options(1, 1));
    static const int delay[5] = { 50, 100, 150, 200, 300 };
    int d = delay[mc::pick(5, "reply_at")];
    Call a, b, s; a.set(1, "first", 150); s.set(2, "sync", 150); b.set(3, "second", 2000);
    int pf = mc::spawn("peer", [&]() {
        p.c = p.l.accept();
        for (size_t i = 0; p.read_request(); ++i) {
            // replies to the first two calls leave d ms after the calls were made
            uint64_t id = p.got[i].second.id();
            if (id != 3) { uint64_t due = (id == 1 ? a : s).t_start + (uint64_t)d * 1000, t = mc::now_us(); if (due > t) mc::sleep_us(due - t); }
            p.answer(i);
        }
        p.c.close();
    });
    {
        RpcChannel ch(&client, addr());
        int sf = mc::spawn("sync", [&]() { call_sync(&ch, &s); });
        call_async(&ch, &a);
        std::vector<Call*> v; v.push_back(&a); v.push_back(&s);
        wait_all(v, 3000000);
        mc::join(sf);
        for (Call* c : v) {
            check_timeout(c, 150);
            MC_CHECK(!c->failed || c->code == RPC_ERROR_REQUEST_TIMEOUT, "wrong_failure", "call %lu failed with %d %s", (unsigned long)c->id, c->code, c->error.c_str());
            if (!stalls) {
                int64_t el = c->t_done - c->t_start;
                MC_CHECK(el <= 150000 + SLACK_US, "late_timeout", "call %lu completed %ld us after it was made, timeout 150 ms", (unsigned long)c->id, (long)el);
                if (d <= 100) MC_CHECK(!c->failed, "lost_reply", "call %lu failed although its reply arrived %d ms before the timeout", (unsigned long)c->id, 150 - d);
                if (d >= 300) MC_CHECK(c->failed, "too_late_success", "call %lu succeeded with a reply that arrived after its timeout was due", (unsigned long)c->id);
            }
        }
        call_sync(&ch, &b);
        MC_CHECK(!b.failed, "next_call_disturbed", "the call after the late reply failed: %d %s", b.code, b.error.c_str());
        for (Call* c : v) check_stable(c);
        mc::obs("d%d %s %s %s", d, a.outcome(), s.outcome(), b.outcome());
    }
    client.Shutdown();
    check_stable(&a); check_stable(&s); check_stable(&b);
    mc::join(pf); p.l.close();
}
MC_SCENARIO(late_replies) { cfg.bound = 1; }
MC_BODY(late_replies) { late_reply_body(false); }
MC_SCENARIO(late_replies_stall) { cfg.bound = 1; cfg.nstall = 2; cfg.stall_us[0] = 120000; cfg.stall_us[1] = 400000; }
MC_BODY(late_replies_stall) { late_reply_body(true); }

// ---------------------------------------------------------------------------------------------------------------
// the connection is lost after the peer has read r requests and answered some of them; close or reset; calls with and
// without an own timeout. Everything completes, answered calls may succeed, nothing else may; a later call reconnects.
MC_SCENARIO(conn_lost) { cfg.bound = 1; }
MC_BODY(conn_lost) {
    Peer p; p.start();
    RpcClient client(client_options(1, 1));
    int nread = mc::pick(3, "reads"); int nans = nread ? mc::pick(nread + 1, "answers") : 0; int how = mc::pick(2, "close_or_reset"); int partial = mc::pick(2, "partial_answer");
    Call a, b; a.set(1, "first", 1000); b.set(2, "second", 0); Call s; s.set(3, "third", 1500);
    std::set<uint64_t> answered; bool second_conn = false;
    int pf = mc::spawn("peer", [&]() {
        p.c = p.l.accept();
        for (int i = 0; i < nread; ++i) if (!p.read_request()) return;
        for (int i = 0; i < nans; ++i) { answered.insert(p.got[i].second.id()); p.answer(i); }
        if (partial && nread > nans) { std::string r = response(p.got[nans].first, p.got[nans].second.id(), p.got[nans].second.data()); p.c.send_all(r.substr(0, r.size() - 3)); }
        if (how == 0) p.c.close(); else { mc::net::reset(p.c.fd); p.c.close(); }
        p.c = p.l.accept();
        if (!p.c.ok()) return;
        second_conn = true;
        size_t k = p.got.size();
        while (p.read_request()) { answered.insert(p.got[k].second.id()); p.answer(k); ++k; }
        p.c.close();
    });
    {
        RpcChannel ch(&client, addr());
        call_async(&ch, &a); call_async(&ch, &b);
        std::vector<Call*> v; v.push_back(&a); v.push_back(&b);
        wait_all(v, 3000000); // well below the 10 s default timeout of b: the loss of the connection must complete it
        for (Call* c : v) if (!c->failed) MC_CHECK(answered.count(c->id), "success_without_reply", "call %lu succeeded but the peer never answered it", (unsigned long)c->id);
        mc::sleep_us(200000);
        call_sync(&ch, &s);
        MC_CHECK(!s.failed, "no_reconnect", "a call made after the connection was lost failed: %d %s", s.code, s.error.c_str());
        check_stable(&a); check_stable(&b);
        mc::obs("%d/%d/%d/%d: %s %s %s", nread, nans, how, partial, a.outcome(), b.outcome(), s.outcome());
    }
    client.Shutdown();
    check_stable(&a); check_stable(&b);
    p.l.close();
    mc::join(pf);
}

// ---------------------------------------------------------------------------------------------------------------
// several threads call one address at the same time: one connection; refused, silent and unreachable addresses
MC_SCENARIO(share_connection) { cfg.bound = 1; }
MC_BODY(share_connection) {
    Peer p; p.start();
    RpcClient client(client_options(1, 1));
    Call a, b, c; a.set(1, "a", 2000); b.set(2, "b", 2000); c.set(3, "c", 2000);
    int pf = mc::spawn("peer", [&]() {
        p.c = p.l.accept();
        for (int i = 0; i < 3; ++i) { if (!p.read_request()) return; p.answer(i); }
        char x; while (::recv(p.c.fd, &x, 1, 0) > 0) {}
        p.c.close();
    });
    {
        RpcChannel ch1(&client, addr()); RpcChannel ch2(&client, addr());
        int f1 = mc::spawn("caller1", [&]() { call_sync(&ch1, &a); });
        int f2 = mc::spawn("caller2", [&]() { call_sync(&ch2, &b); });
        call_async(&ch2, &c);
        std::vector<Call*> v; v.push_back(&a); v.push_back(&b); v.push_back(&c);
        wait_all(v, 4000000);
        mc::join(f1); mc::join(f2);
        MC_CHECK(mc::net::accepted_total(PORT) == 1, "connections_not_shared", "%d connections were opened to one address", mc::net::accepted_total(PORT));
        MC_CHECK(client.ConnectionCount() == 1, "connection_count", "ConnectionCount() is %d with one connection", client.ConnectionCount());
        for (Call* x : v) MC_CHECK(!x->failed, "shared_call_failed", "call %lu failed: %d %s", (unsigned long)x->id, x->code, x->error.c_str());
        mc::obs("%s %s %s", a.outcome(), b.outcome(), c.outcome());
    }
    client.Shutdown();
    mc::join(pf); p.l.close();
}

// unreachable peers: refused, never answering with and without a connect timeout; then the peer comes up
MC_SCENARIO(connect_fail) { cfg.bound = 1; }
MC_BODY(connect_fail) {
    int mode = mc::pick(4, "mode"); // 0 refused, 1 silent + connect timeout, 2 silent + rpc timeout only, 3 refused while pending
    RpcClientOptions o = client_options(1, 1);
    if (mode == 1) o.connect_timeout = 300;
    mc::net::set_port_mode(PORT, mode == 0 ? mc::net::REFUSE : mc::net::BLACKHOLE);
    Call a, b; a.set(1, "a", mode == 2 ? 400 : 1500); b.set(2, "b", mode == 2 ? 400 : 1500);
    Call s; s.set(3, "c", 1500);
    Peer p; p.start(); bool stop = false;
    int pf = mc::spawn("peer", [&]() {
        for (size_t k = 0;;) {
            p.c = p.l.accept();
            if (!p.c.ok()) return;
            for (; p.read_request(); ++k) p.answer(k);
            p.c.close();
        }
    });
    RpcClient client(o);
    {
        RpcChannel ch(&client, addr());
        int f = mc::spawn("caller", [&]() { call_sync(&ch, &a); });
        call_async(&ch, &b);
        if (mode == 3) { mc::sleep_us(150000); mc::net::set_port_mode(PORT, mc::net::REFUSE); }
        std::vector<Call*> v; v.push_back(&a); v.push_back(&b);
        wait_all(v, 2500000);
        mc::join(f);
        for (Call* c : v) {
            MC_CHECK(c->failed, "success_without_server", "call %lu succeeded without a connection", (unsigned long)c->id);
            check_timeout(c, c->cntl.Timeout());
            int64_t el = c->t_done - c->t_start;
            int64_t due = mode == 0 ? 200000 : mode == 1 ? 300000 : mode == 2 ? 400000 : 150000;
            MC_CHECK(el <= due + SLACK_US + 50000, "late_failure", "mode %d: call %lu failed %ld us after it was made, expected within %ld us", mode, (unsigned long)c->id, (long)el, (long)(due + SLACK_US));
            if (mode != 2) MC_CHECK(c->code != RPC_ERROR_REQUEST_TIMEOUT, "wrong_failure", "mode %d: call %lu was reported as timed out", mode, (unsigned long)c->id);
        }
        mc::net::set_port_mode(PORT, mc::net::NORMAL);
        mc::sleep_us(300000);
        call_sync(&ch, &s);
        MC_CHECK(!s.failed, "no_reconnect", "mode %d: call after the server came up failed: %d %s", mode, s.code, s.error.c_str());
        check_stable(&a); check_stable(&b);
        mc::obs("%d: %s %s %s", mode, a.outcome(), b.outcome(), s.outcome());
    }
    client.Shutdown(); (void)stop;
    p.l.close(); mc::join(pf);
}

// ---------------------------------------------------------------------------------------------------------------
// Shutdown while calls are being made, answered and timed out, while connecting, and calls made after it
static void shutdown_body(int answers, int net) {
    Peer p; p.start();
    RpcClientOptions o = client_options(1, 1);
    if (net == 2) o.connect_timeout = 400;
    if (net) mc::net::set_port_mode(PORT, net == 3 ? mc::net::REFUSE : mc::net::BLACKHOLE);
    Call a, b, c; a.set(1, "a", 300); b.set(2, "b", 0); c.set(3, "c", 300);
    std::vector<Call*> v; v.push_back(&a); v.push_back(&b); v.push_back(&c);
    bool stopped = false;
    int pf = mc::spawn("peer", [&]() {
        p.c = p.l.accept(); if (!p.c.ok()) return;
        for (int i = 0; p.read_request(); ++i) if (i < answers) p.answer(i);
        p.c.close();
    });
    {
        RpcClient client(o);
        RpcChannel ch(&client, addr());
        call_async(&ch, &a); call_async(&ch, &b);
        int f = mc::spawn("caller", [&]() { call_sync(&ch, &c); });
        if (answers) mc::wait_until([&]() { return a.done > 0 || p.got.size() > 1; }, 100000);
        uint64_t t0 = mc::now_us();
        client.Shutdown();
        stopped = true;
        mc::note("Shutdown returned");
        MC_CHECK(mc::now_us() - t0 <= 3000000, "slow_shutdown", "Shutdown took %lu us", (unsigned long)(mc::now_us() - t0));
        MC_CHECK(client.ConnectionCount() == 0, "connections_after_shutdown", "ConnectionCount() is %d after Shutdown", client.ConnectionCount());
        // calls of the thread that shut down are complete when Shutdown returns: no callback starts after it
        MC_CHECK(a.done && b.done, "not_completed_by_shutdown", "a call made before Shutdown is not complete when it returns");
        wait_all(v, 4000000);
        mc::join(f);
        mc::obs("%s %s %s", a.outcome(), b.outcome(), c.outcome());
        for (Call* x : v) check_stable(x);
        Call d, e; d.set(4, "after", 500); e.set(5, "after async", 0);
        call_sync(&ch, &d);
        MC_CHECK(d.failed && d.code == RPC_ERROR_NOT_IN_RUNNING, "call_after_shutdown", "a call on a stopped client ended with %d %s", d.code, d.error.c_str());
        call_async(&ch, &e);
        MC_CHECK(mc::wait_until([&]() { return e.done > 0; }, 2000000), "call_after_shutdown", "an asynchronous call on a stopped client is never completed");
        MC_CHECK(e.failed && e.code == RPC_ERROR_NOT_IN_RUNNING, "call_after_shutdown", "an asynchronous call on a stopped client ended with %d %s", e.code, e.error.c_str());
        RpcChannel ch2(&client, addr());
        Call g; g.set(6, "new channel", 500); call_sync(&ch2, &g);
        MC_CHECK(g.failed, "call_after_shutdown", "a call on a new channel of a stopped client succeeded");
        client.Shutdown();
    }
    p.l.close(); mc::join(pf);
}
static void shutdown_cfg(mc::Config& cfg) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 1000000; }
MC_SCENARIO(shutdown_pending) { shutdown_cfg(cfg); }
MC_BODY(shutdown_pending) { shutdown_body(mc::pick(4, "answers"), 0); }
MC_SCENARIO(shutdown_connecting) { shutdown_cfg(cfg); }
MC_BODY(shutdown_connecting) { shutdown_body(0, 1 + mc::pick(3, "net")); }
// the client object is destroyed (not only shut down) with calls pending; two threads shut down at once
MC_SCENARIO(destroy_pending) { shutdown_cfg(cfg); }
MC_BODY(destroy_pending) {
    Peer p; p.start();
    Call a, b; a.set(1, "a", 300); b.set(2, "b", 0);
    int answers = mc::pick(3, "answers"); int wait = mc::pick(2, "wait"); int two = mc::pick(2, "two_stoppers");
    int pf = mc::spawn("peer", [&]() {
        p.c = p.l.accept(); if (!p.c.ok()) return;
        for (int i = 0; p.read_request(); ++i) if (i < answers) p.answer(i);
        p.c.close();
    });
    {
        RpcClient* client = new RpcClient(client_options(1, 1));
        RpcChannel* ch = new RpcChannel(client, addr());
        call_async(ch, &a); call_async(ch, &b);
        if (wait) mc::wait_until([&]() { return p.got.size() > 1; }, 100000);
        if (two) {
            int f = mc::spawn("stopper", [&]() { client->Shutdown(); });
            client->Shutdown(); mc::join(f);
        }
        if (answers == 1) { delete client; MC_CHECK(a.done && b.done, "not_completed_by_shutdown", "a call is not complete after the client was destroyed"); delete ch; }
        else { client->Shutdown(); delete ch; delete client; }
        MC_CHECK(a.done && b.done, "not_completed_by_shutdown", "a call is not complete after the client was destroyed");
        check_stable(&a); check_stable(&b);
        mc::obs("%s %s", a.outcome(), b.outcome());
    }
    p.l.close(); mc::join(pf);
}
