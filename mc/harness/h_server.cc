// Server side: a real RpcServer driven by raw peers that speak the wire protocol byte by byte.
#include "server.h"
using namespace vh;

// three pipelined requests (inline, completed by another thread, bad in some way) in any order, two work threads
MC_SCENARIO(srv_pipeline) { cfg.bound = 1; }
MC_BODY(srv_pipeline) {
    int order = mc::pick(6, "order"); int bad = mc::pick(4, "bad"); int at_once = mc::pick(2, "at_once");
    Server s; s.make(server_options(2)); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    Meta m; m.set_type(Meta::REQUEST); m.set_sequence_id(13);
    std::string r3; int code = 0;
    if (bad == 0) { m.set_method("verif.NoSuchServer.Echo"); r3 = frame(m, req_body(3, "c")); code = RPC_ERROR_FOUND_METHOD; }
    if (bad == 1) { m.set_method("verif.EchoServer.NoSuchMethod"); r3 = frame(m, req_body(3, "c")); code = RPC_ERROR_FOUND_METHOD; }
    if (bad == 2) { m.set_method("verif.EchoServer.Echo"); r3 = frame(m, "\x0a\xff\xff\xff\xff\x0f bad"); code = RPC_ERROR_PARSE_REQUEST_MESSAGE; }
    if (bad == 3) { m.set_method("nodots"); r3 = frame(m, req_body(3, "c")); code = RPC_ERROR_PARSE_METHOD_NAME; }
    std::string r[3] = { request(11, 1, "alpha"), request(12, 2, "beta", "verif.EchoServer.Slow"), r3 };
    int perm[3] = { 0, 1, 2 }; for (int k = 0; k < order; ++k) std::next_permutation(perm, perm + 3);
    std::set<uint64_t> exp; exp.insert(11); exp.insert(12); exp.insert(13);
    int f = mc::spawn("completer", [&]() { mc::wait_until([&]() { return !s.impl->pending.empty(); }, 5000000); s.impl->complete(0); });
    if (at_once) { c.c.send_all(r[perm[0]] + r[perm[1]] + r[perm[2]]); } else for (int i = 0; i < 3; ++i) c.c.send_all(r[perm[i]]);
    while (c.got.size() < 3 && c.read_one(exp)) {}
    mc::join(f);
    expect_echo(c, 11, 1, "alpha"); expect_echo(c, 12, 2, "beta"); expect_error(c, 13, code);
    MC_CHECK(s.impl->total == 2, "executed_wrong", "%d service method executions for 2 valid requests", s.impl->total);
    c.c.close();
    MC_CHECK(mc::wait_until([&]() { return s.srv->ConnectionCount() == 0; }, 3000000), "connection_leak", "connection still counted after it was closed");
    s.srv->Stop();
    mc::obs("%d %d ok", order, bad);
}

// the service fails the call by itself; compressed replies are covered elsewhere
MC_SCENARIO(srv_service_failure) { cfg.bound = 1; }
MC_BODY(srv_service_failure) {
    Server s; s.impl->fail_with_reason = true; s.make(server_options(1)); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; c.open(); std::set<uint64_t> exp; exp.insert(7);
    c.c.send_all(request(7, 1, "x"));
    c.read_one(exp);
    expect_error(c, 7, RPC_ERROR_FROM_USER);
    MC_CHECK(c.got[7].meta.reason() == "user error", "wrong_reason", "reason is '%s'", c.got[7].meta.reason().c_str());
    s.srv->Stop(); c.c.close();
    mc::obs("ok");
}

// concurrent completions on one connection whose socket accepts a few bytes at a time: replies whole, once, unmixed
MC_SCENARIO(srv_partial_writes) { cfg.bound = 1; cfg.sock_buf = 40; }
MC_BODY(srv_partial_writes) {
    int n = 2 + mc::pick(2, "extra"); int big = mc::pick(2, "big");
    Server s; s.make(server_options(2)); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; std::string d[4];
    int sender = mc::spawn("sender", [&]() { for (int i = 0; i < n; ++i) { d[i] = repeat('a' + i, big ? 1500 : 20 + i); exp.insert(20 + i); c.c.send_all(request(20 + i, 1 + i, d[i], i == 0 ? "verif.EchoServer.Echo" : "verif.EchoServer.Slow")); } });
    std::vector<int> fs;
    for (int k = 1; k < n; ++k) fs.push_back(mc::spawn("completer", [&]() { while (!s.impl->complete(0)) if (!mc::wait_until([&]() { return !s.impl->pending.empty(); }, 5000000)) break; }));
    while ((int)c.got.size() < n && c.read_one(exp)) {}
    mc::join(sender); for (size_t k = 0; k < fs.size(); ++k) mc::join(fs[k]);
    for (int i = 0; i < n; ++i) expect_echo(c, 20 + i, 1 + i, d[i]);
    s.srv->Stop(); c.c.close();
    mc::obs("%d ok", n);
}

// the connection breaks (close, reset) while requests are queued, running or being answered; another connection lives on
MC_SCENARIO(srv_conn_broken) { cfg.bound = 1; }
MC_BODY(srv_conn_broken) {
    int how = mc::pick(2, "close_or_reset"); int when = mc::pick(4, "when"); int cut = mc::pick(2, "cut");
    Server s; s.make(server_options(2)); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; exp.insert(11); exp.insert(12);
    std::string last = request(14, 4, "never complete");
    std::string all = request(11, 1, "alpha") + request(12, 2, "beta", "verif.EchoServer.Slow") + (cut ? last.substr(0, last.size() - 1) : "");
    int f = mc::spawn("completer", [&]() { if (mc::wait_until([&]() { return !s.impl->pending.empty(); }, 2000000)) s.impl->complete(0); });
    c.c.send_all(all);
    if (when >= 1) mc::wait_until([&]() { return s.impl->total >= 1; }, 1000000);
    if (when >= 2) mc::wait_until([&]() { return s.impl->total >= 2; }, 1000000);
    if (when >= 3) c.read_one(exp);
    if (how) mc::net::reset(c.c.fd);
    c.c.close();
    Client d; MC_CHECK(d.open(), "harness", "second dial failed");
    std::set<uint64_t> e2; e2.insert(31);
    d.c.send_all(request(31, 9, "other"));
    while (d.got.empty() && d.read_one(e2)) {}
    expect_echo(d, 31, 9, "other");
    mc::join(f);
    MC_CHECK(s.impl->seen.count(4) == 0, "incomplete_executed", "a request that never arrived completely was executed");
    MC_CHECK(mc::wait_until([&]() { return s.srv->ConnectionCount() == 1; }, 3000000), "connection_count", "ConnectionCount is %d with one connection open", s.srv->ConnectionCount());
    d.c.close();
    s.srv->Stop();
    mc::obs("%d %d total=%d replies=%zu", how, when, s.impl->total, c.got.size());
}

// deadlines: requests whose server_timeout passed while queued or running are not answered (nor run, if not yet started)
MC_SCENARIO(srv_deadline) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 60000; }
MC_BODY(srv_deadline) {
    static const int delay[3] = { 0, 50, 200 };
    int d = delay[mc::pick(3, "delay")]; int first_slow = mc::pick(3, "busy");
    Server s; s.make(server_options(1)); MC_CHECK(s.start(), "start_failed", "server did not start");
    s.impl->delay_us = first_slow == 2 ? 60000 : first_slow ? 100000 : 0;    // a busy work thread delays the request queued behind it
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; exp.insert(11); exp.insert(12); exp.insert(13);
    c.c.send_all(request(11, 1, "alpha") + request(12, 2, "beta", "verif.EchoServer.Slow", 100) + request(13, 3, "gamma", "verif.EchoServer.Slow"));
    int f = mc::spawn("completer", [&]() {
        for (int k = 0; k < 2; ++k) if (mc::wait_until([&]() { return !s.impl->pending.empty(); }, 2000000)) { if (k == 0) mc::sleep_us(d * 1000); s.impl->complete(0); }
    });
    uint64_t t0 = mc::now_us(), t12 = 0;
    int rd = mc::spawn("reader", [&]() { while (c.got.size() < 3 && c.read_one(exp)) if (c.got.count(12) && !t12) t12 = mc::now_us() - t0; });
    mc::join(f);
    mc::sleep_us(400000);
    expect_echo(c, 11, 1, "alpha"); expect_echo(c, 13, 3, "gamma");
    bool answered = c.got.count(12) > 0;
    if (answered) expect_echo(c, 12, 2, "beta");
    if (d >= 200) MC_CHECK(!answered, "answered_late", "a request with a server timeout of 100 ms was answered although it completed after %d ms", d);
    if (first_slow == 2 && d >= 50) MC_CHECK(!answered, "answered_late", "a request with a server timeout of 100 ms was answered although it waited 60 ms and completed %d ms after that", d);
    if (d == 0 && !first_slow && !mc::exploring()) MC_CHECK(answered, "not_answered", "a request completed in time was not answered");
    s.srv->Stop(); mc::join(rd); c.c.close();
    mc::obs("%d %d answered=%d", d, first_slow, answered);
}

// ---------------------------------------------------------------------------------------------------------------
// Stop at every point: connections being accepted, requests queued, running, being answered; then start again
static void stop_body(int pools) {
    int slow = mc::pick(2, "slow"); int second = mc::pick(2, "second_conn"); int wait = mc::pick(2, "wait");
    Server s; RpcServerOptions o = server_options(1); o.io_service_pool_size = pools; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c, d; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; exp.insert(11); exp.insert(12);
    c.c.send_all(request(11, 1, "alpha", slow ? "verif.EchoServer.Slow" : "verif.EchoServer.Echo") + request(12, 2, "beta"));
    int f2 = -1, fc = -1; bool ended = false, ended2 = false;
    int fr = mc::spawn("reader", [&]() { while (c.read_one(exp)) {} ended = true; });
    if (second) f2 = mc::spawn("dialer", [&]() { if (d.open()) { d.c.send_all(request(12, 3, "gamma")); while (d.read_one(exp)) {} } ended2 = true; });
    if (slow) fc = mc::spawn("completer", [&]() { if (mc::wait_until([&]() { return !s.impl->pending.empty(); }, 2000000)) s.impl->complete(0); });
    if (wait) mc::wait_until([&]() { return s.impl->total >= 1; }, 300000);
    uint64_t t0 = mc::now_us();
    s.srv->Stop();
    int total = s.impl->total;
    MC_CHECK(mc::now_us() - t0 <= 3000000, "slow_stop", "Stop took %lu us", (unsigned long)(mc::now_us() - t0));
    MC_CHECK(s.srv->ConnectionCount() == 0, "connections_after_stop", "ConnectionCount is %d after Stop", s.srv->ConnectionCount());
    MC_CHECK(!s.srv->IsListening(), "listening_after_stop", "server is listening after Stop");
    MC_CHECK(mc::wait_until([&]() { return ended && (!second || ended2); }, 3000000), "connection_not_closed", "a connection was not closed by Stop");
    if (fc >= 0) mc::join(fc);
    MC_CHECK(s.impl->total == total, "executed_after_stop", "a service method started after Stop returned");
    mc::join(fr); if (f2 >= 0) mc::join(f2);
    c.c.close(); d.c.close();
    { Client e; MC_CHECK(!e.open(), "accepted_after_stop", "a stopped server accepted a connection"); }
    // start again
    MC_CHECK(s.start(), "restart_failed", "a stopped server cannot be started again");
    MC_CHECK(s.srv->IsListening(), "restart_failed", "restarted server is not listening");
    Client g; MC_CHECK(g.open(), "restart_failed", "cannot connect to the restarted server");
    std::set<uint64_t> e3; e3.insert(51); g.c.send_all(request(51, 51, "again"));
    while (g.got.empty() && g.read_one(e3)) {}
    expect_echo(g, 51, 51, "again");
    g.c.close();
    mc::obs("total %d", total);
}
MC_SCENARIO(srv_stop) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 1000000; }
MC_BODY(srv_stop) { stop_body(1); }
MC_SCENARIO(srv_stop_pools) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 1000000; }
MC_BODY(srv_stop_pools) { stop_body(2); }

// accepting fails: the handler is told, the listener comes back by itself; Stop around that time
namespace vh { struct Handler : public RpcServer::EventHandler { int* n; Handler(int* p) : n(p) {} virtual void NotifyAcceptFailed(RpcErrorCode c, const std::string&) { ++*n; MC_CHECK(c == RPC_ERROR_TOO_MANY_OPEN_FILES, "wrong_error", "accept failure reported as %d", c); } }; }
MC_SCENARIO(srv_accept_fail) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 4000000; cfg.horizon_us = 120000000; }
MC_BODY(srv_accept_fail) {
    static const int at[3] = { -1, 2950, 3200 };
    int stop_at = at[mc::pick(3, "stop_at")];
    int notified = 0;
    Server s; s.make(server_options(1), new Handler(&notified)); MC_CHECK(s.start(), "start_failed", "server did not start");
    mc::net::fail_accepts(1);
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    MC_CHECK(mc::wait_until([&]() { return notified == 1; }, 15000000), "accept_failure_not_reported", "accept failure was not reported");
    bool l = s.srv->IsListening(); if (mc::now_us() < 2000000) MC_CHECK(!l, "listening_wrong", "server claims to listen although its listener failed");
    if (stop_at >= 0) { mc::sleep_us(stop_at * 1000); s.srv->Stop(); MC_CHECK(!s.srv->IsListening(), "listening_after_stop", "server is listening after Stop"); mc::obs("stopped"); c.c.close(); return; }
    MC_CHECK(mc::wait_until([&]() { return s.srv->IsListening(); }, 20000000), "not_listening_again", "the listener was not restarted after a failed accept");
    c.c.close();
    Client d; MC_CHECK(d.open(), "not_listening_again", "cannot connect after the listener was restarted");
    std::set<uint64_t> e; e.insert(1); d.c.send_all(request(1, 1, "x")); while (d.got.empty() && d.read_one(e)) {}
    expect_echo(d, 1, 1, "x");
    d.c.close(); s.srv->Stop();
    mc::obs("recovered");
}

// destruction without Stop, and Stop by two threads
MC_SCENARIO(srv_destroy) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 1000000; }
MC_BODY(srv_destroy) {
    int two = mc::pick(2, "two");
    Server s; s.make(server_options(1)); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> exp; exp.insert(11);
    c.c.send_all(request(11, 1, "alpha"));
    int fr = mc::spawn("reader", [&]() { while (c.read_one(exp)) {} });
    int f = -1; if (two) f = mc::spawn("stopper", [&]() { s.srv->Stop(); });
    if (two) { s.srv->Stop(); mc::join(f); }
    delete s.srv; s.srv = NULL;
    mc::join(fr); c.c.close();
    mc::obs("%d", s.impl->total);
}

// ---------------------------------------------------------------------------------------------------------------
// C10: connection limit
MC_SCENARIO(srv_limit) { cfg.bound = 1; }
MC_BODY(srv_limit) {
    Server s; RpcServerOptions o = server_options(2); o.max_connection_count = 2; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    int n = 3; Client c[4]; bool served[4] = { false, false, false, false }; bool up[4] = { false, false, false, false };
    std::set<uint64_t> e; e.insert(1);
    std::vector<int> fs; int nserved = 0;
    for (int i = 0; i < n; ++i) fs.push_back(mc::spawn("peer", [&, i]() {
        if (!c[i].open()) return;
        c[i].c.send_all(request(1, 100 + i, "x"));
        if (c[i].read_one(e)) { served[i] = true; ++nserved; }
        up[i] = served[i];
    }));
    for (size_t i = 0; i < fs.size(); ++i) mc::join(fs[i]);
    MC_CHECK(nserved <= 2, "limit_exceeded", "%d connections served at once with a limit of 2", nserved);
    MC_CHECK(nserved == 2, "refused_below_limit", "only %d of 3 connections served with a limit of 2", nserved);
    MC_CHECK(s.srv->ConnectionCount() == 2, "connection_count", "ConnectionCount is %d", s.srv->ConnectionCount());
    // one more while full: refused; after one closes: served
    MC_CHECK(c[3].open(), "harness", "dial failed"); c[3].c.send_all(request(1, 200, "y"));
    MC_CHECK(!c[3].read_one(e), "limit_exceeded", "a connection above the limit was served");
    c[3].c.close(); c[3].got.clear();
    for (int i = 0; i < n; ++i) if (up[i]) { c[i].c.close(); up[i] = false; break; }
    MC_CHECK(mc::wait_until([&]() { return s.srv->ConnectionCount() == 1; }, 2000000), "connection_count", "closed connection still counted");
    MC_CHECK(c[3].open(), "harness", "dial failed"); c[3].c.send_all(request(1, 201, "z"));
    MC_CHECK(c[3].read_one(e), "refused_below_limit", "a connection was refused although one had closed");
    // the surviving connection still works
    for (int i = 0; i < n; ++i) if (up[i]) { c[i].got.clear(); c[i].c.send_all(request(1, 300, "w")); MC_CHECK(c[i].read_one(e), "admitted_disturbed", "an admitted connection does not answer any more"); }
    for (int i = 0; i < 4; ++i) c[i].c.close();
    s.srv->Stop();
    mc::obs("%d%d%d", served[0], served[1], served[2]);
}

// C10: every history of connections of each kind opened, left, broken or cut off, around the limit
MC_SCENARIO(srv_slots) { cfg.bound = 0; cfg.points_plain = 0; }
MC_BODY(srv_slots) {
    int limit = 1 + mc::pick(2, "limit"); Server s; RpcServerOptions o = server_options(2); o.max_connection_count = limit; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c[8]; int n = 0, open[8], nopen = 0; uint64_t id = 0; std::string h;
    for (int k = 0; k < 5; ++k) {
        int op = mc::pick(4 + 3 * nopen, "op"); h += (char)('a' + op);
        if (op < 4) {          // a peer connects, and then is idle, in the middle of a request, waits for an answer, or for two
            Client& x = c[n]; MC_CHECK(x.open(), "harness", "dial failed"); std::set<uint64_t> e; e.insert(1);
            x.c.send_all(request(1, ++id, "x")); bool served = x.read_one(e);
            if (nopen >= limit) { MC_CHECK(!served, "limit_exceeded", "a connection above the limit of %d was served", limit); x.c.close(); }
            else {
                MC_CHECK(served, "refused_below_limit", "a connection was refused with %d open and a limit of %d", nopen, limit);
                if (op == 1) { std::string r = request(2, ++id, "part"); x.c.send_all(r.substr(0, r.size() - 3)); }
                if (op >= 2) for (int i = 1; i < op; ++i) x.c.send_all(request(1 + i, ++id, "slow", "verif.EchoServer.Slow"));
                open[nopen++] = n;
            }
            ++n;
        } else {               // it leaves, sends what is no message, or its call is answered and then it leaves
            int i = (op - 4) / 3, how = (op - 4) % 3; Client& x = c[open[i]];
            if (how == 1) { std::string g(64, 'g'); x.c.send_all(g + g); std::string rest = x.c.read_all(); }
            else if (how == 2) { while (s.impl->complete(0)) {} mc::sleep_us(500); }
            x.c.close(); for (int j = i; j + 1 < nopen; ++j) open[j] = open[j + 1]; --nopen;
        }
        mc::sleep_us(2000);
        MC_CHECK(s.srv->ConnectionCount() == nopen, "connection_count", "ConnectionCount is %d with %d connections open (history %s)", s.srv->ConnectionCount(), nopen, h.c_str());
    }
    while (s.impl->complete(0)) {}
    for (int i = 0; i < nopen; ++i) c[open[i]].c.close();
    mc::sleep_us(2000); MC_CHECK(s.srv->ConnectionCount() == 0, "connection_count", "ConnectionCount is %d after all connections were closed", s.srv->ConnectionCount());
    s.srv->Stop(); mc::obs("%d %d", limit, n);
}
// C10: idle connections; keep_alive 2 s; histories of traffic, pending calls and silence
MC_SCENARIO(srv_keepalive) { cfg.bound = 1; cfg.horizon_us = 120000000; }
MC_BODY(srv_keepalive) {
    Server s; RpcServerOptions o = server_options(1); int hist = mc::pick(5, "history"); o.keep_alive_time = hist == 4 ? -1 : 2; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
    Client c; MC_CHECK(c.open(), "harness", "dial failed");
    std::set<uint64_t> e; for (uint64_t k = 1; k < 20; ++k) e.insert(k);
    uint64_t last = mc::now_us(), closed_at = 0; int n = 0;
    int fr = mc::spawn("reader", [&]() { while (c.read_one(e)) { last = mc::now_us(); } closed_at = mc::now_us(); });
    if (hist == 1) for (int k = 1; k <= 4; ++k) { mc::sleep_us(1500000); c.c.send_all(request(k, k, "tick")); last = mc::now_us(); ++n; }     // traffic every 1.5 s
    if (hist == 2) {                                                                          // an outstanding call for 5 s
        c.c.send_all(request(1, 1, "slow", "verif.EchoServer.Slow")); ++n;
        MC_CHECK(mc::wait_until([&]() { return s.impl->total == 1; }, 1000000), "harness", "request not received");
        mc::sleep_us(5000000);
        MC_CHECK(closed_at == 0, "closed_with_pending_call", "a connection with an outstanding call was closed for idleness");
        s.impl->complete(0); mc::wait_until([&]() { return c.got.size() == 1; }, 1000000); last = mc::now_us();
    }
    if (hist == 3) for (int k = 1; k <= 3; ++k) { mc::sleep_us(1200000); std::string r = request(k, k, "tick"); c.c.send_all(r.substr(0, 10)); mc::sleep_us(600000); c.c.send_all(r.substr(10)); last = mc::now_us(); ++n; } // partial traffic counts
    if (hist == 4) {                                                                          // keep alive introduced just after some traffic
        mc::sleep_us(6000000); MC_CHECK(closed_at == 0, "closed_early", "connection closed without keep alive");
        c.c.send_all(request(1, 1, "tick")); ++n; mc::wait_until([&]() { return c.got.size() == 1; }, 1000000); last = mc::now_us();
        RpcServerOptions k = s.srv->GetOptions(); k.keep_alive_time = 2; s.srv->ResetOptions(k);
    }
    MC_CHECK(mc::wait_until([&]() { return closed_at != 0; }, 4500000), "idle_not_closed", "a connection idle for 4.5 s was not closed (keep alive 2 s)");
    int64_t idle = (int64_t)closed_at - (int64_t)last;
    MC_CHECK(idle >= 1800000, "closed_early", "connection closed %ld us after its last traffic (keep alive 2 s)", (long)idle);
    MC_CHECK(idle <= 2600000, "closed_late", "connection closed %ld us after its last traffic (keep alive 2 s)", (long)idle);
    MC_CHECK((int)c.got.size() == n, "not_answered", "%zu of %d requests answered", c.got.size(), n);
    MC_CHECK(s.srv->ConnectionCount() == 0, "connection_count", "closed connection still counted");
    mc::join(fr); c.c.close();
    s.srv->Stop();
    mc::obs("%d", hist);
}

// servlets registered and unregistered by several threads while requests are routed: a path registered throughout is
// always answered by its own servlet (or by the more specific one, if that was registered at some time during the
// request), no registration is lost, and an unregistered servlet gets no request begun afterwards
#include "ref.h"
namespace vh { struct Page { char name; int calls; Page() : name(0), calls(0) {} bool run(const HTTPRequest&, HTTPResponse& r) { ++calls; return r.content->Append(&name, 1); } }; }
MC_SCENARIO(srv_servlets) { cfg.bound = 1; }
MC_BODY(srv_servlets) {
    int what = mc::pick(3, "change"), twice = mc::pick(2, "second"); Page pg[4]; Servlet sv[4]; for (int i = 0; i < 4; ++i) { pg[i].name = "KSXY"[i]; sv[i] = NewPermanentExtClosure(&pg[i], &Page::run); }
    { Server s; RpcServerOptions o = server_options(2); s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start");
      MC_CHECK(s.srv->RegisterWebServlet("/keep", sv[0], false), "register", "first registration failed");
      if (what == 1) MC_CHECK(s.srv->RegisterWebServlet("/keep/sub", sv[1], false), "register", "registration failed");
      int state = what == 1 ? 1 : 0, changing = 0;      // is /keep/sub registered
      Conn c = dial(PORT); MC_CHECK(c.ok(), "harness", "dial failed"); std::string in;
      auto change = [&]() { changing = 1;
          if (state == 0) { MC_CHECK(s.srv->RegisterWebServlet("/keep/sub/", sv[1], false), "register", "registration of a free path failed"); state = 1; }
          else { MC_CHECK(s.srv->UnregisterWebServlet("/keep//sub") == sv[1], "unregister", "unregistering returned another servlet"); state = 0; }
          changing = 0; };
      int a = mc::spawn("changer", [&]() { change(); if (twice) change(); });
      int b = mc::spawn("other", [&]() { MC_CHECK(s.srv->RegisterWebServlet("/x", sv[2], false), "register", "registration of a free path failed"); if (what == 2) { MC_CHECK(s.srv->UnregisterWebServlet("/x") == sv[2], "unregister", "unregistering returned another servlet"); MC_CHECK(s.srv->RegisterWebServlet("/keep/y", sv[3], false), "register", "registration of a free path failed"); } });
      auto ask = [&](const char* path, bool either, char want) {
          c.send_all(http_get(path)); HttpReply h; int r; char buf[4096];
          while ((r = take_http(in, &h)) == 0) { ssize_t k = ::recv(c.fd, buf, sizeof buf, 0); MC_CHECK(k > 0, "not_answered", "a request for %s was not answered", path); in.append(buf, k); }
          MC_CHECK(r == 1 && h.status == "HTTP/1.1 200 OK", "wrong_reply", "a request for %s got '%s'", path, h.status.c_str());
          char got = h.body.size() == 1 ? h.body[0] : '?'; MC_CHECK(got == want || (either && (got == 'K' || got == 'S')), "misrouted", "a request for %s was answered by servlet %c, expected %c%s", path, got, want, either ? " or S" : "");
      };
      ask("/keep", false, 'K'); ask("/keep/sub/z", true, 'K'); ask("/keep/zzz", false, 'K');
      mc::join(a); mc::join(b);
      ask("/keep/sub", false, state ? 'S' : 'K'); ask("/keep/y/1", false, what == 2 ? 'Y' : 'K');
      if (what != 2) ask("/x", false, 'X'); else MC_CHECK(s.srv->RegisterWebServlet("/x", sv[2], false), "unregister", "an unregistered path cannot be registered again");
      MC_CHECK(pg[0].calls + pg[1].calls + pg[2].calls + pg[3].calls == (what != 2 ? 6 : 5), "ran_twice", "servlets ran %d times", pg[0].calls + pg[1].calls + pg[2].calls + pg[3].calls);
      s.srv->Stop(); c.close(); }
    for (int i = 0; i < 4; ++i) delete sv[i];
    mc::obs("%d %d", what, twice);
}
