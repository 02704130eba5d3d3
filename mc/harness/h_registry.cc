// Registry and statistics under concurrency and end to end (C18).
#include "server.h"
#include <sofa/pbrpc/service_pool.h>
#include <sofa/pbrpc/builtin_service.pb.h>
using namespace vh;
namespace gp = google::protobuf;
namespace vh {
struct Fake : public gp::Service {
    const gp::ServiceDescriptor* d; Fake(const gp::ServiceDescriptor* dd) : d(dd) {}
    const gp::ServiceDescriptor* GetDescriptor() { return d; }
    void CallMethod(const gp::MethodDescriptor*, gp::RpcController*, const gp::Message*, gp::Message*, gp::Closure*) {}
    const gp::Message& GetRequestPrototype(const gp::MethodDescriptor*) const { return verif::EchoRequest::default_instance(); }
    const gp::Message& GetResponsePrototype(const gp::MethodDescriptor*) const { return verif::EchoResponse::default_instance(); }
};
// same hash as the lookup cache of the registry, only used to find names that share a slot
inline int slot_of(const std::string& s) {
    const uint64_t m = 0xc6a4a7935bd1e995ull; const int r = 47; uint64_t h = 0x5bd1e995; const char* p = s.data(); size_t n = s.size();
    for (; n >= 8; n -= 8, p += 8) { uint64_t k; memcpy(&k, p, 8); k *= m; k ^= k >> r; k *= m; h ^= k; h *= m; }
    if (n) { uint64_t k = 0; memcpy(&k, p, n); h ^= k; h *= m; }
    h ^= h >> r; h *= m; h ^= h >> r; return (int)(h % 1019);
}
struct Descs {
    gp::DescriptorPool pool; const gp::ServiceDescriptor* d[3];
    const gp::ServiceDescriptor* make(const std::string& n) {
        gp::FileDescriptorProto f; f.set_name(n + ".proto"); f.set_package("v"); f.add_message_type()->set_name("Q" + n); gp::ServiceDescriptorProto* s = f.add_service(); s->set_name(n);
        for (int i = 0; i < 2; ++i) { gp::MethodDescriptorProto* m = s->add_method(); m->set_name(i ? "M1" : "M0"); m->set_input_type(".v.Q" + n); m->set_output_type(".v.Q" + n); }
        return pool.BuildFile(f)->service(0);
    }
    Descs() { d[0] = make("Alpha"); int i = 0; char b[32]; do snprintf(b, sizeof b, "S%d", i++); while (slot_of(std::string("v.") + b) != slot_of("v.Alpha")); d[1] = make(b); d[2] = make("Other"); }
};
static Descs descs;
struct Board { int reg[3]; Fake* who[3]; };
inline void found_ok(ServiceBoard* b, int k, Board* x, bool must) {
    if (!b) { MC_CHECK(!must, "find", "service %d was registered before, but is not found", k); return; }
    MC_CHECK(b->ServiceName() == descs.d[k]->full_name() && b->Descriptor() == descs.d[k], "find", "looking for service %d finds %s", k, b->ServiceName().c_str());
    for (int m = 0; m < 2; ++m) MC_CHECK(b->Method(m)->GetServiceBoard() == b && b->Method(m)->Descriptor() == descs.d[k]->method(m), "find", "method %d of service %d is not set up", m, k);
    if (x->reg[k]) MC_CHECK(b->Service() == x->who[k], "find", "service %d found is not the one registered", k);
}
}
MC_SCENARIO(reg_race) { cfg.bound = 2; }
MC_BODY(reg_race) {
    int kind = mc::pick(3, "who registers what"); int look = mc::pick(3, "what is looked up");
    ServicePool pool(NULL); Fake f0(descs.d[0]), g0(descs.d[0]), f1(descs.d[1]), f2(descs.d[2]); Board x; memset(&x, 0, sizeof x);
    auto reg = [&](int k, Fake* f) { bool r = pool.RegisterService(f, false); if (r) { MC_CHECK(!x.reg[k], "registered_twice", "a name was registered twice"); x.who[k] = f; x.reg[k] = 1; } return r; };
    int t1 = mc::spawn("reg1", [&]() { reg(0, &f0); if (kind == 1) reg(1, &f1); });
    int t2 = mc::spawn("reg2", [&]() { reg(kind == 0 ? 0 : kind == 1 ? 2 : 1, kind == 0 ? &g0 : kind == 1 ? &f2 : &f1); });
    int t3 = mc::spawn("find", [&]() { for (int i = 0; i < 2; ++i) { int k = look == 2 ? i : look; bool must = x.reg[k]; found_ok(pool.FindService(descs.d[k]->full_name()), k, &x, must); } std::list<ServiceBoard*> l; pool.ListService(&l); for (std::list<ServiceBoard*>::iterator it = l.begin(); it != l.end(); ++it) (*it)->NextSlot(); });
    mc::join(t1); mc::join(t2); mc::join(t3);
    bool want[3] = { true, kind > 0, kind == 1 };
    for (int k = 0; k < 3; ++k) { MC_CHECK(x.reg[k] == (int)want[k], "register", "service %d: registration %s", k, want[k] ? "was refused everywhere" : "of nothing"); ServiceBoard* b = pool.FindService(descs.d[k]->full_name()); if (want[k]) found_ok(b, k, &x, true); else MC_CHECK(!b, "find", "service %d is found, but was not registered", k); }
    int n = want[0] + want[1] + want[2]; MC_CHECK(pool.ServiceCount() == n, "count", "service count %d, %d registered", pool.ServiceCount(), n); std::list<gp::Service*> l; pool.ListService(&l); MC_CHECK((int)l.size() == n, "list", "%zu services listed, %d registered", l.size(), n);
    mc::obs("%d %d", kind, x.who[0] == &f0);
}
// two threads report the ends of calls while the time slots advance and a third reads
MC_SCENARIO(stat_race) { cfg.bound = 2; }
MC_BODY(stat_race) {
    int same = mc::pick(2, "same outcome"), reader = mc::pick(2, "reader"); int where = mc::pick(2, "start at the end of the ring");
    ServicePool pool(NULL); Fake f(descs.d[0]); MC_CHECK(pool.RegisterService(&f, false), "register", "refused"); ServiceBoard* b = pool.FindService("v.Alpha"); MC_CHECK(b, "find", "not found");
    if (where) { mc::arm(false); for (int i = 0; i < 601; ++i) pool.NextSlot(); mc::arm(true); }
    int begun = 0;
    auto end = [&](bool ok, int n) { for (int i = 0; i < n; ++i) { ++begun; b->ReportProcessBegin(0); b->ReportProcessEnd(0, ok, 7); } };
    auto sane = [&](const builtin::ServiceStat& s) {
        const builtin::MethodStat& m = s.method_stats(0);
        MC_CHECK(m.succeed_count() + m.failed_count() <= begun, "counts", "%ld calls reported, %d made", (long)(m.succeed_count() + m.failed_count()), begun);
        MC_CHECK(m.succeed_max_time_us() == (m.succeed_count() ? 7 : 0) && m.failed_max_time_us() == (m.failed_count() ? 7 : 0), "torn", "maximum %ld/%ld with %ld/%ld calls of 7 us", (long)m.succeed_max_time_us(), (long)m.failed_max_time_us(), (long)m.succeed_count(), (long)m.failed_count());
        MC_CHECK(m.succeed_avg_time_us() == (m.succeed_count() ? 7.f : 0.f) && m.failed_avg_time_us() == (m.failed_count() ? 7.f : 0.f), "torn", "average %f/%f of calls of 7 us", m.succeed_avg_time_us(), m.failed_avg_time_us());
    };
    int t1 = mc::spawn("worker1", [&]() { end(true, 2); });
    int t2 = mc::spawn("worker2", [&]() { end(same, 2); });
    int t3 = mc::spawn("timer", [&]() { pool.NextSlot(); if (!reader) pool.NextSlot(); });
    int t4 = mc::spawn("reader", [&]() { if (reader) { builtin::ServiceStat s; b->LatestStats(60, &s); sane(s); } });
    mc::join(t1); mc::join(t2); mc::join(t3); mc::join(t4);
    pool.NextSlot(); builtin::ServiceStat s; b->LatestStats(60, &s); sane(s); int ok = same ? 4 : 2;
    MC_CHECK(s.method_stats(0).succeed_count() == ok && s.method_stats(0).failed_count() == 4 - ok && s.method_stats(1).succeed_count() == 0, "lost", "%ld succeeded and %ld failed calls reported, %d and %d made", (long)s.method_stats(0).succeed_count(), (long)s.method_stats(0).failed_count(), ok, 4 - ok);
    mc::obs("%d%d%d", same, reader, where);
}
// a real server: calls that succeed, fail, take time, are never answered or cannot be executed; then what the builtin services say
namespace vh {
struct StatServer {
    Server s; Client c; uint64_t seq;
    StatServer() : seq(100) { RpcServerOptions o = server_options(2); o.disable_builtin_services = false; s.make(o); MC_CHECK(s.start(), "start_failed", "server did not start"); MC_CHECK(c.open(), "harness", "dial failed"); }
    template <class Q, class R> bool ask(const char* method, const Q& q, R* r, std::string* err = NULL) {
        Meta m; m.set_type(Meta::REQUEST); m.set_sequence_id(++seq); m.set_method(std::string("sofa.pbrpc.builtin.BuiltinService.") + method); m.set_expected_response_compress_type(CompressTypeNone);
        c.c.send_all(frame(m, q.SerializeAsString())); Meta a; std::string b; MC_CHECK(c.c.read_msg(&a, &b) == 1 && a.sequence_id() == seq, "builtin", "%s was not answered", method);
        if (a.failed()) { if (err) *err = a.reason(); return false; } MC_CHECK(r->ParseFromString(b), "builtin", "%s answered rubbish", method); return true;
    }
};
}
MC_SCENARIO(stat_server) { cfg.bound = 1; cfg.points_plain = 0; cfg.cap[mc::K_STALL] = 0; cfg.horizon_us = 200000000; }
MC_BODY(stat_server) {
    int mix = mc::pick(4, "mix of calls"), gap = mc::pick(2, "calls in different slots"), broken = mc::pick(2, "one connection breaks before the call ends");
    StatServer x; EchoImpl* impl = x.s.impl; std::set<uint64_t> exp; int ok = 0, bad = 0; const int D[2] = { 4000, 0 }; uint64_t sum[2] = { 0, 0 }, mx[2] = { 0, 0 };
    for (int i = 0; i < 4; ++i) {
        bool fail = mix == 1 ? i % 2 : mix == 2 ? true : false; int d = mix == 3 ? 3000 * (i + 1) : D[i % 2]; impl->fail_with_reason = fail; impl->delay_us = d; exp.clear(); exp.insert(i + 1);
        x.c.c.send_all(request(i + 1, i + 1, "x")); MC_CHECK(x.c.read_one(exp), "harness", "no reply"); (fail ? bad : ok)++; sum[fail] += d; mx[fail] = std::max<uint64_t>(mx[fail], d);
        if (gap) mc::sleep_us(1100000);
    }
    { Meta m; m.set_type(Meta::REQUEST); m.set_sequence_id(50); m.set_method("verif.EchoServer.Nothing"); exp.clear(); exp.insert(50); x.c.c.send_all(frame(m, "")); x.c.read_one(exp); } // never executed: not counted
    Conn c2 = dial(); MC_CHECK(c2.ok(), "harness", "dial"); c2.send_all(request(7, 77, "y", "verif.EchoServer.Slow")); MC_CHECK(mc::wait_until([&]() { return impl->pending.size() == 1; }, 1000000), "harness", "not executed");
    uint64_t t0 = mc::now_us(); (void)t0; if (broken) { c2.close(); MC_CHECK(mc::wait_until([&]() { return x.s.srv->ConnectionCount() == 1; }, 3000000), "connection_count", "%d connections, 1 expected", x.s.srv->ConnectionCount()); }
    { builtin::ServerStatusRequest q; builtin::ServerStatusResponse r; MC_CHECK(x.ask("ServerStatus", q, &r), "builtin", "status failed"); MC_CHECK(r.is_listening() && r.connection_count() == (broken ? 1 : 2) && r.service_count() == x.s.srv->ServiceCount() && r.pending_message_count() == 0, "status", "status: %s", r.ShortDebugString().c_str()); }
    mc::sleep_us(2500); impl->complete(0);
    mc::sleep_us(2200000);
    builtin::StatRequest q; q.set_service_name("verif.EchoServer"); q.set_period_seconds(60); builtin::StatResponse r; MC_CHECK(x.ask("Stat", q, &r) && r.service_stats_size() == 1, "builtin", "stat failed");
    const builtin::ServiceStat& st = r.service_stats(0); MC_CHECK(st.succeed_count() == ok + 1 && st.failed_count() == bad, "counts", "%ld succeeded and %ld failed calls reported, %d and %d made", (long)st.succeed_count(), (long)st.failed_count(), ok + 1, bad);
    for (int i = 0; i < st.method_stats_size(); ++i) {
        const builtin::MethodStat& m = st.method_stats(i); bool slow = m.method_name() == "verif.EchoServer.Slow", echo = m.method_name() == "verif.EchoServer.Echo"; int so = slow ? 1 : echo ? ok : 0, fo = echo ? bad : 0;
        MC_CHECK(m.succeed_count() == so && m.failed_count() == fo, "counts", "%s: %ld/%ld reported, %d/%d made", m.method_name().c_str(), (long)m.succeed_count(), (long)m.failed_count(), so, fo);
        if (echo) { uint64_t e = 1500; if (ok) { MC_CHECK(m.succeed_max_time_us() >= (int64_t)mx[0] && m.succeed_max_time_us() <= (int64_t)(mx[0] + e), "durations", "maximum %ld, expected %lu", (long)m.succeed_max_time_us(), mx[0]); MC_CHECK(m.succeed_avg_time_us() >= sum[0] / ok - 1. && m.succeed_avg_time_us() <= sum[0] / ok + e, "durations", "average %f, expected %lu", m.succeed_avg_time_us(), sum[0] / ok); }
            if (bad) { MC_CHECK(m.failed_max_time_us() >= (int64_t)mx[1] && m.failed_max_time_us() <= (int64_t)(mx[1] + e), "durations", "maximum %ld, expected %lu", (long)m.failed_max_time_us(), mx[1]); MC_CHECK(m.failed_avg_time_us() >= sum[1] / bad - 1. && m.failed_avg_time_us() <= sum[1] / bad + e, "durations", "average %f, expected %lu", m.failed_avg_time_us(), sum[1] / bad); } }
        if (slow) MC_CHECK(m.succeed_max_time_us() >= 2500, "durations", "a call that took at least 2500 us is reported with %ld", (long)m.succeed_max_time_us());
    }
    MC_CHECK(st.method_stats_size() == verif::EchoServer::descriptor()->method_count(), "counts", "%d methods reported", st.method_stats_size());
    q.set_service_name("verif.None"); std::string err; MC_CHECK(!x.ask("Stat", q, &r, &err), "builtin", "statistics of an unknown service");
    q.set_service_name("all"); r.Clear(); MC_CHECK(x.ask("Stat", q, &r) && r.service_stats_size() == x.s.srv->ServiceCount(), "builtin", "%d services reported, %d registered", r.service_stats_size(), x.s.srv->ServiceCount());
    { builtin::HealthRequest hq; builtin::HealthResponse hr; MC_CHECK(x.ask("Health", hq, &hr) && hr.health() == "OK", "health", "a listening server reports %s", hr.health().c_str()); }
    { builtin::ListServiceRequest lq; builtin::ListServiceResponse lr; MC_CHECK(x.ask("ListService", lq, &lr) && lr.services_size() == x.s.srv->ServiceCount(), "list", "%d services listed", lr.services_size()); bool has = false; for (int i = 0; i < lr.services_size(); ++i) has |= lr.services(i) == "verif.EchoServer"; MC_CHECK(has, "list", "service not listed"); }
    c2.close(); x.c.c.close(); x.s.srv->Stop();
    mc::obs("%d %d %d", mix, gap, broken);
}
