// Service registry and statistics (C18): every sequence of operations up to the depth, against reference maps and accumulators.
#include "seq.h"
#include <sofa/pbrpc/rpc_server_impl.h>
#include <sofa/pbrpc/service_pool.h>
#include <sofa/pbrpc/builtin_service_impl.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <limits.h>
#include <list>
using namespace seq;
using namespace sofa::pbrpc;
namespace gp = google::protobuf;
namespace {
// own copy of the hash behind the lookup cache, to find names that share a slot; no verdict depends on its being the same
int slot_of(const std::string& s) {
    const uint64_t m = 0xc6a4a7935bd1e995ull; const int r = 47; uint64_t h = 0x5bd1e995; const char* p = s.data(); size_t n = s.size();
    for (; n >= 8; n -= 8, p += 8) { uint64_t k; memcpy(&k, p, 8); k *= m; k ^= k >> r; k *= m; h ^= k; h *= m; }
    if (n) { uint64_t k = 0; memcpy(&k, p, n); h ^= k; h *= m; }
    h ^= h >> r; h *= m; h ^= h >> r; return (int)(h % 1019);
}
struct Fake : public gp::Service {
    const gp::ServiceDescriptor* d; int* deleted; Fake(const gp::ServiceDescriptor* dd, int* c) : d(dd), deleted(c) {} virtual ~Fake() { ++*deleted; }
    const gp::ServiceDescriptor* GetDescriptor() { return d; }
    void CallMethod(const gp::MethodDescriptor*, gp::RpcController*, const gp::Message*, gp::Message*, gp::Closure*) {}
    const gp::Message& GetRequestPrototype(const gp::MethodDescriptor*) const { return builtin::HealthRequest::default_instance(); }
    const gp::Message& GetResponsePrototype(const gp::MethodDescriptor*) const { return builtin::HealthResponse::default_instance(); }
};
gp::DescriptorPool* dpool() { static gp::DescriptorPool* p = NULL; if (!p) { p = new gp::DescriptorPool; gp::FileDescriptorProto f; f.set_name("base.proto"); f.set_package("vb"); f.add_message_type()->set_name("Q"); p->BuildFile(f); } return p; }
// a service of that full name (package up to the last dot) with the given methods
const gp::ServiceDescriptor* descriptor(const std::string& full, int nmethods = 2) {
    static std::map<std::string, const gp::ServiceDescriptor*> made; std::string key = full + "#" + (char)('0' + nmethods); if (made.count(key)) return made[key];
    gp::FileDescriptorProto f; size_t dot = full.rfind('.'); f.set_name(full + ".proto"); if (dot != std::string::npos) f.set_package(full.substr(0, dot)); f.add_dependency("base.proto");
    gp::ServiceDescriptorProto* s = f.add_service(); s->set_name(dot == std::string::npos ? full : full.substr(dot + 1));
    for (int i = 0; i < nmethods; ++i) { gp::MethodDescriptorProto* m = s->add_method(); char b[8]; snprintf(b, sizeof b, "M%d", i); m->set_name(b); m->set_input_type(".vb.Q"); m->set_output_type(".vb.Q"); }
    const gp::FileDescriptor* fd = dpool()->BuildFile(f); if (!fd) { fprintf(stderr, "cannot build %s\n", full.c_str()); abort(); }
    return made[key] = fd->service(0);
}
// names[0] and names[1] share a cache slot with each other, names[3] with them too; names[2] has its own; the others are near misses that stay unregistered at times
const std::vector<std::string>& names() {
    static std::vector<std::string> v; if (!v.empty()) return v;
    v.push_back("v.Alpha"); std::vector<std::string> same; for (int i = 0; same.size() < 2; ++i) { char b[32]; snprintf(b, sizeof b, same.empty() ? "v.S%d" : "v.Alpha%d", i); if (slot_of(b) == slot_of(v[0])) same.push_back(b); }
    v.push_back(same[0]); v.push_back("v.Alph"); v.push_back(same[1]); return v;
}
RpcServerOptions server_opt() { RpcServerOptions o; o.disable_builtin_services = true; o.disable_list_service = true; return o; }
RpcServer* server() { static RpcServer* s = NULL; if (!s) s = new RpcServer(server_opt()); return s; }
int deleted[8];
struct Done : public gp::Closure { int n; Done() : n(0) {} void Run() { ++n; } };
void check_registry(ServicePool& pool, const std::map<std::string, Fake*>& ref) {
    const std::vector<std::string>& v = names(); std::vector<std::string> all(v); all.push_back("v.Unknown"); all.push_back(""); all.push_back("v."); all.push_back("v.Alpha.M0"); all.push_back("Alpha"); all.push_back(std::string("v.Alpha\0", 8));
    for (size_t i = 0; i < all.size(); ++i) {
        ServiceBoard* b = pool.FindService(all[i]); std::map<std::string, Fake*>::const_iterator it = ref.find(all[i]);
        SEQ_CHECK((b != NULL) == (it != ref.end()), "find", "service %s is %s, but was %s", show(all[i]).c_str(), b ? "found" : "not found", it != ref.end() ? "registered" : "not registered");
        if (b) {
            SEQ_CHECK(b->Service() == it->second && b->ServiceName() == all[i] && b->Descriptor() == it->second->d, "find", "looking for %s finds service %s", show(all[i]).c_str(), b->ServiceName().c_str());
            for (int m = 0; m < it->second->d->method_count(); ++m) SEQ_CHECK(b->Method(m)->Descriptor() == it->second->d->method(m) && b->Method(m)->GetServiceBoard() == b, "find", "method %d of %s is wrong", m, all[i].c_str());
        }
    }
    SEQ_CHECK(pool.ServiceCount() == (int)ref.size(), "count", "service count %d with %zu registered", pool.ServiceCount(), ref.size());
    std::list<ServiceBoard*> l; l.push_back(NULL); pool.ListService(&l); SEQ_CHECK(l.size() == ref.size(), "list", "%zu services listed, %zu registered", l.size(), ref.size());
    std::list<gp::Service*> ls; ls.push_back(NULL); pool.ListService(&ls); SEQ_CHECK(ls.size() == ref.size(), "list", "%zu services listed, %zu registered", ls.size(), ref.size());
    std::list<ServiceBoard*>::iterator a = l.begin(); std::list<gp::Service*>::iterator b = ls.begin();
    for (std::map<std::string, Fake*>::const_iterator it = ref.begin(); it != ref.end(); ++it, ++a, ++b) SEQ_CHECK((*a)->Service() == it->second && *b == it->second, "list", "services are not listed in order of their names");
    builtin::ListServiceResponse r; r.add_services("junk"); pool.ListService(&r); SEQ_CHECK(r.services_size() == (int)ref.size(), "list", "%d names listed, %zu registered", r.services_size(), ref.size());
    int i = 0; std::set<std::string> files; for (std::map<std::string, Fake*>::const_iterator it = ref.begin(); it != ref.end(); ++it) { SEQ_CHECK(r.services(i++) == it->first, "list", "wrong name listed"); files.insert(it->second->d->file()->name()); }
    std::set<std::string> seen; for (int k = 0; k < r.files_size(); ++k) { const gp::FileDescriptorProto& f = r.files(k); SEQ_CHECK(seen.insert(f.name()).second, "list_files", "file %s listed twice", f.name().c_str()); for (int d = 0; d < f.dependency_size(); ++d) SEQ_CHECK(seen.count(f.dependency(d)), "list_files", "file %s listed before its dependency %s", f.name().c_str(), f.dependency(d).c_str()); gp::FileDescriptorProto w; const gp::FileDescriptor* fd = dpool()->FindFileByName(f.name()); SEQ_CHECK(fd, "list_files", "unknown file %s", f.name().c_str()); fd->CopyTo(&w); SEQ_CHECK(w.SerializeAsString() == f.SerializeAsString(), "list_files", "content of %s is wrong", f.name().c_str()); }
    if (!ref.empty()) files.insert("base.proto"); SEQ_CHECK(files == seen, "list_files", "%zu files listed, %zu expected", seen.size(), files.size());
}
}
SEQ_CASE(registry) {
    const std::vector<std::string>& v = names(); int depth = thorough ? 5 : 4; memset(deleted, 0, sizeof deleted); int n = 0; Fake* by_index[8]; std::vector<Fake*> mine; std::vector<int> accepted_owned;
    { ServicePool pool(server()->impl().get()); std::map<std::string, Fake*> ref; check_registry(pool, ref);
      for (int k = 0; k < depth; ++k) {
        int op = pick(10, "stop / register one of 4 names, owned or not / register the same object again"); if (!op) break; op--;
        if (op == 8) { if (mine.empty()) throw Skip(); SEQ_CHECK(!pool.RegisterService(mine[0], coin("own")), "register", "a service object was registered twice"); check_registry(pool, ref); continue; }
        const std::string& name = v[op % 4]; bool own = op >= 4; Fake* f = new Fake(descriptor(name), &deleted[n]); by_index[n] = f; bool r = pool.RegisterService(f, own);
        SEQ_CHECK(r == !ref.count(name), "register", "registering %s gave %d, name was %s before", name.c_str(), r, ref.count(name) ? "taken" : "free");
        if (r) ref[name] = f; if (r && own) { accepted_owned.push_back(n); mine.insert(mine.begin(), f); } else mine.push_back(f);
        SEQ_CHECK(deleted[n] == 0, "ownership", "service deleted at registration"); ++n;
        check_registry(pool, ref);
      }
    }
    for (int i = 0; i < n; ++i) { bool own = false; for (size_t k = 0; k < accepted_owned.size(); ++k) own |= accepted_owned[k] == i; SEQ_CHECK(deleted[i] == (own ? 1 : 0), "ownership", "service %d (%s) deleted %d times", i, own ? "owned by the registry" : "owned by the user", deleted[i]); obs("%d%d", i, own); }
    for (int i = 0; i < n; ++i) if (!deleted[i]) delete by_index[i];
}
SEQ_CASE(registry_many) { // more services than cache slots
    static const int N[] = { 1100, 1019, 300, 1 }; int n = of(N, "services"), order = pick(2, "order"), del = 0; std::vector<Fake*> f(n); ServicePool* pool = new ServicePool(server()->impl().get()); std::map<std::string, Fake*> ref; char b[32];
    for (int i = 0; i < n; ++i) { snprintf(b, sizeof b, "many.S%d", order ? n - 1 - i : i); f[i] = new Fake(descriptor(b, 1), &del); SEQ_CHECK(pool->FindService(b) == NULL, "find", "%s found before it was registered", b); SEQ_CHECK(pool->RegisterService(f[i]), "register", "%s refused", b); ref[b] = f[i]; ServiceBoard* s = pool->FindService(b); SEQ_CHECK(s && s->Service() == f[i], "find", "%s not found right after it was registered", b); }
    for (int r = 0; r < 2; ++r) for (std::map<std::string, Fake*>::iterator it = ref.begin(); it != ref.end(); ++it) { ServiceBoard* s = pool->FindService(it->first); SEQ_CHECK(s && s->Service() == it->second && s->ServiceName() == it->first, "find", "%s not found", it->first.c_str()); op(); }
    for (int i = n; i < n + 300; ++i) { snprintf(b, sizeof b, "many.S%d", i); SEQ_CHECK(pool->FindService(b) == NULL, "find", "%s found, but never registered", b); }
    SEQ_CHECK(pool->ServiceCount() == n, "count", "wrong service count"); std::list<ServiceBoard*> l; pool->ListService(&l); SEQ_CHECK((int)l.size() == n, "list", "wrong number of services listed"); std::map<std::string, Fake*>::iterator it = ref.begin(); for (std::list<ServiceBoard*>::iterator a = l.begin(); a != l.end(); ++a, ++it) SEQ_CHECK((*a)->Service() == it->second, "list", "services are not listed in order of their names");
    Fake twice(descriptor("many.S0", 1), &del); SEQ_CHECK(!pool->RegisterService(&twice, false), "register", "a name was registered twice");
    delete pool; SEQ_CHECK(del == n, "ownership", "%d of %d services deleted with the registry", del, n);
}
namespace {
// reference: per method, one accumulator per slot
struct Acc { int64 n[2], sum[2], max[2]; Acc() { memset(this, 0, sizeof *this); } void add(bool ok, int64 t) { n[ok]++; sum[ok] += t; max[ok] = std::max(max[ok], t); } void add(const Acc& o) { for (int i = 0; i < 2; ++i) { n[i] += o.n[i]; sum[i] += o.sum[i]; max[i] = std::max(max[i], o.max[i]); } } };
struct Ref {
    enum { M = 2 }; std::vector<Acc> slots[M]; Ref() { for (int m = 0; m < M; ++m) slots[m].push_back(Acc()); }
    void next() { for (int m = 0; m < M; ++m) slots[m].push_back(Acc()); }
    Acc last(int m, int k) const { Acc a; int n = (int)slots[m].size() - 1; for (int i = n - 1; i >= 0 && i >= n - k; --i) a.add(slots[m][i]); return a; }
};
void check_stat(const char* what, const builtin::MethodStat& s, const Acc& a) {
    float av[2]; for (int i = 0; i < 2; ++i) av[i] = a.n[i] ? (float)a.sum[i] / a.n[i] : 0;
    SEQ_CHECK(s.succeed_count() == a.n[1] && s.failed_count() == a.n[0], "counts", "%s: %ld succeeded and %ld failed reported, %ld and %ld expected", what, (long)s.succeed_count(), (long)s.failed_count(), (long)a.n[1], (long)a.n[0]);
    SEQ_CHECK(s.succeed_max_time_us() == a.max[1] && s.failed_max_time_us() == a.max[0], "max", "%s: maximum %ld / %ld reported, %ld / %ld expected", what, (long)s.succeed_max_time_us(), (long)s.failed_max_time_us(), (long)a.max[1], (long)a.max[0]);
    for (int i = 0; i < 2; ++i) { float g = i ? s.succeed_avg_time_us() : s.failed_avg_time_us(), d = g - av[i]; if (d < 0) d = -d; SEQ_CHECK(d <= av[i] * 1e-5f, "average", "%s: average %f reported, %f expected", what, g, av[i]); }
}
void check_board(ServiceBoard& b, const Ref& ref, const Fake& f) {
    static const int64 periods[] = { 60, 1, 2, 0, -1, 599, 600, 601, 602, 100000, INT_MIN, (int64)INT_MAX + 1, INT64_MAX, INT64_MIN };
    for (size_t p = 0; p < sizeof periods / sizeof *periods; ++p) {
        int64 eff = std::min<int64>(std::max<int64>(periods[p], 1), 600); builtin::ServiceStat s; s.set_service_name("junk"); s.add_method_stats(); b.LatestStats(periods[p], &s); op();
        SEQ_CHECK(s.service_name() == f.d->full_name() && s.method_stats_size() == Ref::M, "shape", "statistics of the wrong service"); SEQ_CHECK(s.period_seconds() == eff, "period", "period %ld answered with %ld", (long)periods[p], (long)s.period_seconds());
        int64 ok = 0, bad = 0; for (int m = 0; m < Ref::M; ++m) { char w[64]; snprintf(w, sizeof w, "period %ld method %d", (long)periods[p], m); SEQ_CHECK(s.method_stats(m).method_name() == f.d->method(m)->full_name(), "shape", "statistics of the wrong method"); Acc a = ref.last(m, (int)eff); check_stat(w, s.method_stats(m), a); ok += a.n[1]; bad += a.n[0]; }
        SEQ_CHECK(s.succeed_count() == ok && s.failed_count() == bad, "sum", "service totals %ld / %ld, methods add up to %ld / %ld", (long)s.succeed_count(), (long)s.failed_count(), (long)ok, (long)bad);
    }
}
}
SEQ_CASE(stats) {
    int del = 0; Fake f(descriptor("st.Svc"), &del); ServicePool pool(server()->impl().get()); SEQ_CHECK(pool.RegisterService(&f, false), "register", "refused"); ServiceBoard& b = *pool.FindService("st.Svc"); Ref ref;
    // where in the ring the history starts
    static const int ST[] = { 0, 1, 598, 600, 601, 602, 1204 + 300 }; int start = of(ST, "slots before"); for (int i = 0; i < start; ++i) { if (i % 7 == 3) { b.ReportProcessEnd(0, true, 1000000 + i); ref.slots[0].back().add(true, 1000000 + i); } pool.NextSlot(); ref.next(); }
    int depth = thorough ? 6 : 5; static const int64 T[] = { 7, 0, 5000000000ll };
    for (int k = 0; k < depth; ++k) {
        int o = pick(9, "stop / end of a call of method 0 or 1, ok or failed, short or long / next slot / 600 slots / 2 slots"); if (!o) break;
        if (o <= 5) { int m = o == 2 || o == 5; bool ok = o <= 3; int64 t = T[o == 1 ? 0 : o == 2 ? 2 : o == 3 ? 1 : o == 4 ? 0 : 2]; b.ReportProcessBegin(m); b.ReportProcessEnd(m, ok, t); ref.slots[m].back().add(ok, t); }
        else { int n = o == 6 ? 1 : o == 7 ? 599 : 2; for (int i = 0; i < n; ++i) { pool.NextSlot(); ref.next(); } }
    }
    check_board(b, ref, f); Acc a = ref.last(0, 600); obs("%ld/%ld/%ld", (long)a.n[0], (long)a.n[1], (long)a.max[1]);
}
namespace {
struct OwnPool { RpcServer srv; ServicePoolPtr pool; builtin::BuiltinServiceImpl* impl; Fake* f[2]; int del; OwnPool(bool nolist = false) : srv(server_opt()), pool(new ServicePool(srv.impl().get())), del(0) { impl = new builtin::BuiltinServiceImpl(srv.impl(), pool, nolist); f[0] = new Fake(descriptor("bt.A"), &del); f[1] = new Fake(descriptor("bt.B"), &del); } ~OwnPool() { delete impl; pool.reset(); delete f[0]; delete f[1]; } };
}
SEQ_CASE(builtin_list_stat) {
    OwnPool p; int depth = 4; bool reg[2] = { false, false }; Ref ref[2];
    for (int k = 0; k < depth; ++k) {
        int o = pick(8, "stop / register A / register B / call of A / call of B / next slot / list / stat"); if (!o) break;
        if (o <= 2) { bool r = p.pool->RegisterService(p.f[o - 1], false); SEQ_CHECK(r == !reg[o - 1], "register", "wrong result"); if (r) { reg[o - 1] = true; ref[o - 1] = Ref(); } }
        else if (o <= 4) { if (!reg[o - 3]) throw Skip(); p.pool->FindService(o == 3 ? "bt.A" : "bt.B")->ReportProcessEnd(o - 3, o == 3, 11 * k + 3); ref[o - 3].slots[o - 3].back().add(o == 3, 11 * k + 3); }
        else if (o == 5) { p.pool->NextSlot(); for (int i = 0; i < 2; ++i) ref[i].next(); }
        else if (o == 6) { RpcController c; builtin::ListServiceRequest q; builtin::ListServiceResponse r; Done d; p.impl->ListService(&c, &q, &r, &d); SEQ_CHECK(d.n == 1 && !c.Failed(), "list", "listing failed"); SEQ_CHECK(r.services_size() == reg[0] + reg[1], "list", "%d services listed, %d registered", r.services_size(), reg[0] + reg[1]); int i = 0; if (reg[0]) SEQ_CHECK(r.services(i++) == "bt.A", "list", "bt.A missing"); if (reg[1]) SEQ_CHECK(r.services(i++) == "bt.B", "list", "bt.B missing"); SEQ_CHECK(r.files_size() == (i ? i + 1 : 0), "list_files", "%d files listed for %d services", r.files_size(), i); }
        else {
            static const char* who[] = { NULL, "all", "bt.A", "bt.B", "bt.C", "" }; int w = pick(6, "whose statistics"); static const int PE[] = { 60, 1, 0, -5 }; int per = of(PE, "period"); RpcController c; builtin::StatRequest q; builtin::StatResponse r; Done d; if (who[w]) q.set_service_name(who[w]); if (per) q.set_period_seconds(per); p.impl->Stat(&c, &q, &r, &d); int eff = per == 0 ? 60 : per < 1 ? 1 : per;
            SEQ_CHECK(d.n == 1, "done", "completion ran %d times", d.n); std::vector<int> want; for (int i = 0; i < 2; ++i) if (reg[i] && (w <= 1 || w == 2 + i)) want.push_back(i);
            bool unknown = w > 1 && want.empty(); SEQ_CHECK(c.Failed() == unknown, "stat", "statistics of %s: failed=%d", who[w] ? who[w] : "(default)", c.Failed()); if (unknown) continue;
            SEQ_CHECK(r.service_stats_size() == (int)want.size() && r.has_server_start_time(), "stat", "%d statistics, %zu expected", r.service_stats_size(), want.size());
            for (size_t i = 0; i < want.size(); ++i) { const builtin::ServiceStat& s = r.service_stats(i); SEQ_CHECK(s.service_name() == p.f[want[i]]->d->full_name() && s.period_seconds() == eff, "stat", "wrong service or period"); for (int m = 0; m < 2; ++m) check_stat("stat service", s.method_stats(m), ref[want[i]].last(m, eff)); }
        }
    }
    obs("%d%d", reg[0], reg[1]);
}
SEQ_CASE(builtin_options) {
    OwnPool p; bool nolist = coin("listing disabled"), gone_pool = coin("registry gone"), gone_server = coin("server gone"); builtin::BuiltinServiceImpl* svc;
    RpcServer* own = NULL; ServicePoolPtr pool; builtin::BuiltinServiceImpl* s2 = NULL;
    RpcServerOptions o = server_opt(); o.work_thread_num = 3; o.max_connection_count = 11; o.keep_alive_time = 12; o.max_pending_buffer_size = 13; o.max_throughput_in = 14; o.max_throughput_out = 15; own = new RpcServer(o); pool.reset(new ServicePool(own->impl().get())); s2 = new builtin::BuiltinServiceImpl(own->impl(), pool, nolist); svc = s2; pool->RegisterService(p.f[0], false);
    if (gone_pool) pool.reset(); if (gone_server) { delete own; own = NULL; }
    int what = pick(6, "which method");
    RpcController c; Done d;
    if (what == 0) { builtin::HealthRequest q; builtin::HealthResponse r; svc->Health(&c, &q, &r, &d); SEQ_CHECK(!c.Failed() && r.health() == "NotOK" && r.version().size(), "health", "a server that does not listen reports %s", r.health().c_str()); SEQ_CHECK(r.has_start_time() == !gone_server, "health", "start time"); }
    else if (what == 1) { builtin::ServerOptionsRequest q; builtin::ServerOptionsResponse r; svc->ServerOptions(&c, &q, &r, &d); SEQ_CHECK(c.Failed() == gone_server, "options", "failed=%d", c.Failed()); if (!c.Failed()) { const builtin::ServerOptions& x = r.options(); SEQ_CHECK(x.work_thread_num() == 3 && x.max_connection_count() == 11 && x.keep_alive_time() == 12 && x.max_pending_buffer_size() == 13 && x.max_throughput_in() == 14 && x.max_throughput_out() == 15 && x.disable_builtin_services() && x.disable_list_service(), "options", "options are wrong: %s", x.ShortDebugString().c_str()); } }
    else if (what == 2) { builtin::ServerStatusRequest q; builtin::ServerStatusResponse r; svc->ServerStatus(&c, &q, &r, &d); SEQ_CHECK(c.Failed() == gone_server, "status", "failed=%d", c.Failed()); if (!c.Failed()) SEQ_CHECK(!r.is_listening() && r.connection_count() == 0 && r.service_count() == own->ServiceCount() && r.pending_message_count() == 0 && r.pending_buffer_size() == 0 && r.pending_data_size() == 0, "status", "status is wrong: %s", r.ShortDebugString().c_str()); }
    else if (what == 3) { builtin::ListServiceRequest q; builtin::ListServiceResponse r; svc->ListService(&c, &q, &r, &d); SEQ_CHECK(c.Failed() == (nolist || gone_pool), "list", "failed=%d, listing disabled %d, registry gone %d", c.Failed(), nolist, gone_pool); if (!c.Failed()) SEQ_CHECK(r.services_size() == 1 && r.services(0) == "bt.A", "list", "wrong list"); }
    else if (what == 4) { if (gone_server && !gone_pool) throw Skip(); builtin::StatRequest q; builtin::StatResponse r; svc->Stat(&c, &q, &r, &d); SEQ_CHECK(c.Failed() == gone_pool, "stat", "failed=%d, registry gone %d", c.Failed(), gone_pool); }
    else {
        builtin::UpdateOptionsRequest q; builtin::UpdateOptionsResponse r; int have = pick(2, "options set") ? pick(32, "which options") : -1; int thr = have >= 0 ? pick(2, "fixed options too") : 0; builtin::ServerOptions* x = have >= 0 ? q.mutable_options() : NULL;
        if (have >= 0) { if (have & 1) x->set_max_connection_count(21); if (have & 2) x->set_keep_alive_time(22); if (have & 4) x->set_max_pending_buffer_size(23); if (have & 8) x->set_max_throughput_in(24); if (have & 16) x->set_max_throughput_out(25); if (thr) { x->set_work_thread_num(9); x->set_disable_builtin_services(false); x->set_disable_list_service(false); } }
        svc->UpdateOptions(&c, &q, &r, &d); bool bad = have <= 0 || gone_server; SEQ_CHECK(c.Failed() == bad, "update", "updating the options: failed=%d, expected %d", c.Failed(), bad);
        if (own) { RpcServerOptions g = own->GetOptions(); int h = bad ? 0 : have; SEQ_CHECK(g.work_thread_num == 3 && g.disable_builtin_services && g.disable_list_service, "update", "an option that cannot change has changed"); SEQ_CHECK(g.max_connection_count == (h & 1 ? 21 : 11) && g.keep_alive_time == (h & 2 ? 22 : 12) && g.max_pending_buffer_size == (h & 4 ? 23 : 13) && g.max_throughput_in == (h & 8 ? 24 : 14) && g.max_throughput_out == (h & 16 ? 25 : 15), "update", "options %x asked to change, got %d %d %d %d %d", h, (int)g.max_connection_count, (int)g.keep_alive_time, (int)g.max_pending_buffer_size, (int)g.max_throughput_in, (int)g.max_throughput_out);
          if (!bad) { const builtin::ServerOptions& y = r.options(); SEQ_CHECK(y.work_thread_num() == 3 && y.max_connection_count() == g.max_connection_count && y.keep_alive_time() == g.keep_alive_time && y.max_pending_buffer_size() == g.max_pending_buffer_size && y.max_throughput_in() == g.max_throughput_in && y.max_throughput_out() == g.max_throughput_out, "update", "the answer does not show the new options: %s", y.ShortDebugString().c_str()); } }
    }
    SEQ_CHECK(d.n == 1, "done", "completion ran %d times", d.n); obs("%d%d", what, c.Failed());
    delete s2; pool.reset(); delete own;
}
SEQ_MAIN
