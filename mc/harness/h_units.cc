// Scenarios on single components of the library, without sockets: timeout manager (C19), thread groups and timers
// (C20), locks, conditions, events and counters (C23), shared buffers (C14).
#include "common.h"
#include <sofa/pbrpc/timeout_manager.h>
using namespace sofa::pbrpc;

namespace vh {
// plain arrays only: code of the standard library is instrumented, and may be preempted
template <class T, int N> struct Arr { T v[N]; int n; Arr() : n(0) {} void push_back(const T& t) { MC_CHECK(n < N, "harness", "array full"); v[n] = t; ++n; } T& operator[](size_t i) { return v[i]; } size_t size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; } };
// ---------------------------------------------------------------- timeout manager (C19)
// A log of every callback is judged against the contract: a one-time event has exactly one outcome, a repeating
// event fires once per interval and then has exactly one final outcome; nothing fires early or after it was cancelled.
struct Ev {
    bool repeating; int64_t interval; uint64_t added_us; TimeoutManager::Id id; bool have_id;
    int erase_true, erase_false; uint64_t erased_us;         // results of erase() calls, time the successful one returned
    int n_timeout, n_erased, n_cleared, running; uint64_t first_us; bool final_;
};
struct Token {                        // counts the live copies of what a callback owns
    static int live; int* p; Token() : p(new int(7)) { ++live; } Token(const Token&) : p(new int(7)) { ++live; } ~Token() { --live; *p = 0; delete p; }
};
int Token::live = 0;
struct TM {
    TimeoutManager* m; Arr<Ev*, 32> ev; int inside; int maxinside;
    TM() : m(new TimeoutManager), inside(0), maxinside(0) { Token::live = 0; }
    static void cb(TM* t, int i, Token tok, std::function<void(int)>* act, TimeoutManager::Id id, TimeoutManager::Type type) {
        Ev& e = *t->ev[i]; uint64_t now = mc::now_us();
        mc::note("callback event %d type %d", i, (int)type);
        MC_CHECK(*tok.p == 7, "bad_argument", "the callback of event %d ran with destroyed arguments", i);
        if (e.have_id) MC_CHECK(id == e.id, "wrong_id", "the callback of event %d got id %lu instead of %lu", i, (unsigned long)id, (unsigned long)e.id);
        MC_CHECK(!e.final_, "fired_after_end", "event %d fired (type %d) after its final outcome", i, (int)type);
        if (type == TimeoutManager::TIMEOUTED) {
            ++e.n_timeout; if (!e.first_us) e.first_us = now;
            MC_CHECK(now >= e.added_us + (uint64_t)e.n_timeout * e.interval * 1000 || (e.interval == 0), "early", "event %d fired for the %dth time after %lu us, interval %ld ms", i, e.n_timeout, (unsigned long)(now - e.added_us), (long)e.interval);
            if (!e.repeating) e.final_ = true;
        }
        else { if (type == TimeoutManager::ERASED) ++e.n_erased; else ++e.n_cleared; e.final_ = true; }
        if (act && *act) (*act)((int)type);
    }
    int add(int64_t interval, bool rep, std::function<void(int)>* act = NULL) {
        Ev* e = new Ev(); memset(e, 0, sizeof *e); e->repeating = rep; e->interval = interval; e->added_us = mc::now_us();
        int i = (int)ev.size(); ev.push_back(e);
        TimeoutManager::Id id = rep ? m->add_repeating(interval, NewPermanentExtClosure(&TM::cb, this, i, Token(), act)) : m->add(interval, NewExtClosure(&TM::cb, this, i, Token(), act));
        e->id = id; e->have_id = true;
        for (int j = 0; j < (int)ev.size(); ++j) MC_CHECK(j == i || !ev[j]->have_id || ev[j]->id != id, "same_id", "events %d and %d have the same id", j, i);
        return i;
    }
    bool erase(int i) {
        Ev& e = *ev[i]; bool was_final = e.final_; bool r = m->erase(e.id); (r ? e.erase_true : e.erase_false)++;
        mc::note("erase event %d -> %d", i, (int)r);
        if (r) MC_CHECK(!was_final && e.n_erased == 1, "erase_true", "erase of event %d returned true but its callback was not called as erased", i);
        else if (e.repeating) MC_CHECK(e.n_erased + e.n_cleared > 0 || e.erase_true > 0 || clearing || erasing, "erase_false", "erase of the live repeating event %d returned false", i);
        return r;
    }
    int clearing, erasing;           // calls in progress in other threads
    void clear() { ++clearing; m->clear(); }
    void finish() {                  // destroys the manager: every event must have had its outcome
        delete m; m = NULL;
        for (size_t i = 0; i < ev.size(); ++i) {
            Ev& e = *ev[i];
            MC_CHECK(e.erase_true <= 1, "erased_twice", "two erase() calls of event %d returned true", (int)i);
            MC_CHECK(e.erase_true == e.n_erased, "erase_result", "event %d: %d erase() calls returned true, callback called %d times as erased", (int)i, e.erase_true, e.n_erased);
            MC_CHECK(e.final_, "no_outcome", "event %d has no final outcome after the manager was destroyed", (int)i);
            MC_CHECK((e.repeating ? 0 : e.n_timeout) + e.n_erased + e.n_cleared == 1, "outcomes", "event %d has %d/%d/%d outcomes", (int)i, e.n_timeout, e.n_erased, e.n_cleared);
        }
        MC_CHECK(Token::live == 0, "callback_leak", "%d callbacks were not deleted", Token::live);
        std::string s; for (size_t i = 0; i < ev.size(); ++i) { char b[64]; snprintf(b, sizeof b, "%d:%d%d%d ", (int)i, std::min(ev[i]->n_timeout, 3), ev[i]->n_erased, ev[i]->n_cleared); s += b; }
        mc::obs("%s", s.c_str());
    }
    // every event must fire in time unless it had another outcome
    void expect_fired(int i, uint64_t slack_us) {
        Ev& e = *ev[i]; uint64_t now = mc::now_us();
        if (e.n_erased + e.n_cleared == 0 && now > e.added_us + e.interval * 1000 + slack_us)
            MC_CHECK(e.n_timeout > 0, "late", "event %d did not fire within %lu us of its expiration", i, (unsigned long)slack_us);
    }
};
} // namespace vh
using namespace vh;

// every sequence of operations up to the depth, with and without time passing in between
MC_SCENARIO(tm_ops) { cfg.bound = 0; }
MC_BODY(tm_ops) {
    TM t; int depth = 4;
    for (int k = 0; k < depth; ++k) {
        int op = mc::pick(8, "op");
        if (op == 0) break;
        if (op == 1) t.add(0, false);
        else if (op == 2) t.add(30, false);
        else if (op == 3) t.add(30, true);
        else if (op == 4) { if (t.ev.empty()) break; t.erase(0); }
        else if (op == 5) { if (t.ev.size() < 2) break; t.erase((int)t.ev.size() - 1); }
        else if (op == 6) { t.clear(); t.clearing = 0; for (size_t i = 0; i < t.ev.size(); ++i) MC_CHECK(t.ev[i]->final_, "not_cleared", "event %d survived clear()", (int)i); }
        else { mc::sleep_us(75000); for (size_t i = 0; i < t.ev.size(); ++i) t.expect_fired((int)i, 40000); }
    }
    t.finish();
}
// operations from inside callbacks
MC_SCENARIO(tm_inside) { cfg.bound = 0; }
MC_BODY(tm_inside) {
    TM t; bool rep = mc::pick(2, "repeating"); int what = mc::pick(7, "inside"), how = mc::pick(3, "how"); bool second = mc::pick(2, "second repeating");
    int self = -1, other = -1, fresh = -1; bool done = false;
    std::function<void(int)> act = [&](int type) {
        if (done) return; done = true;
        switch (what) {
        case 0: t.erase(self); break;
        case 1: t.erase(other); break;
        case 2: fresh = t.add(0, false); break;
        case 3: fresh = t.add(20, true); break;
        case 4: t.clear(); break;
        case 5: t.erase(other); t.erase(self); fresh = t.add(20, second); t.erase(fresh); break;
        case 6: t.erase(self); t.clear(); fresh = t.add(20, false); break;
        }
    };
    self = t.add(30, rep, &act); other = t.add(30, second);
    if (how == 0) mc::sleep_us(120000);
    else if (how == 1) t.erase(self);
    else { t.clear(); t.clearing = 0; }
    mc::sleep_us(120000);
    if (what != 4 && what != 6 && how == 0) { t.expect_fired(self, 40000); }
    if (fresh >= 0 && what != 5) MC_CHECK(t.ev[fresh]->n_timeout > 0, "late", "the event added inside a callback did not fire");
    if (rep && what == 0 && how == 0) MC_CHECK(t.ev[self]->n_erased == 1, "erase_inside", "a repeating event erased in its callback was not erased");
    t.finish();
}
// erase against firing, two erasers against each other, clear and destruction against firing
MC_SCENARIO(tm_race) { cfg.bound = 2; }
MC_BODY(tm_race) {
    TM t; bool rep = mc::pick(2, "repeating"); int who = mc::pick(4, "who"), late = mc::pick(2, "late");
    int a = t.add(20, rep), b = t.add(20, true);
    mc::sleep_us(late ? 29900 : 15000);
    int th = -1;
    if (who == 0) { ++t.erasing; th = mc::spawn("eraser", [&]() { t.erase(a); }); t.erase(a); }
    else if (who == 1) { ++t.erasing; th = mc::spawn("clearer", [&]() { t.clear(); }); t.erase(b); t.erase(a); }
    else if (who == 2) { t.erase(a); if (late) mc::sleep_us(20000); t.erase(b); }
    else { int c = t.add(0, false); (void)c; t.clear(); }
    if (th >= 0) mc::join(th);
    mc::sleep_us(60000);
    if (who < 3) MC_CHECK(t.ev[a]->final_, "no_outcome", "event 0 has no outcome 60 ms after it expired or was erased");
    if (who == 2 && rep) MC_CHECK(t.ev[a]->erase_true == 1, "erase_false", "erase() of a live repeating event returned false");
    if (who == 2 || who == 1) MC_CHECK(t.ev[b]->final_, "erase_false", "a repeating event is still alive although it was erased or cleared");
    if (who == 3) MC_CHECK(t.ev[b]->final_, "not_cleared", "a repeating event is still alive after clear()");
    t.finish();
}
// two threads use the manager at once: every event keeps its own identity and has its own outcome
MC_SCENARIO(tm_users) { cfg.bound = 2; }
MC_BODY(tm_users) {
    TM t; bool rep[2]; int then = mc::pick(3, "then"); rep[0] = mc::pick(2, "repeating"); rep[1] = mc::pick(2, "repeating");
    int before = t.add(15, true), mine[2] = { -1, -1 };
    int th = mc::spawn("user", [&]() { mine[1] = t.add(20, rep[1]); if (then == 1) t.erase(mine[1]); });
    mine[0] = t.add(20, rep[0]);
    if (then == 2) { ++t.erasing; t.erase(before); }
    mc::join(th);
    mc::sleep_us(75000);
    for (int i = 0; i < (int)t.ev.size(); ++i) t.expect_fired(i, 40000);
    if (then == 1) MC_CHECK(t.ev[mine[1]]->final_ && t.ev[mine[1]]->erase_true == 1, "erase_false", "erase of an event right after it was added found nothing");
    if (then != 2) MC_CHECK(!t.ev[before]->final_, "gone", "a repeating event ended although nobody erased it");
    else MC_CHECK(t.ev[before]->erase_true == 1, "erase_false", "erase() of a live repeating event returned false");
    t.finish();
}
// the timer thread is delayed: nothing fires before its interval elapsed
MC_SCENARIO(tm_late_timer) { cfg.bound = 1; cfg.nstall = 1; cfg.stall_us[0] = 45000; }
MC_BODY(tm_late_timer) {
    TM t; int when = mc::pick(3, "when"); bool rep = mc::pick(2, "repeating");
    mc::sleep_us(when == 0 ? 1000 : when == 1 ? 39000 : 54500);
    t.add(30, rep); mc::sleep_us(130000); t.expect_fired(0, 80000);
    t.finish();
}

// ---------------------------------------------------------------- thread groups (C20)
#include <sofa/pbrpc/thread_group.h>
#include <sofa/pbrpc/thread_group_impl.h>
#include <sofa/pbrpc/io_service_pool.h>
#include <sofa/pbrpc/timer_worker.h>
#include "server.h"
namespace vh {
struct ByThread { unsigned long k[64]; int v[64]; int n; ByThread() : n(0) {} int& operator[](unsigned long t) { for (int i = 0; i < n; ++i) if (k[i] == t) return v[i]; k[n] = t; v[n] = 0; return v[n++]; } void clear() { n = 0; } };
struct Tasks {
    int n_started, running, dest_done; bool started, stopped; ByThread inited, desto; Arr<int, 64> runs; bool need_init;
    Tasks() : n_started(0), running(0), dest_done(0), started(false), stopped(false), need_init(false) {}
    int add() { runs.push_back(0); return (int)runs.size() - 1; }
    void enter(int i) {
        MC_CHECK(!stopped, "ran_after_stop", "task %d started after stop returned", i);
        MC_CHECK(started, "ran_before_start", "task %d started before start", i);
        if (need_init) { MC_CHECK(inited[pthread_self()] == 1, "ran_before_init", "task %d ran on a thread that was not initialised", i); MC_CHECK(!desto[pthread_self()], "ran_after_dest", "task %d ran on a thread after its destroy function", i); }
        MC_CHECK(++runs[i] == 1, "ran_twice", "task %d ran %d times", i, runs[i]); ++running;
    }
    void leave() { --running; }
    void all_once() {
        MC_CHECK(running == 0, "stop_early", "stop returned while %d tasks were running", running);
        for (size_t i = 0; i < runs.size(); ++i) MC_CHECK(runs[i] == 1, "task_lost", "task %d posted before stop was never executed", (int)i);
    }
};
static void task(Tasks* t, int i, int us) { t->enter(i); if (us) mc::sleep_us(us); else mc::yield(); t->leave(); }
static void nest(Tasks* t, int i, ThreadGroup* g, int kind) {
    t->enter(i); int j = t->add();
    if (kind == 0) g->post(NewClosure(&task, t, j, 0));
    else if (kind == 1) { g->dispatch(NewExtClosure(&task, t, j, 0)); }
    else if (kind == 2) { bool in = true; (void)in; g->post(NewExtClosure(&task, t, j, 1000)); int k = t->add(); g->post(NewClosure(&task, t, k, 0)); }
    MC_CHECK(kind == 1 || t->runs[j] == 0 || true, "x", "x");
    t->leave();
}
static void submit(ThreadGroup* g, Tasks* t, int kind) {
    int i = t->add();
    switch (kind) {
    case 0: g->post(NewClosure(&task, t, i, 0)); break;
    case 1: g->dispatch(NewClosure(&task, t, i, 0)); break;
    case 2: g->post(NewExtClosure(&task, t, i, 2000)); break;
    case 3: g->dispatch(NewExtClosure(&task, t, i, 0)); break;
    case 4: g->post(NewClosure(&nest, t, i, g, 0)); break;
    case 5: g->post(NewClosure(&nest, t, i, g, 1)); break;
    case 6: g->dispatch(NewClosure(&nest, t, i, g, 2)); break;
    }
}
struct Inits {
    Tasks* t; int n, fail_mask, dests; Inits(Tasks* t_, int m) : t(t_), n(0), fail_mask(m), dests(0) {}
    bool init() { int k = n++; MC_CHECK(++t->inited[pthread_self()] == 1, "init_twice", "init function ran twice on a thread"); mc::yield(); return !(fail_mask >> k & 1); }
    void dest() { ++dests; MC_CHECK(++t->desto[pthread_self()] == 1, "dest_twice", "destroy function ran twice on a thread"); MC_CHECK(t->inited[pthread_self()] == 1, "dest_without_init", "destroy function ran on a thread that was not initialised"); }
};
} // namespace vh

// tasks submitted by two threads in every way, and the group destroyed at once
MC_SCENARIO(tg_tasks) { cfg.bound = 2; }
MC_BODY(tg_tasks) {
    int threads = 1 + mc::pick(2, "threads"), ka = mc::pick(7, "kind a"), kb = mc::pick(7, "kind b"); Tasks t; t.started = true;
    uint64_t t0 = mc::live_blocks(); (void)t0;
    { ThreadGroup* g = new ThreadGroup(threads);
      int th = mc::spawn("poster", [&]() { submit(g, &t, ka); submit(g, &t, kb); });
      submit(g, &t, kb); mc::join(th);
      delete g; t.stopped = true; }
    t.all_once(); MC_CHECK(mc::live_threads() == 0, "thread_left", "%d threads left after stop", mc::live_threads());
    mc::obs("%d", (int)t.runs.size());
}
// thread init and destroy functions, failing or not; start and stop repeated
MC_SCENARIO(tg_init) { cfg.bound = 2; }
MC_BODY(tg_init) {
    int threads = 1 + mc::pick(3, "threads"), mask = mc::pick(8, "failing"); if (mask >> threads) return; bool pre = mc::pick(2, "posted before start");
    Tasks t; t.need_init = true; Inits in(&t, mask); ThreadInitFunc f = NewPermanentExtClosure(&in, &Inits::init); ThreadDestFunc d = NewPermanentExtClosure(&in, &Inits::dest);
    { ThreadGroupImpl g(threads, "g"); g.set_init_func(f); g.set_dest_func(d);
      for (int round = 0; round < 2; ++round) {
        if (pre) g.post(boost::bind(&task, &t, t.add(), 0));
        t.started = true; t.stopped = false;
        bool ok = g.start();
        MC_CHECK(ok == (in.fail_mask == 0), "start_result", "start returned %d although the init functions of mask %d failed", ok, in.fail_mask);
        if (ok) { MC_CHECK(in.n == threads, "init_count", "%d init functions ran before start returned, %d threads", in.n, threads); g.post(boost::bind(&task, &t, t.add(), 1000)); g.dispatch(boost::bind(&task, &t, t.add(), 0)); MC_CHECK(g.start(), "start_result", "start of a running group failed"); }
        g.stop(); t.stopped = true;
        MC_CHECK(in.n == threads && in.dests == threads, "init_count", "%d init and %d destroy functions ran on %d threads", in.n, in.dests, threads);
        MC_CHECK(mc::live_threads() == 0, "thread_left", "%d threads left after stop", mc::live_threads());
        if (ok) t.all_once();
        else { if (mask & 1) in.fail_mask = 0; else break; }
        in.n = in.dests = 0; t.inited.clear(); t.desto.clear(); t.started = false;
      } }
    delete f; delete d; mc::obs("%d %d", threads, mask);
}
// a pool of io services: all of its threads are initialised, or Run fails and nothing is left behind
MC_SCENARIO(tg_pool) { cfg.bound = 1; }
MC_BODY(tg_pool) {
    int size = 1 + mc::pick(3, "size"), threads = 1 + mc::pick(2, "threads"), fail = mc::pick(7, "fails"); if (fail > size * threads) return;
    Tasks t; t.need_init = true; t.started = true; Inits in(&t, fail ? 1 << (fail - 1) : 0); ThreadInitFunc f = NewPermanentExtClosure(&in, &Inits::init); ThreadDestFunc d = NewPermanentExtClosure(&in, &Inits::dest);
    { IOServicePool p(size, threads); p.set_init_func(f); p.set_dest_func(d); bool ok = p.Run();
      MC_CHECK(ok == (fail == 0), "start_result", "Run returned %d, failing init function: %d", ok, fail);
      if (ok) {
        MC_CHECK(in.n == size * threads, "init_count", "%d threads initialised of %d", in.n, size * threads);
        std::map<IOService*, int> used; for (int i = 0; i < 2 * size; ++i) { IOService& s = p.GetIOService(); ++used[&s]; s.post(boost::bind(&task, &t, t.add(), i == 0 ? 1000 : 0)); }
        MC_CHECK((int)used.size() == size, "balance", "%d of %d io services used", (int)used.size(), size);
        for (auto& u : used) MC_CHECK(u.second == 2, "balance", "io services used unevenly");
      }
      p.Stop(); t.stopped = true; if (ok) t.all_once(); }
    MC_CHECK(in.dests == in.n, "init_count", "%d init and %d destroy functions ran", in.n, in.dests);
    MC_CHECK(mc::live_threads() == 0, "thread_left", "%d threads left", mc::live_threads());
    delete f; delete d; mc::obs("%d %d %d", size, threads, fail);
}
// the server's worker threads: init functions that fail make Start fail; it can be started again
MC_SCENARIO(tg_server) { cfg.bound = 1; cfg.points_plain = 0; }
MC_BODY(tg_server) {
    int pools = 1 + mc::pick(2, "pools"), threads = 1 + mc::pick(2, "threads"), fail = mc::pick(5, "fails"); if (fail > pools * threads) return;
    Tasks t; Inits in(&t, fail ? 1 << (fail - 1) : 0); ThreadInitFunc f = NewPermanentExtClosure(&in, &Inits::init); ThreadDestFunc d = NewPermanentExtClosure(&in, &Inits::dest);
    { Server s; RpcServerOptions o = server_options(threads); o.io_service_pool_size = pools; o.work_thread_init_func = f; o.work_thread_dest_func = d; s.make(o);
      bool ok = s.start(); MC_CHECK(ok == (fail == 0), "start_result", "Start returned %d, failing init function: %d", ok, fail);
      if (!ok) {
        MC_CHECK(in.n == in.dests, "init_count", "%d init and %d destroy functions ran after a failed Start", in.n, in.dests); MC_CHECK(mc::live_threads() == 0, "thread_left", "%d threads left after a failed Start", mc::live_threads());
        in.fail_mask = 0; in.n = in.dests = 0; t.inited.clear(); t.desto.clear(); MC_CHECK(s.start(), "start_result", "second Start failed");
      }
      MC_CHECK(in.n == pools * threads, "init_count", "%d worker threads initialised of %d", in.n, pools * threads);
      Client c; MC_CHECK(c.open(), "harness", "dial failed"); std::set<uint64_t> e; e.insert(5); c.c.send_all(request(5, 5, "x")); c.read_one(e); expect_echo(c, 5, 5, "x"); c.c.close();
      s.srv->Stop(); MC_CHECK(in.dests == in.n, "init_count", "%d init and %d destroy functions ran", in.n, in.dests); MC_CHECK(mc::live_threads() == 0, "thread_left", "%d threads left after Stop", mc::live_threads()); }
    delete f; delete d; mc::obs("%d %d %d", pools, threads, fail);
}
// a periodic timer: one run per period, never two at once, none after stop
MC_SCENARIO(tg_timer) { cfg.bound = 2; }
namespace vh { struct Periodic { int n, in; bool stopped; uint64_t last; Periodic() : n(0), in(0), stopped(false), last(0) {}
    void run(int us, const PTime&) { MC_CHECK(!stopped, "ran_after_stop", "the work routine ran after the group was stopped"); MC_CHECK(++in == 1, "overlap", "two runs of the work routine at once"); uint64_t now = mc::now_us(); MC_CHECK(!n || now >= last + 15000, "too_early", "runs %lu us apart", (unsigned long)(now - last)); last = now; ++n; if (us) mc::sleep_us(us); else mc::yield(); --in; } }; }
MC_BODY(tg_timer) {
    int threads = 1 + mc::pick(2, "threads"), us = mc::pick(2, "slow") * 30000, restart = mc::pick(2, "restart"); Periodic p;
    { ThreadGroupImpl g(threads, "g"); g.start(); sofa::pbrpc::shared_ptr<TimerWorker> w(new TimerWorker(g.io_service())); w->set_time_duration(time_duration_milliseconds(20)); w->set_work_routine(boost::bind(&Periodic::run, &p, us, _1)); w->start(); w->start();
      mc::sleep_us(130000); MC_CHECK(p.n >= (us ? 3 : 5), "not_periodic", "%d runs in 130 ms", p.n);
      w->stop(); if (restart) { mc::sleep_us(60000); int n = p.n; w->start(); mc::sleep_us(70000 + us); MC_CHECK(p.n > n, "not_periodic", "no run after the timer was started again"); w->stop(); }
      uint64_t t0 = mc::now_us(); g.stop(); MC_CHECK(mc::now_us() - t0 <= 25000 + us + 10000, "slow_stop", "stop took %lu us", (unsigned long)(mc::now_us() - t0)); p.stopped = true; }
    MC_CHECK(p.in == 0, "stop_early", "stop returned during a run"); mc::obs("%d", p.n);
}

// ---------------------------------------------------------------- locks, conditions, events, counters (C23)
#include <sofa/pbrpc/locks.h>
#include <sofa/pbrpc/wait_event.h>
#include <sofa/pbrpc/condition_variable.h>
#include <sofa/pbrpc/counter.h>
#include <sofa/pbrpc/scoped_locker.h>
namespace vh {
struct Excl { int writers, readers, max_readers, entered; Excl() : writers(0), readers(0), max_readers(0), entered(0) {}
    void write() { MC_CHECK(writers == 0 && readers == 0, "overlap", "a writer entered with %d writers and %d readers inside", writers, readers); ++writers; ++entered; mc::yield(); mc::yield(); MC_CHECK(writers == 1 && readers == 0, "overlap", "%d writers and %d readers inside a writer's section", writers, readers); --writers; }
    void read() { MC_CHECK(writers == 0, "overlap", "a reader entered with %d writers inside", writers); ++readers; ++entered; if (readers > max_readers) max_readers = readers; mc::yield(); mc::yield(); MC_CHECK(writers == 0, "overlap", "a writer entered a reader's section"); --readers; } };
}
MC_SCENARIO(lk_exclusion) { cfg.bound = 2; }
MC_BODY(lk_exclusion) {
    int kind = mc::pick(5, "kind"), n = 2 + mc::pick(2, "threads"), rounds = n == 2 ? 2 : 1; Excl x; MutexLock m; SpinLock sp; FastLock fl; RWLock rw; int done = 0;
    auto body = [&](int me) {
        for (int r = 0; r < rounds; ++r) {
            if (kind == 0) { ScopedLocker<MutexLock> _(m); x.write(); }
            else if (kind == 1) { if (r == 1 && me == 0) { if (sp.try_lock()) { x.write(); sp.unlock(); } else ++x.entered; } else { ScopedLocker<SpinLock> _(&sp); x.write(); } }
            else if (kind == 2) { ScopedLocker<FastLock> _(fl); x.write(); }
            else if (kind == 3) { WriteLocker _(&rw); x.write(); }
            else { if (me == 0) { WriteLocker _(&rw); x.write(); } else { ReadLocker _(&rw); x.read(); } }
        }
        ++done;
    };
    int t[3]; for (int i = 1; i < n; ++i) t[i] = mc::spawn("locker", [&body, i]() { body(i); }); body(0); for (int i = 1; i < n; ++i) mc::join(t[i]);
    MC_CHECK(done == n && x.entered == n * rounds, "lost_section", "%d of %d sections executed", x.entered, n * rounds); mc::obs("%d %d", kind, x.max_readers);
}
// two readers can be inside at once, a waiting writer gets in, try_lock of a held lock fails
MC_SCENARIO(lk_progress) { cfg.bound = 1; }
MC_BODY(lk_progress) {
    int kind = mc::pick(3, "kind"); RWLock rw; SpinLock sp; int in = 0, order = 0;
    if (kind == 0) { rw.lock_shared(); int t = mc::spawn("reader", [&]() { rw.lock_shared(); in = 1; rw.unlock(); }); MC_CHECK(mc::wait_until([&]() { return in == 1; }, 100000), "reader_blocked", "a reader waits for another reader"); rw.unlock(); mc::join(t); rw.lock(); rw.unlock(); }
    else if (kind == 1) { rw.lock_shared(); int t = mc::spawn("writer", [&]() { rw.lock(); MC_CHECK(order == 1, "overlap", "a writer entered while a reader was inside"); in = 1; rw.unlock(); }); mc::sleep_us(1000); order = 1; rw.unlock(); mc::join(t); MC_CHECK(in == 1, "lost_section", "the writer did not get in"); }
    else { sp.lock(); int t = mc::spawn("trier", [&]() { MC_CHECK(!sp.try_lock(), "overlap", "try_lock of a held spin lock succeeded"); in = 1; }); mc::join(t); sp.unlock(); MC_CHECK(sp.try_lock(), "try_lock", "try_lock of a free spin lock failed"); sp.unlock(); }
    mc::obs("%d", kind);
}
// producers signal or broadcast a condition, consumers wait for it: nobody waits for ever
MC_SCENARIO(lk_condition) { cfg.bound = 2; }
MC_BODY(lk_condition) {
    int how = mc::pick(3, "how"), timed = mc::pick(3, "timed"), nc = 1 + mc::pick(2, "consumers"); MutexLock m; ConditionVariable c; int items = 0, got = 0; bool stop = false;
    auto consumer = [&]() { ScopedLocker<MutexLock> _(m); while (items == 0 && !stop) { if (timed == 0) c.wait(m); else if (timed == 1) { MC_CHECK(c.wait(m, 20000), "late_wake", "a timed wait returned false although it was signalled in time"); } else c.wait(m, -1); } if (items > 0) { --items; ++got; } };
    int t[2]; for (int i = 0; i < nc; ++i) t[i] = mc::spawn("consumer", consumer);
    if (how == 0) for (int i = 0; i < nc; ++i) { ScopedLocker<MutexLock> _(m); ++items; c.signal(); }
    else if (how == 1) { ScopedLocker<MutexLock> _(m); items = nc; c.broadcast(); }
    else { mc::sleep_us(500); { ScopedLocker<MutexLock> _(m); items = nc; } c.broadcast(); }
    for (int i = 0; i < nc; ++i) mc::join(t[i]);
    MC_CHECK(got == nc && mc::now_us() < 1000000, "lost_signal", "%d of %d consumers got an item after %lu us", got, nc, (unsigned long)mc::now_us()); mc::obs("%d %d", how, nc);
}
MC_SCENARIO(lk_timed_wait) { cfg.bound = 1; }
MC_BODY(lk_timed_wait) {
    static const int ms[] = { 0, 1, 7, 999, 1000, 1001, 3000, 5999 }; int i = mc::pick(8, "ms"), sig = mc::pick(2, "signal"); MutexLock m; ConditionVariable c; int t = -1;
    mc::sleep_us(mc::pick(2, "offset") * 999000);
    if (sig) t = mc::spawn("signaller", [&]() { mc::sleep_us(ms[i] * 500); ScopedLocker<MutexLock> _(m); c.signal(); });
    uint64_t t0 = mc::now_us(); bool r, owned; { ScopedLocker<MutexLock> _(m); r = c.wait(m, ms[i]); }
    uint64_t d = mc::now_us() - t0; (void)owned;
    if (!r) MC_CHECK(d >= (uint64_t)ms[i] * 1000, "early_timeout", "a wait of %d ms timed out after %lu us", ms[i], (unsigned long)d);
    MC_CHECK(d <= (uint64_t)ms[i] * 1000 + 10000, "late_timeout", "a wait of %d ms took %lu us", ms[i], (unsigned long)d);
    if (!sig) MC_CHECK(!r, "spurious", "a wait nobody signalled returned true"); else if (ms[i] >= 999) MC_CHECK(r, "lost_signal", "a signal during a timed wait was lost");
    if (t >= 0) mc::join(t); { ScopedLocker<MutexLock> _(m); } mc::obs("%d %d", i, r);
}
// a signal before, during or after the start of the wait is never lost, and wakes one wait only
MC_SCENARIO(lk_event) { cfg.bound = 3; }
MC_BODY(lk_event) {
    int n = 1 + mc::pick(3, "signals"); WaitEvent e, back; int waited = 0, sent = 0;
    int t = mc::spawn("signaller", [&]() { for (int i = 0; i < n; ++i) { ++sent; e.Signal(); back.Wait(); } });
    for (int i = 0; i < n; ++i) { e.Wait(); ++waited; MC_CHECK(waited <= sent, "extra_wake", "wait %d returned after %d signals", waited, sent); back.Signal(); }
    mc::join(t); int extra = 0; int t2 = mc::spawn("waiter", [&]() { e.Wait(); extra = 1; }); mc::sleep_us(1000); MC_CHECK(extra == 0, "extra_wake", "a wait returned without a signal"); e.Signal(); mc::join(t2); mc::obs("%d", n);
}
MC_SCENARIO(lk_counter) { cfg.bound = 2; }
MC_BODY(lk_counter) {
    AtomicCounter c; AtomicCounter64 d(0xfffffffful); volatile int lock = 0; int up[3] = { 0 }; int seen[8] = { 0 };
    auto body = [&]() { for (int i = 0; i < 2; ++i) { uint32_t v = ++c; MC_CHECK(v < 8 && !seen[v], "lost_update", "two increments returned %u", v); seen[v] = 1; ++d; while (atomic_comp_swap(&lock, 1, 0) != 0) mc::sleep_us(100); ++up[0]; MC_CHECK(up[0] - up[1] == 1, "overlap", "two threads hold a compare-and-swap lock"); mc::yield(); ++up[1]; atomic_swap(&lock, 0); } };
    int t = mc::spawn("counter", body); body(); mc::join(t); t = mc::spawn("decrementer", [&]() { --c; --d; }); --c; --d; mc::join(t); MC_CHECK((uint32_t)c == 2 && (uint64_t)d == 0x100000001ul, "lost_update", "counters are %u and %lu", (uint32_t)c, (unsigned long)(uint64_t)d); mc::obs("ok");
}

// ---------------------------------------------------------------- blocks shared by several buffers (C14)
// A message is shared by the buffers of several threads, which copy, read, drop and recycle their shares at the same
// time: every share keeps its bytes until it is dropped, and when all are gone no block is left.
#include <sofa/pbrpc/buffer.h>
namespace vh {
static void write_all(WriteBuffer& w, const char* d, int n, int mode) {
    if (mode == 0) { MC_CHECK(w.Append(d, n), "append", "Append failed"); return; }
    int done = 0; while (done < n) { void* p; int k; MC_CHECK(w.Next(&p, &k) && k > 0, "append", "Next failed"); int use = k < n - done ? k : n - done; memcpy(p, d + done, use); done += use; if (use < k) w.BackUp(k - use); }
}
static void read_all(ReadBuffer& r, const char* want, int n) {
    MC_CHECK(r.TotalCount() == n, "content", "a share of %d bytes counts %d", n, (int)r.TotalCount());
    const void* p; int k, done = 0; bool back = false;
    while (r.Next(&p, &k)) {
        MC_CHECK(k > 0 && done + k <= n && memcmp(p, want + done, k) == 0, "content", "wrong bytes at %d of a share", done);
        if (k > 1 && !back) { r.BackUp(k - 1); done += 1; back = true; } else { done += k; back = false; }
    }
    MC_CHECK(done == n, "content", "%d bytes read of %d", done, n);
}
}
MC_SCENARIO(buf_refs) { cfg.bound = 2; }
MC_BODY(buf_refs) {
    int n = mc::pick(2, "two_blocks") ? 90 : 20, mode = mc::pick(2, "mode"), share = mc::pick(2, "partial"); char d[128]; for (int i = 0; i < n; ++i) d[i] = 'a' + i % 23;
    int before = mc::live_blocks();
    {
        ReadBuffer* src = new ReadBuffer; { WriteBuffer w; w.set_base_block_factor(0); write_all(w, d, n, mode); w.SwapOut(src); }
        ReadBuffer* own[2]; for (int i = 0; i < 2; ++i) { own[i] = new ReadBuffer; own[i]->Append(src); if (share) own[i]->Append(src); }
        char e[256]; memcpy(e, d, n); memcpy(e + n, d, n); int en = share ? 2 * n : n;
        auto body = [&](int me) {
            ReadBuffer* mine = new ReadBuffer; mine->Append(own[me]); delete own[me];
            { WriteBuffer w; w.set_base_block_factor(0); char z[64]; memset(z, 'Z', sizeof z); write_all(w, z, 40, 0); ReadBuffer r; w.SwapOut(&r); read_all(*mine, e, en); read_all(r, z, 40); }
            delete mine;
        };
        int t = mc::spawn("share", [&]() { body(1); }); delete src; body(0); mc::join(t);
    }
    MC_CHECK(mc::live_blocks() == before, "block_leak", "%d heap blocks left of the dropped buffers", mc::live_blocks() - before);
    mc::obs("%d %d %d", n, mode, share);
}
