// Atomic operations, counters and reference counts (C23): the compiled code under every interleaving of its machine
// instructions, judged by linearizability; and every operation's value on boundary operands.
#include "seq.h"
#include "istep.h"
#include <sofa/pbrpc/atomic.h>
#include <sofa/pbrpc/counter.h>
#include <sofa/pbrpc/smart_ptr/smart_ptr.hpp>
using namespace seq;
using namespace sofa::pbrpc;
#define NI __attribute__((noinline))
namespace {
struct Res { uint64_t r; };
template <class T> struct Cell { T guard0; volatile T v; T guard1; };
// 32 bit operations: arguments x, y
enum { N32 = 12, N64 = 5 };
const char* name32[N32] = { "atomic_inc", "atomic_dec", "atomic_add", "atomic_sub", "atomic_add_ret_old", "atomic_inc_ret_old", "atomic_dec_ret_old", "atomic_cmpxchg", "atomic_swap", "atomic_comp_swap", "++AtomicCounter", "--AtomicCounter" };
const char* name64[N64] = { "atomic_add_ret_old64", "atomic_inc_ret_old64", "atomic_dec_ret_old64", "++AtomicCounter64", "--AtomicCounter64" };
template <class T> NI T op32(int op, volatile T* p, T x, T y) {
    switch (op) {
    case 0: atomic_inc(p); return 0; case 1: atomic_dec(p); return 0; case 2: atomic_add(p, x); return 0; case 3: atomic_sub(p, x); return 0;
    case 4: return atomic_add_ret_old(p, x); case 5: return atomic_inc_ret_old(p); case 6: return atomic_dec_ret_old(p);
    case 7: return atomic_cmpxchg(p, x, y); case 8: return atomic_swap(p, x); case 9: return atomic_comp_swap(p, y, x);
    case 10: return (T)(uint32_t)++*(AtomicCounter*)p; default: return (T)(uint32_t)--*(AtomicCounter*)p;
    }
}
template <class T> T model32(int op, T* p, T x, T y) {
    T o = *p; typedef uint32_t U;
    switch (op) {
    case 0: *p = (T)((U)o + 1); return 0; case 1: *p = (T)((U)o - 1); return 0; case 2: *p = (T)((U)o + (U)x); return 0; case 3: *p = (T)((U)o - (U)x); return 0;
    case 4: *p = (T)((U)o + (U)x); return o; case 5: *p = (T)((U)o + 1); return o; case 6: *p = (T)((U)o - 1); return o;
    case 7: case 9: if (o == x) *p = y; return o; case 8: *p = x; return o;
    case 10: *p = (T)((U)o + 1); return *p; default: *p = (T)((U)o - 1); return *p;
    }
}
template <class T> NI T op64(int op, volatile T* p, T x) {
    switch (op) { case 0: return atomic_add_ret_old64(p, x); case 1: return atomic_inc_ret_old64(p); case 2: return atomic_dec_ret_old64(p); case 3: return (T)(uint64_t)++*(AtomicCounter64*)p; default: return (T)(uint64_t)--*(AtomicCounter64*)p; }
}
template <class T> T model64(int op, T* p, T x) { T o = *p; uint64_t d = op == 0 ? (uint64_t)x : op == 1 || op == 3 ? 1 : (uint64_t)-1; *p = (T)((uint64_t)o + d); return op >= 3 ? *p : o; }
const uint64_t vals[] = { 0, 1, 2, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 5, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull };
template <class T> void values32() {
    int op = pick(N32, "op"); T init = (T)vals[pick(7, "init")], x = (T)vals[pick(7, "x")], y = op == 7 || op == 9 ? (T)vals[pick(7, "y")] : 0;
    Cell<T> c; c.guard0 = (T)0x5a5a5a5a; c.guard1 = (T)0xa5a5a5a5; c.v = init; T m = init; T r = op32<T>(op, &c.v, x, y), mr = model32<T>(op, &m, x, y);
    SEQ_CHECK(r == mr, "value", "%s on %lld returned %lld instead of %lld", name32[op], (long long)init, (long long)r, (long long)mr);
    SEQ_CHECK(c.v == m, "value", "%s left %lld instead of %lld", name32[op], (long long)c.v, (long long)m);
    SEQ_CHECK(c.guard0 == (T)0x5a5a5a5a && c.guard1 == (T)0xa5a5a5a5, "neighbour", "%s changed memory next to its operand", name32[op]); obs("%s", name32[op]);
}
template <class T> void values64() {
    int op = pick(N64, "op"); T init = (T)vals[pick(11, "init")], x = (T)vals[pick(11, "x")];
    Cell<T> c; c.guard0 = (T)0x5a5a5a5a; c.guard1 = (T)0xa5a5a5a5; c.v = init; T m = init; T r = op64<T>(op, &c.v, x), mr = model64<T>(op, &m, x);
    SEQ_CHECK(r == mr, "value", "%s on %llx returned %llx instead of %llx", name64[op], (unsigned long long)init, (unsigned long long)r, (unsigned long long)mr);
    SEQ_CHECK(c.v == m, "value", "%s left %llx instead of %llx", name64[op], (unsigned long long)c.v, (unsigned long long)m);
    SEQ_CHECK(c.guard0 == (T)0x5a5a5a5a && c.guard1 == (T)0xa5a5a5a5, "neighbour", "%s changed memory next to its operand", name64[op]); obs("%s", name64[op]);
}
// lengths of the two pieces are found by a run without switches; then every pair of switch points
struct Plan { int l[2], n, first; };
size_t depth_now() { return seq::depth; }
Plan plan(std::function<void()> reset, std::function<void()> a, std::function<void()> b, const void* lo, const void* hi, int deep) {
    Plan p; p.first = pick(2, "first"); p.n = 0;
    static std::map<std::vector<int>, std::pair<int, int> > memo; std::vector<int> key(path.begin(), path.begin() + depth_now()); std::pair<int, int>& m = memo[key];
    if (!m.first) { reset(); istep::run(a, b, p.first, p.l, 0, lo, hi); m = std::make_pair(istep::ctx[p.first].steps, istep::ctx[!p.first].steps); if (istep::total > 3000000) fail("hang", "the operations do not end"); }
    int s[2] = { m.first, m.second };
    SEQ_CHECK(s[0] > 3 && s[1] > 3, "harness", "single-stepping does not work here (%d/%d steps)", s[0], s[1]);
    int k = pick(s[0] + 1, "steps of the first"); if (k == 0) return p;
    p.l[p.n++] = k; if (deep > 1) { int j = pick(s[1] + 1, "steps of the second"); if (j) p.l[p.n++] = j; }
    return p;
}
} // namespace

SEQ_CASE(values) { switch (pick(4, "type")) { case 0: values32<int>(); break; case 1: values32<unsigned>(); break; case 2: values64<int64_t>(); break; default: values64<uint64_t>(); } }
SEQ_CASE(pairs32) {
    int a = pick(N32, "a"), b = pick(N32, "b"), init = (int)vals[pick(3, "init")]; static int cell[3]; volatile int* p = &cell[1]; static int ra, rb;
    // operands chosen so that a compare-and-swap of one depends on the other
    int xa = 1, ya = 7, xb = init, yb = 2; if (a == 7 || a == 9) xa = init;
    std::function<void()> fa = [=]() { ra = op32<int>(a, p, xa, ya); }, fb = [=]() { rb = op32<int>(b, p, xb, yb); };
    auto reset = [=]() { cell[0] = cell[2] = 77; *p = init; };
    Plan pl = plan(reset, fa, fb, cell, cell + 3, 2);
    reset(); istep::run(fa, fb, pl.first, pl.l, pl.n, cell, cell + 3);
    int m1 = init, r1a = model32<int>(a, &m1, xa, ya), r1b = model32<int>(b, &m1, xb, yb), m2 = init, r2b = model32<int>(b, &m2, xb, yb), r2a = model32<int>(a, &m2, xa, ya);
    bool ok = (ra == r1a && rb == r1b && *p == m1) || (ra == r2a && rb == r2b && *p == m2);
    SEQ_CHECK(ok, "not_atomic", "%s and %s at once on %d returned %d and %d and left %d, which no order explains", name32[a], name32[b], init, ra, rb, *p);
    SEQ_CHECK(cell[0] == 77 && cell[2] == 77, "neighbour", "memory next to the operand changed"); obs("%s %d %d %d", name32[a], ra, rb, *p);
}
SEQ_CASE(pairs64) {
    typedef int64_t T; int a = pick(N64, "a"), b = pick(N64, "b"); T init = (T)(uint64_t[]){ 0, 0xffffffffull, 0xffffffffffffffffull }[pick(3, "init")]; static T cell[3]; volatile T* p = &cell[1]; static T ra, rb;
    T xa = 0x100000001ll, xb = 5; std::function<void()> fa = [=]() { ra = op64<T>(a, p, xa); }, fb = [=]() { rb = op64<T>(b, p, xb); };
    auto reset = [=]() { *p = init; }; Plan pl = plan(reset, fa, fb, cell, cell + 3, 2);
    reset(); istep::run(fa, fb, pl.first, pl.l, pl.n, cell, cell + 3);
    T m1 = init, r1a = model64<T>(a, &m1, xa), r1b = model64<T>(b, &m1, xb), m2 = init, r2b = model64<T>(b, &m2, xb), r2a = model64<T>(a, &m2, xa);
    SEQ_CHECK((ra == r1a && rb == r1b && *p == m1) || (ra == r2a && rb == r2b && *p == m2), "not_atomic", "%s and %s at once on %llx returned %llx and %llx and left %llx, which no order explains", name64[a], name64[b], (long long)init, (long long)ra, (long long)rb, (long long)*p);
    obs("%s %llx", name64[a], (long long)*p);
}
// reference counts: two owners act at once; the object is disposed and its count destroyed exactly once, in order
namespace {
struct Counted : public detail::sp_counted_base {
    int disposed, destroyed, bad; Counted() : disposed(0), destroyed(0), bad(0) {}
    virtual void dispose() { if (destroyed) bad = 1; ++disposed; } virtual void destroy() { if (disposed != 1) bad = 2; ++destroyed; } virtual void* get_deleter(std::type_info const&) { return 0; }
};
char space[sizeof(Counted)] __attribute__((aligned(16))); Counted* cn; int lock_ok[2], alive_ok[2];
enum { NS = 7 }; const char* scripts[NS] = { "release", "copy release release", "weak_release", "weak: lock, use, release, weak_release", "weak: copy weak, weak_release twice", "weak: lock twice, release", "take weak, release, weak_release" };
bool weak_script(int s) { return s >= 2 && s <= 5; }
NI void script(int s, int me) {
    Counted* c = cn;
    switch (s) {
    case 0: c->release(); break;
    case 1: c->add_ref_copy(); c->release(); c->release(); break;
    case 2: c->weak_release(); break;
    case 3: if (c->add_ref_lock()) { lock_ok[me] = 1; if (c->disposed) alive_ok[me] = 0; c->release(); } c->weak_release(); break;
    case 4: c->weak_add_ref(); c->weak_release(); c->weak_release(); break;
    case 5: { bool a = c->add_ref_lock(), b = c->add_ref_lock(); if ((a || b) && c->disposed) alive_ok[me] = 0; if (!a && b) alive_ok[me] = 0; if (a) c->release(); if (b) c->release(); c->weak_release(); break; }
    case 6: c->weak_add_ref(); c->release(); c->weak_release(); break;
    }
}
}
SEQ_CASE(refcount) {
    int a = pick(NS, "a"), b = pick(NS, "b"); bool extra = pick(2, "third owner");
    auto reset = [=]() { cn = new (space) Counted; int strong = (weak_script(a) ? 0 : 1) + (weak_script(b) ? 0 : 1) + (extra ? 1 : 0), weak = (weak_script(a) ? 1 : 0) + (weak_script(b) ? 1 : 0);
        for (int i = 1; i < strong; ++i) cn->add_ref_copy(); for (int i = 0; i < weak; ++i) cn->weak_add_ref(); if (strong == 0) cn->release(); lock_ok[0] = lock_ok[1] = 0; alive_ok[0] = alive_ok[1] = 1; };
    std::function<void()> fa = [=]() { script(a, 0); }, fb = [=]() { script(b, 1); };
    const char* lo = space + sizeof(void*); const char* hi = lo + 2 * sizeof(int);
    Plan pl = plan(reset, fa, fb, lo, hi, 2);
    reset(); istep::run(fa, fb, pl.first, pl.l, pl.n, lo, hi);
    if (extra) { SEQ_CHECK(cn->disposed == 0 && cn->destroyed == 0, "early_dispose", "\"%s\" and \"%s\" at once destroyed an object that has another owner", scripts[a], scripts[b]);
        SEQ_CHECK(cn->use_count() == 1, "use_count", "\"%s\" and \"%s\" at once left use count %ld for one owner", scripts[a], scripts[b], cn->use_count()); cn->release(); }
    SEQ_CHECK(cn->bad == 0, "order", "\"%s\" and \"%s\": disposed or destroyed in the wrong order", scripts[a], scripts[b]);
    SEQ_CHECK(alive_ok[0] && alive_ok[1], "dead_lock", "\"%s\" and \"%s\": a weak reference gave an object that was disposed", scripts[a], scripts[b]);
    SEQ_CHECK(cn->disposed == 1 && cn->destroyed == 1, "dispose_count", "\"%s\" and \"%s\" at once: disposed %d times, count destroyed %d times", scripts[a], scripts[b], cn->disposed, cn->destroyed);
    obs("%d %d %d %d", a, b, lock_ok[0], lock_ok[1]);
}
SEQ_MAIN
