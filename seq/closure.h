// Included once per kind of target.
// Closures (C21): every kind of closure with every number of bound and call-time arguments. The classes are generated
// code, one per combination, so every one of them is instantiated and run.
#include <stdint.h>
#include <string.h>
#include <type_traits>
void closure_fail(const char* sig, const char* fmt, ...);
#define CK(c, ...) do { if (!(c)) closure_fail(__VA_ARGS__); } while (0)
#include <sofa/pbrpc/closure.h>
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/smart_ptr/smart_ptr.hpp>
#include <utility>
namespace sp = sofa::pbrpc;
namespace {

#define OUT __attribute__((noinline))
// an argument that knows whether it is alive
struct V {
    static int live; uint32_t magic; int v; int* heap;
    OUT V(int x = -1); OUT V(const V& o); OUT V& operator=(const V& o); OUT ~V();
};
int V::live;
V::V(int x) : magic(0x5afe), v(x), heap(new int(x)) { ++live; }
V::V(const V& o) : magic(0x5afe), v(o.v), heap(new int(o.v)) { CK(o.magic == 0x5afe, "dead_argument", "copy of a destroyed argument"); ++live; }
V& V::operator=(const V& o) { CK(o.magic == 0x5afe, "dead_argument", "copy of a destroyed argument"); v = o.v; *heap = o.v; return *this; }
V::~V() { magic = 0; delete heap; --live; }
struct Seen { int n, v[24]; const void* at[24]; int calls; const void* self; bool alive_self; } seen;
OUT void rec(const V* const* a, int n) {
    ++seen.calls; seen.n = n;
    for (int i = 0; i < n; ++i) { CK(a[i]->magic == 0x5afe && *a[i]->heap == a[i]->v, "dead_argument", "argument %d is destroyed when the target runs", i); seen.v[i] = a[i]->v; seen.at[i] = a[i]; }
}
int result_of() { int r = 17; for (int i = 0; i < seen.n; ++i) r = r * 31 + seen.v[i]; return r; }
struct Num { V keep; int n; Num(int x) : keep(x), n(x) {} };    // a result that is not a plain number
OUT void check_result(const Num& r) { CK(r.n == result_of() && r.keep.magic == 0x5afe, "result", "the result of the target is lost"); }
template <class R> struct Ret { static OUT R get() { return R(result_of()); } };
template <> struct Ret<void> { static void get() {} };
template <int Mode, int I> struct Param { typedef V type; };    // parameters by value, by reference, by constant reference
#ifndef ONE_KIND_OF_PARAMETER      // if the classes mix up their arguments, they may compile only for arguments all alike
template <int I> struct Param<1, I> { typedef typename std::conditional<I % 2 == 0, V&, const V&>::type type; };
#else
template <int I> struct Param<1, I> { typedef const V& type; };
#endif
template <class R, class... P> struct Fn { static R call(P... p) { const V* a[] = { &p..., NULL }; rec(a, sizeof...(P)); return Ret<R>::get(); } };
struct Obj {
    static int live; int magic; Obj() : magic(77) { ++live; } ~Obj() { magic = 0; --live; }
    template <class R, class... P> R m(P... p) { const V* a[] = { &p..., NULL }; rec(a, sizeof...(P)); seen.self = this; seen.alive_self = magic == 77; return Ret<R>::get(); }
};
int Obj::live;
enum { FUNCTION, METHOD, SHARED };
// what is needed of one combination; everything else is common
struct Ops { void* (*make)(V* pre, Obj* raw, const sp::shared_ptr<Obj>& shared); void (*run)(void* c, V* post); void (*del)(void* c); bool (*self_delete)(void* c); };
OUT void judge(const Ops& ops, int kind, bool perm, int mode, int p, int q) {
    memset(&seen, 0, sizeof seen); Obj::live = 0; int start = V::live;
    {
        V pre[11], post[11]; for (int i = 0; i < 11; ++i) { pre[i] = V(100 + i); post[i] = V(200 + i); }
        int before = V::live; Obj stack; Obj::live = 0; sp::shared_ptr<Obj> shared; if (kind == SHARED) shared.reset(new Obj);
        const void* self = kind == FUNCTION ? NULL : kind == METHOD ? &stack : shared.get();
        void* c = ops.make(pre, &stack, shared);
        if (kind == SHARED) { CK(shared.use_count() == 2, "object", "use count %ld with a closure bound to the object", shared.use_count()); shared.reset(); }
        int bound = V::live; CK(bound == before + p, "arguments_alive", "%d copies of %d bound arguments", bound - before, p);
        for (int i = 0; i < p; ++i) pre[i] = V(-5);                  // changes after binding are not seen
        CK(ops.self_delete(c) == !perm, "self_delete", "IsSelfDelete() is %d", ops.self_delete(c));
        for (int r = 1; r <= (perm ? 3 : 1); ++r) {
            ops.run(c, post);
            CK(seen.calls == r, "calls", "run %d called the target %d times", r, seen.calls);
            CK(seen.n == p + q, "arguments", "the target saw %d arguments instead of %d", seen.n, p + q);
            for (int i = 0; i < p; ++i) { CK(seen.v[i] == 100 + i, "arguments", "bound argument %d is %d", i, seen.v[i]); CK(seen.at[i] != &pre[i], "not_a_copy", "bound argument %d is the caller's object", i); }
            for (int i = 0; i < q; ++i) { CK(seen.v[p + i] == 200 + i, "arguments", "call argument %d is %d", i, seen.v[p + i]); if (mode == 1) CK(seen.at[p + i] == &post[i], "not_by_reference", "call argument %d is a copy of the caller's object", i); }
            if (self) CK(seen.self == self && seen.alive_self, "object", "the method ran on another or a destroyed object");
            if (perm) CK(V::live == bound, "arguments_alive", "a permanent closure has %d bound arguments after a run instead of %d", V::live - before, p);
            if (kind == SHARED) CK(Obj::live == (perm ? 1 : 0), "object", "%d objects alive after the run", Obj::live);
        }
        if (perm) ops.del(c);
        CK(V::live == before, "argument_leak", "%d arguments are left after the closure", V::live - before);
        if (kind == SHARED) CK(Obj::live == 0, "object", "the object outlives its last owner, the closure");
    }
    CK(V::live == start, "argument_leak", "%d arguments are left", V::live - start);
}

template <class R> struct Run { template <class C, class... A> static void run(C* c, A&... a) { check_result(c->Run(a...)); } };
template <> struct Run<void> { template <class C, class... A> static void run(C* c, A&... a) { c->Run(a...); } };
template <int Kind, bool Perm, class R, int Mode, class I, class J> struct Ext;
template <int Kind, bool Perm, class R, int Mode, int... I, int... J> struct Ext<Kind, Perm, R, Mode, std::integer_sequence<int, I...>, std::integer_sequence<int, J...>> {
    enum { P = sizeof...(I), Q = sizeof...(J) };
    typedef sp::ExtClosure<R(typename Param<Mode, P + J>::type...)> C;
    static void* make(V* pre, Obj* raw, const sp::shared_ptr<Obj>& shared) {
        C* c;
        if constexpr (Kind == FUNCTION) { auto f = &Fn<R, typename Param<Mode, I>::type..., typename Param<Mode, P + J>::type...>::call; if constexpr (Perm) c = sp::NewPermanentExtClosure(f, pre[I]...); else c = sp::NewExtClosure(f, pre[I]...); }
        else {
            auto f = &Obj::template m<R, typename Param<Mode, I>::type..., typename Param<Mode, P + J>::type...>;
            if constexpr (Kind == METHOD) { if constexpr (Perm) c = sp::NewPermanentExtClosure(raw, f, pre[I]...); else c = sp::NewExtClosure(raw, f, pre[I]...); }
            else { if constexpr (Perm) c = sp::NewPermanentExtClosure(shared, f, pre[I]...); else c = sp::NewExtClosure(shared, f, pre[I]...); }
        }
        return c;
    }
    static void run(void* c, V* post) { Run<R>::run((C*)c, post[J]...); }
    static void del(void* c) { delete (C*)c; }
    static bool sd(void* c) { return ((C*)c)->IsSelfDelete(); }
    static Ops ops() { Ops o = { &make, &run, &del, &sd }; return o; }
};
template <int Kind, bool Perm, int Mode, class I> struct Plain;
template <int Kind, bool Perm, int Mode, int... I> struct Plain<Kind, Perm, Mode, std::integer_sequence<int, I...>> {
    typedef google::protobuf::Closure C;
    static void* make(V* pre, Obj* raw, const sp::shared_ptr<Obj>& shared) {
        C* c;
        if constexpr (Kind == FUNCTION) { auto f = &Fn<void, typename Param<Mode, I>::type...>::call; if constexpr (Perm) c = sp::NewPermanentClosure(f, pre[I]...); else c = sp::NewClosure(f, pre[I]...); }
        else {
            auto f = &Obj::template m<void, typename Param<Mode, I>::type...>;
            if constexpr (Kind == METHOD) { if constexpr (Perm) c = sp::NewPermanentClosure(raw, f, pre[I]...); else c = sp::NewClosure(raw, f, pre[I]...); }
            else { if constexpr (Perm) c = sp::NewPermanentClosure(shared, f, pre[I]...); else c = sp::NewClosure(shared, f, pre[I]...); }
        }
        return c;
    }
    static void run(void* c, V*) { ((C*)c)->Run(); }
    static void del(void* c) { delete (C*)c; }
    static bool sd(void* c) { return static_cast<sp::ClosureBase*>((C*)c)->IsSelfDelete(); }
    static Ops ops() { Ops o = { &make, &run, &del, &sd }; return o; }
};
template <int N> using Seq = std::make_integer_sequence<int, N>;
template <int Kind, bool Perm, class R, int Mode, int P, int... Q> void ext_row(Ops* t, std::integer_sequence<int, Q...>) { Ops r[] = { Ext<Kind, Perm, R, Mode, Seq<P>, Seq<Q>>::ops()... }; memcpy(t, r, sizeof r); }
template <int Kind, bool Perm, class R, int Mode, int... P> void ext_rows(Ops (*t)[11], std::integer_sequence<int, P...>) { int x[] = { (ext_row<Kind, Perm, R, Mode, P>(t[P], Seq<11>()), 0)... }; (void)x; }
template <int Kind, bool Perm, int Mode, int... P> void plain_row(Ops* t, std::integer_sequence<int, P...>) { Ops r[] = { Plain<Kind, Perm, Mode, Seq<P>>::ops()... }; memcpy(t, r, sizeof r); }
template <int K, bool Perm, class R> void fill(Ops (*t)[11][11]) { ext_rows<K, Perm, R, 0>(t[0], Seq<11>()); ext_rows<K, Perm, R, 1>(t[1], Seq<11>()); }
} // namespace
#define CASES(NAME, K, PERM) \
void closure_##NAME(bool plain, bool value, int mode, int p, int q) { \
    static Ops t[2][2][11][11], pl[2][11]; static bool made; \
    if (!made) { made = true; fill<K, PERM, void>(t[0]); fill<K, PERM, Num>(t[1]); plain_row<K, PERM, 0>(pl[0], Seq<11>()); plain_row<K, PERM, 1>(pl[1], Seq<11>()); } \
    if (plain) judge(pl[mode][p], K, PERM, mode, p, 0); else judge(t[value][mode][p][q], K, PERM, mode, p, q); \
}
