// Smart pointers (C23): every sequence of operations on strong and weak references up to the depth, against a model.
#include "seq.h"
#include <sofa/pbrpc/smart_ptr/smart_ptr.hpp>
#include <sofa/pbrpc/smart_ptr/scoped_array.hpp>
using namespace seq;
namespace sp = sofa::pbrpc;
namespace {
struct Track { int id; bool dead; int deletions; }; Track objs[64]; int nobj;
struct Base { int id; Base() : id(nobj++) { objs[id].id = id; objs[id].dead = false; objs[id].deletions = 0; } virtual ~Base() { objs[id].dead = true; ++objs[id].deletions; } };
struct Other { int pad; Other() : pad(5) {} virtual ~Other() {} };
struct Derived : public Other, public Base, public sp::enable_shared_from_this<Derived> { };
struct Del { int* count; void operator()(Base* p) { ++*count; delete p; } };
int ndel;
// model: which object each slot owns (-1 none)
enum { S = 2, D = 2 };
struct World {
    sp::shared_ptr<Base> s[S]; sp::shared_ptr<Derived> d[D]; sp::weak_ptr<Base> w[S]; sp::weak_ptr<Derived> wd[1]; sp::shared_ptr<int> alias;
    int ms[S], md[D], mw[S], mwd[1], malias;
    World() { for (int i = 0; i < S; ++i) ms[i] = mw[i] = -1; for (int i = 0; i < D; ++i) md[i] = -1; mwd[0] = -1; malias = -1; }
    int owners(int o) { int n = 0; for (int i = 0; i < S; ++i) n += ms[i] == o; for (int i = 0; i < D; ++i) n += md[i] == o; return n + (malias == o); }
    bool live(int o) { return o >= 0 && owners(o) > 0; }
    void check() {
        for (int o = 0; o < nobj; ++o) { bool l = live(o); SEQ_CHECK(objs[o].dead == !l, "lifetime", "object %d is %s with %d owners", o, objs[o].dead ? "destroyed" : "alive", owners(o)); SEQ_CHECK(objs[o].deletions <= 1, "lifetime", "object %d destroyed twice", o); }
        for (int i = 0; i < S; ++i) {
            SEQ_CHECK((s[i].get() != NULL) == (ms[i] >= 0) && (bool)s[i] == (ms[i] >= 0), "pointer", "strong reference %d is %p, object %d expected", i, (void*)s[i].get(), ms[i]);
            if (ms[i] >= 0) { SEQ_CHECK(s[i]->id == ms[i] && (*s[i]).id == ms[i], "pointer", "strong reference %d points to %d instead of %d", i, s[i]->id, ms[i]); SEQ_CHECK(s[i].use_count() == owners(ms[i]), "use_count", "use count %ld with %d owners", s[i].use_count(), owners(ms[i])); SEQ_CHECK(s[i].unique() == (owners(ms[i]) == 1), "use_count", "unique() is wrong"); }
            else SEQ_CHECK(s[i].use_count() == 0, "use_count", "empty reference with use count %ld", s[i].use_count());
            SEQ_CHECK(w[i].expired() == !live(mw[i]), "expired", "expired() is %d, object alive: %d", w[i].expired(), live(mw[i]));
            SEQ_CHECK(w[i].use_count() == (live(mw[i]) ? owners(mw[i]) : 0), "use_count", "weak use count %ld with %d owners", w[i].use_count(), live(mw[i]) ? owners(mw[i]) : 0);
            sp::shared_ptr<Base> l = w[i].lock(); SEQ_CHECK((l.get() != NULL) == live(mw[i]) && (!l || l->id == mw[i]), "weak_lock", "lock() of a weak reference to object %d (alive: %d) gave %p", mw[i], live(mw[i]), (void*)l.get());
            bool thrown = false; try { sp::shared_ptr<Base> t(w[i]); } catch (sp::bad_weak_ptr&) { thrown = true; } SEQ_CHECK(thrown == !live(mw[i]), "weak_throw", "construction from a weak reference %s", thrown ? "threw" : "did not throw");
        }
        for (int i = 0; i < D; ++i) if (md[i] >= 0) {
            SEQ_CHECK(d[i]->id == md[i], "pointer", "derived reference points to %d instead of %d", d[i]->id, md[i]); SEQ_CHECK(d[i].use_count() == owners(md[i]), "use_count", "derived use count %ld with %d owners", d[i].use_count(), owners(md[i]));
            sp::shared_ptr<Derived> t = d[i]->shared_from_this(); SEQ_CHECK(t == d[i] && t.use_count() == owners(md[i]) + 1, "from_this", "shared_from_this gave another object or count");
            SEQ_CHECK(!(t < d[i]) && !(d[i] < t), "order", "two owners of one object are ordered");
        } else SEQ_CHECK(!d[i] && d[i].get() == NULL, "pointer", "derived reference should be empty");
        SEQ_CHECK(wd[0].expired() == !live(mwd[0]), "expired", "expired() is wrong");
        if (malias >= 0) SEQ_CHECK(alias && *alias == 5, "alias", "aliasing reference is wrong");
    }
};
}
SEQ_CASE(sequences) {
    nobj = 0; ndel = 0; int depth = thorough ? 6 : 5, want_del = 0; bool mark[64] = { false };
    { World x;
      for (int k = 0; k < depth; ++k) {
        int op = pick(22, "op"); if (op == 0) break;
        switch (op) {
        case 1: x.s[0].reset(new Base); x.ms[0] = nobj - 1; break;
        case 2: { Del dl = { &ndel }; x.s[1] = sp::shared_ptr<Base>(new Base, dl); x.ms[1] = nobj - 1; mark[nobj - 1] = true; break; }
        case 3: x.d[0] = sp::shared_ptr<Derived>(new Derived); x.md[0] = nobj - 1; break;
        case 4: x.s[0] = x.s[1]; x.ms[0] = x.ms[1]; break;
        case 5: x.s[1] = x.s[0]; x.ms[1] = x.ms[0]; break;
        case 6: x.s[0] = x.d[0]; x.ms[0] = x.md[0]; break;
        case 7: x.d[1] = sp::dynamic_pointer_cast<Derived>(x.s[0]); { bool isd = x.ms[0] >= 0 && dynamic_cast<Derived*>(x.s[0].get()); SEQ_CHECK((x.d[1].get() != NULL) == isd, "cast", "dynamic cast is wrong"); x.md[1] = isd ? x.ms[0] : -1; } break;
        case 8: x.s[0].reset(); x.ms[0] = -1; break;
        case 9: x.s[1].reset(); x.ms[1] = -1; break;
        case 10: x.d[0].reset(); x.md[0] = -1; break;
        case 11: x.w[0] = x.s[0]; x.mw[0] = x.ms[0]; break;
        case 12: x.w[1] = x.d[0]; x.mw[1] = x.md[0]; break;
        case 13: x.w[1] = x.w[0]; x.mw[1] = x.mw[0]; break;
        case 14: x.s[1] = x.w[0].lock(); x.ms[1] = x.live(x.mw[0]) ? x.mw[0] : -1; break;
        case 15: x.s[0].swap(x.s[1]); std::swap(x.ms[0], x.ms[1]); break;
        case 16: if (x.md[0] >= 0) { x.alias = sp::shared_ptr<int>(x.d[0], &x.d[0]->pad); x.malias = x.md[0]; } else { x.alias.reset(); x.malias = -1; } break;
        case 17: x.s[0] = x.s[0]; x.w[0] = x.w[0]; break;
        case 18: x.wd[0] = x.d[0]; x.mwd[0] = x.md[0]; break;
        case 19: { sp::weak_ptr<Base> conv(x.wd[0]); x.w[0] = conv; x.mw[0] = x.mwd[0]; break; }
        case 20: x.w[0].reset(); x.mw[0] = -1; break;
        case 21: x.w[0].swap(x.w[1]); std::swap(x.mw[0], x.mw[1]); break;
        }
        x.check();
      } }
    for (int o = 0; o < nobj; ++o) { SEQ_CHECK(objs[o].dead && objs[o].deletions == 1, "leak", "object %d destroyed %d times at the end", o, objs[o].deletions); want_del += mark[o]; }
    SEQ_CHECK(ndel == want_del, "deleter", "custom deleter called %d times for %d objects", ndel, want_del);
    obs("%d objects", nobj);
}
SEQ_CASE(scoped) {
    nobj = 0; int depth = 5; { sp::scoped_ptr<Base> a, b; sp::scoped_array<Base> arr; int ma = -1, mb = -1, marr = -1;
    for (int k = 0; k < depth; ++k) { int op = pick(7, "op"); if (op == 0) break;
      switch (op) { case 1: a.reset(new Base); ma = nobj - 1; break; case 2: b.reset(new Derived); mb = nobj - 1; break; case 3: a.swap(b); std::swap(ma, mb); break; case 4: a.reset(); ma = -1; break; case 5: arr.reset(new Base[2]); marr = nobj - 2; break; case 6: arr.reset(); marr = -1; break; }
      SEQ_CHECK((a.get() != NULL) == (ma >= 0) && (bool)a == (ma >= 0) && (ma < 0 || a->id == ma), "pointer", "scoped pointer is wrong"); SEQ_CHECK(marr < 0 || (arr[0].id == marr && arr[1].id == marr + 1), "pointer", "scoped array is wrong");
      for (int o = 0; o < nobj; ++o) { bool l = o == ma || o == mb || (marr >= 0 && (o == marr || o == marr + 1)); SEQ_CHECK(objs[o].dead == !l && objs[o].deletions <= 1, "lifetime", "object %d is %s", o, objs[o].dead ? "destroyed" : "alive"); } } }
    for (int o = 0; o < nobj; ++o) SEQ_CHECK(objs[o].deletions == 1, "leak", "object %d destroyed %d times", o, objs[o].deletions); obs("%d", nobj);
}
SEQ_MAIN
