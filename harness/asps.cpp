#include "vf.h"
#include <atomic>
#include <memory>
#include <itlib/atomic_shared_ptr_storage.hpp>
// an object which knows whether it is alive; reading it from another thread needs a happens-before edge from its creation
static std::shared_ptr<struct Obj>* g_hook; static void hook();
static uint32_t g_pay[128]; static void pays() { for (int i = 0; i < 16; ++i) g_pay[i] = vf::u32("content"); g_pay[100] = vf::u32("content"); } // what each object contains: solver variables
struct Obj { uint32_t id, payload; Obj(uint32_t i) : id(i), payload(g_pay[i]) { vf_check(vf_live_get(this) == 0, "object constructed over a live object"); vf_live_add(this, 5); } ~Obj() { vf_check(vf_live_del(this), "destroyed twice"); vf_check(payload == g_pay[id], "destroyed object has lost its contents"); id = 0xdddd; if (g_hook) hook(); } Obj(const Obj&) = delete; };
using P = std::shared_ptr<Obj>; using S = itlib::atomic_shared_ptr_storage<Obj>;
struct Box { alignas(S) unsigned char raw[sizeof(S)]; S* p = nullptr; void reset() { if (p) p->~S(); p = nullptr; } ~Box() { reset(); } S& operator*() { return *p; } S* operator->() { return p; } };
static uint32_t idOf(const P& p) { if (!p) return 0; vf_check(vf_live_get(p.get()) == 5, "a pointer to a destroyed object was returned"); vf_check(p->payload == g_pay[p->id], "the object is not fully visible"); return p->id; }
enum Kind { Load, Store, StoreNull, Xchg, CasSeen, CasNull, Kinds };
struct Op { int kind; uint32_t arg, exp, res; bool ok; uint64_t b, e; };
static char g_clk[64]; static uint64_t stamp() { uint64_t n = vf_live_count(77); vf_live_add(&g_clk[n], 77); return n; } // no scheduling point, no memory access
struct Ctx { S* s; Op* op; int n; bool yield; P seen; };
static void doOp(S& s, Op& o, P& seen) {
    o.b = stamp(); o.ok = true;
    switch (o.kind) {
    case Load: { P p = s.load(); o.res = idOf(p); seen = std::move(p); break; }
    case Store: case StoreNull: s.store(o.arg ? std::make_shared<Obj>(o.arg) : P()); break;
    case Xchg: { P p = s.exchange(std::make_shared<Obj>(o.arg)); o.res = idOf(p); seen = std::move(p); break; }
    case CasSeen: case CasNull: { if (o.kind == CasNull) seen.reset(); o.exp = idOf(seen); Obj* was = seen.get(); o.ok = s.compare_exchange(seen, std::make_shared<Obj>(o.arg)); o.res = idOf(seen); if (o.ok) vf_check(seen.get() == was, "a successful compare_exchange changed the expected pointer"); break; }
    }
    o.e = stamp();
}
static void worker(void* a) { Ctx& c = *(Ctx*)a; P seen = std::move(c.seen); for (int i = 0; i < c.n; ++i) { if (c.yield) vf_yield(); doOp(*c.s, c.op[i], seen); } }
static bool lin(const Op* o, int n, unsigned done, uint32_t cur, uint32_t fin) {
    if (done == (1u << n) - 1) return cur == fin;
    for (int i = 0; i < n; ++i) {
        if (done >> i & 1) continue; bool first = true; for (int j = 0; j < n; ++j) if (!(done >> j & 1) && j != i && o[j].e < o[i].b) first = false;
        if (!first) continue; uint32_t nx = cur; bool fits = true;
        switch (o[i].kind) { case Load: fits = o[i].res == cur; break; case Store: case StoreNull: nx = o[i].arg; break; case Xchg: fits = o[i].res == cur; nx = o[i].arg; break; default: if (o[i].ok) { fits = cur == o[i].exp; nx = o[i].arg; } else fits = cur != o[i].exp && o[i].res == cur; }
        if (fits && lin(o, n, done | 1u << i, nx, fin)) return true;
    }
    return false;
}
static void concurrent(int threads, int per, bool yield) {
    pays(); Op ops[8] = {}; Ctx c[4]; int n = 0; bool empty = vf::flag("empty"); Box s; if (empty) s.p = new (s.raw) S; else s.p = new (s.raw) S(std::make_shared<Obj>(100)); const bool pre = !empty && (threads * per == 2 || vf_param("pre", 0)) && vf::flag("preloaded"); // the expected pointer of the first compare_exchange is the initial one
    for (int t = 0; t < threads; ++t) { c[t] = {&*s, ops + n, per, yield, pre ? s->load() : P()}; for (int i = 0; i < per; ++i) { ops[n].kind = (int)vf::pick("op", Kinds); ops[n].arg = ops[n].kind == StoreNull ? 0 : uint32_t(10 + n); ++n; } }
    for (int t = 1; t < threads; ++t) vf_spawn(worker, &c[t]); worker(&c[0]); vf_join_all();
    uint32_t fin = idOf(s->load()); vf_check(lin(ops, n, 0, empty ? 0 : 100, fin), "the results are those of no order of the calls");
    vf_check(vf_live_count(5) == (fin != 0), "an object was not destroyed after its last owner was gone"); s.reset(); vf_check(vf_live_count(5) == 0, "an object was not destroyed after its last owner was gone"); 
    vf_observe(fin); for (int i = 0; i < n; ++i) { vf_observe(ops[i].res); vf_observe(ops[i].ok); } vf_reach("end");
}
VF_ENTRY two() { concurrent(2, (int)vf_param("per", 1), false); }
VF_ENTRY two2() { concurrent(2, 2, false); }
VF_ENTRY three() { concurrent(3, 1, false); }
// sequential histories
VF_ENTRY seq() { pays(); Op ops[8] = {}; bool empty = vf::flag("empty"); Box s; if (empty) s.p = new (s.raw) S; else s.p = new (s.raw) S(std::make_shared<Obj>(100)); P seen; uint32_t cur = empty ? 0 : 100; int n = (int)vf_param("ops", 4);
    for (int i = 0; i < n; ++i) { ops[i].kind = (int)vf::pick("op", Kinds); ops[i].arg = ops[i].kind == StoreNull ? 0 : uint32_t(10 + i); doOp(*s, ops[i], seen); 
        switch (ops[i].kind) { case Load: vf_check(ops[i].res == cur, "load gives another object"); break; case Store: case StoreNull: cur = ops[i].arg; break; case Xchg: vf_check(ops[i].res == cur, "exchange gives another object"); cur = ops[i].arg; break; default: vf_check(ops[i].ok == (ops[i].exp == cur), "compare_exchange succeeds exactly when the stored pointer is the expected one"); if (ops[i].ok) cur = ops[i].arg; else vf_check(ops[i].res == cur, "a failed compare_exchange does not give the stored object"); } 
        vf_check(idOf(s->load()) == cur, "the stored object differs"); vf_check(vf_live_count(5) == (cur != 0) + (seen && seen->id != cur), "an object is kept or lost"); }
    seen.reset(); s.reset(); vf_check(vf_live_count(5) == 0, "an object was not destroyed after its last owner was gone"); vf_observe(cur); vf_reach("end"); }
// the destructor of a stored object uses the storage
static S* g_s; static int g_depth; static void hook() { if (g_depth++ < 2) { P p = g_s->load(); (void)idOf(p); } }
VF_ENTRY reenter() { pays(); P dummy; g_hook = &dummy; S s(std::make_shared<Obj>(100)); g_s = &s; switch (vf::pick("op", 4)) { case 0: s.store(std::make_shared<Obj>(1)); break; case 1: s.exchange(std::make_shared<Obj>(1)); break; case 2: { P e = std::make_shared<Obj>(2); bool ok = s.compare_exchange(e, std::make_shared<Obj>(1)); vf_check(!ok && idOf(e) == 100, "compare_exchange with another pointer succeeded"); break; } case 3: { P e = s.load(); bool ok = s.compare_exchange(e, std::make_shared<Obj>(1)); vf_check(ok, "compare_exchange with the stored pointer failed"); break; } } g_hook = nullptr; vf_reach("end"); }
// pointers which share an owner of another object, own nothing or own and point at nothing; the same pointer stored again
struct Two { Obj a, b; Two(uint32_t i) : a(i), b(i + 1) {} };
static bool sameOwner(const P& a, const P& b) { return !a.owner_before(b) && !b.owner_before(a) && a.get() == b.get(); }
static int g_del; struct Del { int tag; void operator()(Obj* p) const { vf_check(tag == 4711, "the deleter is not the one given"); ++g_del; delete p; } };
static P mk(size_t how, std::shared_ptr<Two>& two, Obj& loose) { switch (how) { case 0: return P(); case 1: return P(two, &two->a); case 2: return P(two, &two->b); case 3: return P(P(), &loose); case 4: return P(two, (Obj*)nullptr); default: return P(new Obj(8), Del{4711}); } }
VF_ENTRY alias() { pays(); g_del = 0; { Obj loose(6); int dels = 0; { std::shared_ptr<Two> two = std::make_shared<Two>(1); std::weak_ptr<Two> w = two; P cur = mk(vf::pick("first", 6), two, loose); if (cur && cur->id == 8) ++dels; S s(cur); two = std::shared_ptr<Two>(w.lock());
    for (size_t k = 0, n = vf_param("ops", 2); k < n; ++k) { size_t op = vf::pick("op", 6), h = op < 3 ? vf::pick("how", 6) : 0; P nx = op < 3 ? mk(h, two, loose) : P(); if (nx && nx->id == 8) ++dels; long uses = cur.use_count();
        switch (op) {
        case 0: s.store(nx); cur = nx; break;
        case 1: { P o = s.exchange(nx); vf_check(sameOwner(o, cur), "exchange gives another object"); cur = nx; break; }
        case 2: { P e = cur; bool ok = s.compare_exchange(e, nx); vf_check(ok && sameOwner(e, cur), "compare_exchange with the stored pointer failed"); cur = nx; break; }
        case 3: s.store(s.load()); vf_check(cur.use_count() == uses, "an owner is kept or lost"); break; 
        case 4: { P e = s.load(); bool ok = s.compare_exchange(e, e); vf_check(ok && sameOwner(e, cur), "compare_exchange with the stored pointer failed"); e.reset(); vf_check(cur.use_count() == uses, "an owner is kept or lost"); break; }
        case 5: { P e = std::make_shared<Obj>(9); bool ok = s.compare_exchange(e, e); vf_check(!ok && sameOwner(e, cur), "a failed compare_exchange does not give the stored object"); e.reset(); vf_check(cur.use_count() == uses, "an owner is kept or lost"); break; }
        }
        P l = s.load(); const S& cs = s; vf_check(sameOwner(l, cur) && sameOwner(cs.load(), cur), "load gives another object"); vf_observe(cur.use_count()); }
    two.reset(); bool held = cur.get() && (cur->id == 1 || cur->id == 2); (void)held; P l = s.load(); vf_check(cur.use_count() == 0 || l.use_count() == cur.use_count(), "an owner is kept or lost"); cur.reset(); vf_check(l.use_count() == 0 || l.use_count() == 2, "an owner is kept or lost"); bool own = !l.owner_before(w) && !w.owner_before(l); l.reset(); vf_check(w.expired() == !own, "an object is kept or lost"); }
    vf_check(g_del == dels, "an object was not destroyed after its last owner was gone"); }
    vf_check(vf_live_count(5) == 0, "an object was not destroyed after its last owner was gone"); vf_reach("end"); }
