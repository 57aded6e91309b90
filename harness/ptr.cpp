#include "vf.h"
#include <memory>
#include <itlib/make_ptr.hpp>
#include <itlib/shared_from.hpp>
// an element which counts its copies and moves
struct El { uint32_t v; static int copies, moves; El(uint32_t v) : v(v) { vf_live_add(this, 3); } El(const El& o) : v(o.v) { ++copies; vf_live_add(this, 3); } El(El&& o) noexcept : v(o.v) { ++moves; o.v = 0; vf_live_add(this, 3); } ~El() { vf_check(vf_live_del(this), "destroyed twice"); } };
int El::copies, El::moves;
VF_ENTRY make() {
    El::copies = El::moves = 0; uint32_t x = vf::u32("x"); {
    El e(x); const El c(x); 
    switch (vf::pick("make", 8)) {
    case 0: { auto p = itlib::make_shared(e); static_assert(std::is_same<decltype(p), std::shared_ptr<El>>::value, ""); vf_check(p.get() != &e && p->v == x && e.v == x && El::copies == 1 && !El::moves && p.use_count() == 1, "make_shared does not copy its lvalue argument once"); break; }
    case 1: { auto p = itlib::make_shared(std::move(e)); static_assert(std::is_same<decltype(p), std::shared_ptr<El>>::value, ""); vf_check(p.get() != &e && p->v == x && e.v == 0 && !El::copies && El::moves == 1 && p.use_count() == 1, "make_shared does not move its rvalue argument once"); break; }
    case 2: { auto p = itlib::make_shared(c); vf_check(p.get() != &c && p->v == x && El::copies == 1 && !El::moves && p.use_count() == 1, "make_shared does not copy its lvalue argument once"); break; }
    case 3: { auto p = itlib::make_unique(e); static_assert(std::is_same<decltype(p), std::unique_ptr<El>>::value, ""); vf_check(p.get() != &e && p->v == x && e.v == x && El::copies == 1 && !El::moves, "make_unique does not copy its lvalue argument once"); break; }
    case 4: { auto p = itlib::make_unique(std::move(e)); static_assert(std::is_same<decltype(p), std::unique_ptr<El>>::value, ""); vf_check(p.get() != &e && p->v == x && e.v == 0 && !El::copies && El::moves == 1, "make_unique does not move its rvalue argument once"); break; }
    case 5: { auto p = itlib::make_unique(c); vf_check(p.get() != &c && p->v == x && El::copies == 1 && !El::moves, "make_unique does not copy its lvalue argument once"); break; }
    case 6: { std::unique_ptr<uint32_t> u(new uint32_t(x)); auto raw = u.get(); auto p = itlib::make_shared(std::move(u)); vf_check(p->get() == raw && !u, "make_shared does not move its rvalue argument"); auto q = itlib::make_unique(std::move(*p)); vf_check(q->get() == raw && !*p, "make_unique does not move its rvalue argument"); break; }
    case 7: { auto p = itlib::make_shared(x); auto q = itlib::make_unique(uint64_t(x) << 8); vf_check(*p == x && *q == uint64_t(x) << 8, "the new object has another value"); break; }
    } } vf_check(vf_live_count(3) == 0, "an object is not destroyed"); vf_reach("end");
}
struct Base { uint32_t b = 1; virtual ~Base() {} }; struct Der : Base { El e, f; Der(uint32_t x) : e(x), f(x + 1) {} };
VF_ENTRY aliased() {
    El::copies = El::moves = 0; uint32_t x = vf::u32("x"); El outside(5); {
    std::shared_ptr<Der> owner; std::shared_ptr<Base> bowner; size_t kind = vf::pick("owner", 7);
    switch (kind) { case 0: owner = std::make_shared<Der>(x); break; case 1: owner.reset(new Der(x)); break; case 2: break; case 3: { auto d = std::make_shared<Der>(x); owner = std::shared_ptr<Der>(d, (Der*)nullptr); break; } // owns, but null
        case 4: owner = std::shared_ptr<Der>(std::shared_ptr<Der>(), (Der*)&outside); break; // not null, but owns nothing
        case 5: { auto d = std::make_shared<Der>(x); auto d2 = d; owner = std::move(d2); d.reset(); break; } case 6: owner = std::shared_ptr<Der>(nullptr, [](Der*) {}); break; }
    bowner = owner; bool owns = kind == 0 || kind == 1 || kind == 3 || kind == 5 || kind == 6; El* target = kind == 0 || kind == 1 || kind == 5 ? &owner->f : vf::flag("null") ? nullptr : &outside; long n = owner.use_count();
    {
        std::shared_ptr<El> a = vf::flag("base") ? itlib::make_aliased(bowner, target) : itlib::make_aliased(owner, target); std::shared_ptr<const El> ca = itlib::make_aliased(owner, (const El*)target);
        if (!owns) vf_check(!a && a.use_count() == 0 && !ca && ca.use_count() == 0, "an aliased pointer of an empty owner is not empty"); else { vf_check(a.get() == target && ca.get() == target && a.use_count() == n + 2, "an aliased pointer points elsewhere or does not share ownership"); vf_check(!a.owner_before(owner) && !owner.owner_before(a), "an aliased pointer has another owner"); }
    }
    vf_check(owner.use_count() == n, "the number of owners changed");
    if (kind < 2) { auto a = itlib::make_aliased(owner, &owner->e); std::weak_ptr<Der> w = owner; owner.reset(); bowner.reset(); vf_check(!w.expired() && a->v == x && a.use_count() == 1 && vf_live_count(3) == 3, "an aliased pointer does not keep its owner alive"); a.reset(); vf_check(w.expired() && vf_live_count(3) == 1, "the owner outlives its last owner"); }
    } vf_check(vf_live_count(3) == 1, "an object is not destroyed"); vf_reach("end");
}
// shared_from
struct Other { uint64_t pad = 0; virtual ~Other() {} };
struct Obj : Other, itlib::enable_shared_from { El member, arr[2]; Obj(uint32_t x) : member(x), arr{x + 1, x + 2} {}
    std::shared_ptr<Obj> self() { return shared_from(this); } std::shared_ptr<const Obj> self() const { return shared_from(this); } std::weak_ptr<Obj> wself() { return weak_from(this); } std::weak_ptr<const Obj> wself() const { return weak_from(this); }
    std::shared_ptr<El> mem() { return shared_from(&member); } std::shared_ptr<const El> el(size_t i) const { return shared_from(&arr[i]); } std::weak_ptr<El> wmem() { return weak_from(&member); }
    std::shared_ptr<void> v() { return shared_from_this(); } std::shared_ptr<const void> v() const { return shared_from_this(); } std::weak_ptr<void> wv() { return weak_from_this(); } std::weak_ptr<const void> wv() const { return weak_from_this(); } };
struct Obj2 : Obj { uint32_t more; Obj2(uint32_t x) : Obj(x), more(x) {} std::shared_ptr<Obj2> self2() { return shared_from(this); } };
template <class A, class B> bool sameOwner(const A& a, const B& b) { return !a.owner_before(b) && !b.owner_before(a); }
VF_ENTRY shared_from() {
    uint32_t x = vf::u32("x"); {
    std::shared_ptr<void> keep; Obj* o; // created as several types
    switch (vf::pick("as", 5)) { case 0: { auto p = std::make_shared<Obj>(x); o = p.get(); keep = std::move(p); break; } case 1: { std::shared_ptr<Obj> p(new Obj2(x)); o = p.get(); keep = std::move(p); break; } case 2: { auto p = std::make_shared<Obj2>(x); o = p.get(); keep = std::shared_ptr<Other>(std::move(p)); break; } case 3: { std::unique_ptr<Obj2> u(new Obj2(x)); o = u.get(); std::shared_ptr<Obj2> p(std::move(u)); Obj2* at = p->self2().get(); vf_check(at == p.get() && p.use_count() == 1, "shared_from of a derived class points elsewhere"); keep = std::move(p); break; } default: { auto c = std::make_shared<const Obj>(x); o = const_cast<Obj*>(c.get()); keep = std::const_pointer_cast<Obj>(c); c.reset(); break; } }
    const Obj* co = o; vf_check(keep.use_count() == 1, "the number of owners differs");
    switch (vf::pick("call", 12)) {
    case 0: { auto p = o->self(); vf_check(p.get() == o && sameOwner(p, keep) && keep.use_count() == 2, "shared_from points elsewhere or has another owner"); break; }
    case 1: { auto p = co->self(); vf_check(p.get() == o && sameOwner(p, keep) && keep.use_count() == 2, "shared_from points elsewhere or has another owner"); break; }
    case 2: { auto p = o->mem(); vf_check(p.get() == &o->member && sameOwner(p, keep) && keep.use_count() == 2, "shared_from points elsewhere or has another owner"); keep.reset(); vf_check(p->v == x && p.use_count() == 1 && vf_live_count(3) == 3, "shared_from does not keep the owner alive"); p.reset(); vf_check(vf_live_count(3) == 0, "the object outlives its last owner"); break; }
    case 3: { size_t i = vf::pick("i", 2); auto p = co->el(i); vf_check(p.get() == &o->arr[i] && sameOwner(p, keep), "shared_from points elsewhere or has another owner"); break; }
    case 4: { auto w = o->wself(); Obj* at = w.lock().get(); vf_check(!w.expired() && at == o && sameOwner(w, keep) && keep.use_count() == 1, "weak_from points elsewhere, has another owner or owns"); keep.reset(); vf_check(w.expired() && vf_live_count(3) == 0, "weak_from does not expire with the last owner"); break; }
    case 5: { auto w = co->wself(); const Obj* at = w.lock().get(); vf_check(!w.expired() && at == o && sameOwner(w, keep) && keep.use_count() == 1, "weak_from points elsewhere, has another owner or owns"); auto k2 = keep; keep.reset(); vf_check(!w.expired(), "weak_from expires before the last owner is gone"); k2.reset(); vf_check(w.expired() && vf_live_count(3) == 0, "weak_from does not expire with the last owner"); break; }
    case 6: { auto w = o->wmem(); El* at = w.lock().get(); vf_check(at == &o->member && keep.use_count() == 1, "weak_from points elsewhere or owns"); auto p = w.lock(); keep.reset(); vf_check(!w.expired() && p->v == x, "weak_from expires before the last owner is gone"); p.reset(); vf_check(w.expired() && vf_live_count(3) == 0, "weak_from does not expire with the last owner"); break; }
    case 7: { auto p = o->v(); vf_check(p && sameOwner(p, keep) && keep.use_count() == 2, "shared_from_this has another owner"); keep.reset(); vf_check(vf_live_count(3) == 3, "shared_from_this does not keep the owner alive"); p.reset(); vf_check(vf_live_count(3) == 0, "the object outlives its last owner"); break; }
    case 8: { auto p = co->v(); vf_check(p && sameOwner(p, keep) && keep.use_count() == 2, "shared_from_this has another owner"); break; }
    case 9: { auto w = o->wv(); vf_check(!w.expired() && sameOwner(w, keep) && keep.use_count() == 1, "weak_from_this has another owner or owns"); keep.reset(); vf_check(w.expired() && vf_live_count(3) == 0, "weak_from_this does not expire with the last owner"); break; }
    case 10: { auto w = co->wv(); vf_check(!w.expired() && sameOwner(w, keep) && keep.use_count() == 1, "weak_from_this has another owner or owns"); keep.reset(); vf_check(w.expired(), "weak_from_this does not expire with the last owner"); break; }
    case 11: { auto p = o->self(); auto q = p->mem(); std::weak_ptr<El> w = q; p.reset(); keep.reset(); vf_check(q->v == x && w.use_count() == 1, "a pointer from a shared_from pointer does not keep the owner alive"); break; }
    }
    if (keep) vf_check(keep.use_count() == 1, "the number of owners changed"); } vf_check(vf_live_count(3) == 0, "an object is not destroyed"); vf_reach("end");
}
VF_ENTRY unowned() { Obj o(3); bool t = false; try { o.self(); } catch (const std::bad_weak_ptr&) { t = true; } vf_check(t, "shared_from of an object without owner does not throw std::bad_weak_ptr");
#if __cplusplus >= 201700
    { const Obj& co = o; auto w = o.wv(); auto cw = co.wv(); vf_check(w.expired() && cw.expired() && !w.use_count() && !cw.use_count(), "weak_from_this of an object without owner is not empty"); }
#endif
    vf_reach("end"); }
// in the destructor of the object its last owner is gone
static int g_at; static bool g_ok; struct Dying : itlib::enable_shared_from { El e; Dying(uint32_t x) : e(x) {} ~Dying() { bool t = false; try {
#if __cplusplus >= 201700
    if (g_at == 1) { t = weak_from_this().expired(); } else if (g_at == 2) { const Dying& c = *this; t = c.weak_from_this().expired(); } else
#endif
    if (g_at == 3) t = weak_from(this).expired(); else if (g_at == 4) shared_from_this(); else shared_from(this); } catch (const std::bad_weak_ptr&) { t = g_at == 0 || g_at >= 3 || __cplusplus < 201700; } g_ok = t; } };
VF_ENTRY dying() { g_at = (int)vf::pick("call", 5); g_ok = false; { auto p = std::make_shared<Dying>(1u); auto q = p; p.reset(); vf_check(!g_ok, "destroyed too early"); } vf_check(g_ok, "an object without owners left gives out an owner"); vf_check(vf_live_count(3) == 0, "an object is not destroyed"); vf_reach("end"); }
