#include "vf.h"
#include <cstddef>
using std::nullptr_t;
#include <itlib/any.hpp>
typedef vf::Tracked<1, true, true> V;           // copyable, a copy can throw
struct NC : vf::Tracked<2> { NC(uint32_t x) : Tracked<2>(x) {} NC(NC&& o) noexcept : Tracked<2>(std::move(o)) {} NC(const NC&) = delete; };
struct alignas(32) Big { uint32_t v; uint32_t fill[24]; explicit Big(uint32_t x = 0) : v(x) { vf_check(uintptr_t(this) % 32 == 0, "object stored at a misaligned address"); fill[23] = x; } Big(const Big& o) : v(o.v) { vf_check(uintptr_t(this) % 32 == 0, "object stored at a misaligned address"); fill[23] = o.fill[23]; } };
struct Rec { void* p; size_t n, a; int id; };
struct Recs { Rec r[32]; int cnt = 0; size_t live(int id = 0) { size_t n = 0; for (int i = 0; i < cnt; ++i) n += r[i].p && (!id || r[i].id == id); return n; } };
static Recs* g_recs; static bool g_failalloc;
struct RAlloc { // stateful, records every block
    int id; RAlloc(int i = 1) noexcept : id(i) {}
    void* allocate_bytes(size_t n, size_t a) {
        if (g_failalloc) throw std::bad_alloc();
        void* p = ::operator new(n, std::align_val_t(a < 16 ? 16 : a)); int k = 0; while (k < g_recs->cnt && g_recs->r[k].p) ++k; if (k == g_recs->cnt && ++g_recs->cnt > 32) vf_fail("harness: too many blocks");
        g_recs->r[k] = {p, n, a, id}; return p;
    }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept {
        for (int k = 0; k < g_recs->cnt; ++k) if (g_recs->r[k].p == p) { Rec& r = g_recs->r[k]; vf_check(r.n == n && r.a == a, "memory returned with another size or alignment than it was requested with"); vf_check(r.id == id, "memory returned to an allocator it did not come from"); ::operator delete(p, std::align_val_t(a < 16 ? 16 : a)); r.p = nullptr; return; }
        vf_fail("returned memory which was not obtained or already returned");
    }
};
struct Model { int k = 0; bool known = true; uint32_t v = 0; };
template <class Al, bool Rc> struct S {
    typedef itlib::any<Al> A;
    A *a, *b; Model ma, mb; int ida = 1, idb = 1;
    template <class T> static void probe(A& s, const Model& m, bool is, bool deep) {
        const A& c = s; T* p = itlib::any_cast<T>(&s); const T* q = itlib::any_cast<T>(&c);
        vf_check((p != nullptr) == is && q == p, "a value is returned for another type than it was stored as, or refused for its own");
        if (is) { vf_check(p == s.data() && q == c.data() && s.template tdata<T>() == p && c.template tdata<T>() == p && s.type() == typeid(T), "access to the value is inconsistent"); vf_check(&itlib::any_cast<T&>(s) == p && &itlib::any_cast<const T&>(c) == p, "any_cast to reference does not designate the stored object"); }
        else if (deep) { int n = 0; try { itlib::any_cast<T&>(s); } catch (std::bad_cast&) { ++n; } try { itlib::any_cast<const T&>(c); } catch (std::bad_cast&) { ++n; } vf_check(n == 2, "any_cast to a type which is not stored does not throw bad_cast"); }
    }
    static uint32_t& val(A& s, int k) { switch (k) { case 1: return itlib::any_cast<V>(&s)->v; case 2: return itlib::any_cast<NC>(&s)->v; case 3: return *itlib::any_cast<uint32_t>(&s); default: return itlib::any_cast<Big>(&s)->v; } }
    static void check(A& s, const Model& m, bool deep = false) {
        const A& c = s;
        vf_check(c.has_value() == (m.k != 0) && bool(c) == (m.k != 0) && (c.data() != nullptr) == (m.k != 0), "has_value is not whether a value was stored");
        if (!m.k) vf_check(c.type() == typeid(void), "the type of an empty any is not void");
        probe<V>(s, m, m.k == 1, deep); probe<NC>(s, m, m.k == 2, deep); probe<uint32_t>(s, m, m.k == 3, deep); probe<Big>(s, m, m.k == 4, deep); probe<int>(s, m, false, deep);
        if (m.k && m.known) { vf_check(val(s, m.k) == m.v, "the value is not the one which was stored"); if (m.k == 4) vf_check(itlib::any_cast<Big>(&s)->fill[23] == m.v, "the value is not the one which was stored"); if (m.k == 3) vf_check(itlib::any_cast<uint32_t>(s) == m.v && itlib::any_cast<const uint32_t>(s) == m.v, "the value is not the one which was stored"); if (m.k == 1) { V t = itlib::any_cast<V>(s); vf_check(t.v == m.v, "the value is not the one which was stored"); } }
    }
    void count() {
        vf_check(vf_live_count(1) == uint64_t((ma.k == 1) + (mb.k == 1)) && vf_live_count(2) == uint64_t((ma.k == 2) + (mb.k == 2)), "a stored object too many or too few is alive");
        if (Rc) vf_check(g_recs->live() == size_t((ma.k != 0) + (mb.k != 0)), "memory kept or returned wrongly");
    }
    void all(bool deep = false) { check(*a, ma, deep); check(*b, mb, deep); count(); }
    static A al(int id) { if constexpr (Rc) { const Al al(id); return A(al); } else return A(); }
    static void emp(A& s, Model& m, size_t k) {
        uint32_t x = vf::u32("x"); m.v = x; m.known = true;
        switch (k) {
        case 0: s.reset(); m.k = 0; break;
        case 1: { V& r = s.template emplace<V>(x); m.k = 1; vf_check(&r == s.data(), "emplace does not return the stored object"); break; }
        case 2: { NC& r = s.template emplace<NC>(x); m.k = 2; vf_check(&r == s.data(), "emplace does not return the stored object"); break; }
        case 3: s.template emplace<uint32_t>(x); m.k = 3; break;
        case 4: s.template emplace<Big>(x); m.k = 4; break;
        }
    }
    // store a value through assignment or construction, from an rvalue, lvalue or const lvalue; the source stays independent
    template <class T> void put(int k, bool construct) {
        uint32_t x = vf::u32("x"); T l(x); const T cl(x); size_t how = vf::pick("how", 3);
        if (construct) { if (how == 0) { A t(T{x}); *a = std::move(t); } else if (how == 1) { A t(l); *a = std::move(t); } else { A t(cl); *a = std::move(t); } }
        else { if (how == 0) *a = T{x}; else if (how == 1) *a = l; else *a = cl; }
        uint32_t& lv = [&]() -> uint32_t& { if constexpr (std::is_same<T, uint32_t>::value) return l; else return l.v; }();
        vf_check(lv == x, "storing an lvalue modified it"); lv = x + 1; ma.k = k; ma.v = x; ma.known = true; check(*a, ma); val(*a, k) = x + 2; ma.v = x + 2; if (k == 4) itlib::any_cast<Big>(a)->fill[23] = x + 2;
        vf_check(lv == x + 1, "the stored value is not independent of the object it was made from");
    }
    void lost(A& s, Model& m, bool may_keep) { if (!s.has_value()) m.k = 0; else vf_check(may_keep, "an any holds a value after its construction failed"); }
    static const size_t NOPS = 15;
    void step(size_t op) {
        switch (op) {
        case 0: put<V>(1, vf::flag("construct")); break;
        case 1: put<uint32_t>(3, vf::flag("construct")); break;
        case 2: put<Big>(4, vf::flag("construct")); break;
        case 3: { uint32_t x = vf::u32("x"); if (vf::flag("construct")) { A t{NC(x)}; *a = std::move(t); } else *a = NC(x); ma.k = 2; ma.v = x; ma.known = true; break; }
        case 4: emp(*a, ma, vf::pick("kind", 5)); break;
        case 5: { // copy construction
            bool fault = vf::flag("fault"), thrown = false, bad = false; vf::throw_at() = fault; const A& ca = *a; bool wa = vf::flag("alloc");
            auto chk = [&](A& o) { vf::throw_at() = 0; check(o, ma); if (ma.k && ma.known) { val(o, ma.k) = ma.v + 1; vf_check(val(*a, ma.k) == ma.v, "a copy is not independent of its source"); } };
            try { if (wa) { A o(ca, Al{}); chk(o); } else { A o(ca); chk(o); } } catch (std::bad_cast&) { bad = true; } catch (vf::Boom&) { thrown = true; }
            vf::throw_at() = 0; vf_check(bad == (ma.k == 2), "copying does not throw bad_cast exactly for a value which can not be copied"); vf_check(thrown == (fault && ma.k == 1), "an exception was lost"); break; }
        case 6: { // copy assignment
            bool fault = vf::flag("fault"), thrown = false, bad = false; vf::throw_at() = fault; const A& cb = *b;
            try { A& r = (*a = cb); vf_check(&r == a, "assignment does not return its target"); } catch (std::bad_cast&) { bad = true; } catch (vf::Boom&) { thrown = true; }
            vf::throw_at() = 0; vf_check(bad == (mb.k == 2), "copying does not throw bad_cast exactly for a value which can not be copied"); vf_check(thrown == (fault && mb.k == 1), "an exception was lost");
            if (bad || thrown) lost(*a, ma, true);
            else { ma = mb; if (ma.k && ma.known) { val(*a, ma.k) = ma.v + 1; vf_check(val(*b, mb.k) == mb.v, "a copy is not independent of its source"); val(*a, ma.k) = ma.v; } }
            break; }
        case 7: { void* was = b->data(); if (vf::flag("construct")) { A t(std::move(*b)); vf_check(!b->has_value(), "a moved from any is not empty"); *a = std::move(t); } else *a = std::move(*b); vf_check(a->data() == was, "moving an any does not move its value's storage"); ma = mb; mb.k = 0; break; }
        case 8: { A& r = *a; if (ma.k == 2) { try { *a = r; } catch (std::bad_cast&) {} } else *a = r; break; }
        case 9: { A& r = *a; *a = std::move(r); break; }
        case 10: { std::swap(*a, *b); std::swap(ma, mb); break; }
        case 11: { vf_assume(ma.k == 1); V t = itlib::any_cast<V>(std::move(*a)); vf_check(!ma.known || t.v == ma.v, "any_cast of an rvalue gives another value"); ma.known = false; break; }
        case 12: { // a failing construction
            bool thrown = false; uint32_t x = vf::u32("x"); V l(x); size_t how = vf::pick("how", 3); vf::throw_at() = 1;
            try { if (how == 0) a->template emplace<V>(x); else if (how == 1) *a = l; else a->template emplace<V>(l); } catch (vf::Boom&) { thrown = true; }
            vf::throw_at() = 0; vf_check(thrown, "an exception was lost"); lost(*a, ma, true); break; }
        case 13: { if constexpr (Rc) { bool thrown = false; size_t how = vf::pick("how", 3); g_failalloc = true; try { if (how == 0) a->template emplace<uint32_t>(1u); else if (how == 1) *a = V(2u); else { const A& cb = *b; *a = cb; } } catch (std::bad_alloc&) { thrown = true; } g_failalloc = false; vf_check(thrown || (how == 2 && !mb.k), "an exception was lost"); if (thrown) lost(*a, ma, true); else ma.k = 0; } else vf_assume(false); break; }
        case 14: std::swap(a, b); std::swap(ma, mb); break;
        }
    }
    void run(int id1, int id2) {
        Recs recs; g_recs = &recs; g_failalloc = false; vf::throw_at() = 0;
        { A x = al(id1), y = al(id2); a = &x; b = &y; emp(x, ma, vf::pick("kind", 5)); emp(y, mb, vf::pick("kind", 5)); all(true);
          size_t ops = vf_param("ops", 2); for (size_t k = 0; k < ops; ++k) { step(vf::pick("op", NOPS)); all(k + 1 == ops); }
          vf_observe(ma.k); vf_observe(mb.k); }
        vf_check(vf_live_count(0) == 0 && recs.live() == 0, "a stored object or its memory survives its owner");
        vf_reach("end");
    }
};
VF_ENTRY any_default() { S<itlib::anyimpl::default_allocator, false> s; s.run(1, 1); }
VF_ENTRY any_alloc() { S<RAlloc, true> s; s.run(1, 1); }
// assignment from (a part of) the own value
VF_ENTRY any_own() {
    Recs recs; g_recs = &recs; g_failalloc = false; vf::throw_at() = 0;
    { typedef itlib::any<RAlloc> A; A s; uint32_t x = vf::u32("x");
      struct Pair { V v; A in; Pair(uint32_t y) : v(y), in(V(y + 1)) {} };
      size_t how = vf::pick("how", 4); uint32_t want = how == 0 || how == 2 ? x + 1 : x;
      s.emplace<Pair>(x); Pair* p = itlib::any_cast<Pair>(&s);
      if (how == 0) { const A& in = p->in; s = in; } else if (how == 1) s = p->v; else if (how == 2) s = std::move(p->in); else s = std::move(p->v);
      V* r = itlib::any_cast<V>(&s); vf_check(r && r->v == want, "assigning the own content gives another value"); vf_check(vf_live_count(1) == 1 && recs.live() == 1, "memory kept or returned wrongly"); }
    vf_check(vf_live_count(0) == 0 && recs.live() == 0, "a stored object or its memory survives its owner"); vf_reach("end");
}
// two anys with allocators which can't release each other's blocks
VF_ENTRY any_unequal() { // everything but move assignment between the two
    Recs recs; g_recs = &recs; g_failalloc = false; vf::throw_at() = 0;
    { typedef itlib::any<RAlloc> A; const RAlloc a1(1), a2(2); A x(a1), y(a2); uint32_t v = vf::u32("x"), w = vf::u32("x"); x.emplace<V>(v); y.emplace<V>(w);
      vf_check(x.get_allocator().id == 1 && y.get_allocator().id == 2 && recs.live(1) == 1 && recs.live(2) == 1, "wrong allocator");
      size_t how = vf::pick("how", 5); const A& cy = y;
      if (how == 0) { x = cy; vf_check(itlib::any_cast<V>(&x)->v == w && x.get_allocator().id == 1 && recs.live(1) == 1, "wrong allocator"); }
      else if (how == 1) { A z(std::move(y)); vf_check(z.get_allocator().id == 2 && itlib::any_cast<V>(&z)->v == w && !y, "wrong allocator"); y.emplace<V>(v); }
      else if (how == 2) { A z(cy, RAlloc(3)); vf_check(z.get_allocator().id == 3 && itlib::any_cast<V>(&z)->v == w && recs.live(3) == 1, "wrong allocator"); }
      else if (how == 3) { V l(v); A z(std::allocator_arg, RAlloc(4), l); vf_check(z.get_allocator().id == 4 && itlib::any_cast<V>(&z)->v == v && recs.live(4) == 1, "wrong allocator"); z = V(w); z.reset(); }
      else { y = V(v); x.emplace<Big>(w); x = NC(v); } }
    vf_check(vf_live_count(0) == 0 && recs.live() == 0, "a stored object or its memory survives its owner"); vf_reach("end");
}
VF_ENTRY any_unequal_move() {
    Recs recs; g_recs = &recs; g_failalloc = false; vf::throw_at() = 0;
    { typedef itlib::any<RAlloc> A; const RAlloc a1(1), a2(2); A x(a1), y(a2); uint32_t v = vf::u32("x"); y.emplace<V>(v); if (vf::flag("full")) x.emplace<V>(v);
      if (vf::flag("emptied")) y.reset(); bool has = y.has_value(); x = std::move(y); vf_check(x.has_value() == has && !y.has_value(), "has_value is not whether a value was stored"); if (has) vf_check(itlib::any_cast<V>(&x)->v == v, "the value is not the one which was stored"); }
    vf_check(vf_live_count(0) == 0 && recs.live() == 0, "a stored object or its memory survives its owner"); vf_reach("end");
}
// types of all sizes and alignments, in memory which is aligned exactly as requested and ends where the request does
struct EAlloc {
    static size_t al(size_t a) { return 2 * a; }
    void* allocate_bytes(size_t n, size_t a) {
        vf_check(a && (a & (a - 1)) == 0, "requested alignment is not a power of two"); size_t x = al(a); char* p = (char*)::operator new(n + x / 2, std::align_val_t(x)) + x / 2;
        int k = g_recs->cnt++; if (k >= 32) vf_fail("harness: too many blocks"); g_recs->r[k] = {p, n, a, 1}; return p;
    }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept {
        for (int k = 0; k < g_recs->cnt; ++k) if (g_recs->r[k].p == p) { Rec& r = g_recs->r[k]; vf_check(r.n == n && r.a == a, "memory returned with another size or alignment than it was requested with"); ::operator delete((char*)p - al(r.a) / 2, std::align_val_t(al(r.a))); r.p = nullptr; return; }
        vf_fail("returned memory which was not obtained or already returned");
    }
};
template <size_t N, size_t Al> struct alignas(Al) Blob { uint8_t c[N]; explicit Blob(uint32_t x = 0) { c[0] = uint8_t(x); c[N / 2] = uint8_t(x >> 8); c[N - 1] = uint8_t(x >> 16); } bool is(uint32_t x) const { Blob b(x); return c[0] == b.c[0] && c[N / 2] == b.c[N / 2] && c[N - 1] == b.c[N - 1]; } };
static void nop1(int) {}
template <class T> static bool isVal(const T& t, uint32_t x) { if constexpr (std::is_arithmetic<T>::value || std::is_enum<T>::value) return t == T(x); else if constexpr (std::is_pointer<T>::value) return t == T(uintptr_t(x)); else return t.is(x); }
template <class T> static T mk(uint32_t x) { if constexpr (std::is_pointer<T>::value) return T(uintptr_t(x)); else return T(x); }
struct BaseT { uint32_t v; explicit BaseT(uint32_t x = 0) : v(x) {} virtual ~BaseT() {} bool is(uint32_t x) const { return v == x; } }; struct DerT : BaseT { using BaseT::BaseT; }; enum En : int { e0 }; enum class Ec : unsigned char { e0 };
template <class... Ts> struct Types {};
typedef Types<bool, char, signed char, unsigned char, char16_t, short, unsigned, int, long, long long, unsigned long, En, Ec, const char*, char*, void*, const int*, void (*)(int), BaseT, DerT, Blob<3, 1>, Blob<16, 16>, Blob<5, 32>, Blob<200, 64>, Blob<300, 256>, Blob<65600, 4>, Blob<200000, 8>> All;
template <class Al, class U> static int stored(const itlib::any<Al>& a) { itlib::any<Al>& m = const_cast<itlib::any<Al>&>(a); auto p = itlib::any_cast<U>(&a); auto q = itlib::any_cast<const U>(&m); vf_check(p == q, "any_cast to const differs"); if (p) { vf_check(uintptr_t(p) % alignof(U) == 0, "object stored at a misaligned address"); vf_check(a.type() == typeid(U), "type() is another type"); } return p != nullptr; }
template <class Al, class T, class... Ts> static void only(const itlib::any<Al>& a, uint32_t x, Types<Ts...>) {
    int n = 0; int d[] = {(n += stored<Al, Ts>(a))...}; (void)d; vf_check(n == 1 && stored<Al, T>(a), "a value is returned for another type than it was stored as, or refused for its own"); vf_check(isVal(*itlib::any_cast<T>(&a), x), "the value is not the one which was stored");
}
template <class Al, class T> static void oneType() {
    typedef itlib::any<Al> A; uint32_t x = vf::u32("x"); T l = mk<T>(x); const T c = l; A a;
    switch (vf::pick("how", 6)) { case 0: a = l; break; case 1: a = c; break; case 2: a = mk<T>(x); break; case 3: { A t(c); a = std::move(t); break; } case 4: a.template emplace<T>(l); break; case 5: { A t(std::move(l)); a = t; break; } }
    only<Al, T>(a, x, All());
    const A& k = a; switch (vf::pick("then", 5)) { case 0: { A b(k); only<Al, T>(b, x, All()); break; } case 1: { A b(std::move(a)); only<Al, T>(b, x, All()); vf_check(!a, "a moved from any is not empty"); break; } case 2: { A b; b.template emplace<uint16_t>(uint16_t(3)); b = k; only<Al, T>(b, x, All()); b.reset(); vf_check(!b, "reset leaves a value"); break; } case 3: { A b(k); b = 5; std::swap(a, b); only<Al, T>(b, x, All()); vf_check(itlib::any_cast<int>(a) == 5, "swap loses a value"); break; } case 4: vf_check(isVal(itlib::any_cast<T>(k), x) && isVal(itlib::any_cast<const T&>(a), x) && isVal(itlib::any_cast<T>(std::move(a)), x), "any_cast gives another value"); break; }
}
template <class Al, class... Ts> static void eachType(Types<Ts...>) { size_t t = vf::pick("type", sizeof...(Ts)), i = 0; int d[] = {(i++ == t ? oneType<Al, Ts>() : void(), 0)...}; (void)d; }
VF_ENTRY any_types() { Recs recs; g_recs = &recs; eachType<EAlloc>(All()); vf_check(recs.live() == 0, "memory survives its owner"); vf_reach("end"); }
VF_ENTRY any_types_default() { eachType<itlib::anyimpl::default_allocator>(All()); vf_reach("end"); }
// what is stored has the decayed type
VF_ENTRY any_decay() {
    Recs recs; g_recs = &recs; { typedef itlib::any<EAlloc> A; static char buf[4] = "abc"; static const int arr[3] = {1, 2, 3}; size_t k = vf::pick("kind", 6); bool as = vf::flag("assign"); A a;
    auto put = [&](auto&& v) { if (as) a = std::forward<decltype(v)>(v); else { A t(std::forward<decltype(v)>(v)); a = std::move(t); } };
    switch (k) { case 0: put("abc"); break; case 1: put(buf); break; case 2: put(arr); break; case 3: put(nop1); break; case 4: { const int i = 7; put(i); break; } case 5: { const DerT d(9); const BaseT& b = d; put(b); break; } }
    bool ok = k == 0 ? itlib::any_cast<const char*>(&a) && !itlib::any_cast<char*>(&a) && (*itlib::any_cast<const char*>(&a))[1] == 'b' : k == 1 ? itlib::any_cast<char*>(&a) && itlib::any_cast<char*>(a) == buf : k == 2 ? itlib::any_cast<const int*>(&a) && itlib::any_cast<const int*>(a) == arr : k == 3 ? itlib::any_cast<void (*)(int)>(&a) && itlib::any_cast<void (*)(int)>(a) == &nop1 : k == 4 ? itlib::any_cast<int>(&a) && itlib::any_cast<int>(a) == 7 : itlib::any_cast<BaseT>(&a) && !itlib::any_cast<DerT>(&a) && itlib::any_cast<BaseT>(a).v == 9;
    vf_check(ok, "the stored type is not the decayed type of the argument"); }
    vf_check(recs.live() == 0, "memory survives its owner"); vf_reach("end");
}
