#include "vf.h"
#include <itlib/expected.hpp>
#include <type_traits>
// values of tag 1, errors of tag 2; copies of both can throw
typedef vf::Tracked<1, true, true> V; typedef vf::Tracked<2, true, true> R;
struct Model { bool has = true; bool known = true; uint32_t v = 0, e = 0; const V* p = nullptr; };
template <class T, class E> struct S {
    typedef itlib::expected<T, E> X;
    static constexpr bool VOIDV = std::is_void<T>::value, REF = std::is_reference<T>::value, VAL = !VOIDV && !REF, VOIDE = std::is_void<E>::value;
    V* pool; X *a, *b; Model ma, mb;
    static uint32_t x() { return vf::u32("x"); }
    static void check(X& s, const Model& m) {
        const X& c = s;
        vf_check(c.has_value() == m.has && c.has_error() == !m.has && bool(c) == m.has, "has_value is not that of the last assignment");
        if (m.has) {
            if constexpr (VAL) { if (m.known) vf_check(s.value().v == m.v && c.value().v == m.v && (*s).v == m.v && (*c).v == m.v && s->v == m.v && c->v == m.v && &*s == &s.value() && s.operator->() == &s.value(), "the value is not that of the last assignment"); }
            if constexpr (REF) vf_check(&c.value() == m.p && &*c == m.p && c.operator->() == m.p, "the reference is not that of the last assignment");
        } else if constexpr (!VOIDE) { if (m.known) vf_check(s.error().v == m.e && c.error().v == m.e && &s.error() == &c.error(), "the error is not that of the last assignment"); }
    }
    void count() {
        uint64_t nv = (REF || VOIDV ? 0 : ma.has + mb.has) + 3, ne = VOIDE ? 0 : !ma.has + !mb.has;
        vf_check(vf_live_count(1) == nv, "a value object too many or too few is alive"); vf_check(vf_live_count(2) == ne, "an error object too many or too few is alive");
    }
    void all() { check(*a, ma); check(*b, mb); count(); }
    // a temporary in any state, constructed in any way
    template <class F> void make(Model& m, F f) {
        m.known = true;
        size_t k = vf::pick("make", 8);
        switch (k) {
        case 0: m.has = true; m.v = 0; if constexpr (!REF) { f(X()); } else { m.p = pool + 1; f(X(pool[1])); } break;
        case 1: { m.has = true; m.v = x(); if constexpr (VAL) { V t(m.v); f(X(std::move(t))); } else if constexpr (REF) { size_t i = vf::pick("obj", 2); m.p = pool + i; f(X(pool[i])); } else f(X()); break; }
        case 2: m.has = false; m.e = 0; { X t{itlib::unexpected()}; f(std::move(t)); } break;
        case 3: if constexpr (!VOIDE) { m.has = false; m.e = x(); f(X(itlib::unexpected(R(m.e)))); } else vf_assume(false); break;
        case 4: if constexpr (!VOIDE) { m.has = false; m.e = x(); R l(m.e); f(X(itlib::unexpected(l))); vf_check(l.v == m.e, "constructing from an lvalue modified it"); } else vf_assume(false); break;
        case 5: if constexpr (!VOIDE) { m.has = false; m.e = x(); const R l(m.e); f(X(itlib::unexpected(l))); vf_check(l.v == m.e, "constructing from an lvalue modified it"); } else vf_assume(false); break;
        case 6: if constexpr (!VOIDE) { m.has = false; m.e = x(); f(X(itlib::unexpected(uint32_t(m.e)))); } else vf_assume(false); break;
        case 7: if constexpr (!VOIDE) { m.has = false; m.e = x(); uint32_t l = m.e; f(X(itlib::unexpected(l))); vf_check(l == m.e, "constructing from an lvalue modified it"); } else vf_assume(false); break;
        }
    }
    void step(size_t op) {
        switch (op) {
        case 0: make(ma, [&](X&& t) { *a = std::move(t); }); break;
        case 1: *a = std::move(*b); ma = mb; if (REF ? !mb.has : true) mb.known = false; break;
        case 2: { X o(std::move(*a)); check(o, ma); check(*a, [&] { Model m = ma; m.known = false; return m; }()); *a = std::move(o); break; }
        case 3: { X& r = *a; *a = std::move(r); break; }
        case 4: if constexpr (!VOIDV) { // value_or
                if constexpr (REF) { V& r = static_cast<const X&>(*a).value_or(pool[2]); vf_check(&r == (ma.has ? ma.p : pool + 2), "value_or gives a wrong object"); }
                else {
                    uint32_t d = x(); vf_assume(ma.known);
                    size_t how = vf::pick("how", 4); V l(d);
                    if (how == 0) { V r = static_cast<const X&>(*a).value_or(l); vf_check(r.v == (ma.has ? ma.v : d), "value_or gives a wrong value"); vf_check(l.v == d, "value_or modified its lvalue argument"); }
                    else if (how == 1) { V r = a->value_or(V(d)); vf_check(r.v == (ma.has ? ma.v : d), "value_or gives a wrong value"); }
                    else if (how == 2) { V r = std::move(*a).value_or(l); vf_check(r.v == (ma.has ? ma.v : d), "value_or gives a wrong value"); vf_check(l.v == d, "value_or modified its lvalue argument"); if (ma.has) ma.known = false; }
                    else { V r = std::move(*a).value_or(d); vf_check(r.v == (ma.has ? ma.v : d), "value_or gives a wrong value"); if (ma.has) ma.known = false; }
                } } else vf_assume(false);
            break;
        case 5: // access as lvalue and rvalue
            if (ma.has) {
                if constexpr (VAL) {
                    uint32_t n = x(); size_t how = vf::pick("how", 5);
                    if (how == 0) a->value().v = n; else if (how == 1) (**a).v = n; else if (how == 2) (*a)->v = n; else if (how == 3) { vf_assume(ma.known); V t(std::move(*a).value()); vf_check(t.v == ma.v, "rvalue access gives a wrong value"); a->value().v = n; } else { vf_assume(ma.known); V t(*std::move(*a)); vf_check(t.v == ma.v, "rvalue access gives a wrong value"); a->value().v = n; }
                    ma.v = n; ma.known = true;
                } else if constexpr (REF) { uint32_t n = x(); a->value().v = n; vf_check(ma.p->v == n, "a reference does not designate its object"); }
            } else if constexpr (!VOIDE) { uint32_t n = x(); if (vf::flag("rv")) { vf_assume(ma.known); R t(std::move(*a).error()); vf_check(t.v == ma.e, "rvalue access gives a wrong error"); } a->error().v = n; ma.e = n; ma.known = true; }
            break;
        case 6: std::swap(a, b); std::swap(ma, mb); break;
        case 7: if constexpr (VOIDE) { a->clear(); ma.has = false; } else vf_assume(false); break;
        case 8: // emplace
            if constexpr (VOIDE) {
                if constexpr (VOIDV) a->emplace(); else if constexpr (REF) { size_t i = vf::pick("obj", 2); a->emplace(pool[i]); ma.p = pool + i; }
                else { uint32_t n = x(), q = x(); size_t how = vf::pick("how", 4); bool fault = vf::flag("fault"); V l(7u); if (how == 2) l.v = n; vf::throw_at() = fault;
                    try { if (how == 0) a->emplace(n); else if (how == 1) a->emplace(n, q); else if (how == 2) a->emplace(l); else a->emplace(); vf_check(!fault, "an exception of the value was swallowed"); ma.v = how == 0 || how == 2 ? n : how == 1 ? n + q : 0; ma.has = true; ma.known = true; }
                    catch (vf::Boom&) { ma.has = false; }
                    vf::throw_at() = 0; }
                if constexpr (!VAL) ma.has = true;
            } else vf_assume(false);
            break;
        case 9: // copies
            if constexpr (VOIDE) {
                size_t how = vf::pick("how", 3); bool fault = VAL && vf::flag("fault"); vf::throw_at() = fault ? 1 : 0; bool thrown = false;
                try {
                    if (how == 0) { const X o(*b); vf::throw_at() = 0; check(const_cast<X&>(o), mb); }
                    else if (how == 1) { const X& cb = *b; *a = cb; }
                    else { const X& ca = *a; *a = ca; }
                } catch (vf::Boom&) { thrown = true; }
                vf::throw_at() = 0;
                vf_check(!thrown || fault, "harness: unexpected exception");
                if (how == 1) { if (!thrown) ma = mb; else if (!ma.has) {} else vf_check(ma.has && mb.has, "an assignment which copies no value threw"); }
            } else vf_assume(false);
            break;
        }
    }
    static const size_t NOPS = 10;
    static void run() {
        vf::throw_at() = 0;
        V p[3] = {V(10u), V(11u), V(12u)};
        { S s; s.pool = p; X* pa = nullptr; X* pb = nullptr;
          alignas(X) unsigned char sa[sizeof(X)], sb[sizeof(X)];
          s.make(s.ma, [&](X&& t) { pa = new (sa) X(std::move(t)); }); s.make(s.mb, [&](X&& t) { pb = new (sb) X(std::move(t)); });
          s.a = pa; s.b = pb; s.all();
          size_t ops = vf_param("ops", 2);
          for (size_t k = 0; k < ops; ++k) { s.step(vf::pick("op", NOPS)); s.all(); }
          vf_observe(s.ma.has); vf_observe(s.mb.has);
          pa->~X(); pb->~X(); }
        vf_check(vf_live_count(1) == 3 && vf_live_count(2) == 0, "a payload object is alive after its owner is gone");
        vf_reach("end");
    }
};
VF_ENTRY exp_value_error() { S<V, R>::run(); }
VF_ENTRY exp_ref_error() { S<V&, R>::run(); }
VF_ENTRY exp_void_error() { S<void, R>::run(); }
VF_ENTRY exp_value_void() { S<V, void>::run(); }
VF_ENTRY exp_ref_void() { S<V&, void>::run(); }
VF_ENTRY exp_void_void() { S<void, void>::run(); }
// value and error of the same plain type; move-only payloads; results of functions
struct Only { uint32_t v; explicit Only(uint32_t x = 0) : v(x) {} Only(Only&& o) noexcept : v(o.v) { o.v = ~0u; } Only& operator=(Only&& o) noexcept { v = o.v; o.v = ~0u; return *this; } };
static itlib::expected<uint32_t, uint32_t> plain(bool ok, uint32_t x) { if (ok) return uint32_t(x); return itlib::unexpected(x); }
static itlib::expected<Only, Only> only(bool ok, uint32_t x) { if (ok) return Only(x); return itlib::unexpected(Only(x)); }
static itlib::expected<void, uint32_t> none(bool ok, uint32_t x) { if (ok) return {}; return itlib::unexpected(x); }
VF_ENTRY exp_plain() {
    bool o1 = vf::flag("o1"), o2 = vf::flag("o2"); uint32_t x = vf::u32("x"), y = vf::u32("y");
    auto a = plain(o1, x); vf_check(a.has_value() == o1 && (o1 ? a.value() : a.error()) == x && a.value_or(y) == (o1 ? x : y), "wrong state of a returned expected");
    a = plain(o2, y); vf_check(a.has_value() == o2 && (o2 ? a.value() : a.error()) == y, "wrong state of an assigned expected");
    auto b = only(o1, x); b = only(o2, y); vf_check(b.has_value() == o2 && (o2 ? b.value() : b.error()).v == y, "wrong state of an assigned expected");
    Only t = only(o1, x).value_or(Only(y)); vf_check(t.v == (o1 ? x : y), "value_or gives a wrong value");
    auto c = none(o1, x); c = none(o2, y); vf_check(c.has_value() == o2 && (o2 || c.error() == y), "wrong state of an assigned expected");
    vf_reach("end");
}
// moving, and taking from an rvalue, copies nothing
template <int Tag> struct Cnt { uint32_t v; static int copies; Cnt(uint32_t x = 0) : v(x) {} Cnt(const Cnt& o) : v(o.v) { ++copies; } Cnt(Cnt&& o) noexcept : v(o.v) { o.v = 0xeeee; } Cnt& operator=(const Cnt& o) { v = o.v; ++copies; return *this; } Cnt& operator=(Cnt&& o) noexcept { uint32_t t = o.v; o.v = 0xeeee; v = t; return *this; } };
template <int Tag> int Cnt<Tag>::copies;
template <class T, class E> static void moves() {
    typedef itlib::expected<T, E> X; typedef Cnt<1> C; typedef Cnt<2> D; C obj(5), alt(6); C::copies = D::copies = 0;
    constexpr bool VAL = std::is_same<T, C>::value, REF = std::is_same<T, C&>::value, ERR = std::is_same<E, D>::value;
    bool h[2] = {vf::flag("has0"), vf::flag("has1")}; uint32_t x[2] = {vf::u32("x0"), vf::u32("x1")};
    auto mk = [&](int i) -> X { if (h[i]) { if constexpr (VAL) return C(x[i]); else if constexpr (REF) return X(obj); else return X(); } if constexpr (ERR) return itlib::unexpected(D(x[i])); else return itlib::unexpected(); };
    X a = mk(0), b(std::move(a)); X c = mk(1); c = std::move(b); X d = mk(1); d = std::move(c); d = mk(1); d = mk(0);
    vf_check(d.has_value() == h[0], "has_value is not that of the last assignment");
    if (h[0]) {
        if constexpr (VAL) { vf_check(d->v == x[0], "the value is not that of the last assignment"); C y = vf::flag("how") ? std::move(d).value_or(C(1u)) : *std::move(d); vf_check(y.v == x[0], "rvalue access gives a wrong value"); }
        if constexpr (REF) vf_check(&*d == &obj && obj.v == 5, "a reference does not designate its object");
    } else {
        if constexpr (VAL) { C y = std::move(d).value_or(C(9u)); vf_check(y.v == 9, "value_or gives a wrong value"); }
        if constexpr (REF) vf_check(&d.value_or(alt) == &alt, "value_or gives a wrong object");
        if constexpr (ERR) { vf_check(d.error().v == x[0], "the error is not that of the last assignment"); D y = std::move(d).error(); vf_check(y.v == x[0], "rvalue access gives a wrong error"); }
    }
    vf_check(C::copies == 0 && D::copies == 0, "something is copied where it should be moved");
    if constexpr (VAL && !ERR) { const X e(mk(0)); X f(e); vf_check(C::copies == (h[0] ? 1 : 0) && f.has_value() == h[0] && (!h[0] || (f->v == x[0] && e->v == x[0])), "a copy differs"); X g(mk(1)); C::copies = 0; g = e; vf_check(C::copies == (h[0] ? 1 : 0) && g.has_value() == h[0] && (!h[0] || (g->v == x[0] && e->v == x[0])), "a copy differs"); g.emplace(C(3u)); vf_check(g->v == 3 && C::copies == (h[0] ? 1 : 0), "emplace copies"); }
    vf_reach("end");
}
VF_ENTRY exp_moves() {
    switch (vf::pick("types", 6)) {
    case 0: moves<Cnt<1>, Cnt<2>>(); break; case 1: moves<Cnt<1>&, Cnt<2>>(); break; case 2: moves<void, Cnt<2>>(); break;
    case 3: moves<Cnt<1>, void>(); break; case 4: moves<Cnt<1>&, void>(); break; default: moves<void, void>(); break;
    }
}
