#include "vf.h"
#include <vector>
#include <deque>
#include <list>
#include <memory>
#include <itlib/qalgorithm.hpp>
#include <itlib/span.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#ifdef VF_ENGINE
// these two are in libstdc++'s shared library
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
} }
#endif
using B = uint8_t; static const size_t N = 40;
struct Ref { B a[N]; size_t n; }; // contents before
static bool lt(B x, B t) { return x < t; }
static size_t firstOf(const Ref& r, bool byPred, B v) { size_t i = 0; while (i < r.n && !(byPred ? lt(r.a[i], v) : r.a[i] == v)) ++i; return i; }
template <class C> void fill(C& c, Ref& r) { r.n = vf::pick("n", vf_param("maxn", 4) + 1); for (size_t i = 0; i < r.n; ++i) { r.a[i] = vf::u8("e"); c.push_back(r.a[i]); } }
template <class C> void unchanged(const C& c, const Ref& r) { vf_check(c.size() == r.n, "a search changed the container"); bool ok = true; size_t i = 0; for (auto& x : c) ok &= x == r.a[i++]; vf_check(ok, "a search changed the container"); }
template <class C> static auto nth(C& c, size_t i) { auto it = c.begin(); while (i--) ++it; return it; }
// searches: c may be const
template <class C> void find(C& c, const Ref& r) {
    B v = vf::u8("v"); bool byPred = vf::flag("pred"); size_t f = firstOf(r, byPred, v);
    auto pr = [v](B x) { return lt(x, v); };
    auto it = byPred ? itlib::qfind_if(c, pr) : itlib::qfind(c, v); auto p = byPred ? itlib::pfind_if(c, pr) : itlib::pfind(c, v);
    if (f == r.n) vf_check(it == c.end() && p == nullptr, "something is found which does not match"); else { vf_check(it == nth(c, f), "not the first match is found"); vf_check(p == &*nth(c, f), "not the first match is found"); }
    unchanged(c, r); vf_observe(f);
}
template <class C> void all(const C& c, const Ref& r) {
    B v = vf::u8("v"); bool al = true, an = false, al0 = true, an0 = false; for (size_t i = 0; i < r.n; ++i) { al &= lt(r.a[i], v); an |= lt(r.a[i], v); al0 &= r.a[i] != 0; an0 |= r.a[i] != 0; }
    auto pr = [v](const B& x) { return lt(x, v); };
    vf_check(itlib::qall_of(c, pr) == al, "qall_of answers differently"); vf_check(itlib::qany_of(c, pr) == an, "qany_of answers differently"); vf_check(itlib::qnone_of(c, pr) == !an, "qnone_of answers differently");
    vf_check(itlib::qall_of(c) == al0, "qall_of answers differently"); vf_check(itlib::qany_of(c) == an0, "qany_of answers differently"); vf_check(itlib::qnone_of(c) == !an0, "qnone_of answers differently"); unchanged(c, r);
}
template <class C> void erase(C& c, const Ref& r) {
    B v = vf::u8("v"); bool byPred = vf::flag("pred"); auto pr = [v](B x) { return lt(x, v); }; B exp[N]; size_t m = 0, removed = 0;
    if (vf::flag("all")) { for (size_t i = 0; i < r.n; ++i) if (byPred ? lt(r.a[i], v) : r.a[i] == v) ++removed; else exp[m++] = r.a[i]; size_t k = byPred ? itlib::erase_all_if(c, pr) : itlib::erase_all(c, v); vf_check(k == removed, "the number of removed elements is not reported"); }
    else { size_t f = firstOf(r, byPred, v); for (size_t i = 0; i < r.n; ++i) if (i != f) exp[m++] = r.a[i]; bool k = byPred ? itlib::erase_first_if(c, pr) : itlib::erase_first(c, v); vf_check(k == (f != r.n), "it is not reported whether there was a match"); }
    vf_check(c.size() == m, "another number of elements is erased"); bool ok = true; for (size_t i = 0; i < m; ++i) ok &= *(c.begin() + i) == exp[i]; vf_check(ok, "other elements are erased, or the rest is reordered"); vf_observe(m);
}
template <class C> void test() { C c; Ref r; fill(c, r); switch (vf::pick("what", 4)) { case 0: find(c, r); break; case 1: find((const C&)c, r); break; case 2: all(c, r); break; case 3: erase(c, r); break; } vf_reach("end"); }
VF_ENTRY q_vector() { test<std::vector<B>>(); }
VF_ENTRY q_deque() { test<std::deque<B>>(); }
VF_ENTRY q_small() { test<itlib::small_vector<B, 2>>(); }
VF_ENTRY q_static() { test<itlib::static_vector<B, 6>>(); }
VF_ENTRY q_pod() { test<itlib::pod_vector<B>>(); }
VF_ENTRY q_span() { std::vector<B> c; Ref r; fill(c, r); auto s = itlib::make_span(c.data(), c.size()); const auto cs = itlib::make_span((const B*)c.data(), c.size()); switch (vf::pick("what", 4)) { case 0: find(s, r); break; case 1: find(cs, r); break; case 2: all(s, r); break; case 3: find((const decltype(s)&)s, r); break; } vf_reach("end"); }
// elements with a lifetime, compared with a value of another type
struct E { uint8_t k; std::unique_ptr<int> p; E(uint8_t k) : k(k), p(new int(k)) {} friend bool operator==(const E& a, uint16_t b) { return a.k == b; } };
VF_ENTRY q_moveonly() { std::vector<E> c; Ref r; r.n = vf::pick("n", 4); for (size_t i = 0; i < r.n; ++i) { r.a[i] = vf::u8("e") & 3; c.emplace_back(r.a[i]); } uint16_t v = vf::u16("v"); 
    if (vf::flag("all")) { size_t m = 0; B exp[N]; for (size_t i = 0; i < r.n; ++i) if (r.a[i] != v) exp[m++] = r.a[i]; size_t k = itlib::erase_all(c, v); vf_check(k == r.n - m && c.size() == m, "another number of elements is erased"); for (size_t i = 0; i < m; ++i) vf_check(c[i].k == exp[i] && c[i].p && *c[i].p == exp[i], "other elements are erased, or the rest is reordered"); }
    else { size_t f = 0; while (f < r.n && r.a[f] != v) ++f; auto p = itlib::pfind(c, v); vf_check(p == (f < r.n ? &c[f] : nullptr), "not the first match is found"); bool k = itlib::erase_first(c, v); vf_check(k == (f < r.n) && c.size() == r.n - k, "another number of elements is erased"); for (size_t i = 0, j = 0; i < r.n; ++i) if (i != f) { vf_check(c[j].k == r.a[i] && c[j].p && *c[j].p == r.a[i], "other elements are erased, or the rest is reordered"); ++j; } } vf_reach("end"); }

// a value of a wider type, values which are elements of the container, containers without random access
template <class C> void other(C& c, const Ref& r) {
    const C& k = c; size_t kind = vf::pick("kind", r.n ? 3 : 2), own = 0; int32_t w = int32_t(vf::u32("w")); int64_t l = int64_t(vf::u64("l")); if (kind == 2) { own = vf::pick("own", r.n); }
    auto first = [&](auto v) { size_t i = 0; while (i < r.n && !(r.a[i] == v)) ++i; return i; };
    auto check = [&](const auto& v) {
        size_t f = first(v); auto it = itlib::qfind(c, v); auto p = itlib::pfind(c, v); auto kt = itlib::qfind(k, v); auto kp = itlib::pfind(k, v);
        vf_check(it == nth(c, f) && kt == nth(k, f), "not the first match is found"); vf_check(p == (f < r.n ? &*nth(c, f) : nullptr) && kp == p, "not the first match is found"); unchanged(c, r);
        if (vf::flag("erase")) { bool e = itlib::erase_first(c, v); vf_check(e == (f < r.n), "it is not reported whether there was a match"); vf_check(c.size() == r.n - e, "another number of elements is erased"); size_t i = 0; bool ok = true; for (auto& x : c) { if (i == f) ++i; ok &= x == r.a[i++]; } vf_check(ok, "other elements are erased, or the rest is reordered"); }
    };
    if (kind == 0) check(w); else if (kind == 1) check(l); else check(*nth(c, own)); // an own element
    vf_reach("end");
}
VF_ENTRY q_other_vector() { std::vector<B> c; Ref r; fill(c, r); other(c, r); }
VF_ENTRY q_other_list() { std::list<B> c; Ref r; fill(c, r); other(c, r); }
VF_ENTRY q_other_pod() { itlib::pod_vector<B> c; Ref r; fill(c, r); other(c, r); }
// long containers: two elements are arbitrary, the others run through 0..6
template <class C> void lengthy() {
    C c; Ref r; static const size_t L[] = {9, 16, 17, 33}; r.n = L[vf::pick("n", 4)]; size_t x = vf::pick("x", 3) * (r.n - 1) / 2, y = r.n / 3;
    for (size_t i = 0; i < r.n; ++i) { r.a[i] = B((i * 5) % 7); if (i == x || i == y) r.a[i] = vf::u8("e"); c.push_back(r.a[i]); }
    switch (vf::pick("what", 4)) { case 0: find(c, r); break; case 1: find((const C&)c, r); break; case 2: all(c, r); break; case 3: erase(c, r); break; } vf_reach("end");
}
VF_ENTRY q_long_vector() { lengthy<std::vector<B>>(); }
VF_ENTRY q_long_pod() { lengthy<itlib::pod_vector<B>>(); }
VF_ENTRY q_long_static() { lengthy<itlib::static_vector<B, 40>>(); }
VF_ENTRY q_list() {
    std::list<B> c; Ref r; fill(c, r); 
    switch (vf::pick("what", 4)) { case 0: find(c, r); break; case 1: find((const std::list<B>&)c, r); break; case 2: all(c, r); break;
    case 3: { B v = vf::u8("v"); auto pr = [v](B x) { return lt(x, v); }; bool byPred = vf::flag("pred"); size_t f = firstOf(r, byPred, v); bool k = byPred ? itlib::erase_first_if(c, pr) : itlib::erase_first(c, v); vf_check(k == (f != r.n), "it is not reported whether there was a match"); vf_check(c.size() == r.n - k, "another number of elements is erased"); size_t i = 0; bool ok = true; for (auto& x : c) { if (i == f) ++i; ok &= x == r.a[i++]; } vf_check(ok, "other elements are erased, or the rest is reordered"); break; } }
    vf_reach("end");
}
// elements which are equal but not the same
struct Id { B k, id; bool operator==(const Id& o) const { return k == o.k; } };
template <class C> void ident() {
    C c; size_t n = vf::pick("n", vf_param("maxn", 4) + 1); B k[8]; for (size_t i = 0; i < n; ++i) { k[i] = vf::u8("e"); c.push_back(Id{k[i], B(i)}); }
    Id v{vf::u8("v"), 99}; bool byPred = vf::flag("pred"); auto pr = [v](const Id& x) { return x.k < v.k; }; auto m = [&](size_t i) { return byPred ? k[i] < v.k : k[i] == v.k; };
    size_t f = 0; while (f < n && !m(f)) ++f; size_t e[8], l = 0; bool all = vf::flag("all");
    auto p = byPred ? itlib::pfind_if(c, pr) : itlib::pfind(c, v); vf_check(f < n ? p && p->id == f : !p, "not the first match is found");
    auto it = byPred ? itlib::qfind_if(c, pr) : itlib::qfind(c, v); vf_check(f < n ? it != c.end() && it->id == f : it == c.end(), "not the first match is found");
    if (all) { for (size_t i = 0; i < n; ++i) if (!m(i)) e[l++] = i; vf_check((byPred ? itlib::erase_all_if(c, pr) : itlib::erase_all(c, v)) == n - l, "the number of removed elements is not reported"); }
    else { for (size_t i = 0; i < n; ++i) if (i != f) e[l++] = i; vf_check((byPred ? itlib::erase_first_if(c, pr) : itlib::erase_first(c, v)) == (f < n), "it is not reported whether there was a match"); }
    vf_check(c.size() == l, "another number of elements is erased"); size_t i = 0; bool ok = true; for (auto& x : c) ok &= x.id == e[i] && x.k == k[e[i]], ++i; vf_check(ok, "other elements are erased, or the rest is reordered"); vf_reach("end");
}
VF_ENTRY q_ident_vector() { ident<std::vector<Id>>(); }
VF_ENTRY q_ident_deque() { ident<std::deque<Id>>(); }
VF_ENTRY q_ident_small() { ident<itlib::small_vector<Id, 3>>(); }
// numbers of matches around 256
VF_ENTRY q_count256() {
    size_t n = 255 + vf::pick("n", 3), odd = vf::pick("odd", 3) * (n - 1) / 2; B e = vf::u8("e"), o = vf::u8("o"); std::vector<B> c(n, e); c[odd] = o; B v = vf::u8("v"); bool byPred = vf::flag("pred"); auto pr = [v](B x) { return lt(x, v); }; bool me = byPred ? lt(e, v) : e == v, mo = byPred ? lt(o, v) : o == v;
    auto is = [v](B x) { return x == v; };
    vf_check((byPred ? itlib::qany_of(c, pr) : itlib::qany_of(c, is)) == (me || mo), "qany_of answers differently"); vf_check((byPred ? itlib::qnone_of(c, pr) : itlib::qnone_of(c, is)) == !(me || mo), "qnone_of answers differently"); vf_check((byPred ? itlib::qall_of(c, pr) : itlib::qall_of(c, is)) == (me && mo), "qall_of answers differently");
    size_t f = me ? (odd == 0 && !mo ? 1 : 0) : mo ? odd : n; auto p = byPred ? itlib::pfind_if(c, pr) : itlib::pfind(c, v); vf_check(p == (f < n ? &c[f] : nullptr), "not the first match is found");
    size_t k = (me ? n - 1 : 0) + mo; vf_check((byPred ? itlib::erase_all_if(c, pr) : itlib::erase_all(c, v)) == k && c.size() == n - k, "another number of elements is erased"); bool ok = true; for (B x : c) ok &= me ? x == o : x == e || (!mo && x == o); vf_check(ok, "other elements are erased"); vf_reach("end");
}
