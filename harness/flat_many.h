// flat_map and flat_set of many elements: keys 4, 8, 12, ..., one operation with every key around some of them
#pragma once
#include "flat.h"
namespace vff {
template <class C, bool Map> struct ManyOps;
template <class C> struct ManyOps<C, true> {
    typedef std::pair<K, K> E; static E make(uint32_t k, uint32_t v) { return E(K(k), K(v)); } static uint32_t k(const E& e) { return e.first.v; } static uint32_t v(const E& e) { return e.second.v; }
    static std::pair<typename C::iterator, bool> emplace(C& c, uint32_t k, uint32_t v) { return c.emplace(K(k), K(v)); }
    static void special(C& c, uint32_t k, uint32_t v, bool has, uint32_t old) { K kk(k); K& r = c[kk]; if (has) vf_check(r.v == old, "operator[] gives another element"); else vf_check(r.v == 0, "operator[] does not give a new value"); r.v = v; }
    static const bool assigns = true; template <class M> static void at(C& c, const M&, uint32_t k, bool has, uint32_t old) { bool t = false; try { vf_check(c.at(K(k)).v == old && has, "at gives another element"); } catch (const std::out_of_range&) { t = true; } vf_check(t == !has, "at throws exactly when the key is absent"); }
};
template <class C> struct ManyOps<C, false> {
    typedef K E; static E make(uint32_t k, uint32_t) { return K(k); } static uint32_t k(const E& e) { return e.v; } static uint32_t v(const E&) { return 0; }
    static std::pair<typename C::iterator, bool> emplace(C& c, uint32_t k, uint32_t) { return c.emplace(k); }
    static void special(C& c, uint32_t k, uint32_t, bool, uint32_t) { const K kk(k); c.insert(kk); }
    static const bool assigns = false; template <class M> static void at(C&, const M&, uint32_t, bool, uint32_t) {}
};
template <class C, bool Map, class Cmp_> void many(const size_t* sizes, size_t cnt, bool desc) {
    typedef ManyOps<C, Map> O; typedef typename O::E E; static uint32_t mk[1100], mv[1100]; size_t n = sizes[vf::pick("n0", cnt)]; size_t how = vf::pick("how", 3); auto key = [&](size_t i) { return uint32_t(4 * (desc ? n - i : i + 1)); };
    for (size_t i = 0; i < n; ++i) { mk[i] = key(i); mv[i] = Map ? mk[i] + 1 : 0; }
    C c{Cmp_(desc)}; if (how == 2) { std::vector<E> src; src.reserve(n + 2); for (size_t i = 0; i < n; ++i) { size_t j = (i * 101) % n; src.push_back(O::make(mk[j], mv[j])); if (i == n / 2) src.push_back(O::make(mk[n / 3], mv[n / 3])); } C d(src.begin(), src.end(), Cmp_(desc)); c = std::move(d); } else for (size_t i = 0; i < n; ++i) { size_t j = how ? n - 1 - i : i; auto r = c.insert(O::make(mk[j], mv[j])); vf_check(r.second, "inserted flag differs from a map's"); }
    auto same = [&]() { const C& k = c; vf_check(c.size() == n && size_t(c.end() - c.begin()) == n && c.container().size() == n, "size differs"); bool ok = true; size_t i = 0; for (auto it = k.begin(); it != k.end(); ++it, ++i) ok &= (O::k(*it) == mk[i]) & (O::v(*it) == mv[i]); vf_check(ok && i == n, "iteration does not give the elements in order"); };
    same();
    size_t j; { size_t w = vf::pick("where", 6); j = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n / 2 : w == 3 ? n - 1 : w == 4 ? 127 : 254; if (j >= n) j = n - 1; } uint32_t x = mk[j] - 1 + uint32_t(vf::upto("x", 2)), y = vf::u32("y");
    bool before = desc ? mk[j] > x : mk[j] < x, has = mk[j] == x; size_t lo = j + before, up = lo + has; const C& cc = c; K q(x);
    auto ins = [&]() { if (has) return; for (size_t i = n; i > lo; --i) { mk[i] = mk[i - 1]; mv[i] = mv[i - 1]; } mk[lo] = x; mv[lo] = Map ? y : 0; ++n; };
    auto del = [&](size_t a, size_t e) { for (size_t i = e; i < n; ++i) { mk[a + i - e] = mk[i]; mv[a + i - e] = mv[i]; } n -= e - a; };
    switch (vf::pick("op", 8)) {
    case 0: { vf_check(cc.lower_bound(q) == nth(cc.begin(), lo) && c.lower_bound(q) == nth(c.begin(), lo), "lower_bound differs"); vf_check(cc.upper_bound(q) == nth(cc.begin(), up) && c.upper_bound(q) == nth(c.begin(), up), "upper_bound differs"); auto r = cc.equal_range(q); vf_check(r.first == nth(cc.begin(), lo) && r.second == nth(cc.begin(), up), "equal_range differs"); break; }
    case 1: { vf_check(cc.find(q) == nth(cc.begin(), has ? lo : n) && c.find(q) == nth(c.begin(), has ? lo : n) && cc.count(q) == size_t(has), "find differs"); Ot o{x}; vf_check(cc.find(o) == nth(cc.begin(), has ? lo : n), "find differs"); O::at(c, 0, x, has, mv[j]); break; }
    case 2: { auto r = c.insert(O::make(x, y)); vf_check(r.second == !has && r.first == nth(c.begin(), lo), "insertion gives another element"); ins(); break; }
    case 3: { auto r = O::emplace(c, x, y); vf_check(r.second == !has && r.first == nth(c.begin(), lo), "insertion gives another element"); ins(); break; }
    case 4: { size_t r = c.erase(q); vf_check(r == size_t(has), "erasure counts other elements"); if (has) del(j, j + 1); break; }
    case 5: { auto it = c.erase(c.begin() + ptrdiff_t(j)); vf_check(size_t(it - c.begin()) == j, "erasure gives another position"); del(j, j + 1); break; }
    case 6: { O::special(c, x, y, has, mv[j]); if (has) { if (O::assigns) mv[j] = y; } else ins(); break; }
    default: { C d(c); vf_check(d == c && !(d != c), "a copy compares unequal"); C e(std::move(d)); c.clear(); vf_check(c.empty(), "size differs"); c.swap(e); vf_check(e.empty(), "size differs"); break; }
    }
    same(); vf_observe(n); for (size_t i = 0; i < n; i += 37) vf_observe(mk[i]); vf_reach("end");
}
struct DirCmp { bool d; explicit DirCmp(bool d = false) : d(d) {} template <class A, class B> bool operator()(const A& a, const B& b) const { return d ? b.v < a.v : a.v < b.v; } typedef void is_transparent; };
static const size_t MANY[] = {255, 256, 257, 1000};
} // namespace vff
