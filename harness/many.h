// Vectors of many elements (around 2^8 and 2^16): one operation at either end or in the middle. Most contents are a
// pattern, four elements and what the operation puts in are solver variables.
#pragma once
#include "vf.h"
#include <type_traits>
namespace vfm {
typedef uint16_t X;
template <size_t Max> struct Model {
    X* x; size_t n = 0; Model() : x(new X[Max]) {} ~Model() { delete[] x; }
    void open(size_t p, size_t k) { if (n + k > Max) vf_fail("harness: model overflow"); __builtin_memmove(x + p + k, x + p, (n - p) * sizeof(X)); n += k; }
    void close(size_t p, size_t k) { __builtin_memmove(x + p, x + p + k, (n - p - k) * sizeof(X)); n -= k; }
    void fill(size_t p, size_t k, X v) { for (size_t i = 0; i < k; ++i) x[p + i] = v; }
};
struct Nt { X v; Nt() : v(0) {} Nt(X x) : v(x) {} Nt(const Nt& o) : v(o.v) {} Nt(Nt&& o) noexcept : v(o.v) { o.v = 0xdead; } Nt& operator=(const Nt& o) { v = o.v; return *this; } Nt& operator=(Nt&& o) noexcept { if (this != &o) { v = o.v; o.v = 0xbeef; } return *this; } ~Nt() { v = 0xaaaa; } bool operator==(const Nt& o) const { return v == o.v; } };
inline X get(const X& a) { return a; } inline X get(const Nt& a) { return a.v; }
template <class V, size_t Max> void same(const V& v, const Model<Max>& m) {
    vf_check(v.size() == m.n && v.empty() == (m.n == 0) && v.capacity() >= m.n && size_t(v.end() - v.begin()) == m.n, "size differs"); bool ok = true; auto* p = v.data(); for (size_t i = 0; i < m.n; ++i) ok &= get(p[i]) == m.x[i]; vf_check(ok, "an element differs"); 
    if (m.n) vf_check(&v[0] == p && &v[m.n - 1] == p + (m.n - 1) && &v.at(m.n - 1) == p + (m.n - 1) && &v.back() == p + (m.n - 1) && &*v.begin() == p && &*v.rbegin() == p + (m.n - 1), "access designates another element");
}
template <class V> auto swp(V& a, V& b, int) -> decltype(a.swap(b)) { a.swap(b); } template <class V> void swp(V& a, V& b, long) { V t(std::move(a)); a = std::move(b); b = std::move(t); }
// lim: the largest size which fits
template <class V, bool Pod, size_t Max> void run(const size_t* sizes, size_t cnt, size_t lim, size_t ops) {
    typedef typename V::value_type E; Model<Max> m; size_t n = sizes[vf::pick("n0", cnt)]; if (n > lim) n = lim; const size_t n0 = n;
    { V v; for (size_t i = 0; i < n; ++i) { bool probe = i == 0 || i == n / 2 || i == n - 1 || i == 255; m.x[i] = probe ? vf::u16("x") : X(i * 7 + 3); v.push_back(E(m.x[i])); } m.n = n; same(v, m); X y = vf::u16("y"); const E ey(y);
    for (size_t k = 0; k < ops; ++k) { size_t op = vf::pick("op", 18); n = m.n; { static const char* const L[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17"}; vf_reach(L[op]); }
        auto pos = [&](size_t hi) -> size_t { size_t q = vf::pick("pos", 4); return q == 0 ? 0 : q == 1 ? 1 < hi ? 1 : hi : q == 2 ? hi / 2 : hi; };
        auto room = [&]() -> size_t { size_t q = lim - m.n; return q > 300 ? 300 : q; };
        static E src[300]; for (size_t i = 0; op < 8 && i < 300; ++i) src[i] = i < 2 || i == 299 ? E(y) : E(X(i * 11));
        switch (op) {
        case 0: { vf_assume(n < lim); v.push_back(ey); m.open(n, 1); m.x[n] = y; break; }
        case 1: { vf_assume(n < lim); v.emplace_back(E(y)); m.open(n, 1); m.x[n] = y; break; }
        case 2: { vf_assume(n < lim); size_t p = pos(n); auto it = v.insert(v.begin() + ptrdiff_t(p), ey); vf_check(size_t(it - v.begin()) == p, "insertion gives another position"); m.open(p, 1); m.x[p] = y; break; }
        case 3: { size_t p = pos(n), c = room(); if (vf::flag("one")) c = c > 1 ? c - 1 : c; auto it = v.insert(v.begin() + ptrdiff_t(p), c, ey); vf_check(size_t(it - v.begin()) == p, "insertion gives another position"); m.open(p, c); m.fill(p, c, y); break; }
        case 4: { size_t p = pos(n), c = room(); auto it = v.insert(v.begin() + ptrdiff_t(p), src, src + c); vf_check(size_t(it - v.begin()) == p, "insertion gives another position"); m.open(p, c); for (size_t i = 0; i < c; ++i) m.x[p + i] = get(src[i]); break; }
        case 5: { size_t c = lim < 300 ? lim : 300; v.assign(src, src + c); m.n = c; for (size_t i = 0; i < c; ++i) m.x[i] = get(src[i]); break; }
        case 6: { vf_assume(n < lim); size_t p = pos(n); auto it = v.emplace(v.begin() + ptrdiff_t(p), E(y)); vf_check(size_t(it - v.begin()) == p, "insertion gives another position"); m.open(p, 1); m.x[p] = y; break; }
        case 7: { vf_assume(n > 0); v.pop_back(); m.close(n - 1, 1); break; }
        case 8: { vf_assume(n > 0); size_t p = pos(n - 1); auto it = v.erase(v.begin() + ptrdiff_t(p)); vf_check(size_t(it - v.begin()) == p, "erasure gives another position"); m.close(p, 1); break; }
        case 9: { size_t p = pos(n), c = vf::pick("cnt", 3); c = c == 0 ? n - p : c == 1 ? (n - p) / 2 : n - p > 256 ? 256 : 0; auto it = v.erase(v.begin() + ptrdiff_t(p), v.begin() + ptrdiff_t(p + c)); vf_check(size_t(it - v.begin()) == p, "erasure gives another position"); m.close(p, c); break; }
        case 10: case 11: { size_t q = vf::pick("new", 6), c = q == 0 ? lim : q == 1 ? lim - 1 : q == 2 ? n0 / 2 : q == 3 ? 255 : q == 4 ? 256 : 257; if (c > lim) c = lim; if (op == 10 && Pod) break; if (op == 10) v.resize(c); else v.resize(c, ey); if (c > n) { m.open(n, c - n); m.fill(n, c - n, op == 10 ? X(0) : y); } else m.close(c, n - c); break; }
        case 12: { size_t q = vf::pick("new", 4), c = q == 0 ? lim : q == 1 ? 255 : q == 2 ? 256 : 257; if (c > lim) c = lim; v.assign(c, ey); m.n = c; m.fill(0, c, y); break; }
        case 13: { V c(v); same(c, m); vf_check(c == v && !(c != v), "a copy compares unequal"); if (n) { c[n - 1] = E(X(m.x[n - 1] + 1)); vf_check(!(c == v) && c != v, "different vectors compare equal"); same(v, m); } V d; d.push_back(ey); d = v; same(d, m); break; }
        case 14: { V c(std::move(v)); same(c, m); v = std::move(c); break; }
        case 15: { V c; c.push_back(ey); c.push_back(ey); if (vf::flag("which")) swp(c, v, 0); else swp(v, c, 0); same(c, m); Model<4> w; w.n = 2; w.x[0] = w.x[1] = y; same(v, w); if (vf::flag("back")) swp(v, c, 0); else v = c; break; }
        case 16: { v.clear(); m.n = 0; same(v, m); size_t c = lim < 258 ? lim : 258; for (size_t i = 0; i < c; ++i) { v.push_back(E(X(i + y))); m.x[i] = X(i + y); } m.n = c; break; }
        default: { bool ok = true; size_t i = 0; for (auto& e : v) ok &= get(e) == m.x[i++]; vf_check(ok && i == n, "iteration differs"); i = n; for (auto it = v.rbegin(); it != v.rend(); ++it) ok &= get(*it) == m.x[--i]; vf_check(ok && i == 0, "iteration differs"); for (auto it = v.cbegin(); it != v.cend(); ++it) ++i; vf_check(i == n, "iteration differs"); break; }
        }
        same(v, m); }
    vf_observe(v.size()); for (size_t i = 0; i < m.n; i += m.n / 8 + 1) vf_observe(get(v[i])); }
    vf_reach("end");
}
static const size_t AROUND8[] = {254, 255, 256, 257}; static const size_t AROUND16[] = {65535, 65536};
} // namespace vfm
