#include "vf.h"
#include <itlib/span.hpp>
#include <itlib/memory_view.hpp>
#include <vector>
#include <array>
#include <memory>
struct P12 { uint32_t a, b, c; };
enum { N = 4 };
static uint32_t& key(uint32_t& x) { return x; } static uint32_t& key(P12& x) { return x.b; } static uint8_t& key(uint8_t& x) { return x; }
static const uint32_t& key(const uint32_t& x) { return x; } static const uint32_t& key(const P12& x) { return x.b; } static const uint8_t& key(const uint8_t& x) { return x; }
// the view must show exactly the elements [p, p + n)
template <class S, class T> void shows(S& s, T* p, size_t n) {
    const S& c = s;
    vf_check(c.size() == n && c.empty() == (n == 0), "size is not the number of requested elements");
    vf_check(c.data() == p && s.data() == p && bool(c) == (p != nullptr), "data does not designate the first requested element");
    vf_check(s.begin() == p && s.end() == p + n && c.cbegin() == p && c.cend() == p + n, "iterators do not cover exactly the requested elements");
    size_t i = 0; for (auto& x : s) { vf_check(&x == p + i && i < n, "iteration leaves the requested elements"); ++i; } vf_check(i == n, "iteration misses an element");
    i = 0; for (auto it = s.rbegin(); it != s.rend(); ++it) { vf_check(i < n && &*it == p + (n - 1 - i), "reverse iteration leaves the requested elements"); ++i; } vf_check(i == n, "reverse iteration misses an element");
    i = 0; for (auto it = c.rbegin(); it != c.rend(); it++) { vf_check(i < n && &*it == p + (n - 1 - i), "reverse iteration leaves the requested elements"); ++i; } vf_check(i == n, "reverse iteration misses an element");
    i = 0; for (auto it = c.crbegin(); it != c.crend(); ++it) { vf_check(i < n && &*it == p + (n - 1 - i), "reverse iteration leaves the requested elements"); ++i; } vf_check(i == n, "reverse iteration misses an element");
    if (n) { uint64_t k = vf::upto("k", n - 1); vf_check(&s[k] == p + k && &s.at(k) == p + k && &c[k] == p + k && &c.at(k) == p + k, "an index designates another element"); vf_check(&s.front() == p && &s.back() == p + n - 1 && &c.front() == p && &c.back() == p + n - 1, "front or back is another element"); }
}
template <class T> void bytes(itlib::span<T> s) {
    auto b = s.as_bytes(); auto w = s.as_writable_bytes();
    vf_check((const void*)b.data() == s.data() && b.size() == s.size() * sizeof(T) && (const void*)w.data() == s.data() && w.size() == b.size() && s.size_bytes() == b.size(), "a byte view does not cover exactly the elements' bytes");
}
// any 64-bit value: one path per value up to n, one for all larger ones
static uint64_t any(const char* name, size_t n) { uint64_t v = vf::u64(name); if (v <= n) return vf_concretize(v); return v; }
struct Range { size_t b = 0, n = 0; };
template <class S, class T> void slice(S& s, T* base, Range& r, size_t op) {
    switch (op) {
    case 0: { uint64_t off = any("off", r.n), cnt = any("cnt", r.n); size_t o = off < r.n ? off : r.n, l = off > r.n ? 0 : r.n - o; l = cnt < l ? cnt : l; S t = s.subspan(off, cnt); vf_check(t.size() == l, "subspan has a wrong number of elements"); if (l) vf_check(t.data() == base + r.b + o, "subspan starts at another element"); else vf_check(t.data() >= base + r.b && t.data() <= base + r.b + r.n, "an empty subspan lies outside its span"); if (l) s = t, r.b += o, r.n = l; break; }
    case 1: { uint64_t off = any("off", r.n); size_t o = off < r.n ? off : r.n; S t = s.subspan(off); vf_check(t.size() == r.n - o, "subspan has a wrong number of elements"); if (o < r.n) { vf_check(t.data() == base + r.b + o, "subspan starts at another element"); s = t; r.b += o; r.n -= o; } break; }
    case 2: { uint64_t cnt = any("cnt", r.n); size_t l = cnt < r.n ? cnt : r.n; s = s.first(cnt); r.n = l; break; }
    case 3: { size_t n = vf::pick("n", r.n + 1); s = s.last(n); r.b += r.n - n; r.n = n; break; }
    case 4: { size_t n = vf::pick("n", r.n + 1); s.remove_prefix(n); r.b += n; r.n -= n; break; }
    case 5: { size_t n = vf::pick("n", r.n + 1); s.remove_suffix(n); r.n -= n; break; }
    case 6: { S t(s); S u; u = t; s = std::move(u); S v(std::move(s)); s = v; break; }
    }
}
template <class T> void sp() {
    T* a = new T[N]; for (size_t i = 0; i < N; ++i) key(a[i]) = decltype(+key(a[i]) * 1 + 0)(vf_sym("v", 8));
    Range r; r.b = vf::pick("b", 2); r.n = vf::pick("n0", N - r.b + 1); T* p = a + r.b;
    itlib::span<T> s; shows(s, (T*)nullptr, 0);
    std::vector<T> vec; std::array<T, 3> arr = {}; T raw[3] = {}; T* base = a;
    size_t mk = vf::pick("make", 7); switch (mk) {
    case 0: s = itlib::span<T>(p, r.n); break;
    case 1: s = itlib::span<T>(p, p + r.n); break;
    case 2: s = itlib::make_span(p, r.n); break;
    case 3: s = itlib::make_span(p, p + r.n); break;
    case 4: vec.assign(p, p + r.n); r.b = 0; base = vec.data(); if (vf::flag("make_span")) s = itlib::make_span(vec); else s = itlib::span<T>(vec); break;
    case 5: r.b = 0; r.n = 3; base = arr.data(); s = itlib::span<T>(arr); break;
    case 6: r.b = 0; r.n = 3; base = raw; if (vf::flag("make_span")) s = itlib::make_span(raw); else s = itlib::span<T>(raw); break;
    }
    shows(s, base + r.b, r.n); bytes(s);
    size_t ops = vf_param("ops", 2); if (mk > 1 && ops > 1) ops = 1;
    for (size_t k = 0; k < ops; ++k) { slice(s, base, r, vf::pick("op", 7)); shows(s, base + r.b, r.n); bytes(s); }
    itlib::span<const T> c(s); shows(c, (const T*)base + r.b, r.n); bytes(c); itlib::span<const T> d; d = s; shows(d, (const T*)base + r.b, r.n);
    if (r.n) { slice(c, (const T*)base, r, vf::pick("cop", 6)); shows(c, (const T*)base + r.b, r.n); const std::vector<T> cv(base + r.b, base + r.b + r.n); itlib::span<const T> e(cv); shows(e, cv.data(), r.n); for (size_t i = 0; i < r.n; ++i) vf_check(key(e[i]) == key(base[r.b + i]), "an element read through a view has another value"); }
    if (r.n) { uint64_t k = vf::upto("k", r.n - 1); s = itlib::span<T>(base + r.b, r.n); key(s[k]) = 77; vf_check(key(base[r.b + k]) == 77, "a write through a view is lost"); }
    vf_observe(r.b); vf_observe(r.n); delete[] a; vf_reach("end");
}
VF_ENTRY span_u32() { sp<uint32_t>(); }
VF_ENTRY span_u8() { sp<uint8_t>(); }
VF_ENTRY span_p12() { sp<P12>(); }
template <class S, class T> void mslice(S& s, T* base, Range& r, size_t op) {
    switch (op) {
    case 0: { uint64_t off = any("off", r.n), cnt = any("cnt", r.n); size_t o = off < r.n ? off : r.n, l = off > r.n ? 0 : r.n - o; l = cnt < l ? cnt : l; S t = s.slice(off, cnt); vf_check(t.size() == l, "slice has a wrong number of elements"); if (l) { vf_check(t.data() == base + r.b + o, "slice starts at another element"); s = t; r.b += o; r.n = l; } else vf_check(t.data() >= base + r.b && t.data() <= base + r.b + r.n, "an empty slice lies outside its view"); break; }
    case 1: { uint64_t off = any("off", r.n); size_t o = off < r.n ? off : r.n; S t = s.slice(off); vf_check(t.size() == r.n - o, "slice has a wrong number of elements"); if (o < r.n) { s = t; r.b += o; r.n -= o; } break; }
    case 2: { size_t n = vf::pick("n", r.n + 1); s.remove_prefix(n); r.b += n; r.n -= n; break; }
    case 3: { size_t n = vf::pick("n", r.n + 1); s.remove_suffix(n); r.n -= n; break; }
    case 4: { size_t n = vf::pick("n", r.n + 1); s.reset(n); r.n = n; break; }
    case 5: { r.b = vf::pick("nb", 2); r.n = vf::pick("n", N - r.b + 1); s.reset(base + r.b, r.n); break; }
    case 6: { S t(s); S u; u = t; s = std::move(u); S v(std::move(s)); s = v; break; }
    }
}
template <class T> void mv() {
    std::vector<T> vec(N); T* base = vec.data();
    Range r; r.b = vf::pick("b", 3); r.n = vf::pick("n0", N - r.b + 1);
    { itlib::memory_view<T> s; shows(s, (T*)nullptr, 0); itlib::const_memory_view<T> c; shows(c, (const T*)nullptr, 0); vf_check(s.get() == nullptr && c.get() == nullptr, "a default view designates something"); }
    const std::vector<T>& cvec = vec; size_t ops = vf_param("ops", 2);
    if (vf::flag("const")) {
        itlib::const_memory_view<T> s; const T* cb = base; static const T raw[3] = {};
        switch (vf::pick("make", 4)) { case 0: s = itlib::make_memory_view(cb + r.b, r.n); break; case 1: r.n = N - r.b; s = itlib::make_memory_view(cvec, r.b); break; case 2: cb = raw; r.b = 0; r.n = 3; s = itlib::make_memory_view(raw); break; case 3: s = itlib::memory_view<T>(base + r.b, r.n); break; }
        shows(s, cb + r.b, r.n); vf_check(s.get() == cb + r.b, "get() is another pointer"); for (size_t k = 0; k < ops; ++k) { size_t op = vf::pick("op", 7); vf_assume(op != 5 || cb == base); mslice(s, cb, r, op); shows(s, cb + r.b, r.n); }
    } else {
        itlib::memory_view<T> s;
        switch (vf::pick("make", 3)) { case 0: s = itlib::make_memory_view(base + r.b, r.n); break; case 1: r.n = N - r.b; s = itlib::make_memory_view(vec, r.b); break; case 2: s.reset(base + r.b, r.n); break; }
        shows(s, base + r.b, r.n); vf_check(s.get() == base + r.b, "get() is another pointer"); for (size_t k = 0; k < ops; ++k) { mslice(s, base, r, vf::pick("op", 7)); shows(s, base + r.b, r.n); }
        const auto& cs = s; vf_check(s.get() == base + r.b && cs.get() == s.get(), "get does not designate the first element"); itlib::const_memory_view<T> c(s); shows(c, (const T*)base + r.b, r.n);
    }
    vf_observe(r.b); vf_observe(r.n); vf_reach("end");
}
VF_ENTRY mview_u32() { mv<uint32_t>(); }
VF_ENTRY mview_p12() { mv<P12>(); }
// ranges of any size: only addresses are looked at. 
static uint64_t hn() { static const uint64_t N_[] = {(uint64_t(1) << 31) - 1, uint64_t(1) << 31, uint64_t(1) << 32, (uint64_t(1) << 32) + 3, uint64_t(1) << 40}; return N_[vf::pick("n", 5)]; }
static uint64_t hv(const char* name, uint64_t n) { const uint64_t V_[] = {0, 1, (uint64_t(1) << 31) - 1, uint64_t(1) << 31, uint64_t(1) << 32, (uint64_t(1) << 32) + 1, n / 2, n - 1, n, n + 1, uint64_t(1) << 63, ~uint64_t(0)}; return V_[vf::pick(name, 12)]; }
template <class S, class T> void hshows(S& s, T* p, uint64_t n) {
    const S& c = s; vf_check(s.size() == n && c.empty() == (n == 0), "size is not the number of requested elements"); vf_check(s.data() == p && s.begin() == p && c.end() == p + n && uint64_t(c.end() - c.begin()) == n, "iterators do not cover exactly the requested elements");
    vf_check(s.rbegin().base() == p + n && s.rend().base() == p, "reverse iterators do not cover exactly the requested elements");
    for (uint64_t k : {uint64_t(0), uint64_t(1), uint64_t(1) << 31, (uint64_t(1) << 32) + 1, n / 2, n - 1}) if (k < n) vf_check(&s[k] == p + k && &c.at(k) == p + k && &s.front() == p && &c.back() == p + (n - 1), "an index designates another element");
}
template <class S, class T, class Sub> void hslice(S& s, T* p, uint64_t n, Sub sub) {
    uint64_t off = hv("off", n), cnt = hv("cnt", n), o = off < n ? off : n, l = cnt < n - o ? cnt : n - o;
    switch (vf::pick("op", 5)) { case 0: { S t = sub(s, off, cnt); vf_check(t.size() == l, "subspan has a wrong number of elements"); if (l) hshows(t, p + o, l); break; } case 1: s.remove_prefix(o); hshows(s, p + o, n - o); break; case 2: s.remove_suffix(o); hshows(s, p, n - o); break; case 3: { S t(s), u; u = t; hshows(u, p, n); break; } case 4: { S t = sub(s, off, size_t(-1)); vf_check(t.size() == n - o, "subspan has a wrong number of elements"); break; } }
}
template <class T> void huge() {
    static T store[1]; T* p = store; uint64_t n = hn(); size_t mk = vf::pick("make", 6);
    switch (mk) {
    case 0: case 1: { itlib::span<T> s = mk ? itlib::span<T>(p, p + n) : itlib::make_span(p, n); hshows(s, p, n); auto b = s.as_bytes(); auto w = s.as_writable_bytes(); vf_check(s.size_bytes() == n * sizeof(T) && b.size() == n * sizeof(T) && w.size() == n * sizeof(T) && (void*)w.data() == p && (const void*)b.data() == p, "a byte view does not cover exactly the elements' bytes"); itlib::span<const T> c(s), d; d = s; hshows(c, (const T*)p, n); hshows(d, (const T*)p, n);
        if (vf::flag("cnt2")) { uint64_t q = hv("q", n), f = q < n ? q : n; hshows(*std::make_unique<itlib::span<T>>(s.first(q)), p, f); auto l = s.last(f); hshows(l, p + (n - f), f); } else hslice(s, p, n, [](itlib::span<T>& x, uint64_t o, uint64_t c) { return x.subspan(o, c); }); break; }
    case 2: { itlib::span<const T> s((const T*)p, n); hshows(s, (const T*)p, n); hslice(s, (const T*)p, n, [](itlib::span<const T>& x, uint64_t o, uint64_t c) { return x.subspan(o, c); }); break; }
    case 3: { auto s = itlib::make_memory_view(p, n); hshows(s, p, n); itlib::const_memory_view<T> c(s); hshows(c, (const T*)p, n); hslice(s, p, n, [](itlib::memory_view<T>& x, uint64_t o, uint64_t c) { return x.slice(o, c); }); break; }
    case 4: { auto s = itlib::make_memory_view((const T*)p, n); hshows(s, (const T*)p, n); hslice(s, (const T*)p, n, [](itlib::const_memory_view<T>& x, uint64_t o, uint64_t c) { return x.slice(o, c); }); break; }
    case 5: { struct C { typedef T value_type; T* p; size_t n; T* data() { return p; } const T* data() const { return p; } size_t size() const { return n; } } c{p, n}; const C& cc = c; itlib::span<T> s(c); hshows(s, p, n); auto t = itlib::make_span(cc); hshows(t, (const T*)p, n); uint64_t o = hv("o", n); vf_assume(o <= n); auto m = itlib::make_memory_view(c, o); hshows(m, p + o, n - o); auto k = itlib::make_memory_view(cc, o); hshows(k, (const T*)p + o, n - o); break; }
    }
    vf_reach("end");
}
VF_ENTRY huge_u8() { huge<uint8_t>(); }
VF_ENTRY huge_u32() { huge<uint32_t>(); }
VF_ENTRY huge_p12() { huge<P12>(); }
