#include "vf.h"
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <memory>
static uint64_t any(const char* name, size_t n) { uint64_t v = vf::u64(name); if (v <= n) return vf_concretize(v); return v; }
struct Range { size_t b = 0, n = 0; };
// random access iterator arithmetic over [b, b + n), element i at address at(i)
template <class It, class At> void arith(It b, It e, size_t n, At at, bool dist) {
    vf_check(size_t(e - b) == n && b - e == -ptrdiff_t(n), "the distance between begin and end is not the size");
    It it = b; size_t i = 0; for (; it != e; ++it, ++i) { vf_check(i < n && at(it, i), "iteration leaves the elements"); } vf_check(i == n && it == e, "iteration misses an element");
    while (it != b) { --it; --i; vf_check(at(it, i), "iterating backwards leaves the elements"); } vf_check(i == 0, "iterating backwards misses an element");
    // all pairs of positions
    ptrdiff_t x = ptrdiff_t(vf::pick("x", n + 1)), y = ptrdiff_t(vf::pick("y", n + 1));
    It p = b + x, q = b + y; bool ok = true;
    ok &= (p == q) == (x == y) && (p != q) == (x != y); vf_check(ok, "iterator equality differs from that of positions");
    ok &= (p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y); vf_check(ok, "iterator order differs from that of positions");
    vf_check(p - q == x - y && q - p == y - x, "iterator difference is not that of positions");
    vf_check(q + (x - y) == p && q - (y - x) == p && p + (y - x) == q && p - (x - y) == q && e - ptrdiff_t(n - size_t(x)) == p, "an iterator jump ends at another position");
    It r = q; It& r1 = (r += x - y); vf_check(&r1 == &r && r == p, "an iterator jump ends at another position"); It& r2 = (r -= x - y); vf_check(&r2 == &r && r == q, "an iterator jump ends at another position");
    if (size_t(x) < n) { vf_check(at(p, size_t(x)), "an iterator designates another element"); It t = p; It& t1 = ++t; vf_check(&t1 == &t && t == b + (x + 1) && t - p == 1 && p - t == -1, "increment is not one position"); It& t2 = --t; vf_check(&t2 == &t && t == p, "decrement is not one position"); }
    It d; d = p; It c(d); vf_check(c == p, "a copy of an iterator is another position");
    (void)dist;
}
template <class S, class T> void shows(S& s, const uint8_t* base, size_t stride, size_t n) {
    const S& c = s;
    vf_check(c.size() == n && c.empty() == (n == 0) && c.stride() == stride, "size or stride is not that requested");
    vf_check(c.data() == base && s.data() == base && bool(c) == (base != nullptr), "data does not designate the first element");
    auto adr = [&](size_t i) { return (T*)(base + i * stride); };
    auto at = [&](const auto& it, size_t i) { return &*it == adr(i) && it.operator->() == adr(i) && it.ptr() == adr(i); };
    if (n) { size_t k = vf::pick("k", n); vf_check(&s[k] == adr(k) && &s.at(k) == adr(k) && &c[k] == adr(k) && &c.at(k) == adr(k), "element i is not the object at i strides from the start"); vf_check(&s.front() == adr(0) && &c.front() == adr(0) && &s.back() == adr(n - 1) && &c.back() == adr(n - 1), "front or back is another element"); }
    if (base) { switch (vf::pick("which", 3)) { case 0: arith(s.begin(), s.end(), n, at, true); break; case 1: arith(c.begin(), c.end(), n, at, true); break; case 2: arith(s.cbegin(), s.cend(), n, at, true); break; } }
    size_t i = 0; for (auto it = s.rbegin(); it != s.rend(); ++it, ++i) vf_check(i < n && &*it == adr(n - 1 - i), "reverse iteration leaves the elements"); vf_check(i == n, "reverse iteration misses an element");
    i = 0; for (auto it = c.rbegin(); it != c.rend(); ++it, ++i) vf_check(i < n && &*it == adr(n - 1 - i), "reverse iteration leaves the elements"); vf_check(i == n, "reverse iteration misses an element");
    i = 0; for (auto& x : s) vf_check(&x == adr(i++), "iteration leaves the elements"); vf_check(i == n, "iteration misses an element");
}
template <class S> void slice(S& s, Range& r, size_t op) {
    switch (op) {
    case 0: { uint64_t off = any("off", r.n), cnt = any("cnt", r.n); size_t o = off < r.n ? off : r.n, l = off > r.n ? 0 : r.n - o; l = cnt < l ? cnt : l; S t = s.subspan(off, cnt); vf_check(t.size() == l && t.stride() == s.stride(), "subspan has a wrong number of elements"); if (l || off <= r.n) { s = t; r.b += o; r.n = l; } break; }
    case 1: { uint64_t off = any("off", r.n); size_t o = off < r.n ? off : r.n; S t = s.subspan(off); vf_check(t.size() == r.n - o, "subspan has a wrong number of elements"); s = t; r.b += o; r.n -= o; break; }
    case 2: { uint64_t cnt = any("cnt", r.n); s = s.first(cnt); r.n = cnt < r.n ? cnt : r.n; break; }
    case 3: { size_t n = vf::pick("n", r.n + 1); s = s.last(n); r.b += r.n - n; r.n = n; break; }
    case 4: { size_t n = vf::pick("n", r.n + 1); s.remove_prefix(n); r.b += n; r.n -= n; break; }
    case 5: { size_t n = vf::pick("n", r.n + 1); s.remove_suffix(n); r.n -= n; break; }
    case 6: { S t(s); S u; u = t; s = std::move(u); S v(std::move(s)); s = v; break; }
    }
}
template <class T> void any_stride(size_t off0, size_t stride, size_t n) {
    // the buffer ends with the last element: stride may exceed what follows it
    size_t bytes = off0 + (n ? (n - 1) * stride + sizeof(T) : 0); std::unique_ptr<uint8_t[]> buf(new uint8_t[bytes + !bytes]()); uint8_t* base = buf.get() + off0; size_t ops = vf_param("ops", 1);
    Range r; r.n = n;
    { itlib::stride_span<T> d; shows<itlib::stride_span<T>, T>(d, nullptr, sizeof(T), 0); }
    if (vf::flag("const")) { itlib::stride_span<const T> s = itlib::make_stride_span_from_buf<const T>((const uint8_t*)buf.get(), off0, stride, n); if (vf::flag("conv")) { itlib::stride_span<T> m(base, stride, n); if (vf::flag("asg")) { static const T other[2] = {}; itlib::stride_span<const T> q; if (vf::flag("full")) q = itlib::make_stride_span_from_array(other, 2); itlib::stride_span<const T>& q1 = (q = m); vf_check(&q1 == &q, "assignment returns another object"); s = q; } else { itlib::stride_span<const T> s2(m); s = s2; } } for (size_t k = 0; k < ops; ++k) slice(s, r, vf::pick("op", 7)); shows<itlib::stride_span<const T>, const T>(s, base + r.b * stride, stride, r.n); }
    else { itlib::stride_span<T> s(base, stride, n); if (vf::flag("make")) s = itlib::make_stride_span_from_buf((T*)base, stride, n); for (size_t k = 0; k < ops; ++k) slice(s, r, vf::pick("op", 7)); shows<itlib::stride_span<T>, T>(s, base + r.b * stride, stride, r.n);
        if (r.n) { size_t k = vf::pick("w", r.n); T v = T(vf_sym("v", 8)); s[k] = v; vf_check(*(T*)(base + (r.b + k) * stride) == v, "a write is lost"); } }
    vf_observe(r.b); vf_observe(r.n); vf_reach("end");
}
VF_ENTRY stride_u8() { static const size_t st[] = {1, 2, 3, 7, 256}; any_stride<uint8_t>(vf::pick("off0", 2), st[vf::pick("stride", 5)], vf::pick("n", vf_param("maxn", 3) + 1)); }
VF_ENTRY stride_u32() { static const size_t st[] = {4, 8, 12, 20}; any_stride<uint32_t>(4 * vf::pick("off0", 2), st[vf::pick("stride", 4)], vf::pick("n", vf_param("maxn", 3) + 1)); }
// strides beyond 32 bits: only addresses are looked at
VF_ENTRY stride_huge() {
    static uint8_t store[4] = {}; uint8_t* mem = store; static const size_t st[] = {size_t(1) << 31, (size_t(1) << 32) + 64, (size_t(3) << 33) + 1}; size_t stride = st[vf::pick("stride", 3)], n = vf::pick("n", 4); Range r; r.n = n;
    if (vf::flag("const")) { itlib::stride_span<const uint8_t> s(mem, stride, n); slice(s, r, vf::pick("op", 7)); shows<itlib::stride_span<const uint8_t>, const uint8_t>(s, mem + r.b * stride, stride, r.n); }
    else { itlib::stride_span<uint8_t> s(mem, stride, n); slice(s, r, vf::pick("op", 7)); shows<itlib::stride_span<uint8_t>, uint8_t>(s, mem + r.b * stride, stride, r.n); }
    vf_reach("end");
}
struct P3 { uint8_t a; uint32_t b; uint16_t c[3]; }; struct B1 { uint32_t x; }; struct B2 { uint32_t y; }; struct D : B1, B2 { uint32_t z; };
// strided views of arrays, members and bases
VF_ENTRY stride_make() {
    size_t n = vf::pick("n", vf_param("maxn", 3) + 2);
    switch (vf::pick("make", 6)) {
    case 0: { uint32_t a[8] = {}; size_t no = vf::pick("no", n + 1), ns = 1 + vf::pick("ns", 4); auto s = itlib::make_stride_span_from_array(a, n, no, ns); size_t cnt = 0; for (size_t i = no; i < n; i += ns) ++cnt; shows<itlib::stride_span<uint32_t>, uint32_t>(s, (uint8_t*)(a + no), 4 * ns, cnt); break; }
    case 1: { P3 a[8] = {}; auto s = itlib::make_stride_span_member_view(a, n, &P3::b); shows<itlib::stride_span<uint32_t>, uint32_t>(s, (uint8_t*)&a[0].b, sizeof(P3), n); break; }
    case 2: { const P3 a[8] = {}; auto s = itlib::make_stride_span_member_view(a, n, &P3::c); shows<itlib::stride_span<const uint16_t[3]>, const uint16_t[3]>(s, (const uint8_t*)&a[0].c, sizeof(P3), n); break; }
    case 3: { P3 a[8] = {}; auto s = itlib::make_stride_span_member_view(a, n, &P3::a); shows<itlib::stride_span<uint8_t>, uint8_t>(s, (uint8_t*)&a[0].a, sizeof(P3), n); break; }
    case 4: { D a[8] = {}; auto s = itlib::make_stride_span_base_view<B2>(a, n); shows<itlib::stride_span<B2>, B2>(s, (uint8_t*)static_cast<B2*>(a), sizeof(D), n); break; }
    case 5: { D a[8] = {}; auto s = itlib::make_stride_span_base_view<B1>(a, n); shows<itlib::stride_span<B1>, B1>(s, (uint8_t*)static_cast<B1*>(a), sizeof(D), n); break; }
    }
    vf_reach("end");
}
// poly_span: the access function is applied to exactly the element
struct Q { uint32_t a, b, c; }; struct Q1 { uint8_t v; };
static uint32_t& pick_member(Q& q) { return q.c & 1 ? q.a : q.b; }
static uint32_t by_value(const Q& q) { return q.a ^ q.b; }
static const uint8_t& small(Q1& q) { return q.v; }
template <class RT, class S, class U, class F> void pshows(S& s, U* p, size_t n, F f) {
    const S& c = s;
    vf_check(c.size() == n && c.empty() == (n == 0), "size is not that requested"); vf_check((const void*)c.data() == p && (void*)s.data() == (void*)p && bool(c) == (p != nullptr), "data does not designate the first element"); if (p) vf_check(c.stride() == sizeof(U), "the stride is not the element size");
    auto same = [&](auto&& x, size_t i) { auto&& y = f(p[i]); if constexpr (std::is_reference<RT>::value) return &x == &y; else return x == y; };
    auto at = [&](const auto& it, size_t i) { return same(*it, i); };
    if (n) { size_t k = vf::pick("k", n); vf_check(same(s[k], k) && same(s.at(k), k) && same(c[k], k) && same(c.at(k), k), "element i is not what the access function gives for object i"); vf_check(same(s.front(), 0) && same(c.front(), 0) && same(s.back(), n - 1) && same(c.back(), n - 1), "front or back is another element"); }
    if (p) { switch (vf::pick("which", 3)) { case 0: arith(s.begin(), s.end(), n, at, true); break; case 1: arith(c.begin(), c.end(), n, at, true); break; case 2: arith(s.cbegin(), s.cend(), n, at, true); break; } }
    size_t i = 0; for (auto it = s.rbegin(); it != s.rend(); ++it, ++i) vf_check(i < n && same(*it, n - 1 - i), "reverse iteration leaves the elements"); vf_check(i == n, "reverse iteration misses an element");
    i = 0; for (auto it = c.rbegin(); it != c.rend(); ++it, ++i) vf_check(i < n && same(*it, n - 1 - i), "reverse iteration leaves the elements"); vf_check(i == n, "reverse iteration misses an element");
    i = 0; for (auto&& x : s) vf_check(same(x, i++), "iteration leaves the elements"); vf_check(i == n, "iteration misses an element");
}
template <class RT, class U, class F> void poly(F f) {
    size_t n = vf::pick("n", vf_param("maxn", 3) + 1), ops = vf_param("ops", 1); std::unique_ptr<U[]> a(new U[n + !n]()); for (size_t i = 0; i < n; ++i) { uint8_t* b = (uint8_t*)&a[i]; b[0] = vf::u8("v"); if (sizeof(U) > 8) b[8] = vf::u8("v") & 1; }
    { itlib::poly_span<RT> d; pshows<RT>(d, (U*)nullptr, 0, f); }
    Range r; r.n = n; itlib::poly_span<RT> s(a.get(), n, f);
    ops = vf::pick("ops", ops + 1); for (size_t k = 0; k < ops; ++k) { slice(s, r, vf::pick("op", 7)); } pshows<RT>(s, a.get() + r.b, r.n, f);
    vf_observe(r.b); vf_observe(r.n); vf_reach("end");
}
VF_ENTRY poly_ref() { poly<uint32_t&, Q>(pick_member); }
VF_ENTRY poly_value() { poly<uint32_t, const Q>([](const Q& q) { return q.a ^ q.b; }); }
VF_ENTRY poly_cref() { poly<const uint8_t&, Q1>(small); }
struct Wide { uint8_t v, pad[(size_t(1) << 32) + 7]; };
VF_ENTRY poly_huge() { static uint8_t store[4] = {}; Wide* a = (Wide*)store; auto f = [](Wide& w) -> uint8_t& { return w.v; }; Range r; r.n = vf::pick("n", 4); itlib::poly_span<uint8_t&> s(a, r.n, f); slice(s, r, vf::pick("op", 7)); pshows<uint8_t&>(s, a + r.b, r.n, f); vf_reach("end"); }

// many elements
template <class S, class At> static void manyShow(const S& s, size_t n, At at) { vf_check(s.size() == n && s.empty() == (n == 0), "size or stride is not that requested"); bool ok = true; size_t i = 0; for (auto it = s.begin(); it != s.end(); ++it, ++i) ok &= at(*it, i); vf_check(ok && i == n, "iteration misses an element"); auto e = s.end(); for (; i > 0;) { --i; ok &= at(*--e, i); } vf_check(ok && e == s.begin() && size_t(s.end() - s.begin()) == n, "iterating backwards misses an element"); for (size_t k = 0; k < n; k += n < 300 ? 1 : 255) { ok &= at(s[k], k); ok &= at(*(s.begin() + ptrdiff_t(k)), k); } vf_check(ok, "element i is not the object at i strides from the start"); if (n) vf_check(at(s.front(), 0) && at(s.back(), n - 1), "front or back is another element"); }
static size_t manyOff(const char* nm, size_t n) { const size_t P[] = {0, 1, 128, 255, 256, 257, 65535, 65536, n - 1, n, n + 1, ~size_t(0)}; if (n > 300 && nm[0] == 'c') { const size_t R[] = {1, 257, 65536, n, ~size_t(0)}; return R[vf::pick(nm, 5)]; } return P[vf::pick(nm, 12)]; }
template <class S, class At> static void manySlice(S s, size_t n, At at) {
    switch (vf::pick("op", 4)) { case 0: manyShow(s, n, at); break;
    case 1: { size_t o = manyOff("off", n), c = manyOff("cnt", n), b = o < n ? o : n, l = c < n - b ? c : n - b; S t = s.subspan(o, c); manyShow(t, l, [&](auto&& x, size_t i) { return at(x, b + i); }); break; }
    case 2: { size_t c = manyOff("cnt", n); manyShow(s.first(c), c < n ? c : n, at); break; }
    default: { size_t c = manyOff("cnt", n); vf_assume(c <= n); if (vf::flag("last")) { manyShow(s.last(c), c, [&](auto&& x, size_t i) { return at(x, n - c + i); }); } else { s.remove_prefix(c); manyShow(s, n - c, [&](auto&& x, size_t i) { return at(x, c + i); }); } break; } }
}
VF_ENTRY stride_many() {
    static const size_t N[] = {255, 256, 257, 65537}, ST[] = {2, 6, 300}; size_t k = vf::pick("n", 4), n = N[k], st = ST[vf::pick("stride", k < 3 ? 3 : 2)]; std::unique_ptr<uint8_t[]> buf(new uint8_t[n * st]); uint8_t* base = buf.get(); auto at = [&](const uint16_t& x, size_t i) { return (const uint8_t*)&x == base + i * st; };
    if (vf::flag("const")) manySlice(itlib::stride_span<const uint16_t>((const uint8_t*)base, st, n), n, at); else manySlice(itlib::stride_span<uint16_t>(base, st, n), n, at); vf_reach("end");
}
VF_ENTRY poly_many() {
    static const size_t N[] = {255, 256, 257, 65537}; size_t n = N[vf::pick("n", 4)]; std::unique_ptr<uint32_t[]> a(new uint32_t[n]()); uint32_t v = vf::u32("v"); for (size_t i = 0; i < n; ++i) a[i] = uint32_t(i * 5); a[255 < n ? 255 : 254] = v; a[n - 1] = v ^ 1; uint32_t* p = a.get();
    if (vf::flag("value")) manySlice(itlib::poly_span<uint32_t>((const uint32_t*)p, n, [](const uint32_t& q) { return q + 1; }), n, [&](uint32_t x, size_t i) { return x == p[i] + 1; }); else manySlice(itlib::poly_span<uint32_t&>(p, n, [](uint32_t& q) -> uint32_t& { return q; }), n, [&](const uint32_t& x, size_t i) { return &x == &p[i]; }); vf_reach("end");
}
