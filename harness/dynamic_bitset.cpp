#include "vf.h"
#include <cstdint>
#include <type_traits>
#include <cstddef>
#include <new>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/static_vector.hpp>
#ifndef WORD
#define WORD uint8_t
#endif
typedef WORD W;
#ifdef SMALLBUF
#include <itlib/small_vector.hpp>
typedef itlib::small_vector<W, SMALLBUF> Buf;
#elif defined(FAILBUF)
#include <vector>
static bool g_fail; template <class T> struct FAl { typedef T value_type; FAl() = default; template <class U> FAl(const FAl<U>&) {} T* allocate(size_t n) { if (g_fail && vf::flag("nomem")) throw std::bad_alloc(); return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { ::operator delete(p); } template <class U> friend bool operator==(const FAl&, const FAl<U>&) { return true; } template <class U> friend bool operator!=(const FAl&, const FAl<U>&) { return false; } };
typedef std::vector<W, FAl<W>> Buf;
#else
typedef std::vector<W> Buf;
#endif
typedef itlib::dynamic_bitset<Buf> BS;
static const size_t B = sizeof(W) * 8;
struct Model { enum { MAX = 1400 }; uint8_t b[MAX]; size_t n = 0; void push(uint8_t x) { if (n >= MAX) vf_fail("harness: model overflow"); b[n++] = x; } void resize(size_t m) { while (n < m) push(0); n = m; } };
// a bitset of n bits with arbitrary contents, also in the unused bits of its last word
static void fill(BS& s, Model& m, size_t n) {
    Buf w; size_t words = (n + B - 1) / B; W v[48];
    for (size_t i = 0; i < words; ++i) { v[i] = (W)vf_sym("w", B); w.push_back(v[i]); }
    s.assign(w); vf_check(s.size() == words * B, "assign does not take all bits of the buffer");
    if (n != words * B) s.resize(n);
    m.n = 0; for (size_t i = 0; i < n; ++i) m.push(uint8_t(v[i / B] >> (i % B)) & 1);
}
static void same(BS& s, const Model& m) {
    const BS& c = s;
    vf_check(c.size() == m.n && c.empty() == (m.n == 0) && c.word_size() == (m.n + B - 1) / B && c.byte_size() == (m.n + 7) / 8 && c.buffer().size() == c.word_size(), "size differs from the number of bits");
    bool ok = true;
    for (size_t i = 0; i < m.n; ++i) ok &= c.test(i) == bool(m.b[i]);
    vf_check(ok, "a bit does not read as its last value");
}
static void views(BS& s, const Model& m) {
    const BS& c = s; bool ok = true, any = false, all = true; size_t i = 0;
    for (i = 0; i < m.n; ++i) { ok &= (c[i] == bool(m.b[i])) & (bool(s[i]) == bool(m.b[i])) & (s[i].test() == bool(m.b[i])); any |= bool(m.b[i]); all &= bool(m.b[i]); }
    i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= *it == bool(m.b[i]);
    vf_check(i == m.n, "iteration visits a wrong number of bits");
    i = 0; for (auto it = s.begin(); it != s.end(); it++, ++i) ok &= bool(*it) == bool(m.b[i]);
    vf_check(i == m.n && size_t(c.end() - c.begin()) == m.n && size_t(s.end() - s.begin()) == m.n, "iteration visits a wrong number of bits");
    i = m.n; if (m.n) for (auto it = c.end(); it != c.begin();) { --it; --i; ok &= *it == bool(m.b[i]); }
    i = 0; for (auto it = c.begin(); it != c.end(); ++i) ok &= *it++ == bool(m.b[i]);
    i = m.n; if (m.n) for (auto it = c.end(); it != c.begin();) { auto was = it--; --i; ok &= (size_t(was - c.begin()) == i + 1) & (*it == bool(m.b[i])); }
    i = m.n; if (m.n) for (auto it = s.end(); !(it == s.begin());) { if (i % 2) --it; else { auto was = it--; ok &= was - it == 1; } --i; ok &= (*it).test() == bool(m.b[i]); }
    vf_check(ok, "indexing or iteration gives a wrong bit");
    if (m.n) {
        size_t a = m.n / 2, d = m.n - 1 - a; const auto sa = s.begin() + ptrdiff_t(a); const auto ca = c.begin() + ptrdiff_t(a); BS::const_iterator conv = sa, last = ca + ptrdiff_t(d);
        ok &= *sa == bool(m.b[a]); ok &= *ca == bool(m.b[a]); ok &= *conv == bool(m.b[a]); ok &= *(s.end() - 1) == bool(m.b[m.n - 1]); ok &= *last == bool(m.b[m.n - 1]); ok &= *(last - ptrdiff_t(d)) == bool(m.b[a]); ok &= *((sa + ptrdiff_t(d)) - ptrdiff_t(d)) == bool(m.b[a]);
        ok &= (conv == ca) & !(conv != ca) & (last - conv == ptrdiff_t(d)) & (conv - last == -ptrdiff_t(d)) & (sa - s.begin() == ptrdiff_t(a)) & ((s.end() + -1) - s.begin() == ptrdiff_t(m.n) - 1);
        vf_check(ok, "iterator arithmetic designates a wrong bit");
    }
    for (i = 0; i < m.n; ++i) ok &= ((c.data()[BS::word_index(i)] >> BS::bit_index(i) & 1) == m.b[i]) & (bool(c.buffer()[BS::word_index(i)] & BS::word_mask(i)) == bool(m.b[i])) & (BS::word_index(i) * B + BS::bit_index(i) == i);
    vf_check(ok && (m.n == 0 || (c.data() == s.data() && c.data() == c.buffer().data() && c.data() == &c.buffer()[0])), "data(), buffer() or the word arithmetic do not designate the bits");
    vf_check(c.any() == any, "any() is not whether a bit is set"); vf_check(c.none() == !any, "none() is not whether no bit is set");
    if (m.n) vf_check(c.all() == all, "all() is not whether every bit is set");
}
static const size_t SZ[] = {0, 1, B - 1, B, B + 1, B + 3, 2 * B - 1, 2 * B, 2 * B + 1, 2 * B + 5};
static size_t size(const char* n, size_t cnt = 10) { return SZ[vf::pick(n, cnt)]; }
// with words of more than 8 bits only few unaligned leading bits are appended (one path for each of their values)
static void few(size_t n, size_t add) { if (B > 8) vf_assume(n % B == 0 || B - n % B <= 2 || add <= 2); }
static void at(Model& m, uint64_t i, int how, bool b) { for (size_t j = 0; j < m.n; ++j) { uint8_t nv = how == 0 ? 1 : how == 1 ? 0 : how == 2 ? m.b[j] ^ 1 : uint8_t(b); uint8_t k = uint8_t(-int(i == j)); m.b[j] = uint8_t((nv & k) | (m.b[j] & ~k)); } }
static void step(BS& s, Model& m, size_t op) {
    { static const char* const L[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17"}; vf_reach(L[op]); }
    switch (op) {
    case 0: case 1: case 2: case 3: { vf_assume(m.n > 0); uint64_t i = vf::upto("i", m.n - 1); bool b = op == 3 && vf::flag("b"); if (op == 0) s.set(i); else if (op == 1) s.reset(i); else if (op == 2) s.flip(i); else s.set(i, b); at(m, i, int(op), b); break; }
    case 4: { vf_assume(m.n > 0); uint64_t i = vf::upto("i", m.n - 1); auto r = s[i]; size_t how = vf::pick("how", 5); bool b = how >= 3 && vf::flag("b"); switch (how) { case 0: r.set(); break; case 1: r.reset(); break; case 2: r.flip(); break; case 3: r.set(b); break; case 4: s[i] = b; break; } at(m, i, how > 3 ? 3 : int(how), b); break; }
    case 5: { bool b = vf::flag("b"); s.push_back(b); m.push(b); break; }
    case 6: { size_t n = size("n"); s.resize(n); m.resize(n); break; }
    case 7: { BS o; Model mo; fill(o, mo, size("n2", 7)); few(m.n, mo.n); s.append(o); for (size_t i = 0; i < mo.n; ++i) m.push(mo.b[i]); same(o, mo); break; }
    case 8: { BS o; Model mo; size_t c = vf::pick("src", 3), a = 0, e = m.n; if (m.n > B) { a = vf::flag("from") ? B - 2 : B == 8 && vf_param("ops", 2) == 1 ? 1 : 0; if (vf::flag("to")) e = m.n - 2; } fill(o, mo, c + (e - a)); s.copy(s.begin() + a, s.begin() + e, o.begin() + c); for (size_t i = a; i < e; ++i) m.b[i] = mo.b[c + i - a]; same(o, mo); break; }
    case 9: { fill(s, m, size("n")); break; }
    case 10: { BS o(s); same(o, m); if (m.n) { o.flip(0); same(s, m); } BS p; p = s; same(p, m); break; }
    case 11: { BS o(std::move(s)); same(o, m); Model e; same(s, e); s.push_back(true); s = std::move(o); e.n = 0; same(o, e); o.push_back(true); e.push(1); same(o, e); break; }
    case 12: { few(m.n, m.n); s.append(s); size_t n = m.n; for (size_t i = 0; i < n; ++i) m.push(m.b[i]); break; }
    case 13: { s.reserve(m.n + 3 * B); same(s, m); s.push_back(true); m.push(1); break; }
    case 14: { for (auto it = s.begin(); it != s.end(); ++it) (*it).flip(); for (size_t i = 0; i < m.n; ++i) m.b[i] ^= 1; break; }
    case 15: { BS o; Model mo; fill(o, mo, size("n2", 5)); s = o; m = mo; same(o, mo); break; }
    case 17: { vf_assume(m.n > 0); uint64_t i = vf::upto("i", m.n - 1); s.data()[i / B] ^= W(W(1) << (i % B)); at(m, i, 2, false); break; }
    case 16: { W v = (W)vf_sym("w", B); size_t n = size("n"); BS o(n, v); s = std::move(o); m.n = 0; for (size_t i = 0; i < n; ++i) m.push(uint8_t(v >> (i % B)) & 1); break; }
    }
}
VF_ENTRY db_run() {
    BS s; Model m; fill(s, m, size("n0")); same(s, m);
    size_t ops = vf_param("ops", 2);
    for (size_t k = 0; k < ops; ++k) { step(s, m, vf::pick("op", 18)); same(s, m); }
    if (vf_param("grow", 1)) { size_t n = m.n + 1 + vf::flag("grow") * B; s.resize(n); m.resize(n); same(s, m); } // leftover bits must not appear
    vf_observe(s.size()); for (size_t i = 0; i < m.n; ++i) vf_observe(s.test(i));
    vf_reach("end");
}
VF_ENTRY db_views() { BS s; Model m; fill(s, m, size("n0")); if (vf::flag("step")) step(s, m, vf::pick("op", 18)); views(s, m); vf_reach("end"); }
// every range, every source offset
VF_ENTRY db_copy() {
    size_t hi = vf_param("hi", 2 * B + 3), st = vf_param("step", 1);
    auto pos = [&](const char* n, size_t lo) { if (st == 1) return lo + vf::pick(n, hi - lo + 1); static const size_t P[] = {0, B - 2, B - 1, B, 2 * B - 1, 2 * B, 2 * B + 3, 1, 5, B + 1}; size_t p = P[vf::pick(n, n[0] == 'f' ? 6 : 10)]; vf_assume(p >= lo); return p; };
    size_t a = pos("from", 0), e = pos("to", a), c = st == 1 ? vf::pick("src", B + 2) : pos("src", 0);
    BS s, o; Model m, mo; fill(s, m, hi); size_t slack = vf::flag("slack") * 2; fill(o, mo, c + (e - a) + slack);
    bool cst = vf::flag("const"); const BS& co = o;
    if (cst) s.copy(s.begin() + a, s.begin() + e, co.begin() + c); else s.copy(s.begin() + a, s.end() - (hi - e), o.begin() + c);
    for (size_t i = a; i < e; ++i) m.b[i] = mo.b[c + i - a];
    same(s, m); same(o, mo); vf_observe(m.n); vf_reach("end");
}
VF_ENTRY db_append() {
    size_t hi = vf_param("hi", 2 * B + 3); BS s, o; Model m, mo; fill(s, m, vf::pick("a", hi + 1)); fill(o, mo, vf::pick("b", hi + 1));
    s.append(o); for (size_t i = 0; i < mo.n; ++i) m.push(mo.b[i]); same(s, m); same(o, mo);
    size_t n = m.n + 1 + vf::flag("grow") * B; s.resize(n); m.resize(n); same(s, m); vf_reach("end");
}
// sizes which cannot be represented: the call must fail and leave the bitset as it was
VF_ENTRY db_huge() {
    BS s; Model m; fill(s, m, SZ[vf::pick("n0", 4)]); uint64_t n = vf::u64("n"); vf_assume(n > 0x2000000ull); bool thrown = false;
    size_t op = vf::pick("op", 3);
    try { if (op == 0) s.resize(n); else if (op == 1) BS x(n); else s.reserve(n); } catch (std::exception&) { thrown = true; }
    vf_check(thrown, "a size beyond all memory was accepted"); same(s, m); s.push_back(true); m.push(1); same(s, m); vf_reach("end");
}
// a copy within the same bitset (ranges which do not overlap)
VF_ENTRY db_copy_self() {
    size_t hi = vf_param("hi", 2 * B + 3); BS s; Model m; fill(s, m, hi); auto pos = [&](const char* n) { if (B == 8) return vf::pick(n, hi + 1); static const size_t P[] = {0, 1, 5, B - 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 3}; return P[vf::pick(n, 10)]; };
    size_t a = pos("from"), e = pos("to"), c = pos("src"); if (B > 8 && a % B && B - a % B > 2 && e > a + 2) return; if (e < a || c + (e - a) > hi || (c < e && a < c + (e - a))) return; const BS& cs = s; bool cst = vf::flag("const");
    if (cst) s.copy(s.begin() + a, s.begin() + e, cs.begin() + c); else s.copy(s.begin() + a, s.begin() + e, s.begin() + c);
    Model was = m; for (size_t i = a; i < e; ++i) m.b[i] = was.b[c + i - a]; same(s, m); vf_reach("end");
}
// many words
VF_ENTRY db_long() {
    static const size_t N[] = {4 * B, 4 * B + 1, 5 * B + 3, 8 * B - 1, 9 * B, 17 * B + 2, 33 * B}; size_t cnt = B == 8 ? 7 : 5, n = N[vf::pick("n", cnt)]; BS s; Model m; fill(s, m, n); { static const char* const L[] = {"0", "1", "2", "3", "4", "5"}; size_t op = vf::pick("op", 6); vf_reach(L[op]);
    switch (op) {
    case 0: { static const size_t A[] = {0, B - 1, 2 * B - 2, B}, F[] = {0, B - 1, 1, B + 2}; size_t a = A[vf::pick("from", 4)], e = n - F[vf::pick("to", 3)], c = F[vf::pick("src", 4)]; bool slack = (a + c + n) % 2; BS o; Model mo; fill(o, mo, c + (e - a) + slack * (B + 1)); s.copy(s.begin() + a, s.begin() + e, o.begin() + c); for (size_t i = a; i < e; ++i) m.b[i] = mo.b[c + i - a]; same(o, mo); break; }
    case 1: { size_t k = N[vf::pick("n2", cnt)]; vf_assume(n % B == 0 || B - n % B <= 2 || k == 5 * B + 3); BS o; Model mo; fill(o, mo, k); s.append(o); for (size_t i = 0; i < mo.n; ++i) m.push(mo.b[i]); same(o, mo); break; }
    case 2: { size_t k = vf::flag("shrink") ? n - B - 3 : N[vf::pick("n2", cnt)]; s.resize(k); m.resize(k); s.resize(k + 2 * B + 1); m.resize(k + 2 * B + 1); break; }
    case 3: { uint64_t i = vf::upto("i", n - 1); if (vf::flag("b")) { s.set(i); at(m, i, 0, true); } else { s[i].flip(); at(m, i, 2, false); } break; }
    case 4: { s.append(s); size_t k = m.n; for (size_t i = 0; i < k; ++i) m.push(m.b[i]); break; }
    default: { for (size_t i = 0; i < 3 * B; ++i) { s.push_back(i % 3 == 0); m.push(i % 3 == 0); } break; }
    } }
    same(s, m); vf_reach("end");
}
// all, any and none of many words: all bits equal but one or two
VF_ENTRY db_long_all() {
    static const size_t N[] = {4 * B, 4 * B + 1, 5 * B + 3, 8 * B - 1, 9 * B, 17 * B + 2}; size_t n = N[vf::pick("n", B == 8 ? 6 : 5)]; bool ones = vf::flag("ones"); BS s(n, ones ? W(~W(0)) : W(0)); uint64_t i = vf::upto("i", n - 1), j = vf::upto("j", n - 1); size_t k = vf::pick("k", 3);
    if (k > 0) s.set(i, !ones); if (k > 1) s.flip(j); size_t odd = k == 0 ? 0 : k == 1 ? 1 : i == j ? 0 : 2; bool junk = vf::flag("junk"); if (junk && n % B) s.data()[n / B] ^= W(W(~W(0)) << (n % B)); // unused bits
    const BS& c = s; bool any = ones ? true : odd > 0, all = ones ? odd == 0 : false; vf_check(c.any() == any, "any() is not whether a bit is set"); vf_check(c.none() == !any, "none() is not whether no bit is set"); vf_check(c.all() == all, "all() is not whether every bit is set"); vf_reach("end");
}
#ifdef FAILBUF
// a call which finds no memory leaves the bits as they were
VF_ENTRY db_fail() {
    g_fail = false; { BS s, o, keep; Model m, mo; fill(s, m, size("n0")); fill(o, mo, size("n2", 7)); if (vf::flag("spare")) { s.reserve(m.n + B); } bool threw = false; g_fail = true; size_t op = vf::pick("op", 8); bool strong = true; Model was = m;
    try { switch (op) {
        case 0: m.push(1); s.push_back(true); break; case 1: { size_t n = size("n"); m.resize(n); s.resize(n); break; } case 2: { few(m.n, mo.n); for (size_t i = 0; i < mo.n; ++i) m.push(mo.b[i]); s.append(o); break; }
        case 3: m = mo; s = o; break; case 4: { few(m.n, m.n); for (size_t i = 0; i < was.n; ++i) m.push(was.b[i]); s.append(s); break; } case 5: s.reserve(m.n + 3 * B); break; case 6: { BS c(s); same(c, m); break; } default: { BS c(m.n + B, W(1)); vf_check(c.test(0), "a bit does not read as its last value"); break; }
    } } catch (const std::bad_alloc&) { threw = true; m = was; vf_reach("threw"); }
    (void)strong; (void)threw; g_fail = false; same(s, m); same(o, mo); s.push_back(false); m.push(0); s.resize(m.n + B); m.resize(m.n + B); same(s, m); }
    vf_reach("end");
}
#endif
