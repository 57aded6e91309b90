#include "vf.h"
#include <itlib/mem_streambuf.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <vector>
#include <string>
#include <memory>
using way_t = std::ios_base::seekdir;
static way_t pick_way(const char* n) { switch (vf::pick(n, 3)) { case 0: return std::ios_base::beg; case 1: return std::ios_base::cur; default: return std::ios_base::end; } }
// a symbolic 64-bit offset; one path per value which ends inside [0, n] from base, one for all others
static int64_t any_off(int64_t base, int64_t n) { uint64_t v = vf_sym("off", 64); vf_assume(int64_t(v) <= INT64_MAX - 4096); if (v + uint64_t(base) <= uint64_t(n)) return int64_t(vf_concretize(v)); return int64_t(v); }
template <class C, size_t Cap> void out() {
    using CT = typename C::value_type; using buf_t = itlib::mem_ostreambuf<C>; using TR = typename buf_t::traits_type;
    size_t ops = vf_param("ops", 3), maxn = vf_param("maxn", 3);
    std::unique_ptr<buf_t> pb(vf::flag("reserve") ? new buf_t(vf::pick("r", 3)) : new buf_t); buf_t& b = *pb; std::streambuf* chk = nullptr; (void)chk;
    std::basic_streambuf<CT>& s = b; CT m[64]; int64_t n = 0, pos = 0; // reference: bytes, length, put position
    auto same = [&](const C& c) { bool ok = true; for (int64_t i = 0; i < n; ++i) ok &= c.data()[i] == m[i]; return ok; };
    for (size_t k = 0; k < ops; ++k) {
        switch (vf::pick("op", 7)) {
        case 0: { CT c = CT(vf_sym("c", 8 * sizeof(CT))); vf_assume(CT(TR::to_int_type(c)) == c); if (pos >= int64_t(Cap)) break; auto r = s.sputc(c); vf_check(r == TR::to_int_type(c), "sputc does not report the character"); m[pos++] = c; if (pos > n) n = pos; break; }
        case 1: { size_t l = vf::pick("len", maxn + 1); CT t[8]; for (size_t i = 0; i < l; ++i) t[i] = CT(vf_sym("c", 8 * sizeof(CT))); if (pos + l > Cap) break; auto r = s.sputn(t, std::streamsize(l)); vf_check(r == std::streamsize(l), "sputn does not report the number of characters"); for (size_t i = 0; i < l; ++i) m[pos++] = t[i]; if (pos > n) n = pos; break; }
        case 2: { way_t w = pick_way("way"); int64_t base = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? pos : n; int64_t off = any_off(base, n); auto r = s.pubseekoff(off, w, std::ios_base::out);
            uint64_t np = uint64_t(base) + uint64_t(off); if (np <= uint64_t(n)) { vf_check(int64_t(r) == int64_t(np), "a seek does not report the position it was asked for"); pos = int64_t(np); } else vf_check(int64_t(r) == -1, "a seek outside of what was written does not fail"); break; }
        case 3: { int64_t p = any_off(0, n); auto r = s.pubseekpos(typename buf_t::pos_type(p), std::ios_base::out); if (uint64_t(p) <= uint64_t(n)) { vf_check(int64_t(r) == p, "a seek does not report the position it was asked for"); pos = p; } else vf_check(int64_t(r) == -1, "a seek outside of what was written does not fail"); break; }
        case 4: { C c = b.get_container(); vf_check(c.size() == size_t(n), "the container taken does not hold as many characters as were written"); vf_check(same(c), "the container taken differs from what was written"); n = pos = 0; break; }
        case 5: b.clear(); n = pos = 0; break;
        case 6: { vf_check(s.pubsync() == 0, "sync fails"); break; }
        }
        vf_check(b.poff() == size_t(pos), "the put position differs"); vf_check(b.peek_container().size() >= size_t(n) && same(b.peek_container()), "the container peeked at differs from what was written");
    }
    vf_check(int64_t(s.pubseekoff(0, std::ios_base::cur, std::ios_base::out)) == pos, "the reported position differs"); 
    C c = b.get_container(); vf_check(c.size() == size_t(n), "the container taken does not hold as many characters as were written"); vf_check(same(c), "the container taken differs from what was written"); vf_check(b.poff() == 0 , "the buffer is not empty after its container was taken");
    vf_observe(uint64_t(n)); vf_observe(uint64_t(pos)); pb.reset(); { C d(std::move(c)); } vf_reach("end");
}
VF_ENTRY out_vector() { out<std::vector<char>, 64>(); }
VF_ENTRY out_string() { out<std::string, 64>(); }
VF_ENTRY out_small() { out<itlib::small_vector<char, 3>, 64>(); }
// a container whose move copies, so that it keeps its elements, and whose capacity is not its size
struct Keep { using value_type = char; std::vector<char> v; Keep() = default; Keep(const Keep&) = default; Keep& operator=(const Keep&) = default; char* data() { return v.data(); } const char* data() const { return v.data(); } size_t size() const { return v.size(); } size_t capacity() const { return v.capacity(); } bool empty() const { return v.empty(); } void reserve(size_t n) { v.reserve(n); } void resize(size_t n) { v.resize(n); } void clear() { v.clear(); } void swap(Keep& o) { v.swap(o.v); } };
VF_ENTRY out_keep() { out<Keep, 64>(); }
VF_ENTRY out_static() { out<itlib::static_vector<char, 6>, 6>(); }
VF_ENTRY out_pod16() { out<itlib::pod_vector<char16_t>, 64>(); }

template <class CT> void in() {
    using buf_t = itlib::mem_istreambuf<CT>; using TR = typename buf_t::traits_type; size_t ops = vf_param("ops", 3); const auto eof = TR::eof();
    size_t n0 = vf::pick("n", vf_param("maxn", 3) + 1); std::unique_ptr<CT[]> a(new CT[n0]); std::unique_ptr<CT[]> a2(new CT[2]); CT orig[8]; for (size_t i = 0; i < n0; ++i) { CT c = CT(vf_sym("c", sizeof(CT) == 1 ? 8 : 16)); orig[i] = a[i] = c; } a2[0] = 'x'; a2[1] = 'y';
    std::unique_ptr<buf_t> pb; const CT* p = a.get(); int64_t n = int64_t(n0), pos = 0;
    switch (vf::pick("ctor", 3)) { case 0: pb.reset(new buf_t(p, n0)); break; case 1: pb.reset(new buf_t); pb->reset(p, n0); break; case 2: pb.reset(new buf_t); p = nullptr; n = 0; break; }
    buf_t& b = *pb; std::basic_streambuf<CT>& s = b;
    for (size_t k = 0; k < ops; ++k) {
        switch (vf::pick("op", 11)) {
        case 0: { auto r = s.sgetc(); vf_check(r == (pos < n ? TR::to_int_type(p[pos]) : eof), "the current character differs"); break; }
        case 1: { auto r = s.sbumpc(); vf_check(r == (pos < n ? TR::to_int_type(p[pos]) : eof), "the character read differs"); pos += pos < n; break; }
        case 2: { auto r = s.snextc(); pos += pos < n; vf_check(r == (pos < n ? TR::to_int_type(p[pos]) : eof), "the next character differs"); break; }
        case 3: { auto r = s.sungetc(); if (pos) { --pos; vf_check(r == TR::to_int_type(p[pos]), "the character put back differs"); } else vf_check(r == eof, "putting back before the beginning does not fail"); break; }
        case 4: { CT c = CT(vf_sym("pb", sizeof(CT) == 1 ? 8 : 16)); bool ok = pos && p[pos - 1] == c; auto r = s.sputbackc(c); if (ok) { --pos; vf_check(r == TR::to_int_type(c), "the character put back differs"); } else vf_check(r == eof, "putting back a character which was not read does not fail"); break; }
        case 5: { int64_t want = int64_t(vf_sym("cnt", 63)), l = n - pos; if (want <= l) l = want = int64_t(vf_concretize(uint64_t(want))); CT t[8]; for (auto& x : t) x = 'z'; auto r = s.sgetn(t, want); vf_check(r == l, "a block read does not give the number of available characters"); bool ok = true; for (int64_t i = 0; i < 8; ++i) ok &= t[i] == (i < l ? p[pos + i] : CT('z')); vf_check(ok, "a block read gives other characters"); pos += l; break; }
        case 6: { way_t w = pick_way("way"); int64_t base = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? pos : n; int64_t off = any_off(base, n); auto r = s.pubseekoff(off, w, std::ios_base::in);
            uint64_t np = uint64_t(base) + uint64_t(off); if (np <= uint64_t(n)) { vf_check(int64_t(r) == int64_t(np), "a seek does not report the position it was asked for"); pos = int64_t(np); } else vf_check(int64_t(r) == -1, "a seek outside of the characters does not fail"); break; }
        case 7: { int64_t q = any_off(0, n); auto r = s.pubseekpos(typename buf_t::pos_type(q), std::ios_base::in); if (uint64_t(q) <= uint64_t(n)) { vf_check(int64_t(r) == q, "a seek does not report the position it was asked for"); pos = q; } else vf_check(int64_t(r) == -1, "a seek outside of the characters does not fail"); break; }
        case 8: vf_check(s.in_avail() == n - pos, "the number of available characters differs"); break;
        case 9: { vf_check(int64_t(s.pubseekoff(0, std::ios_base::cur, std::ios_base::in)) == pos, "the reported position differs"); vf_check(s.sputc('q') == eof, "an input buffer accepts output"); break; }
        case 10: if (vf::flag("other")) { p = a2.get(); n = 2; } else { p = a.get(); n = int64_t(n0); } b.reset(p, size_t(n)); pos = 0; break;
        }
        vf_check(b.goff() == size_t(pos) && b.size() == size_t(n), "the position or size differs");
    }
    bool ok = true; for (size_t i = 0; i < n0; ++i) ok &= a[i] == orig[i]; vf_check(ok, "the characters were modified"); vf_observe(uint64_t(pos)); vf_reach("end");
}
VF_ENTRY in_char() { in<char>(); }
VF_ENTRY in_char32() { in<char32_t>(); }
// long texts: block sizes around powers of two, positions at the ends and in the middle; first and last character of a block are arbitrary
static const size_t LEN[] = {1, 7, 16, 33, 100, 300};
template <class C> void outBig() {
    using CT = typename C::value_type; using buf_t = itlib::mem_ostreambuf<C>; size_t ops = vf_param("ops", 4);
    buf_t b(vf::flag("reserve") ? 40 : 0); std::basic_streambuf<CT>& s = b; static CT m[2048], t[300]; int64_t n = 0, pos = 0;
    auto same = [&](const C& c) { bool ok = true; for (int64_t i = 0; i < n; ++i) ok &= c.data()[i] == m[i]; return ok; };
    for (size_t k = 0; k < ops; ++k) {
        switch (vf::pick("op", 4)) {
        case 0: { size_t l = LEN[vf::pick("len", 6)]; for (size_t i = 0; i < l; ++i) t[i] = CT(1 + (i * 7 + k * 31) % 100); t[0] = CT(vf_sym("c", 7)); t[l - 1] = CT(vf_sym("c", 7)); vf_check(s.sputn(t, std::streamsize(l)) == std::streamsize(l), "sputn does not report the number of characters"); for (size_t i = 0; i < l; ++i) m[pos++] = t[i]; if (pos > n) n = pos; break; }
        case 1: { CT c = CT(vf_sym("c", 7)); size_t l = vf::flag("many") ? 20 : 1; for (size_t i = 0; i < l; ++i) { s.sputc(c); m[pos++] = c; } if (pos > n) n = pos; break; }
        case 2: { const int64_t P[] = {0, 1, n / 2, n - 1, n}; int64_t p = P[vf::pick("to", 5)]; vf_assume(p >= 0 && p <= n); way_t w = pick_way("way"); int64_t base = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? pos : n; vf_check(int64_t(s.pubseekoff(p - base, w, std::ios_base::out)) == p, "a seek does not report the position it was asked for"); pos = p; break; }
        case 3: { C c = b.get_container(); vf_check(c.size() == size_t(n) && same(c), "the container taken differs from what was written"); n = pos = 0; break; }
        }
        vf_check(b.poff() == size_t(pos) && b.peek_container().size() >= size_t(n) && same(b.peek_container()), "the container peeked at differs from what was written");
    }
    C c = b.get_container(); vf_check(c.size() == size_t(n) && same(c), "the container taken differs from what was written"); vf_observe(uint64_t(n)); vf_reach("end");
}
VF_ENTRY out_big_vector() { outBig<std::vector<char>>(); }
VF_ENTRY out_big_small() { outBig<itlib::small_vector<char, 40>>(); }
VF_ENTRY out_big_pod16() { outBig<itlib::pod_vector<char16_t>>(); }
VF_ENTRY in_big() {
    static char a[700]; for (size_t i = 0; i < 700; ++i) a[i] = char(i * 13 % 251); a[0] = char(vf::u8("c")); a[350] = char(vf::u8("c")); a[699] = char(vf::u8("c")); int64_t n = (int64_t[]){33, 300, 700}[vf::pick("n", 3)], pos = 0;
    itlib::mem_istreambuf<char> b(a, size_t(n)); std::streambuf& s = b; size_t ops = vf_param("ops", 4); static char t[400];
    for (size_t k = 0; k < ops; ++k) {
        switch (vf::pick("op", 3)) {
        case 0: { int64_t want = vf::flag("all") ? int64_t(vf_sym("cnt", 62)) + 700 : int64_t(LEN[vf::pick("len", 6)]), l = want < n - pos ? want : n - pos; vf_assume(l <= 400); auto r = s.sgetn(t, want); vf_check(r == l, "a block read does not give the number of available characters"); bool ok = true; for (int64_t i = 0; i < l; ++i) ok &= t[i] == a[pos + i]; vf_check(ok, "a block read gives other characters"); pos += l; break; }
        case 1: { const int64_t P[] = {0, 1, n / 2, n - 1, n}; int64_t p = P[vf::pick("to", 5)]; way_t w = pick_way("way"); int64_t base = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? pos : n; vf_check(int64_t(s.pubseekoff(p - base, w, std::ios_base::in)) == p, "a seek does not report the position it was asked for"); pos = p; break; }
        case 2: { for (int i = 0; i < 20; ++i) { auto r = s.sbumpc(); vf_check(r == (pos < n ? std::char_traits<char>::to_int_type(a[pos]) : EOF), "the character read differs"); pos += pos < n; } break; }
        }
        vf_check(b.goff() == size_t(pos) && s.in_avail() == n - pos, "the position or size differs");
    }
    vf_observe(uint64_t(pos)); vf_reach("end");
}
// sources of more than 2^31 characters: positions only
VF_ENTRY in_huge() {
    static const uint64_t N_[] = {(uint64_t(1) << 31) - 1, uint64_t(1) << 31, (uint64_t(1) << 32) + 3, uint64_t(1) << 40}; uint64_t n = N_[vf::pick("n", 4)], pos = 0; size_t ops = vf_param("ops", 2);
    static const char32_t store4[1] = {}; static const char store1[1] = {}; itlib::mem_istreambuf<char> b1(store1, n); itlib::mem_istreambuf<char32_t> b4; b4.reset(store4, n); bool wide = vf::flag("wide");
    for (size_t k = 0; k < ops; ++k) {
        const uint64_t T_[] = {0, 1, (uint64_t(1) << 31) - 1, uint64_t(1) << 31, uint64_t(1) << 32, n / 2, n - 1, n, n + 1, uint64_t(0) - 1}; uint64_t t = T_[vf::pick("to", 10)]; size_t how = vf::pick("how", 4); way_t w = how == 0 ? std::ios_base::beg : how == 1 ? std::ios_base::cur : std::ios_base::end; uint64_t base = how == 0 ? 0 : how == 1 ? pos : n; int64_t r;
        auto seek = [&](auto& b) { std::basic_streambuf<typename std::decay_t<decltype(b)>::char_type>& s = b; r = how == 3 ? int64_t(s.pubseekpos(int64_t(t), std::ios_base::in)) : int64_t(s.pubseekoff(int64_t(t - base), w, std::ios_base::in)); };
        if (wide) seek(b4); else seek(b1);
        if (t <= n) { vf_check(r == int64_t(t), "a seek does not report the position it was asked for"); pos = t; } else vf_check(r == -1, "a seek outside of the characters does not fail");
        vf_check((wide ? b4.goff() : b1.goff()) == pos && (wide ? b4.size() : b1.size()) == n, "the get position or the size differs"); vf_check((wide ? b4.in_avail() : b1.in_avail()) == int64_t(n - pos) || n == pos, "the number of characters left differs");
    }
    vf_reach("end");
}
// the container cannot grow (no memory, or its capacity is reached): what was written before stays, what is reported is what is recorded
static bool g_fail; template <class T> struct FAl { typedef T value_type; FAl() = default; template <class U> FAl(const FAl<U>&) {} T* allocate(size_t n) { if (g_fail && vf::flag("nomem")) throw std::bad_alloc(); return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { ::operator delete(p); } template <class U> friend bool operator==(const FAl&, const FAl<U>&) { return true; } template <class U> friend bool operator!=(const FAl&, const FAl<U>&) { return false; } };
template <class C> static void outFail() {
    g_fail = false; using CT = typename C::value_type; using buf_t = itlib::mem_ostreambuf<C>; { buf_t b(vf::pick("r", 3)); std::basic_streambuf<CT>& s = b; CT m[64]; size_t n = 0, pos = 0, ops = vf_param("ops", 3), threw = 0; g_fail = true;
    auto same = [&](const C& c) { bool ok = true; for (size_t i = 0; i < n; ++i) ok &= c.data()[i] == m[i]; return ok; };
    for (size_t k = 0; k < ops; ++k) {
        CT t[5]; size_t l = 0; bool one = false;
        switch (vf::pick("op", 4)) {
        case 0: one = true; l = 1; break; case 1: l = vf::pick("len", 5); break;
        case 2: { pos = vf::pick("to", n + 1); vf_check(size_t(s.pubseekpos(typename buf_t::pos_type(pos), std::ios_base::out)) == pos, "a seek does not report the position it was asked for"); continue; }
        case 3: { C c = b.get_container(); vf_check(c.size() == n && same(c), "the container taken differs from what was written"); n = pos = 0; continue; }
        }
        for (size_t i = 0; i < l; ++i) t[i] = CT(vf_sym("c", 8)); bool failed = false; size_t done = l;
        try { if (one) { if (s.sputc(t[0]) == buf_t::traits_type::eof()) done = 0; } else done = size_t(s.sputn(t, std::streamsize(l))); } catch (const std::exception&) { failed = true; ++threw; done = b.poff() - pos; vf_check(done <= l, "a write which failed moves the position elsewhere"); }
        vf_check(failed || done <= l, "sputn does not report the number of characters"); for (size_t i = 0; i < done; ++i) m[pos++] = t[i]; if (pos > n) n = pos;
        vf_check(b.poff() == pos && b.peek_container().size() >= n && same(b.peek_container()), "the container peeked at differs from what was written");
    }
    C c = b.get_container(); vf_check(c.size() == n && same(c), "the container taken differs from what was written"); if (threw) vf_reach("threw"); g_fail = false; }
    vf_reach("end");
}
VF_ENTRY out_fail_vector() { outFail<std::vector<char, FAl<char>>>(); }
VF_ENTRY out_fail_static() { outFail<itlib::static_vector<char, 5>>(); }

// single writes of about 2^16 characters
template <class C> void outLong() {
    using CT = typename C::value_type; using buf_t = itlib::mem_ostreambuf<C>; static const size_t L[] = {32767, 32768, 65535, 65536, 65537, 70001}; static CT m[72000]; size_t n = 0, pos = 0; size_t l = L[vf::pick("len", 6)];
    buf_t b(vf::flag("reserve") ? 65536 : 0); std::basic_streambuf<CT>& s = b; for (size_t i = 0, k = vf::pick("before", 3); i < k; ++i) { CT c = CT(vf_sym("c", 7)); s.sputc(c); m[n++] = c; } pos = n;
    auto same = [&](const C& c) { bool ok = true; for (size_t i = 0; i < n; ++i) ok &= c.data()[i] == m[i]; return ok; };
    for (size_t i = 0; i < l; ++i) m[n + i] = i == 0 || i == l - 1 ? CT(vf_sym("c", 7)) : CT(1 + (i * 7 + i / 256) % 100);
    if (vf::flag("single")) { for (size_t i = 0; i < l; ++i) s.sputc(m[n + i]); } else vf_check(s.sputn(m + n, std::streamsize(l)) == std::streamsize(l), "sputn does not report the number of characters"); pos = n += l;
    vf_check(b.poff() == pos, "the container peeked at differs from what was written");
    size_t where = vf::pick("to", 5); if (where) { size_t p = where == 1 ? 0 : where == 2 ? 32768 : where == 3 ? n - 1 : n; if (p > n) p = n; way_t w = where % 3 == 0 ? std::ios_base::beg : where % 3 == 1 ? std::ios_base::cur : std::ios_base::end; int64_t base = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? int64_t(pos) : int64_t(n); vf_check(int64_t(s.pubseekoff(int64_t(p) - base, w, std::ios_base::out)) == int64_t(p), "a seek does not report the position it was asked for"); pos = p; CT t[2] = {CT(vf_sym("c", 7)), 5}; size_t k = 1 + vf::flag("two"); s.sputn(t, std::streamsize(k)); for (size_t i = 0; i < k; ++i) m[pos++] = t[i]; if (pos > n) n = pos; vf_check(b.poff() == pos, "the container peeked at differs from what was written"); }
    C c = b.get_container(); vf_check(c.size() == n && same(c), "the container taken differs from what was written"); vf_observe(n); vf_reach("end");
}
VF_ENTRY out_long_string() { outLong<std::string>(); }
VF_ENTRY out_long_pod16() { outLong<itlib::pod_vector<char16_t>>(); }
template <class CT> void inLong() {
    static CT a[70001], t[70001]; const size_t N = 70001; for (size_t i = 0; i < N; ++i) a[i] = CT(1 + (i * 7 + i / 256) % 100); a[0] = CT(vf_sym("c", 7)); a[65536] = CT(vf_sym("c", 7)); a[N - 1] = CT(vf_sym("c", 7));
    static const size_t L[] = {32768, 65535, 65536, 65537, 70000, 70002, size_t(1) << 62}; itlib::mem_istreambuf<CT> b(a, N); std::basic_streambuf<CT>& s = b; size_t pos = vf::pick("before", 3); for (size_t i = 0; i < pos; ++i) s.sbumpc();
    size_t want = L[vf::pick("len", 7)], l = want < N - pos ? want : N - pos; vf_check(s.sgetn(t, std::streamsize(want)) == std::streamsize(l), "a block read does not give the number of available characters"); bool ok = true; for (size_t i = 0; i < l; ++i) ok &= t[i] == a[pos + i]; vf_check(ok, "a block read gives other characters"); pos += l; vf_check(b.goff() == pos && b.size() == N && s.in_avail() == std::streamsize(N - pos), "the position or size differs");
    if (vf::flag("seek")) { size_t p = vf::flag("far") ? 65537 : 3; way_t w = pick_way("way"); int64_t base = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? int64_t(pos) : int64_t(N); vf_check(int64_t(s.pubseekoff(int64_t(p) - base, w, std::ios_base::in)) == int64_t(p), "a seek does not report the position it was asked for"); pos = p; }
    auto r = s.sbumpc(); vf_check(r == (pos < N ? std::char_traits<CT>::to_int_type(a[pos]) : std::char_traits<CT>::eof()), "the character read differs"); vf_observe(pos); vf_reach("end");
}
VF_ENTRY in_long_char() { inLong<char>(); }
VF_ENTRY in_long_char16() { inLong<char16_t>(); }
