#include "seq.h"
#include <initializer_list>
#include <cstring>
#include <itlib/pod_vector.hpp>
using vfseq::Model;

// ---- allocators -----------------------------------------------------------------------------------------------
struct PBlock { char* raw; char* p; size_t n, cap; };
static PBlock g_b[48]; static int g_nb, g_total;
static int liveBlocks() { int n = 0; for (int i = 0; i < g_nb; ++i) if (g_b[i].p) ++n; return n; }
static PBlock* findBlock(void* p) { for (int i = 0; i < g_nb; ++i) if (g_b[i].p == (char*)p) return &g_b[i]; vf_fail("released or resized a block which was not obtained or was already returned"); }
static size_t g_off = 0;   // distance of blocks from the strongest alignment (multiple of the promised alignment)
static size_t g_slack = 0; // how much in place expansion can grow a block
template <size_t Align, bool Expand, size_t Waste, bool Zero>
struct PAlloc {
    typedef size_t size_type;
    static void* malloc(size_type n) {
        if (g_nb >= 48) vf_fail("harness: too many blocks");
        PBlock& b = g_b[g_nb++]; ++g_total;
        b.n = n; b.cap = n + g_slack; b.raw = (char*)::operator new(g_off + b.cap, std::align_val_t(128));
        b.p = b.raw + g_off; guard(&b);
        return b.p;
    }
    // bytes of the block beyond the requested size belong to the allocator
    static void guard(PBlock* b) { for (size_t i = b->n; i < b->cap; ++i) b->p[i] = char(0xA5); }
    static void intact(PBlock* b) { bool ok = true; for (size_t i = b->n; i < b->cap; ++i) ok &= b->p[i] == char(0xA5); vf_check(ok, "wrote behind the requested block"); }
    static void release(PBlock* b) { intact(b); b->p = nullptr; ::operator delete(b->raw, std::align_val_t(128)); }
    static void free(void* p) { if (p) release(findBlock(p)); }
    static size_type max_size() { return ~size_type(0); }
    static constexpr bool zero_fill_new() { return Zero; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Expand; }
    static constexpr size_type realloc_wasteful_copy_size() { return Waste; }
    static bool expand(void* p, size_type n) { if (!Expand) vf_fail("expand called on an allocator without it"); PBlock* b = findBlock(p); intact(b); if (n > b->cap || (n < b->n && vf::flag("refuse"))) return false; b->n = n; guard(b); return true; }
    static void* realloc(void* p, size_type n) {
        if (Expand) vf_fail("realloc called on an allocator without it");
        if (!p) return malloc(n);
        PBlock* b = findBlock(p);
        intact(b); if (n <= b->cap && vf::flag("inplace")) { b->n = n; guard(b); return p; }
        size_t on = b->n;
        char* q = (char*)malloc(n); std::memcpy(q, (char*)p, on < n ? on : n);
        release(findBlock(p));
        return q;
    }
};
template <size_t Al> struct alignas(Al) Over {
    uint32_t v; uint32_t rest[Al / 4 - 1];
    Over() = default; Over(uint32_t x) { std::memset(this, 0x11, sizeof(*this)); v = x; rest[Al / 4 - 2] = ~x; }
    bool operator==(const Over& o) const { return v == o.v; }
};
struct Three { uint8_t b[3]; Three() = default; Three(uint32_t x) { b[0] = uint8_t(x); b[1] = uint8_t(x >> 8); b[2] = uint8_t(x >> 16); } bool operator==(const Three& o) const { return b[0] == o.b[0] && b[1] == o.b[1] && b[2] == o.b[2]; } };
inline uint32_t valOf(uint32_t x) { return x; }
inline uint32_t valOf(uint8_t x) { return x; }
inline uint32_t valOf(const Three& x) { return x.b[0] | x.b[1] << 8 | x.b[2] << 16; }
template <size_t A> uint32_t valOf(const Over<A>& x) { vf_check(x.rest[A / 4 - 2] == ~x.v, "element bytes differ"); return x.v; }

template <class E_, class Al, bool Zero = true>
struct Tr {
    typedef E_ Elem; typedef itlib::pod_vector<Elem, Al> Vec;
    static uint32_t sym() { return sizeof(Elem) == 1 ? vf::u8("x") : sizeof(Elem) == 3 ? uint32_t(vf_sym("x", 24)) : vf::u32("x"); }
    static uint32_t val(const Elem& e) { return valOf(e); }
    static void invariant(Vec& v) {
        vf_check(reinterpret_cast<uintptr_t>(v.data()) % alignof(Elem) == 0, "data is not aligned for the element type");
        vf_check(v.byte_size() == v.size() * sizeof(Elem), "byte_size is not size times element size");
        volatile const Elem* p = v.data(); (void)p;
    }
    static Elem& emplace_back(Vec& v, uint32_t x) { if (vf::flag("empty")) { Elem& r = v.emplace_back(); r = Elem(x); return r; } return v.emplace_back(Elem(x)); }
    static typename Vec::iterator emplace(Vec& v, size_t p, uint32_t x) { return v.emplace(v.cbegin() + p, Elem(x)); }
    static void fresh(Vec& v, Model& m, size_t n) { // elements a size-only call added
        while (m.n < n) { if (Zero) m.push(0); else { uint32_t x = sym(); v[m.n] = Elem(x); m.push(x); } } m.n = n; }
    static void zeroCheck(Vec& v, size_t from) { if (Zero) for (size_t i = from; i < v.size(); ++i) { const unsigned char* b = (const unsigned char*)(v.data() + i); bool z = true; for (size_t k = 0; k < sizeof(Elem); ++k) z &= b[k] == 0; vf_check(z, "new elements are not zero filled"); v[i] = Elem(0); } }
    static void resize(Vec& v, Model& m, size_t n) { auto o = v.data(); bool r = v.resize(n); vf_check(r == (v.data() != o), "resize does not report whether the buffer moved"); vf_check(v.size() == n, "size after resize"); zeroCheck(v, m.n); fresh(v, m, n); }
    static void counted(Vec& v, Model& m, size_t n) { vf_check(v.size() == n, "size after construction"); zeroCheck(v, 0); fresh(v, m, n); }
    static void prep(Vec& v) { if (vf::flag("cap")) v.reserve(v.size() + 2); }
    static void swap(Vec& a, Vec& b) { a.swap(b); }
    static void emplaceBackPart(Vec& v, size_t i) { v.emplace_back(*(v.begin() + i)); }
    static typename Vec::iterator emplacePart(Vec& v, size_t p, size_t i) { const Vec& c = v; return v.emplace(v.begin() + p, c[i]); }
    static size_t extraOps() { return 3; }
    static void extra(Vec& v, Model& m, size_t op) {
        switch (op) {
        case 0: { size_t n = vfseq::pick("cap", m.n + 4); size_t c0 = v.capacity(); auto o = v.data(); bool r = v.reserve(n); vf_check(v.capacity() >= n && v.capacity() >= c0, "capacity below what was reserved"); vf_check(r == (v.data() != o), "reserve does not report whether the buffer moved"); break; }
        case 1: { auto o = v.data(); bool r = v.shrink_to_fit(); vf_check(v.capacity() == m.n, "shrink_to_fit leaves spare capacity"); vf_check(r == (v.data() != o), "shrink_to_fit does not report whether the buffer moved"); break; }
        case 2: { Vec c(v); c.push_back(Elem(1)); vf_check(!(c == v) && c != v, "vectors of different size compare equal"); v.push_back(Elem(1)); m.push(1); vf_check(c == v && !(c != v), "equal vectors compare different"); break; }
        }
    }
};
static void done() { vf_check(liveBlocks() == 0, "blocks were not returned"); }
#ifndef ELEM
#define ELEM uint32_t
#endif
typedef PAlloc<16, false, 4096, true> ARealloc; typedef PAlloc<16, false, 4, true> AWaste; typedef PAlloc<16, true, 0, true> AExpand; typedef PAlloc<4, false, 4096, false> ALow; typedef PAlloc<4, true, 0, true> ALowExp;
#define SCN(name, al, zero) \
    VF_ENTRY pv_##name() { vfseq::Scenario<Tr<ELEM, al, zero>>::run(vf_param("n", 3), 5, vf_param("ops", 2), 2, false); done(); } \
    VF_ENTRY pv_##name##_ctors() { vfseq::Scenario<Tr<ELEM, al, zero>>::run(4, 5, vf_param("ops", 1), 3, true); done(); }
SCN(default, itlib::impl::pod_allocator, true)
SCN(realloc, ARealloc, true)
SCN(waste, AWaste, true)
#define ALS(name, al, zero) VF_ENTRY pv_##name##_alias() { vfseq::Scenario<Tr<ELEM, al, zero>>::alias(3, 6, 3); done(); }
ALS(default, itlib::impl::pod_allocator, true)
ALS(realloc, ARealloc, true)
ALS(waste, AWaste, true)
VF_ENTRY pv_expand_alias() { g_slack = vf::pick("slack", 2) * 2 * sizeof(ELEM); vfseq::Scenario<Tr<ELEM, AExpand, true>>::alias(3, 6, 3); done(); }
VF_ENTRY pv_expand() { g_slack = vf::pick("slack", 2) * 2 * sizeof(ELEM); vfseq::Scenario<Tr<ELEM, AExpand, true>>::run(vf_param("n", 3), 5, vf_param("ops", 2), 2, false); done(); }
// weakly aligned allocator: every block sits `off` bytes from the strongest alignment
static void weak() { size_t n = vf_param("offs", 8); g_off = vf::pick("off", n) * (128 / n); }
VF_ENTRY pv_low() { weak(); vfseq::Scenario<Tr<ELEM, ALow, false>>::run(vf_param("n", 2), 4, vf_param("ops", 1), 2, true); done(); }
VF_ENTRY pv_low2() { weak(); vfseq::Scenario<Tr<ELEM, ALow, false>>::run(vf_param("n", 2), 4, vf_param("ops", 2), 1, false); done(); }
VF_ENTRY pv_lowexp() { weak(); g_slack = vf::pick("slack", 2) * 2 * sizeof(ELEM); vfseq::Scenario<Tr<ELEM, ALowExp, true>>::run(vf_param("n", 2), 4, vf_param("ops", 2), 1, false); done(); }

VF_ENTRY pv_big() { vfseq::big() = true; vfseq::Scenario<Tr<ELEM, itlib::impl::pod_allocator, true>>::run(4, 44, vf_param("ops", 1), 30, true); done(); }
VF_ENTRY pv_big_realloc() { vfseq::big() = true; vfseq::Scenario<Tr<ELEM, ARealloc, true>>::run(4, 44, vf_param("ops", 1), 30, true); done(); }
VF_ENTRY pv_big_waste() { vfseq::big() = true; vfseq::Scenario<Tr<ELEM, AWaste, true>>::run(4, 44, vf_param("ops", 1), 30, true); done(); }
VF_ENTRY pv_big_expand() { vfseq::big() = true; g_slack = vf::pick("slack", 2) * 12 * sizeof(ELEM); vfseq::Scenario<Tr<ELEM, AExpand, true>>::run(4, 44, vf_param("ops", 1), 30, true); done(); }
VF_ENTRY pv_big_low() { vfseq::big() = true; weak(); vfseq::Scenario<Tr<ELEM, ALow, false>>::run(4, 44, vf_param("ops", 1), 30, true); done(); }

// ---- re-typing buffers ----------------------------------------------------------------------------------------
template <class T, class U, class Al> void recast() {
    typedef Tr<T, Al, false> TT; typedef Tr<U, Al, false> TU; typedef itlib::pod_vector<T, Al> VT; typedef itlib::pod_vector<U, Al> VU;
    {
        VU src; size_t n = vf::pick("n", 5); Model ms;
        for (size_t i = 0; i < n; ++i) { uint32_t x = TU::sym(); src.push_back(U(x)); ms.push(x); }
        TU::prep(src);
        unsigned char bytes[512]; size_t nb = src.byte_size(); if (nb) std::memcpy(bytes, src.data(), nb);
        VT dst; size_t k = vf::pick("old", 3); for (size_t i = 0; i < k; ++i) dst.push_back(T(TT::sym())); TT::prep(dst);
        bool take = vf::flag("take");
        if (take) dst.recast_take_from(std::move(src)); else dst.recast_copy_from(src);
        size_t want = nb / sizeof(T);
        vf_check(dst.size() == want, "recast size is not the number of whole elements in the bytes");
        vf_check(dst.capacity() >= want, "recast capacity below the size");
        vf_check(want == 0 || reinterpret_cast<uintptr_t>(dst.data()) % alignof(T) == 0, "data is not aligned for the element type");
        bool ok = true; const unsigned char* d = (const unsigned char*)dst.data();
        for (size_t i = 0; i < want * sizeof(T); ++i) ok &= d[i] == bytes[i];
        vf_check(ok, "recast changed the bytes");
        if (take) { vf_check(src.empty() && src.capacity() == 0, "source of a taken buffer is not empty"); } else vfseq::Scenario<TU>::same(src, ms);
        // both remain usable
        unsigned char pre[512]; if (want) std::memcpy(pre, dst.data(), want * sizeof(T));
        for (int i = 0; i < 2; ++i) dst.push_back(T(7)); src.push_back(U(9));
        d = (const unsigned char*)dst.data(); ok = true; for (size_t i = 0; i < want * sizeof(T); ++i) ok &= d[i] == pre[i];
        vf_check(ok && valOf(dst[want]) == 7 && valOf(dst[want + 1]) == 7, "bytes lost after a recast");
        TT::invariant(dst); dst.shrink_to_fit(); vf_check(dst.size() == want + 2 && valOf(dst.back()) == 7, "elements lost after a recast");
        TT::invariant(dst);
        vf_observe(dst.size());
    }
    done(); vf_reach("end");
}
VF_ENTRY pv_recast_8_32() { recast<uint8_t, uint32_t, ARealloc>(); }
VF_ENTRY pv_recast_32_8() { recast<uint32_t, uint8_t, AWaste>(); }
VF_ENTRY pv_recast_3_32() { recast<Three, uint32_t, itlib::impl::pod_allocator>(); }
VF_ENTRY pv_recast_32_3() { recast<uint32_t, Three, AExpand>(); }
VF_ENTRY pv_recast_over() { weak(); recast<Over<32>, Over<64>, ALow>(); }
VF_ENTRY pv_recast_over2() { weak(); recast<Over<64>, Over<32>, ALow>(); }
VF_ENTRY pv_ranges() { vfseq::Scenario<Tr<ELEM, ARealloc, true>>::ranges(3, 3); done(); }
VF_ENTRY pv_ranges_low() { weak(); vfseq::Scenario<Tr<ELEM, ALow, false>>::ranges(2, 3); done(); }
#include "many.h"
// sizes around 2^8 and 2^16
VF_ENTRY pv_many() { vfm::run<itlib::pod_vector<vfm::X>, true, 1300>(vfm::AROUND8, 4, 520, 1); }
VF_ENTRY pv_very_many() { vfm::run<itlib::pod_vector<vfm::X>, true, 66600>(vfm::AROUND16, 2, 65600, 1); }
