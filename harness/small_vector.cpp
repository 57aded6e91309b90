#include "seq.h"
#include "talloc.h"
#include <cassert>
#include <cstdint>
#include <itlib/small_vector.hpp>
using vfseq::Model;
static bool g_storage; // storage assertions (C04)
template <class E_, size_t Cap, size_t Rev, class Al>
struct Tr : vfseq::TrBase {
    typedef E_ Elem; typedef itlib::small_vector<Elem, Cap, Rev, Al> Vec;
    static uint32_t val(const Elem& e) { return vfseq::valOf(e); }
    static void invariant(Vec& v) {
        vf_check(v.capacity() >= Cap || g_storage, "capacity below the static capacity");
        bool inside = (char*)v.data() >= (char*)&v && (char*)v.data() < (char*)(&v + 1);
        vf_check(v.is_static() == inside, "is_static() differs from where the elements are");
        if (inside) vf_check(v.capacity() == Cap, "capacity in the internal buffer is not the static capacity");
    }
    static Elem& emplace_back(Vec& v, uint32_t x) { return v.emplace_back(x); }
    static typename Vec::iterator emplace(Vec& v, size_t p, uint32_t x) { return v.emplace(v.cbegin() + p, x); }
    static void failExtra(Vec& v, size_t n) { if (n == 0) v.shrink_to_fit(); else if (n == 1) v.revert_to_static(); else v.reserve(n + 3); }
    static void emplaceBackPart(Vec& v, size_t i) { v.emplace_back(v[i].v); }
    static typename Vec::iterator emplacePart(Vec& v, size_t p, size_t i) { return v.emplace(v.cbegin() + p, v[i].v); }
    static void resize(Vec& v, Model& m, size_t n) { v.resize(n); m.resize(n, 0); }
    static void counted(Vec&, Model& m, size_t n) { m.resize(n, 0); }
    static void prep(Vec& v) { if (vf::flag("dyn")) v.reserve(Cap + 2); }
    static void swap(Vec& a, Vec& b) { std::swap(a, b); }
    static size_t extraOps() { return 4; }
    static void extra(Vec& v, Model& m, size_t op) {
        switch (op) {
        case 0: { size_t n = vfseq::big() ? vfseq::pick("cap", 48) : vf::pick("cap", Cap + 4); size_t c0 = v.capacity(); v.reserve(n); vf_check(v.capacity() >= n && v.capacity() >= c0, "capacity below what was reserved"); break; }
        case 1: { auto old = v.data(); bool r = v.shrink_to_fit(); vf_check(r == (v.data() != old), "shrink_to_fit reports whether it moved the elements"); vf_check(v.is_static() || v.capacity() == v.size(), "shrink_to_fit leaves spare capacity"); vf_check(m.n > Cap || v.is_static(), "shrink_to_fit of a fitting vector does not go back to the internal buffer"); break; }
        case 2: { bool r = v.revert_to_static(); vf_check(r == v.is_static(), "revert_to_static does not report whether the vector is static"); vf_check(r == (m.n <= Cap), "revert_to_static succeeds exactly when the elements fit"); break; }
        case 3: { itlib::small_vector<Elem, Cap + 1, 0> o; for (size_t i = 0; i < m.n; ++i) o.push_back(Elem(m.a[i])); vf_check(o == v && v == o && !(o != v), "equal vectors of different type compare different"); o.push_back(Elem(1)); vf_check(!(o == v) && v != o, "vectors of different size compare equal"); break; }
        }
    }
};
typedef vfseq::Val Val; typedef vf::Tracked<1> Trk; typedef vf::Tracked<1, true, true> Thr;
#ifndef CAP
#define CAP 2
#define REV 0
#endif
VF_ENTRY smv_values() { vfseq::Scenario<Tr<Val, CAP, REV, std::allocator<Val>>>::run(vf_param("n", 3), CAP + 2, vf_param("ops", 2), 2, false); }
VF_ENTRY smv_ctors() { vfseq::Scenario<Tr<Val, CAP, REV, std::allocator<Val>>>::run(4, 5, vf_param("ops", 1), 3, true); }

typedef vf::TAlloc<Trk, false> TA;
typedef Tr<Trk, CAP, REV, TA> TL;
static void finished() { vf_check(vf_live_count(0) == 0, "elements remain alive"); vf_check(vf::live_blocks() == 0, "allocated blocks were not returned"); }
VF_ENTRY smv_life() { vfseq::Scenario<TL>::run(vf_param("n", 3), CAP + 2, vf_param("ops", 2), 2, false); finished(); }
VF_ENTRY smv_life_ctors() { vfseq::Scenario<TL>::run(4, 5, vf_param("ops", 1), 3, true); finished(); }
// as long as no more than the static capacity is needed nothing is allocated
VF_ENTRY smv_noalloc() {
    struct T0 : TL { static void prep(typename TL::Vec&) {} static size_t extraOps() { return 4; }
        static void extra(typename TL::Vec& v, Model& m, size_t op) { if (op == 0) { v.reserve(vf::pick("cap", CAP + 1)); } else TL::extra(v, m, op); }
        static void invariant(typename TL::Vec& v) { TL::invariant(v); vf_check(v.is_static(), "left the internal buffer although it suffices"); } };
    vfseq::Scenario<T0>::run(CAP, CAP, 2, CAP, false); finished();
    vf_check(vf::blocks().total == 0, "allocation although the internal buffer suffices");
}
// after erase, pop_back or clear below the revert size the vector is static again
VF_ENTRY smv_revert() {
    typename TL::Vec v; Model m; typedef vfseq::Scenario<TL> S; S::fillTo(v, m, vf::pick("n0", CAP + 4)); TL::prep(v);
    static const size_t ops[] = {3, 10, 11, 17};
    size_t op = ops[vf::pick("op", 4)]; size_t before = m.n;
    S::step(v, m, op, CAP + 4, 2); S::same(v, m);
    if (REV > 0 && m.n < REV && m.n < before) { vf_check(v.is_static(), "not back in the internal buffer below the revert size"); vf_check(vf::live_blocks() == 0, "block kept after reverting to the internal buffer"); vf_reach("reverted"); }
    v.~small_vector(); finished(); new (&v) TL::Vec();
    vf_reach("end");
}
// different allocators: blocks must go back where they came from
VF_ENTRY smv_allocs() {
    typedef vfseq::Scenario<TL> S; typedef TL::Vec Vec;
    { Vec a(TA(1)), b(TA(2)); Model ma, mb; S::fillTo(a, ma, vf::pick("na", CAP + 3)); TL::prep(a); S::fillTo(b, mb, vf::pick("nb", CAP + 3)); TL::prep(b);
      switch (vf::pick("op", 7)) {
      case 0: a = b; ma = mb; break;
      case 1: a = std::move(b); ma = mb; mb.clear(); break;
      case 2: { std::swap(a, b); Model t = ma; ma = mb; mb = t; break; }
      case 3: { Vec c(b); S::same(c, mb); vf_check(c.get_allocator() == b.get_allocator(), "copy uses another allocator"); a = std::move(c); ma = mb; break; }
      case 4: { Vec c(b, TA(3)); S::same(c, mb); vf_check(c.get_allocator().id == 3, "allocator argument ignored"); a = c; ma = mb; break; }
      case 5: { Vec c(std::move(b)); S::same(c, mb); ma = mb; mb.clear(); vf_check(c.get_allocator().id == 2, "moved vector uses another allocator"); a = std::move(c); break; }
      case 6: { a = std::move(b); ma = mb; mb.clear(); S::same(b, mb); S::fillTo(b, mb, CAP + 1); break; }
      }
      if (vf::flag("more")) { S::fillTo(a, ma, ma.n + 2); S::fillTo(b, mb, mb.n + 2); }
      S::same(a, ma); S::same(b, mb);
    }
    finished(); vf_reach("end");
}
VF_ENTRY smv_alias() { vfseq::Scenario<Tr<Val, CAP, REV, std::allocator<Val>>>::alias(CAP + 2, CAP + 5, 3); }
VF_ENTRY smv_alias_life() { vfseq::Scenario<TL>::alias(CAP + 2, CAP + 5, 3); finished(); }
VF_ENTRY smv_fail() { vf::alloc_fails() = true; vfseq::Scenario<Tr<Thr, CAP, REV, vf::TAlloc<Thr, false>>>::fail(CAP + 2, CAP + 4, 2); finished(); }
VF_ENTRY smv_pod() { vfseq::Scenario<Tr<vfseq::Pod, CAP, REV, std::allocator<vfseq::Pod>>>::run(vf_param("n", 3), CAP + 2, vf_param("ops", 1), 2, true); }
VF_ENTRY smv_over() { vfseq::Scenario<Tr<vfseq::Over, CAP, REV, std::allocator<vfseq::Over>>>::run(vf_param("n", 3), CAP + 2, vf_param("ops", 1), 2, true); }
VF_ENTRY smv_big() { vfseq::big() = true; vfseq::Scenario<Tr<Val, CAP, REV, std::allocator<Val>>>::run(4, 44, vf_param("ops", 1), 30, true); }
VF_ENTRY smv_big_pod() { vfseq::big() = true; vfseq::Scenario<Tr<vfseq::Pod, CAP, REV, std::allocator<vfseq::Pod>>>::run(4, 44, vf_param("ops", 1), 30, true); }
VF_ENTRY smv_big_life() { vfseq::big() = true; vfseq::Scenario<TL>::run(4, 44, vf_param("ops", 1), 30, true); finished(); }
VF_ENTRY smv_ranges() { vfseq::Scenario<Tr<Val, CAP, REV, std::allocator<Val>>>::ranges(3, 3); }
VF_ENTRY smv_ranges_pod() { vfseq::Scenario<Tr<vfseq::Pod, CAP, REV, std::allocator<vfseq::Pod>>>::ranges(3, 3); }
VF_ENTRY smv_ranges_life() { vfseq::Scenario<TL>::ranges(3, 3); finished(); }
// allocators with their own construct, destroy and select_on_container_copy_construction; allocators which do not propagate (always equal)
static long g_con;
template <class T> struct CAl : vf::TAlloc<T, false> {
    CAl(int i = 1) : vf::TAlloc<T, false>(i) {} template <class U> CAl(const CAl<U>& o) : vf::TAlloc<T, false>(o.id) {} template <class U> struct rebind { typedef CAl<U> other; };
    template <class U, class... A> void construct(U* p, A&&... a) { ::new ((void*)p) U(std::forward<A>(a)...); ++g_con; } template <class U> void destroy(U* p) { --g_con; vf_check(g_con >= 0, "the allocator destroys more elements than it constructed"); p->~U(); }
    CAl select_on_container_copy_construction() const { return CAl(this->id + 10); }
};
typedef Tr<Trk, CAP, REV, CAl<Trk>> TC; typedef Tr<Trk, CAP, REV, vf::TAlloc<Trk, true, false>> TE;
VF_ENTRY smv_alconstruct() {
    g_con = 0; vfseq::Scenario<TC>::run(vf_param("n", 3), CAP + 2, vf_param("ops", 1), 2, true); vf_check(g_con == 0, "not every element which the allocator constructed is destroyed by it"); finished();
    { typedef vfseq::Scenario<TC> S; typename TC::Vec a(CAl<Trk>(4)); Model m; S::fillTo(a, m, vf::pick("na", CAP + 3)); typename TC::Vec b(a), c(a, CAl<Trk>(5)); vf_check(b.get_allocator().id == 14 && c.get_allocator().id == 5 && a.get_allocator().id == 4, "a copy uses another allocator"); S::same(b, m); S::same(c, m); S::same(a, m); vf_check(g_con == long(3 * m.n), "elements are not constructed by the allocator"); } vf_check(g_con == 0, "not every element which the allocator constructed is destroyed by it"); finished();
}
VF_ENTRY smv_alequal() { vfseq::Scenario<TE>::run(vf_param("n", 3), CAP + 2, vf_param("ops", 1), 2, true); finished(); }
// positions which are not in the vector are refused and nothing changes
VF_ENTRY smv_misuse() {
    typedef vfseq::Scenario<TL> S; typedef typename TL::Vec Vec;
    { Vec v; Model m; S::fillTo(v, m, vf::pick("n0", CAP + 3)); TL::prep(v); long n = (long)m.n, d = (long)vf::pick("pos", CAP + 6) - 1; if (d > n + 2) return; auto pos = v.cbegin() + d; size_t k = vf::pick("k", 3); Trk x(7u); Trk arr[2] = {Trk(1u), Trk(2u)}; bool bad = d < 0 || d > n, threw = false;
      if (!bad && d + (long)k > n) bad = true; // erasing
      uint64_t live = vf_live_count(0);
      try { switch (vf::pick("op", 8)) {
        case 0: if (d >= 0 && d < n) return; v.erase(pos); break;
        case 1: if (!bad) return; v.erase(pos, pos + k); break;
        case 2: if (k == 0 || d < 0 || d + (long)k > n) return; v.erase(pos + k, pos); break;
        case 3: if (d >= 0 && d <= n) return; if (k == 0) v.insert(pos, x); else v.insert(pos, Trk(9u)); break;
        case 4: if (d >= 0 && d <= n) return; v.insert(pos, k, x); break;
        case 5: if (d >= 0 && d <= n) return; if (k == 2 && n > 1) v.insert(pos, std::initializer_list<Trk>{Trk(1u)}); else v.insert(pos, arr, arr + k); break;
        case 6: if (d >= 0 && d <= n) return; v.emplace(pos, 5u); break;
        default: if (n == 0 || (d >= 0 && d <= n)) return; if (k == 0) v.insert(pos, v[0]); else v.emplace(pos, v[n - 1].v); break;
      } } catch (const std::out_of_range&) { threw = true; }
      vf_check(threw, "a position outside of the vector is accepted"); vf_check(vf_live_count(0) == live, "a refused call leaves elements behind"); S::same(v, m); S::fillTo(v, m, m.n + 2); }
    finished(); vf_reach("end");
}
#include "many.h"
// sizes and capacities around 2^8 and 2^16
VF_ENTRY smv_many() { switch (vf::pick("cap", 4)) { case 0: vfm::run<itlib::small_vector<vfm::X, 255>, false, 1300>(vfm::AROUND8, 4, 520, 1); break; case 1: vfm::run<itlib::small_vector<vfm::Nt, 256, 254>, false, 1300>(vfm::AROUND8, 4, 520, 1); break; case 2: vfm::run<itlib::small_vector<vfm::X, 5>, false, 1300>(vfm::AROUND8, 4, 520, 1); break; default: vfm::run<itlib::small_vector<vfm::Nt, 600, 256>, false, 1300>(vfm::AROUND8, 4, 620, 1); break; } }
VF_ENTRY smv_very_many() { if (vf::flag("cap")) vfm::run<itlib::small_vector<vfm::X, 65535, 65535>, false, 66600>(vfm::AROUND16, 2, 65600, 1); else vfm::run<itlib::small_vector<vfm::X, 2>, false, 66600>(vfm::AROUND16, 2, 65537, 1); }
