#include "seq.h"
#include <itlib/static_vector.hpp>
using vfseq::Model;
template <class E_, size_t Cap>
struct Tr : vfseq::TrBase {
    typedef E_ Elem; typedef itlib::static_vector<Elem, Cap> Vec;
    static uint32_t val(const Elem& e) { return vfseq::valOf(e); }
    static void invariant(Vec& v) { vf_check(v.size() <= Cap && v.capacity() == Cap && v.max_size() == Cap, "capacity is not the declared one"); }
    static Elem& emplace_back(Vec& v, uint32_t x) { return v.emplace_back(x); }
    static typename Vec::iterator emplace(Vec& v, size_t p, uint32_t x) { return v.emplace(v.cbegin() + p, x); }
    static void failExtra(Vec&, size_t) {}
    static void emplaceBackPart(Vec& v, size_t i) { v.emplace_back(v[i].v); }
    static typename Vec::iterator emplacePart(Vec& v, size_t p, size_t i) { return v.emplace(v.cbegin() + p, v[i].v); }
    static void resize(Vec& v, Model& m, size_t n) { v.resize(n); m.resize(n, 0); }
    static void counted(Vec&, Model& m, size_t n) { m.resize(n, 0); }
    static void prep(Vec&) {}
    static void swap(Vec& a, Vec& b) { a.swap(b); }
    static size_t extraOps() { return 2; }
    static void extra(Vec& v, Model& m, size_t op) {
        if (op == 0) { // from a vector of other capacity
            itlib::static_vector<Elem, Cap + 1> o; size_t n = vfseq::pick("n2", Cap + 2); Model mo;
            while (mo.n < n) { uint32_t x = vf::u32("x"); o.push_back(Elem(x)); mo.push(x); }
            bool threw = false;
            try { Vec c(o); vf_check(c == o && !(c != o), "comparison across capacities"); v = c; } catch (std::out_of_range&) { threw = true; }
            vf_check(threw == (n > Cap), "out_of_range exactly when the capacity is exceeded"); if (!threw) m = mo;
        } else { // pattern: comparison of vectors that differ in length
            Vec c(v); if (m.n) { c.pop_back(); vf_check(!(c == v) && c != v && !(v == c), "vectors of different size compare equal"); }
        }
    }
};
typedef vfseq::Val Val; typedef vf::Tracked<1> Trk; typedef vf::Tracked<1, true, true> Thr;
VF_ENTRY sv_values() { vfseq::Scenario<Tr<Val, 4>>::run(vf_param("n", 4), 4, vf_param("ops", 2), 2, false); }
VF_ENTRY sv_ctors() { vfseq::Scenario<Tr<Val, 5>>::run(5, 5, vf_param("ops", 1), 3, true); }
VF_ENTRY sv_life() { vfseq::Scenario<Tr<Trk, 4>>::run(vf_param("n", 4), 4, vf_param("ops", 2), 2, false); vf_check(vf_live_count(0) == 0, "elements remain alive"); }
VF_ENTRY sv_life_ctors() { vfseq::Scenario<Tr<Trk, 5>>::run(5, 5, vf_param("ops", 1), 3, true); vf_check(vf_live_count(0) == 0, "elements remain alive"); }

// every call that would exceed the capacity throws out_of_range, for every count, and leaves the vector usable
template <class E> void overflow() {
    const size_t Cap = 3; typedef itlib::static_vector<E, Cap> Vec; typedef vfseq::Scenario<Tr<E, Cap>> S;
    Vec v; Model m; S::fillTo(v, m, vf::pick("n0", Cap + 1));
    size_t op = vf::pick("op", 13); bool threw = false;
    uint64_t n = vf::u64("count"); uint32_t x = vf::u32("x"); const E e(x);
    size_t pos = vf::pick("pos", m.n + 1);
    uint32_t xs[5] = {1, 2, 3, 4, 5};
    try {
        switch (op) {
        case 0: vf_assume(m.n == Cap); v.push_back(e); break;
        case 1: vf_assume(m.n == Cap); v.push_back(E(x)); break;
        case 2: vf_assume(m.n == Cap); v.emplace_back(x); break;
        case 3: vf_assume(m.n == Cap); v.insert(v.begin() + pos, e); break;
        case 4: vf_assume(m.n == Cap); v.insert(v.begin() + pos, E(x)); break;
        case 5: vf_assume(m.n == Cap); v.emplace(v.begin() + pos, x); break;
        case 6: vf_assume(n > Cap - m.n); v.insert(v.begin() + pos, n, e); break;
        case 7: vf_assume(n > Cap); v.resize(n); break;
        case 8: vf_assume(n > Cap); v.resize(n, e); break;
        case 9: vf_assume(n > Cap); v.assign(n, e); break;
        case 10: { vf_assume(n > Cap - m.n && n <= 5); v.insert(v.begin() + pos, vfseq::GenIt<E>{xs}, vfseq::GenIt<E>{xs + vf_concretize(n)}); break; }
        case 11: { vf_assume(n > Cap && n <= 5); v.assign(vfseq::GenIt<E>{xs}, vfseq::GenIt<E>{xs + vf_concretize(n)}); break; }
        case 12: { vf_assume(m.n >= 2); v.insert(v.begin() + pos, {E(1), E(2)}); break; }
        }
    } catch (std::out_of_range&) { threw = true; }
    vf_check(threw, "exceeding the capacity did not throw out_of_range");
    vf_check(v.size() <= Cap, "size beyond the capacity");
    if (op == 9 || op == 11) m.clear(); // assign may have dropped the old content
    if (op != 9 && op != 11) S::same(v, m);
    v.clear(); m.clear(); S::fillTo(v, m, Cap); S::same(v, m);
    vf_reach("end");
}
VF_ENTRY sv_overflow() { overflow<Val>(); }
VF_ENTRY sv_overflow_life() { overflow<Trk>(); vf_check(vf_live_count(0) == 0, "elements remain alive"); }
// huge counts to constructors
VF_ENTRY sv_ctor_overflow() {
    uint64_t n = vf::u64("count"); vf_assume(n > 3); bool threw = false; uint32_t xs[5] = {1, 2, 3, 4, 5};
    try {
        switch (vf::pick("c", 4)) {
        case 0: { itlib::static_vector<Trk, 3> v(n); break; }
        case 1: { itlib::static_vector<Trk, 3> v(n, Trk(1)); break; }
        case 2: { vf_assume(n <= 5); itlib::static_vector<Trk, 3> v(vfseq::GenIt<Trk>{xs}, vfseq::GenIt<Trk>{xs + vf_concretize(n)}); break; }
        case 3: { itlib::static_vector<Trk, 3> v({Trk(1), Trk(2), Trk(3), Trk(4)}); break; }
        }
    } catch (std::out_of_range&) { threw = true; }
    vf_check(threw, "exceeding the capacity did not throw out_of_range");
    vf_check(vf_live_count(0) == 0, "elements remain alive");
    vf_reach("end");
}
VF_ENTRY sv_alias() { vfseq::Scenario<Tr<Val, 5>>::alias(4, 5, 3); }
VF_ENTRY sv_alias_life() { vfseq::Scenario<Tr<Trk, 4>>::alias(3, 4, 2); vf_check(vf_live_count(0) == 0, "elements remain alive"); }
VF_ENTRY sv_fail() { vfseq::Scenario<Tr<Thr, 4>>::fail(3, 4, 2); vf_check(vf_live_count(0) == 0, "elements remain alive"); }
VF_ENTRY sv_pod() { vfseq::Scenario<Tr<vfseq::Pod, 4>>::run(vf_param("n", 4), 4, vf_param("ops", 1), 2, true); }
VF_ENTRY sv_over() { vfseq::Scenario<Tr<vfseq::Over, 4>>::run(vf_param("n", 4), 4, vf_param("ops", 1), 2, true); }
VF_ENTRY sv_big() { vfseq::big() = true; vfseq::Scenario<Tr<Val, 40>>::run(4, 40, vf_param("ops", 1), 30, true); }
VF_ENTRY sv_big_pod() { vfseq::big() = true; vfseq::Scenario<Tr<vfseq::Pod, 40>>::run(4, 40, vf_param("ops", 1), 30, true); }
VF_ENTRY sv_big_life() { vfseq::big() = true; vfseq::Scenario<Tr<Trk, 40>>::run(4, 40, vf_param("ops", 1), 30, true); vf_check(vf_live_count(0) == 0, "elements remain alive"); }
VF_ENTRY sv_ranges() { vfseq::Scenario<Tr<Val, 6>>::ranges(3, 3); }
VF_ENTRY sv_ranges_pod() { vfseq::Scenario<Tr<vfseq::Pod, 6>>::ranges(3, 3); }
VF_ENTRY sv_ranges_life() { vfseq::Scenario<Tr<Trk, 6>>::ranges(3, 3); vf_check(vf_live_count(0) == 0, "elements remain alive"); }
#include "many.h"
// sizes and capacities around 2^8 and 2^16
VF_ENTRY sv_many() { switch (vf::pick("cap", 4)) { case 0: vfm::run<itlib::static_vector<vfm::X, 255>, false, 1300>(vfm::AROUND8, 2, 255, 1); break; case 1: vfm::run<itlib::static_vector<vfm::Nt, 256>, false, 1300>(vfm::AROUND8, 3, 256, 1); break; case 2: vfm::run<itlib::static_vector<vfm::X, 257>, false, 1300>(vfm::AROUND8, 4, 257, 1); break; default: vfm::run<itlib::static_vector<vfm::Nt, 600>, false, 1300>(vfm::AROUND8, 4, 600, 1); break; } }
VF_ENTRY sv_very_many() { if (vf::flag("cap")) vfm::run<itlib::static_vector<vfm::X, 65537>, false, 66600>(vfm::AROUND16, 2, 65537, 1); else vfm::run<itlib::static_vector<vfm::X, 65536>, false, 66600>(vfm::AROUND16, 2, 65536, 1); }
