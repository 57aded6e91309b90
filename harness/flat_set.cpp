#include "flat.h"
#include <itlib/flat_set.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/small_vector.hpp>
#include <deque>
using namespace vff;
template <class Set, bool HasSwap = true> struct S {
    static void sw(Set& a, Set& b) { if constexpr (HasSwap) a.swap(b); else std::swap(a, b); }
    typedef typename Set::iterator It;
    static uint32_t key() { return vf::u8("k"); } // only the order of keys matters: 8 bits give every order of the bounded number of keys
    static void same(Set& m, const Model& r) {
        const Set& c = m;
        vf_check(c.size() == r.n && m.empty() == (r.n == 0) && c.container().size() == r.n, "size differs from a set's");
        vf_check(size_t(m.end() - m.begin()) == r.n && size_t(c.end() - c.begin()) == r.n && size_t(c.cend() - c.cbegin()) == r.n, "iterator distance differs from the size");
        bool ok = true; size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= it->v == r.k[i];
        vf_check(ok, "iteration does not give the elements of a set in order");
        ok = true; i = r.n; for (auto it = m.rbegin(); it != m.rend(); ++it) { --i; ok &= it->v == r.k[i]; } for (i = r.n; i > 0; --i) ok &= nth(c.rbegin(), r.n - i)->v == r.k[i - 1];
        vf_check(ok && size_t(c.rend() - c.rbegin()) == r.n, "reverse iteration does not give the elements of a set");
    }
    template <class Q> static void lookup(Set& m, const Model& r, const Q& q) {
        const Set& c = m; uint32_t x = q.v; size_t lo = r.lower(x), up = r.upper(x); bool has = r.has(x);
        vf_check(m.lower_bound(q) == nth(m.begin(), lo) && c.lower_bound(q) == nth(c.begin(), lo), "lower_bound differs from a set's");
        vf_check(m.upper_bound(q) == nth(m.begin(), up) && c.upper_bound(q) == nth(c.begin(), up), "upper_bound differs from a set's");
        auto e = m.equal_range(q); auto ec = c.equal_range(q);
        vf_check(e.first == nth(m.begin(), lo) && e.second == nth(m.begin(), up) && ec.first == nth(c.begin(), lo) && ec.second == nth(c.begin(), up), "equal_range differs from a set's");
        vf_check(m.find(q) == (has ? nth(m.begin(), lo) : m.end()) && c.find(q) == (has ? nth(c.begin(), lo) : c.end()), "find differs from a set's");
        vf_check(c.count(q) == (has ? 1 : 0), "count differs from a set's");
    }
    static void fill(Set& m, Model& r, size_t n) { while (n--) { uint32_t k = key(); bool f; r.put(k, 0, f); m.insert(K(k)); } }
    static void got(Set& m, std::pair<It, bool> g, size_t i, bool fresh) { vf_check(g.second == fresh, "inserted flag differs from a set's"); vf_check(g.first == nth(m.begin(), i), "returned iterator is not the element"); }
    static const size_t NOPS = 18;
    static void step(Set& m, Model& r, size_t op, size_t maxn) {
        bool f; size_t i;
        switch (op) {
        case 0: { uint32_t k = key(); i = r.put(k, 0, f); const K p(k); got(m, m.insert(p), i, f); vf_check(p.v == k, "insert changed its argument"); break; }
        case 1: { uint32_t k = key(); i = r.put(k, 0, f); K p(k); got(m, m.insert(std::move(p)), i, f); vf_check(f || p.v == k, "insert of a present element took its argument"); break; }
        case 2: { uint32_t k = key(); i = r.put(k, 0, f); Ot p{k}; got(m, m.insert(p), i, f); break; }
        case 3: { uint32_t k = key(); i = r.put(k, 0, f); got(m, m.emplace(k), i, f); break; }
        case 4: { uint32_t k = key(); i = r.put(k, 0, f); K p(k); got(m, m.insert(p), i, f); vf_check(p.v == k, "insert changed its argument"); break; }
        case 5: { uint32_t k = key(); i = r.put(k, 0, f); K p(k); got(m, m.emplace(p), i, f); vf_check(p.v == k, "emplace changed its argument"); break; }
        case 6: { lookup(m, r, K(key())); break; }
        case 7: { uint32_t k = key(); bool h = r.has(k); if (h) r.erase(r.lower(k)); vf_check(m.erase(K(k)) == (h ? 1 : 0), "erase reports a wrong count"); break; }
        case 8: { uint32_t k = key(); bool h = r.has(k); if (h) r.erase(r.lower(k)); vf_check(m.erase(Ot{k}) == (h ? 1 : 0), "erase reports a wrong count"); break; }
        case 9: { vf_assume(r.n > 0); i = vf::pick("pos", r.n); bool ci = vf::flag("const"); r.erase(i); auto it = ci ? m.erase(nth(m.cbegin(), i)) : m.erase(nth(m.begin(), i)); vf_check(it == nth(m.begin(), i), "erase returns a wrong iterator"); break; }
        case 10: { vf_assume(r.n > 0); i = vf::pick("pos", r.n); const K& own = *nth(m.cbegin(), i); r.erase(i); vf_check(m.erase(own) == 1, "erase reports a wrong count"); break; }
        case 11: { lookup(m, r, Ot{key()}); break; }
        case 12: { m.clear(); r.n = 0; break; }
        case 13: { Set o(m); same(o, r); vf_check(o == m && !(o != m), "a copy compares different"); Model ro = r; uint32_t k = key(); ro.put(k, 0, f); o.insert(K(k)); same(o, ro); vf_check((o == m) == !f && (o != m) == f, "comparison differs from a set's"); break; }
        case 14: { Set o(std::move(m)); same(o, r); m = std::move(o); break; }
        case 15: { Set o(m); Model ro = r; o.clear(); ro.n = 0; fill(o, ro, vf::pick("n2", maxn)); m = o; r = ro; same(o, r); break; }
        case 16: { Set o(m); Model ro = r; o.clear(); ro.n = 0; fill(o, ro, vf::pick("n2", maxn)); m = std::move(o); r = ro; break; }
        case 17: { Set o(m); Model ro = r; o.clear(); ro.n = 0; fill(o, ro, vf::pick("n2", maxn)); sw(m, o); same(o, r); r = ro; break; }
        }
    }
    static void built(Set& m, Model& r, const uint32_t* ks, size_t n) {
        bool f; for (size_t i = 0; i < n; ++i) r.put(ks[i], 0, f);
        vf_check(m.size() == r.n, "building does not remove exactly the duplicates");
        size_t j = 0; bool ok = true, src = true;
        for (auto& p : m) { ok &= r.same(p.v, r.k[j]); bool any = false; for (size_t i = 0; i < n; ++i) any |= ks[i] == p.v; src &= any; r.k[j++] = p.v; }
        vf_check(ok, "building does not sort the elements"); vf_check(src, "an element was not given");
    }
    static void go(Set& m, Model& r, size_t ops, size_t maxn) {
        same(m, r);
        for (size_t k = 0; k < ops; ++k) { step(m, r, vf::pick("op", NOPS), maxn); same(m, r); }
        vf_observe(m.size()); for (auto& p : m) vf_observe(p.v);
        vf_reach("end");
    }
    static void run() { Set m; Model r; size_t n = vf_param("n", 3); fill(m, r, vf::pick("n0", n + 1)); go(m, r, vf_param("ops", 1), n); }
    static void runCmp(int rev) { Set m{Cmp(rev)}; Model r; r.rev = rev; size_t n = vf_param("n", 3); fill(m, r, vf::pick("n0", n + 1)); vf_check(m.key_comp().r == rev, "key_comp is not the given order"); go(m, r, vf_param("ops", 1), n); }
};
typedef itlib::flat_set<K> SetV; typedef itlib::flat_set<K, Cmp> SetC;
typedef itlib::flat_set<K, itlib::fsimpl::less, itlib::static_vector<K, 8>> SetS;
typedef itlib::flat_set<K, itlib::fsimpl::less, itlib::small_vector<K, 2>> SetSm;
typedef itlib::flat_set<K, Cmp, std::deque<K>> SetD;
typedef vf::TAlloc<K, false> A; typedef std::vector<K, A> VA; typedef itlib::flat_set<K, Cmp, VA> SetA;
template <class Set> void reserve() {
    typedef S<Set> T; Set m; Model r; T::fill(m, r, vf::pick("n0", 4)); size_t c = vf::pick("cap", vf_param("cap", 5));
    m.reserve(c); vf_check(m.capacity() >= c && m.capacity() >= r.n, "capacity below what was reserved"); vf_check(m.max_size() >= m.capacity(), "max_size below the capacity"); T::same(m, r);
    size_t cap = m.capacity(); const void* p = m.container().data(); vf_check(&m.modify_container() == &m.container(), "modify_container is not the container");
    while (m.size() < c) { uint32_t k = T::key(); bool f; r.put(k, 0, f); vf_assume(f); m.insert(K(k)); }
    vf_check(m.capacity() == cap && m.container().data() == p, "reserved capacity is not used"); T::same(m, r); vf_reach("end");
}
VF_ENTRY fs_vector() { S<SetV>::run(); }
VF_ENTRY fs_cmp() { S<SetC>::runCmp(int(vf::pick("order", 3))); }
VF_ENTRY fs_static() { S<SetS>::run(); }
VF_ENTRY fs_small() { S<SetSm, false>::run(); }
VF_ENTRY fs_deque() { S<SetD>::runCmp(int(vf::pick("order", 3))); }
VF_ENTRY fs_reserve() { reserve<SetV>(); }
VF_ENTRY fs_build() {
    { int rev = int(vf::pick("order", 3)); Model r; r.rev = rev; typedef S<SetA> T;
    uint32_t ks[6]; size_t n = vf::pick("n", vf_param("n", 4) + 1); for (size_t i = 0; i < n; ++i) ks[i] = T::key();
    std::vector<K> src; src.reserve(6); for (size_t i = 0; i < n; ++i) src.push_back(K(ks[i]));
    int id = 1; alignas(SetA) unsigned char mem[sizeof(SetA)]; SetA* m;
    switch (vf::pick("ctor", 6)) {
    case 0: { VA c(A(4)); for (auto& p : src) c.push_back(p); id = 4; m = new (mem) SetA(std::move(c), Cmp(rev)); break; }
    case 1: m = new (mem) SetA(src.begin(), src.end(), Cmp(rev), A(5)); id = 5; break;
    case 2: m = new (mem) SetA(src.begin(), src.end(), A(6)); id = 6; r.rev = 0; break;
    case 3: vf_assume(n == 3); m = new (mem) SetA({src[0], src[1], src[2]}, Cmp(rev), A(7)); id = 7; break;
    case 4: vf_assume(n == 3); m = new (mem) SetA({src[0], src[1], src[2]}, A(8)); id = 8; r.rev = 0; break;
    default: vf_assume(n == 0); m = new (mem) SetA(Cmp(rev), A(9)); id = 9; break;
    }
    vf_check(m->container().get_allocator().id == id, "the given allocator is not used");
    T::built(*m, r, ks, n); T::same(*m, r);
    T::step(*m, r, vf::pick("op", 12), 3); T::same(*m, r);
    m->~SetA(); }
    vf_check(vf::live_blocks() == 0, "blocks were not returned");
    vf_reach("end");
}
VF_ENTRY fs_swap() {
    { typedef S<SetA> T; int r1 = int(vf::pick("order", 3)), r2 = int(vf::pick("order", 3));
    SetA a(Cmp(r1), A(1)), b(Cmp(r2), A(1)); Model ma, mb; ma.rev = r1; mb.rev = r2;
    T::fill(a, ma, vf::pick("na", 3)); T::fill(b, mb, vf::pick("nb", 3));
    switch (vf::pick("op", 3)) { case 0: { a.swap(b); Model t = ma; ma = mb; mb = t; break; } case 1: a = b; ma = mb; break; case 2: { a = std::move(b); ma = mb; b.clear(); mb.n = 0; break; } }
    T::same(a, ma); T::same(b, mb); T::fill(a, ma, 1); T::same(a, ma); T::fill(b, mb, 1); T::same(b, mb); }
    vf_check(vf::live_blocks() == 0, "blocks were not returned"); vf_reach("end");
}
// a key of another type to which several elements are equivalent
VF_ENTRY fs_part() {
    typedef S<SetV> T; SetV m; Model r; T::fill(m, r, vf::pick("n0", vf_param("n", 3) + 1)); const auto& c = m; Part q{uint32_t(vf::u8("q") >> 2)};
    size_t lo = 0; while (lo < r.n && (r.k[lo] >> 2) < q.v) ++lo; size_t up = lo; while (up < r.n && (r.k[up] >> 2) == q.v) ++up;
    vf_check(m.lower_bound(q) == nth(m.begin(), lo) && c.lower_bound(q) == nth(c.begin(), lo), "lower_bound is not the first element not before the key");
    vf_check(m.upper_bound(q) == nth(m.begin(), up) && c.upper_bound(q) == nth(c.begin(), up), "upper_bound is not the first element after the key");
    auto e = m.equal_range(q); auto ec = c.equal_range(q);
    vf_check(e.first == nth(m.begin(), lo) && e.second == nth(m.begin(), up) && ec.first == nth(c.begin(), lo) && ec.second == nth(c.begin(), up), "equal_range is not the range of equivalent elements");
    auto f = m.find(q); auto fc = c.find(q); size_t i = size_t(f - m.begin()), ic = size_t(fc - c.begin());
    vf_check(lo == up ? f == m.end() && fc == c.end() : i >= lo && i < up && ic >= lo && ic < up, "find does not give an equivalent element");
    size_t n = c.count(q); vf_check(lo == up ? n == 0 : n >= 1 && n <= up - lo, "count of equivalent elements");
    size_t was = r.n, x = m.erase(q);
    vf_check(lo == up ? x == 0 : x >= 1 && x <= up - lo, "erase reports a wrong number"); vf_check(m.size() == was - x, "erase removed not as many elements as it reports");
    size_t j = 0; bool ok = true; for (auto it = c.begin(); it != c.end(); ++it) { while (j < was && r.k[j] != it->v) { ok &= j >= lo && j < up; ++j; } ok &= j < was; ++j; } while (j < was) { ok &= j >= lo && j < up; ++j; }
    vf_check(ok, "erase removed an element which is not equivalent to the key"); vf_reach("end");
}

// many elements: the keys are multiples of 4 (put in ascending, descending or interleaved order), every key of a call is arbitrary
VF_ENTRY fs_big() {
    int rev = int(vf::pick("order", 3)); SetC m{Cmp(rev)}; Model r; r.rev = rev; static const size_t L[] = {7, 8, 15, 16, 17}; size_t n = L[vf::pick("n0", 5)], how = vf::pick("how", 3);
    for (size_t i = 0; i < n; ++i) { size_t j = how == 0 ? i : how == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2); uint32_t k = uint32_t(4 * j + 2); bool f; r.put(k, uint32_t(0), f); m.insert(K(k)); }
    typedef S<SetC> T; T::go(m, r, vf_param("ops", 1), 2);
}
VF_ENTRY fs_big_build() {
    int rev = int(vf::pick("order", 3)); Model r; r.rev = rev; static const size_t L[] = {9, 16, 17, 20}; size_t n = L[vf::pick("n0", 4)]; uint32_t ks[20], vs[20];
    size_t mul = vf::flag("mul") ? 7 : 1, dup = vf::flag("dup") ? 2 : 1; for (size_t i = 0; i < n; ++i) { ks[i] = uint32_t((i * mul % n) / dup * 4 + 2); vs[i] = uint32_t(100 + i); }
    { size_t a = vf::pick("sym", 3); ks[a == 0 ? 0 : a == 1 ? n / 2 : n - 1] = S<SetC>::key(); }
    std::vector<K> src; src.reserve(n); for (size_t i = 0; i < n; ++i) src.push_back(K(ks[i]));
    typedef S<SetC> T; SetC m(src.begin(), src.end(), Cmp(rev)); T::built(m, r, ks, n); T::same(m, r); T::lookup(m, r, K(ks[n / 2])); vf_reach("end");
}

VF_ENTRY fs_own() {
    typedef S<SetC> T; int rev = int(vf::pick("order", 3)); SetC m{Cmp(rev)}; Model r; r.rev = rev; T::fill(m, r, vf::pick("n0", vf_param("n", 4)));
    vf_assume(r.n > 0); size_t i = vf::pick("own", r.n);
    switch (vf::pick("op", 4)) {
    case 0: { r.erase(i); vf_check(m.erase(*nth(m.begin(), i)) == 1, "erase reports a wrong count"); break; }
    case 1: { T::got(m, m.insert(*nth(m.cbegin(), i)), i, false); break; }
    case 2: { T::got(m, m.emplace(*nth(m.cbegin(), i)), i, false); break; }
    default: { T::lookup(m, r, *nth(m.cbegin(), i)); break; }
    }
    T::same(m, r); vf_reach("end");
}
VF_ENTRY fs_input() {
    int rev = int(vf::pick("order", 3)); Model r; typedef S<SetC> T; uint32_t ks[5]; size_t n = vf::pick("n", vf_param("n", 4) + 1); for (size_t i = 0; i < n; ++i) ks[i] = T::key();
    std::vector<K> src; src.reserve(5); for (size_t i = 0; i < n; ++i) src.push_back(K(ks[i])); typedef InIt<K> I; I::Src s{src.data(), src.data() + n};
    bool given = vf::flag("given"); r.rev = given ? rev : 0; SetC m = given ? SetC(I{&s}, I{nullptr}, Cmp(rev)) : SetC(I{&s}, I{nullptr});
    T::built(m, r, ks, n); T::same(m, r); T::lookup(m, r, K(T::key())); vf_reach("end");
}
template <class Set> static void throwing() {
    uint32_t ks[4]; size_t n = 0; vf::throw_at() = 0;
    {
        Set m; const Set& c = m; for (size_t i = vf::pick("n0", vf_param("n", 4)); i > 0; --i) { uint32_t k = vf::u8("k"); bool fresh = m.emplace(k).second; if (fresh) { size_t j = n++; while (j > 0 && k < ks[j - 1]) { ks[j] = ks[j - 1]; --j; } ks[j] = k; } }
        uint32_t k = vf::u8("k"); size_t at = 0; while (at < n && ks[at] < k) ++at; bool has = at < n && ks[at] == k, threw = false, put = false, gone = false;
        {
            const TK p(k); TK rp(k); size_t op = vf::pick("op", 7); vf::throw_at() = int(vf::pick("throw", 8));
            try {
                switch (op) {
                case 0: { auto x = m.insert(p); vf_check(x.second == !has, "inserted flag differs from a set's"); put = !has; break; }
                case 1: { auto x = m.insert(std::move(rp)); vf_check(x.second == !has, "inserted flag differs from a set's"); put = !has; break; }
                case 2: { auto x = m.emplace(k); vf_check(x.second == !has, "inserted flag differs from a set's"); put = !has; break; }
                case 3: { auto x = m.emplace(p); vf_check(x.second == !has, "inserted flag differs from a set's"); put = !has; break; }
                case 4: { size_t e = m.erase(p); vf_check(e == (has ? 1 : 0), "erase reports a wrong count"); gone = has; break; }
                case 5: { vf_check((m.find(p) != m.end()) == has && c.count(p) == (has ? 1 : 0), "find differs from a set's"); break; }
                default: { Set o(m); vf_check(o.size() == n, "a copy has another size"); break; }
                }
            } catch (vf::Boom&) { threw = true; vf_reach("threw"); }
            vf::throw_at() = 0; if (threw) put = gone = false;
        }
        if (put) { for (size_t j = n++; j > at; --j) ks[j] = ks[j - 1]; ks[at] = k; }
        if (gone) { for (size_t j = at; j + 1 < n; ++j) ks[j] = ks[j + 1]; --n; }
        vf_check(m.size() == n, "size differs from a set's"); bool ok = true; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= it->v == ks[i];
        vf_check(ok, threw ? "a call which threw changed the set" : "iteration does not give the elements of a set in order");
    }
    vf_check(vf_live_count(0) == 0, "elements remain alive"); vf_reach("end");
}
VF_ENTRY fs_throw() { throwing<itlib::flat_set<TK, TCmp>>(); }
VF_ENTRY fs_throw_static() { throwing<itlib::flat_set<TK, TCmp, itlib::static_vector<TK, 5>>>(); }
VF_ENTRY fs_throw_small() { throwing<itlib::flat_set<TK, TCmp, itlib::small_vector<TK, 2>>>(); }
#include "flat_many.h"
VF_ENTRY fs_many() { many<itlib::flat_set<K, DirCmp>, false, DirCmp>(MANY, vf_param("sizes", 3), vf::flag("desc")); }
VF_ENTRY fs_many_static() { many<itlib::flat_set<K, DirCmp, itlib::static_vector<K, 300>>, false, DirCmp>(MANY, 3, vf::flag("desc")); }
