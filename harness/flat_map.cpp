#include "flat.h"
#include <itlib/flat_map.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <deque>
using namespace vff;
typedef std::pair<K, K> P; // the mapped type also loses its value when moved from

template <class Map, bool HasSwap = true> struct S {
    static void sw(Map& a, Map& b) { if constexpr (HasSwap) a.swap(b); else std::swap(a, b); }
    typedef typename Map::iterator It;
    static uint32_t key() { return vf::u8("k"); } // only the order of keys matters: 8 bits give every order of the bounded number of keys
    static uint32_t val() { return vf::u32("v"); }
    static void same(Map& m, const Model& r) {
        const Map& c = m;
        vf_check(c.size() == r.n && m.empty() == (r.n == 0) && c.container().size() == r.n, "size differs from a map's");
        vf_check(size_t(m.end() - m.begin()) == r.n && size_t(c.end() - c.begin()) == r.n && size_t(c.cend() - c.cbegin()) == r.n, "iterator distance differs from the size");
        bool ok = true; size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= it->first.v == r.k[i] && it->second.v == r.v[i];
        vf_check(ok, "iteration does not give the pairs of a map in order");
        ok = true; i = r.n; for (auto it = m.rbegin(); it != m.rend(); ++it) { --i; ok &= it->first.v == r.k[i]; } for (i = r.n; i > 0; --i) ok &= nth(c.rbegin(), r.n - i)->second.v == r.v[i - 1];
        vf_check(ok && size_t(c.rend() - c.rbegin()) == r.n, "reverse iteration does not give the pairs of a map");
    }
    template <class Q> static void lookup(Map& m, const Model& r, const Q& q) {
        const Map& c = m; uint32_t x = q.v; size_t lo = r.lower(x), up = r.upper(x); bool has = r.has(x);
        vf_check(m.lower_bound(q) == nth(m.begin(), lo) && c.lower_bound(q) == nth(c.begin(), lo), "lower_bound differs from a map's");
        vf_check(m.upper_bound(q) == nth(m.begin(), up) && c.upper_bound(q) == nth(c.begin(), up), "upper_bound differs from a map's");
        auto e = m.equal_range(q); auto ec = c.equal_range(q);
        vf_check(e.first == nth(m.begin(), lo) && e.second == nth(m.begin(), up) && ec.first == nth(c.begin(), lo) && ec.second == nth(c.begin(), up), "equal_range differs from a map's");
        vf_check(m.find(q) == (has ? nth(m.begin(), lo) : m.end()) && c.find(q) == (has ? nth(c.begin(), lo) : c.end()), "find differs from a map's");
        vf_check(c.count(q) == (has ? 1 : 0), "count differs from a map's");
        bool t1 = false, t2 = false;
        try { K& y = m.at(K(x)); vf_check(has && &y == &nth(m.begin(), lo)->second, "at gives another element"); } catch (std::out_of_range&) { t1 = true; }
        try { const K& y = c.at(K(x)); vf_check(has && &y == &nth(c.begin(), lo)->second, "at gives another element"); } catch (std::out_of_range&) { t2 = true; }
        vf_check(t1 == !has && t2 == !has, "at throws exactly when the key is absent");
    }
    static void fill(Map& m, Model& r, size_t n) { while (n--) { uint32_t k = key(), v = val(); bool f; r.put(k, v, f); m.insert(P(K(k), K(v))); } }
    static void got(Map& m, std::pair<It, bool> g, size_t i, bool fresh) { vf_check(g.second == fresh, "inserted flag differs from a map's"); vf_check(g.first == nth(m.begin(), i), "returned iterator is not the element with the key"); }
    static const size_t NOPS = 20;
    static void step(Map& m, Model& r, size_t op, size_t maxn) {
        bool f; size_t i;
        switch (op) {
        case 0: { uint32_t k = key(), v = val(); i = r.put(k, v, f); const P p{K(k), K(v)}; got(m, m.insert(p), i, f); vf_check(p.first.v == k && p.second.v == v, "insert changed its argument"); break; }
        case 1: { uint32_t k = key(), v = val(); i = r.put(k, v, f); P p{K(k), K(v)}; got(m, m.insert(std::move(p)), i, f); vf_check(f || (p.first.v == k && p.second.v == v), "insert of a present key took its argument"); break; }
        case 2: { uint32_t k = key(), v = val(); i = r.put(k, v, f); std::pair<Ot, Ot> p{Ot{k}, Ot{v}}; got(m, m.insert(p), i, f); break; }
        case 3: { uint32_t k = key(), v = val(); i = r.put(k, v, f); got(m, m.emplace(K(k), Ot{v}), i, f); break; }
        case 4: { uint32_t k = key(), v = val(); i = r.put(k, v, f); r.v[i] = v; const K q(k); K& x = m[q]; vf_check(&x == &nth(m.begin(), i)->second, "operator[] gives another element"); vf_check(q.v == k, "operator[] changed its argument"); if (f) vf_check(x.v == 0, "operator[] does not value-initialize"); x = K(v); break; }
        case 5: { uint32_t k = key(); i = r.put(k, 0, f); K& x = m[K(k)]; vf_check(&x == &nth(m.begin(), i)->second, "operator[] gives another element"); break; }
        case 6: { uint32_t k = key(); i = r.put(k, 0, f); m[Ot{k}]; break; }
        case 7: { uint32_t k = key(); bool h = r.has(k); if (h) r.erase(r.lower(k)); vf_check(m.erase(K(k)) == (h ? 1 : 0), "erase reports a wrong count"); break; }
        case 8: { uint32_t k = key(); bool h = r.has(k); if (h) r.erase(r.lower(k)); vf_check(m.erase(Ot{k}) == (h ? 1 : 0), "erase reports a wrong count"); break; }
        case 9: { vf_assume(r.n > 0); i = vf::pick("pos", r.n); bool ci = vf::flag("const"); r.erase(i); auto it = ci ? m.erase(nth(m.cbegin(), i)) : m.erase(nth(m.begin(), i)); vf_check(it == nth(m.begin(), i), "erase returns a wrong iterator"); break; }
        case 10: { lookup(m, r, K(key())); break; }
        case 11: { lookup(m, r, Ot{key()}); break; }
        case 12: { m.clear(); r.n = 0; break; }
        case 13: { Map o(m); same(o, r); vf_check(o == m && !(o != m), "a copy compares different"); Model ro = r; uint32_t k = key(); i = ro.put(k, 7, f); ro.v[i] = 8; o[K(k)] = K(8); same(o, ro); bool eq = r.n == ro.n; for (size_t j = 0; eq && j < r.n; ++j) eq = r.k[j] == ro.k[j] && r.v[j] == ro.v[j]; vf_check((o == m) == eq && (o != m) == !eq, "comparison differs from a map's"); break; }
        case 14: { Map o(std::move(m)); same(o, r); m = std::move(o); break; }
        case 15: { Map o(m); Model ro = r; o.clear(); ro.n = 0; fill(o, ro, vf::pick("n2", maxn)); o = m; same(o, r); break; }
        case 16: { Map o(m); Model ro = r; o.clear(); ro.n = 0; fill(o, ro, vf::pick("n2", maxn)); m = std::move(o); r = ro; break; }
        case 17: { Map o(m); Model ro = r; o.clear(); ro.n = 0; fill(o, ro, vf::pick("n2", maxn)); sw(m, o); same(o, r); r = ro; break; }
        case 18: { Map& s = m; m = s; break; }
        case 19: { vf_assume(r.n > 0); uint32_t v = val(); i = vf::pick("pos", r.n); m.at(K(r.k[i])) = K(v); r.v[i] = v; break; }
        }
    }
    // contents of `m` built from the given pairs: one pair of each key, any of those given
    static void built(Map& m, Model& r, const uint32_t* ks, const uint32_t* vs, size_t n) {
        bool f; for (size_t i = 0; i < n; ++i) r.put(ks[i], 0, f);
        vf_check(m.size() == r.n, "building does not keep one element per key");
        size_t j = 0; bool ok = true, src = true;
        for (auto& p : m) { ok &= r.same(p.first.v, r.k[j]); bool any = false; for (size_t i = 0; i < n; ++i) any |= bool(int(ks[i] == p.first.v) & int(vs[i] == p.second.v)); src &= any; r.k[j] = p.first.v; r.v[j++] = p.second.v; }
        vf_check(ok, "building does not sort the keys"); vf_check(src, "an element has a value not given with its key");
    }
    static void go(Map& m, Model& r, size_t ops, size_t maxn) {
        same(m, r);
        for (size_t k = 0; k < ops; ++k) { step(m, r, vf::pick("op", NOPS), maxn); same(m, r); }
        vf_observe(m.size()); for (auto& p : m) { vf_observe(p.first.v); vf_observe(p.second.v); }
        vf_reach("end");
    }
    static void run(int rev) {
        Map m; Model r; mk(m, r, rev); size_t n = vf_param("n", 3); fill(m, r, vf::pick("n0", n + 1)); go(m, r, vf_param("ops", 1), n);
    }
    template <class M> static void mk(M&, Model&, bool) {}
};
template <class Map> struct SC : S<Map> { static void run(int rev) { Map m{Cmp(rev)}; Model r; r.rev = rev; size_t n = vf_param("n", 3); S<Map>::fill(m, r, vf::pick("n0", n + 1)); S<Map>::go(m, r, vf_param("ops", 1), n); } };

typedef itlib::flat_map<K, K> MapV;
typedef itlib::flat_map<K, K, Cmp> MapC;
typedef itlib::flat_map<K, K, itlib::fmimpl::less, itlib::static_vector<P, 8>> MapS;
typedef itlib::flat_map<K, K, itlib::fmimpl::less, itlib::small_vector<P, 2>> MapSm;
typedef itlib::flat_map<K, K, Cmp, std::deque<P>> MapD;
typedef std::vector<P, vf::TAlloc<P, false>> VA;
typedef itlib::flat_map<K, K, Cmp, VA> MapA;
VF_ENTRY fm_reserve() {
    typedef S<MapV> T; MapV m; Model r; T::fill(m, r, vf::pick("n0", 4)); size_t c = vf::pick("cap", vf_param("cap", 5));
    m.reserve(c); vf_check(m.capacity() >= c && m.capacity() >= r.n, "capacity below what was reserved"); vf_check(m.max_size() >= m.capacity(), "max_size below the capacity"); T::same(m, r);
    size_t cap = m.capacity(); const void* p = m.container().data(); vf_check(&m.modify_container() == &m.container(), "modify_container is not the container");
    while (m.size() < c) { uint32_t k = T::key(); bool f; r.put(k, 5, f); vf_assume(f); m[K(k)] = K(5); }
    vf_check(m.capacity() == cap && m.container().data() == p, "reserved capacity is not used"); T::same(m, r); vf_reach("end");
}
VF_ENTRY fm_vector() { S<MapV>::run(false); }
VF_ENTRY fm_cmp() { SC<MapC>::run(int(vf::pick("order", 3))); }
VF_ENTRY fm_static() { S<MapS>::run(false); }
VF_ENTRY fm_small() { S<MapSm, false>::run(false); }
// every way to build from unsorted data, with either order
VF_ENTRY fm_deque() { SC<MapD>::run(int(vf::pick("order", 3))); }
VF_ENTRY fm_build() {
    { int rev = int(vf::pick("order", 3)); Model r; r.rev = rev; typedef S<MapA> T; typedef vf::TAlloc<P, false> A;
    uint32_t ks[5], vs[5]; size_t n = vf::pick("n", vf_param("n", 4) + 1); for (size_t i = 0; i < n; ++i) { ks[i] = T::key(); vs[i] = T::val(); }
    std::vector<P> src; src.reserve(5); for (size_t i = 0; i < n; ++i) src.push_back(P(K(ks[i]), K(vs[i])));
    int id = 1; alignas(MapA) unsigned char mem[sizeof(MapA)]; MapA* m;
    switch (vf::pick("ctor", 6)) {
    case 0: { VA c(A(4)); for (auto& p : src) c.push_back(p); id = 4; m = new (mem) MapA(std::move(c), Cmp(rev)); break; }
    case 1: m = new (mem) MapA(src.begin(), src.end(), Cmp(rev), A(5)); id = 5; break;
    case 2: m = new (mem) MapA(src.begin(), src.end(), A(6)); id = 6; r.rev = 0; break;
    case 3: vf_assume(n == 3); m = new (mem) MapA({src[0], src[1], src[2]}, Cmp(rev), A(7)); id = 7; break;
    case 4: vf_assume(n == 3); m = new (mem) MapA({src[0], src[1], src[2]}, A(8)); id = 8; r.rev = 0; break;
    default: vf_assume(n == 0); m = new (mem) MapA(Cmp(rev), A(9)); id = 9; break;
    }
    vf_check(m->container().get_allocator().id == id, "the given allocator is not used");
    T::built(*m, r, ks, vs, n);
    T::step(*m, r, vf::pick("op", 12), 3); T::same(*m, r);
    m->~MapA(); }
    vf_check(vf::live_blocks() == 0, "blocks were not returned");
    vf_reach("end");
}
// maps with different comparators and allocators
VF_ENTRY fm_swap() {
    { typedef S<MapA> T; typedef vf::TAlloc<P, false> A; int r1 = int(vf::pick("order", 3)), r2 = int(vf::pick("order", 3));
    MapA a(Cmp(r1), A(1)), b(Cmp(r2), A(1)); Model ma, mb; ma.rev = r1; mb.rev = r2;
    T::fill(a, ma, vf::pick("na", 3)); T::fill(b, mb, vf::pick("nb", 3));
    switch (vf::pick("op", 3)) { case 0: { a.swap(b); Model t = ma; ma = mb; mb = t; break; } case 1: a = b; ma = mb; break; case 2: { a = std::move(b); ma = mb; b.clear(); mb.n = 0; break; } }
    T::same(a, ma); T::same(b, mb); T::fill(a, ma, 1); T::same(a, ma); T::fill(b, mb, 1); T::same(b, mb); }
    vf_check(vf::live_blocks() == 0, "blocks were not returned"); vf_reach("end");
}
// a key of another type to which several elements are equivalent
VF_ENTRY fm_part() {
    typedef S<MapV> T; MapV m; Model r; T::fill(m, r, vf::pick("n0", vf_param("n", 3) + 1)); const auto& c = m; Part q{uint32_t(vf::u8("q") >> 2)};
    size_t lo = 0; while (lo < r.n && (r.k[lo] >> 2) < q.v) ++lo; size_t up = lo; while (up < r.n && (r.k[up] >> 2) == q.v) ++up;
    vf_check(m.lower_bound(q) == nth(m.begin(), lo) && c.lower_bound(q) == nth(c.begin(), lo), "lower_bound is not the first element not before the key");
    vf_check(m.upper_bound(q) == nth(m.begin(), up) && c.upper_bound(q) == nth(c.begin(), up), "upper_bound is not the first element after the key");
    auto e = m.equal_range(q); auto ec = c.equal_range(q);
    vf_check(e.first == nth(m.begin(), lo) && e.second == nth(m.begin(), up) && ec.first == nth(c.begin(), lo) && ec.second == nth(c.begin(), up), "equal_range is not the range of equivalent elements");
    auto f = m.find(q); auto fc = c.find(q); size_t i = size_t(f - m.begin()), ic = size_t(fc - c.begin());
    vf_check(lo == up ? f == m.end() && fc == c.end() : i >= lo && i < up && ic >= lo && ic < up, "find does not give an equivalent element");
    size_t n = c.count(q); vf_check(lo == up ? n == 0 : n >= 1 && n <= up - lo, "count of equivalent elements");
    size_t was = r.n, x = m.erase(q);
    vf_check(lo == up ? x == 0 : x >= 1 && x <= up - lo, "erase reports a wrong number"); vf_check(m.size() == was - x, "erase removed not as many elements as it reports");
    size_t j = 0; bool ok = true; for (auto it = c.begin(); it != c.end(); ++it) { while (j < was && r.k[j] != it->first.v) { ok &= j >= lo && j < up; ++j; } ok &= j < was; ++j; } while (j < was) { ok &= j >= lo && j < up; ++j; }
    vf_check(ok, "erase removed an element which is not equivalent to the key"); vf_reach("end");
}

// many elements: the keys are multiples of 4 (put in ascending, descending or interleaved order), every key of a call is arbitrary
VF_ENTRY fm_big() {
    int rev = int(vf::pick("order", 3)); MapC m{Cmp(rev)}; Model r; r.rev = rev; static const size_t L[] = {7, 8, 15, 16, 17}; size_t n = L[vf::pick("n0", 5)], how = vf::pick("how", 3);
    for (size_t i = 0; i < n; ++i) { size_t j = how == 0 ? i : how == 1 ? n - 1 - i : (i % 2 ? n - 1 - i / 2 : i / 2); uint32_t k = uint32_t(4 * j + 2); bool f; r.put(k, uint32_t(i), f); m.insert(P(K(k), K(uint32_t(i)))); }
    typedef S<MapC> T; T::go(m, r, vf_param("ops", 1), 2);
}
VF_ENTRY fm_big_build() {
    int rev = int(vf::pick("order", 3)); Model r; r.rev = rev; static const size_t L[] = {9, 16, 17, 20}; size_t n = L[vf::pick("n0", 4)]; uint32_t ks[20], vs[20];
    size_t mul = vf::flag("mul") ? 7 : 1, dup = vf::flag("dup") ? 2 : 1; for (size_t i = 0; i < n; ++i) { ks[i] = uint32_t((i * mul % n) / dup * 4 + 2); vs[i] = uint32_t(100 + i); }
    { size_t a = vf::pick("sym", 3); ks[a == 0 ? 0 : a == 1 ? n / 2 : n - 1] = S<MapC>::key(); }
    std::vector<P> src; src.reserve(n); for (size_t i = 0; i < n; ++i) src.push_back(P(K(ks[i]), K(vs[i])));
    typedef S<MapC> T; MapC m(src.begin(), src.end(), Cmp(rev)); T::built(m, r, ks, vs, n); T::same(m, r); T::lookup(m, r, K(ks[n / 2])); vf_reach("end");
}

// keys which are those of elements of the map itself, and keys which are given up only if they are inserted
VF_ENTRY fm_own() {
    typedef S<MapC> T; int rev = int(vf::pick("order", 3)); MapC m{Cmp(rev)}; Model r; r.rev = rev; T::fill(m, r, vf::pick("n0", vf_param("n", 4))); bool f;
    size_t op = vf::pick("op", 10), i = 0; if (op < 7) { vf_assume(r.n > 0); i = vf::pick("own", r.n); }
    switch (op) {
    case 0: { r.erase(i); vf_check(m.erase(nth(m.begin(), i)->first) == 1, "erase reports a wrong count"); break; }
    case 1: { const P& own = *nth(m.cbegin(), i); T::got(m, m.insert(own), i, false); break; }
    case 2: { K& x = m[nth(m.cbegin(), i)->first]; vf_check(&x == &nth(m.begin(), i)->second, "operator[] gives another element"); break; }
    case 3: { T::got(m, m.emplace(nth(m.cbegin(), i)->first, nth(m.cbegin(), i)->second), i, false); break; }
    case 4: { T::got(m, m.emplace(*nth(m.cbegin(), i)), i, false); break; }
    case 5: { T::lookup(m, r, nth(m.cbegin(), i)->first); break; }
    case 6: { uint32_t k = T::key(); uint32_t v = r.v[i]; size_t j = r.put(k, v, f); T::got(m, m.emplace(K(k), nth(m.cbegin(), i)->second), j, f); break; }
    case 7: { uint32_t k = T::key(); size_t j = r.put(k, 0, f); K q(k); K& x = m[std::move(q)]; vf_check(&x == &nth(m.begin(), j)->second, "operator[] gives another element"); vf_check(f || q.v == k, "operator[] of a present key took its argument"); break; }
    case 8: { uint32_t k = T::key(); size_t j = r.put(k, 0, f); K q(k); K& x = m[q]; vf_check(&x == &nth(m.begin(), j)->second, "operator[] gives another element"); vf_check(q.v == k, "operator[] changed its argument"); break; }
    case 9: { uint32_t k = T::key(), v = T::val(); size_t j = r.put(k, v, f); P p{K(k), K(v)}; T::got(m, m.insert(p), j, f); vf_check(p.first.v == k && p.second.v == v, "insert changed its argument"); break; }
    }
    T::same(m, r); vf_reach("end");
}
VF_ENTRY fm_input() {
    int rev = int(vf::pick("order", 3)); Model r; typedef S<MapC> T; uint32_t ks[5], vs[5]; size_t n = vf::pick("n", vf_param("n", 4) + 1); for (size_t i = 0; i < n; ++i) { ks[i] = T::key(); vs[i] = T::val(); }
    std::vector<P> src; src.reserve(5); for (size_t i = 0; i < n; ++i) src.push_back(P(K(ks[i]), K(vs[i]))); typedef InIt<P> I; I::Src s{src.data(), src.data() + n};
    bool given = vf::flag("given"); r.rev = given ? rev : 0; MapC m = given ? MapC(I{&s}, I{nullptr}, Cmp(rev)) : MapC(I{&s}, I{nullptr});
    T::built(m, r, ks, vs, n); T::same(m, r); T::lookup(m, r, K(T::key())); vf_reach("end");
}
// any construction of a key or value and any comparison may throw: the map is as before, as a std::map is
typedef std::pair<TK, TK> TP;
template <class Map> static void throwing() {
    uint32_t ks[4], vs[4]; size_t n = 0; vf::throw_at() = 0;
    {
        Map m; const Map& c = m; for (size_t i = vf::pick("n0", vf_param("n", 4)); i > 0; --i) { uint32_t k = vf::u8("k"), v = vf::u32("v"); bool fresh = m.emplace(k, v).second; if (fresh) { size_t j = n++; while (j > 0 && k < ks[j - 1]) { ks[j] = ks[j - 1]; vs[j] = vs[j - 1]; --j; } ks[j] = k; vs[j] = v; } }
        uint32_t k = vf::u8("k"), v = vf::u32("v"); size_t at = 0; while (at < n && ks[at] < k) ++at; bool has = at < n && ks[at] == k, threw = false, put = false, gone = false, over = false;
        {
            const TP p(k, v); TP rp(k, v); TK rk(k); size_t op = vf::pick("op", 10); vf::throw_at() = int(vf::pick("throw", 8));
            try {
                switch (op) {
                case 0: { auto x = m.insert(p); vf_check(x.second == !has, "inserted flag differs from a map's"); put = !has; break; }
                case 1: { auto x = m.insert(std::move(rp)); vf_check(x.second == !has, "inserted flag differs from a map's"); put = !has; break; }
                case 2: { auto x = m.emplace(k, v); vf_check(x.second == !has, "inserted flag differs from a map's"); put = !has; break; }
                case 3: m[p.first]; put = !has; v = has ? v : 0; break;
                case 4: m[std::move(rk)]; put = !has; v = has ? v : 0; break;
                case 5: m[TOt{k}]; put = !has; v = has ? v : 0; break;
                case 6: { size_t e = m.erase(p.first); vf_check(e == (has ? 1 : 0), "erase reports a wrong count"); gone = has; break; }
                case 7: { vf_check((m.find(p.first) != m.end()) == has && c.count(p.first) == (has ? 1 : 0), "find differs from a map's"); break; }
                case 8: { Map o(m); vf_check(o.size() == n, "a copy has another size"); break; }
                default: { bool o = false; try { vf_check(&m.at(p.first) == &nth(m.begin(), at)->second, "at gives another element"); } catch (std::out_of_range&) { o = true; } vf_check(o == !has, "at throws exactly when the key is absent"); break; }
                }
            } catch (vf::Boom&) { threw = true; vf_reach("threw"); }
            vf::throw_at() = 0; (void)over;
            if (threw) put = gone = false;
        }
        if (put) { for (size_t j = n++; j > at; --j) { ks[j] = ks[j - 1]; vs[j] = vs[j - 1]; } ks[at] = k; vs[at] = v; }
        if (gone) { for (size_t j = at; j + 1 < n; ++j) { ks[j] = ks[j + 1]; vs[j] = vs[j + 1]; } --n; }
        vf_check(m.size() == n, "size differs from a map's"); bool ok = true; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= it->first.v == ks[i] && it->second.v == vs[i];
        vf_check(ok, threw ? "a call which threw changed the map" : "iteration does not give the pairs of a map in order");
    }
    vf_check(vf_live_count(0) == 0, "keys or values remain alive"); vf_reach("end");
}
VF_ENTRY fm_throw() { throwing<itlib::flat_map<TK, TK, TCmp>>(); }
VF_ENTRY fm_throw_static() { throwing<itlib::flat_map<TK, TK, TCmp, itlib::static_vector<TP, 5>>>(); }
VF_ENTRY fm_throw_small() { throwing<itlib::flat_map<TK, TK, TCmp, itlib::small_vector<TP, 2>>>(); }
#include "flat_many.h"
VF_ENTRY fm_many() { many<itlib::flat_map<K, K, DirCmp>, true, DirCmp>(MANY, vf_param("sizes", 3), vf::flag("desc")); }
VF_ENTRY fm_many_static() { many<itlib::flat_map<K, K, DirCmp, itlib::static_vector<std::pair<K, K>, 300>>, true, DirCmp>(MANY, 3, vf::flag("desc")); }
