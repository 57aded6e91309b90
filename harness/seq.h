// Generic differential scenario for vector-like containers: an arbitrary start state (every constructor, every size up
// to a bound, optional reserve), then k arbitrary operations with arbitrary valid positions, counts and element values,
// compared after every step with a reference sequence.
#pragma once
#include "vf.h"
#include <initializer_list>
#include <iterator>
#include <stdexcept>

namespace vfseq {
typedef vf::Seq<uint32_t, 100> Model;
// in scenarios of large sizes only the ends, their neighbours and the middle of a range are picked
inline bool& big() { static bool b = false; return b; }
inline size_t pick(const char* n, size_t cnt) { if (!big() || cnt <= 6) return vf::pick(n, cnt); size_t k = vf::pick(n, 5); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? cnt / 2 : k == 3 ? cnt - 2 : cnt - 1; }

// element without lifetime assertions; dead or moved-from objects have recognisable values
struct Val {
    uint32_t v;
    Val() : v(0) {}
    Val(uint32_t x) : v(x) {}
    Val(uint32_t x, uint32_t y) : v(x ^ y) {}
    Val(const Val& o) : v(o.v) {}
    Val(Val&& o) noexcept : v(o.v) { o.v = 0xeeee0001; }
    Val& operator=(const Val& o) { v = o.v; return *this; }
    Val& operator=(Val&& o) noexcept { if (this != &o) { v = o.v; o.v = 0xeeee0002; } return *this; }
    ~Val() { v = 0xeeee0003; }
    bool operator==(const Val& o) const { return v == o.v; }
};

// a trivially copyable element, and one of a stronger alignment than the allocator's default
struct Pod { uint32_t v; Pod() = default; Pod(uint32_t x) : v(x) {} Pod(uint32_t x, uint32_t y) : v(x ^ y) {} bool operator==(const Pod& o) const { return v == o.v; } };
struct alignas(32) Over : Val { uint32_t check; Over() : check(7) {} Over(uint32_t x) : Val(x), check(x + 7) {} Over(const Over& o) : Val(o), check(o.check) {} Over(Over&& o) noexcept : Val(std::move(o)), check(o.check) {} Over& operator=(const Over& o) { Val::operator=(o); check = o.check; return *this; } Over& operator=(Over&& o) noexcept { Val::operator=(std::move(o)); check = o.check; return *this; } };
inline uint32_t valOf(const Over& e) { vf_check(reinterpret_cast<uintptr_t>(&e) % 32 == 0, "an element is not aligned for its type"); vf_check(e.check == e.v + 7, "a part of an element is not its last value"); return e.v; }
template <class E> uint32_t valOf(const E& e) { return e.v; }

// a forward iterator over values which is not a pointer and yields by value
template <typename E>
struct GenIt {
    typedef std::random_access_iterator_tag iterator_category; typedef E value_type; typedef ptrdiff_t difference_type; typedef const E* pointer; typedef E reference;
    const uint32_t* p;
    E operator*() const { return E(*p); }
    GenIt& operator++() { ++p; return *this; }
    GenIt operator++(int) { GenIt t = *this; ++p; return t; }
    bool operator==(const GenIt& o) const { return p == o.p; }
    bool operator!=(const GenIt& o) const { return p != o.p; }
    ptrdiff_t operator-(const GenIt& o) const { return p - o.p; }
};

// a random access iterator over elements which are not contiguous
template <typename E>
struct GapIt {
    typedef std::random_access_iterator_tag iterator_category; typedef E value_type; typedef ptrdiff_t difference_type; typedef E* pointer; typedef E& reference;
    E* p;
    E& operator*() const { return *p; }
    E* operator->() const { return p; }
    GapIt& operator++() { p += 2; return *this; }
    GapIt operator++(int) { GapIt t = *this; p += 2; return t; }
    GapIt& operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
    GapIt operator+(ptrdiff_t n) const { return GapIt{p + 2 * n}; }
    bool operator==(const GapIt& o) const { return p == o.p; }
    bool operator!=(const GapIt& o) const { return p != o.p; }
    ptrdiff_t operator-(const GapIt& o) const { return (p - o.p) / 2; }
};

struct TrBase { static uint32_t sym() { return vf::u32("x"); } };

// Tr: Vec, Elem, static uint32_t val(const Elem&), static size_t limit() (largest size ops may request),
//     static bool bounded() (true: exceeding capacity must throw out_of_range)
template <class Tr>
struct Scenario {
    typedef typename Tr::Vec Vec; typedef typename Tr::Elem E;

    static void same(Vec& v, const Model& m) {
        const Vec& c = v;
        vf_check(c.size() == m.n, "size differs from the reference sequence");
        vf_check(c.empty() == (m.n == 0), "empty() differs from the reference sequence");
        vf_check(size_t(v.end() - v.begin()) == m.n && size_t(c.end() - c.begin()) == m.n && size_t(c.cend() - c.cbegin()) == m.n, "iterator distance differs from the size");
        vf_check(c.capacity() >= c.size(), "capacity below size");
        bool ok = true, okc = true, okd = true;
        size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) ok &= Tr::val(*it) == m.a[i];
        for (i = 0; i < m.n; ++i) { okc &= Tr::val(v[i]) == m.a[i]; okd &= Tr::val(c[i]) == m.a[i] && &c.at(i) == c.data() + i && &v.at(i) == v.data() + i; }
        vf_check(ok, "iteration differs from the reference sequence");
        vf_check(okc, "indexed element differs from the reference sequence");
        vf_check(okd, "const access differs from the reference sequence");
        if (m.n) vf_check(&v.front() == v.data() && &c.front() == c.data() && &v.back() == v.data() + (m.n - 1) && &c.back() == c.data() + (m.n - 1), "front or back is not the first or last element");
        Tr::invariant(v);
    }
    static void sameRev(Vec& v, const Model& m) {
        const Vec& c = v; bool ok = true; size_t i = m.n;
        for (auto it = v.rbegin(); it != v.rend(); ++it) { ok &= i > 0 && Tr::val(*it) == m.a[i - 1]; --i; }
        vf_check(ok && i == 0, "reverse iteration differs from the reference sequence");
        i = m.n;
        for (auto it = c.rbegin(); it != c.rend(); ++it) { ok &= i > 0 && Tr::val(*it) == m.a[i - 1]; --i; }
        vf_check(ok && i == 0, "const reverse iteration differs from the reference sequence");
        i = m.n;
        for (auto it = c.crbegin(); it != c.crend(); ++it) { ok &= i > 0 && Tr::val(*it) == m.a[i - 1]; --i; }
        vf_check(ok && i == 0, "const reverse iteration differs from the reference sequence");
    }

    // fills a fresh array with arbitrary values
    static void values(uint32_t* a, size_t n) { for (size_t i = 0; i < n; ++i) a[i] = Tr::sym(); }

    static void fillTo(Vec& v, Model& m, size_t n) { while (m.n < n) { uint32_t x = Tr::sym(); v.push_back(E(x)); m.push(x); } }

    static const size_t NEXTOPS = 24;

    // performs operation `op`; the caller supplies a limit for sizes
    static void step(Vec& v, Model& m, size_t op, size_t lim, size_t maxc) {
        uint32_t xs[48];
        size_t room = lim > m.n ? lim - m.n : 0;
        switch (op) {
        case 0: { vf_assume(room >= 1); uint32_t x = Tr::sym(); const E e(x); v.push_back(e); m.push(x); break; }
        case 1: { vf_assume(room >= 1); uint32_t x = Tr::sym(); v.push_back(E(x)); m.push(x); break; }
        case 2: { vf_assume(room >= 1); uint32_t x = Tr::sym(); E& r = Tr::emplace_back(v, x); m.push(x); vf_check(&r == v.data() + (m.n - 1), "emplace_back does not return the new element"); break; }
        case 3: { vf_assume(m.n > 0); v.pop_back(); m.erase(m.n - 1); break; }
        case 4: { vf_assume(room >= 1); size_t p = pick("pos", m.n + 1); uint32_t x = Tr::sym(); const E e(x); auto it = v.insert(v.cbegin() + p, e); m.insert(p, x); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); vf_check(e == E(x), "insert changed its argument"); break; }
        case 5: { vf_assume(room >= 1); size_t p = pick("pos", m.n + 1); uint32_t x = Tr::sym(); auto it = v.insert(v.cbegin() + p, E(x)); m.insert(p, x); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        case 6: { size_t p = pick("pos", m.n + 1), c = pick("count", (room < maxc ? room : maxc) + 1); uint32_t x = Tr::sym(); const E e(x); auto it = v.insert(v.cbegin() + p, c, e); for (size_t i = 0; i < c; ++i) m.insert(p, x); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        case 7: { size_t p = pick("pos", m.n + 1), c = pick("count", (room < maxc ? room : maxc) + 1); values(xs, c); auto it = v.insert(v.cbegin() + p, GenIt<E>{xs}, GenIt<E>{xs + c}); for (size_t i = 0; i < c; ++i) m.insert(p + i, xs[i]); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        case 8: { vf_assume(room >= 2); size_t p = pick("pos", m.n + 1), k = vf::pick("ilist", 2); values(xs, 2);
                  auto it = k ? v.insert(v.cbegin() + p, {E(xs[0]), E(xs[1])}) : v.insert(v.cbegin() + p, std::initializer_list<E>{}); if (k) { m.insert(p, xs[1]); m.insert(p, xs[0]); } vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        case 9: { vf_assume(room >= 1); size_t p = pick("pos", m.n + 1); uint32_t x = Tr::sym(); auto it = Tr::emplace(v, p, x); m.insert(p, x); vf_check(it == v.begin() + p, "emplace returns a wrong iterator"); break; }
        case 10: { vf_assume(m.n > 0); size_t p = pick("pos", m.n); auto it = v.erase(v.cbegin() + p); m.erase(p); vf_check(it == v.begin() + p, "erase returns a wrong iterator"); break; }
        case 11: { size_t p = pick("pos", m.n + 1), q = p + pick("count", m.n - p + 1); auto it = v.erase(v.cbegin() + p, v.cbegin() + q); m.erase(p, q); vf_check(it == v.begin() + p, "erase returns a wrong iterator"); break; }
        case 12: { size_t n = pick("n", lim + 1); Tr::resize(v, m, n); break; }
        case 13: { size_t n = pick("n", lim + 1); uint32_t x = Tr::sym(); v.resize(n, E(x)); m.resize(n, x); break; }
        case 14: { size_t n = pick("n", lim + 1); uint32_t x = Tr::sym(); v.assign(n, E(x)); m.clear(); m.resize(n, x); break; }
        case 15: { size_t n = pick("n", (big() || lim < 6 ? lim : 6) + 1); values(xs, n); v.assign(GenIt<E>{xs}, GenIt<E>{xs + n}); m.clear(); for (size_t i = 0; i < n; ++i) m.push(xs[i]); break; }
        case 16: { vf_assume(lim >= 2); size_t k = vf::pick("ilist", 2); values(xs, 2); if (k) v.assign({E(xs[0]), E(xs[1])}); else v.assign(std::initializer_list<E>{}); m.clear(); if (k) { m.push(xs[0]); m.push(xs[1]); } break; }
        case 17: { v.clear(); m.clear(); break; }
        case 18: { Vec o; Model mo; fillTo(o, mo, vf::pick("n2", (lim < maxc + 2 ? lim : maxc + 2) + 1)); Tr::prep(o); v = o; m = mo; same(o, mo); vf_check(v == o && !(v != o), "equal vectors compare different"); break; }
        case 19: { Vec o; Model mo; fillTo(o, mo, vf::pick("n2", (lim < maxc + 2 ? lim : maxc + 2) + 1)); Tr::prep(o); v = std::move(o); m = mo; mo.clear(); same(o, mo); fillTo(o, mo, 1); same(o, mo); break; }
        case 20: { Vec o; Model mo; fillTo(o, mo, vf::pick("n2", (lim < maxc + 2 ? lim : maxc + 2) + 1)); Tr::prep(o); Tr::swap(v, o); Model t = m; m = mo; mo = t; same(o, mo); break; }
        case 21: { Vec c(v); same(c, m); vf_check(c == v && !(c != v), "a copy compares different"); if (m.n) { uint32_t x = Tr::sym(); uint32_t old = m.a[0]; v[0] = E(x); vf_check(Tr::val(c[0]) == old, "a copy shares elements"); m.a[0] = x; vf_check((c == v) == (old == x), "comparison does not follow the elements"); } break; }
        case 22: { Vec c(std::move(v)); same(c, m); Model e; same(v, e); v = std::move(c); break; }
        case 23: { Vec& r = v; v = r; break; } // self assignment
        }
    }
    // an arbitrary start state
    static void make(void* mem, Model& m, size_t n) {
        uint32_t xs[48];
        switch (vf::pick("ctor", 7)) {
        case 0: { Vec* v = new (mem) Vec(); fillTo(*v, m, n); break; }
        case 1: { uint32_t x = Tr::sym(); new (mem) Vec(n, E(x)); m.resize(n, x); break; }
        case 2: { values(xs, n); new (mem) Vec(GenIt<E>{xs}, GenIt<E>{xs + n}); for (size_t i = 0; i < n; ++i) m.push(xs[i]); break; }
        case 3: { vf_assume(n == 2); values(xs, 2); new (mem) Vec({E(xs[0]), E(xs[1])}); m.push(xs[0]); m.push(xs[1]); break; }
        case 4: { Vec o; fillTo(o, m, n); Tr::prep(o); new (mem) Vec(o); same(o, m); break; }
        case 5: { Vec o; fillTo(o, m, n); Tr::prep(o); new (mem) Vec(std::move(o)); Model e; same(o, e); break; }
        case 6: { new (mem) Vec(n); Tr::counted(*(Vec*)mem, m, n); break; }
        }
    }
    // arguments which are (parts of) elements of the vector itself
    static void alias(size_t maxn, size_t lim, size_t maxc) {
        alignas(Vec) unsigned char mem[sizeof(Vec)]; Model m;
        Vec& v = *new (mem) Vec(); fillTo(v, m, 1 + vf::pick("n0", maxn)); Tr::prep(v);
        size_t i = vf::pick("own", m.n), room = lim > m.n ? lim - m.n : 0; uint32_t x = m.a[i];
        switch (vf::pick("op", 8)) {
        case 0: vf_assume(room); v.push_back(v[i]); m.push(x); break;
        case 1: vf_assume(room); v.emplace_back(v[i]); m.push(x); break;
        case 2: { vf_assume(room); size_t p = vf::pick("pos", m.n + 1); auto it = v.insert(v.cbegin() + p, v[i]); m.insert(p, x); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        case 3: { size_t p = vf::pick("pos", m.n + 1), c = vf::pick("count", (room < maxc ? room : maxc) + 1); auto it = v.insert(v.cbegin() + p, c, v[i]); for (size_t k = 0; k < c; ++k) m.insert(p, x); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        case 4: { vf_assume(room); size_t p = vf::pick("pos", m.n + 1); auto it = v.emplace(v.cbegin() + p, v[i]); m.insert(p, x); vf_check(it == v.begin() + p, "emplace returns a wrong iterator"); break; }
        case 5: { size_t n = vf::pick("n", lim + 1); v.resize(n, v[i]); m.resize(n, x); break; }
        case 6: vf_assume(room); Tr::emplaceBackPart(v, i); m.push(x); break;
        case 7: { vf_assume(room); size_t p = vf::pick("pos", m.n + 1); auto it = Tr::emplacePart(v, p, i); m.insert(p, x); vf_check(it == v.begin() + p, "emplace returns a wrong iterator"); break; }
        }
        same(v, m); sameRev(v, m); vf_observe(v.size());
        v.~Vec();
        vf_reach("end");
    }
    // ranges of every kind of random access iterator
    template <class It> static void range(size_t what, size_t p, It b, It e, Model& m, const uint32_t* xs, size_t c, Vec& v) {
        switch (what) {
        case 0: { Vec o(b, e); Model mo; for (size_t i = 0; i < c; ++i) mo.push(xs[i]); same(o, mo); fillTo(o, mo, c + 1); same(o, mo); break; }
        case 1: { v.assign(b, e); m.clear(); for (size_t i = 0; i < c; ++i) m.push(xs[i]); break; }
        default: { auto it = v.insert(v.cbegin() + p, b, e); for (size_t i = 0; i < c; ++i) m.insert(p + i, xs[i]); vf_check(it == v.begin() + p, "insert returns a wrong iterator"); break; }
        }
    }
    static void ranges(size_t maxn, size_t maxc) {
        alignas(Vec) unsigned char mem[sizeof(Vec)]; Model m; uint32_t xs[4];
        Vec& v = *new (mem) Vec(); fillTo(v, m, vf::pick("n0", maxn + 1)); Tr::prep(v);
        size_t what = vf::pick("what", 3), c = vf::pick("count", maxc + 1), p = what == 2 ? vf::pick("pos", m.n + 1) : 0; values(xs, c);
        {
            E a[8] = {E(0x77), E(0x77), E(0x77), E(0x77), E(0x77), E(0x77), E(0x77), E(0x77)};
            size_t kind = vf::pick("iterator", 7);
            if (kind == 3) { for (size_t i = 0; i < c; ++i) a[2 * i] = E(xs[i]); } else if (kind == 4) { for (size_t i = 0; i < c; ++i) a[c - 1 - i] = E(xs[i]); } else for (size_t i = 0; i < c; ++i) a[i] = E(xs[i]);
            signed char sc[4] = {}; uint16_t hs[4] = {}; uint32_t ys[4];
            switch (kind) {
            case 0: range(what, p, (const E*)a, (const E*)a + c, m, xs, c, v); break;
            case 1: range(what, p, (E*)a, (E*)a + c, m, xs, c, v); break;
            case 2: range(what, p, std::make_move_iterator(&a[0]), std::make_move_iterator(&a[0] + c), m, xs, c, v); break;
            case 3: range(what, p, GapIt<E>{a}, GapIt<E>{a + 2 * c}, m, xs, c, v); break;
            case 4: range(what, p, std::reverse_iterator<E*>(a + c), std::reverse_iterator<E*>(a), m, xs, c, v); break;
            case 5: for (size_t i = 0; i < c; ++i) { sc[i] = (signed char)vf::u8("sc"); E y = E(uint32_t(sc[i])); ys[i] = Tr::val(y); } range(what, p, (const signed char*)sc, (const signed char*)sc + c, m, ys, c, v); break;
            default: for (size_t i = 0; i < c; ++i) { hs[i] = uint16_t(vf::u32("h")); E y = E(uint32_t(hs[i])); ys[i] = Tr::val(y); } range(what, p, (uint16_t*)hs, (uint16_t*)hs + c, m, ys, c, v); break;
            }
            if (kind != 2) { bool ok = true; for (size_t i = 0; i < c && kind < 5; ++i) ok &= Tr::val(a[kind == 3 ? 2 * i : kind == 4 ? c - 1 - i : i]) == xs[i]; vf_check(ok, "the range given is changed"); }
        }
        same(v, m); sameRev(v, m); vf_observe(v.size());
        v.~Vec();
        vf_reach("end");
    }
    // constructing an element may throw (moving one doesn't): every element is still destroyed exactly once and the vector remains usable
    static void fail(size_t maxn, size_t lim, size_t maxc) {
        alignas(Vec) unsigned char mem[sizeof(Vec)]; Model m; uint32_t xs[4] = {11, 12, 13, 14};
        Vec& v = *new (mem) Vec(); fillTo(v, m, vf::pick("n0", maxn + 1)); Tr::prep(v);
        size_t op = vf::pick("op", 16), room = lim > m.n ? lim - m.n : 0, n = 0, p = 0; bool threw = false; uint32_t x = Tr::sym();
        if (op < 4) vf_assume(room);
        if (op == 2 || op == 3) p = vf::pick("pos", m.n + 1);
        if (op >= 4) n = vf::pick("n", (lim < 4 ? lim : 4) + 1);
        Model r = m; bool strong = op < 4;
        {
            const E e(x); Vec o; if (op == 9 || op == 10) { for (size_t i = 0; i < n; ++i) o.push_back(E(xs[i])); }
            vf::throw_at() = int(vf::pick("throw", (op < 4 ? 3 : 5) + 1));
            try {
                switch (op) {
                case 0: v.push_back(e); r.push(x); break;
                case 1: v.emplace_back(x); r.push(x); break;
                case 2: v.insert(v.cbegin() + p, e); r.insert(p, x); break;
                case 3: v.emplace(v.cbegin() + p, x); r.insert(p, x); break;
                case 4: v.resize(n); r.resize(n, 0); break;
                case 5: v.resize(n, e); r.resize(n, x); break;
                case 6: v.assign(n, e); r.clear(); r.resize(n, x); break;
                case 7: v.assign(GenIt<E>{xs}, GenIt<E>{xs + n}); r.clear(); for (size_t i = 0; i < n; ++i) r.push(xs[i]); break;
                case 8: vf_assume(n == 2); v.assign({E(xs[0]), E(xs[1])}); r.clear(); r.push(xs[0]); r.push(xs[1]); break;
                case 9: v = o; r.clear(); for (size_t i = 0; i < n; ++i) r.push(xs[i]); break;
                case 10: { Vec c(o); vf_check(c == o, "a copy compares different"); break; }
                case 11: { Vec c(n, e); vf_check(c.size() == n, "size differs"); break; }
                case 12: { Vec c(GenIt<E>{xs}, GenIt<E>{xs + n}); vf_check(c.size() == n, "size differs"); break; }
                case 13: { vf_assume(n == 2); Vec c({E(xs[0]), E(xs[1])}); vf_check(c.size() == n, "size differs"); break; }
                case 15: Tr::failExtra(v, n); break;
                case 14: { Vec c(n); vf_check(c.size() == n, "size differs"); break; }
                }
            } catch (vf::Boom&) { threw = true; vf_reach("threw"); }
            vf::throw_at() = 0;
        }
        if (!threw) same(v, r); else if (strong || op >= 10) same(v, m);
        else { bool ok = true; uint32_t s = 0; for (auto& el : v) { E::need(el); s += el.v; } vf_check(v.size() <= v.capacity(), "size above the capacity"); (void)ok; (void)s; }
        vf_check(vf_live_count(0) == v.size(), "elements which are not in the vector are alive, or the vector has elements which are not");
        v.clear(); Model z; fillTo(v, z, 2); same(v, z);
        v.~Vec();
        vf_reach("end");
    }
    static void run(size_t maxn, size_t lim, size_t ops, size_t maxc, bool manyCtors) {
        alignas(Vec) unsigned char mem[sizeof(Vec)];
        Model m;
        static const size_t L[] = {7, 16, 17, 33}; size_t n = big() ? L[vf::pick("n0", maxn)] : vf::pick("n0", maxn + 1);
        if (manyCtors) make(mem, m, n); else { Vec* v = new (mem) Vec(); fillTo(*v, m, n); }
        Vec& v = *(Vec*)mem;
        same(v, m);
        Tr::prep(v);
        for (size_t k = 0; k < ops; ++k) {
            size_t op = vf::pick("op", NEXTOPS + Tr::extraOps());
            if (op < NEXTOPS) step(v, m, op, lim, maxc); else Tr::extra(v, m, op - NEXTOPS);
            same(v, m);
        }
        sameRev(v, m);
        vf_observe(v.size());
        for (size_t i = 0; i < m.n; ++i) vf_observe(Tr::val(v[i]));
        v.~Vec();
        vf_reach("end");
    }
};
} // namespace vfseq
