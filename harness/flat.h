// Shared scenario for flat_map and flat_set: keys are solver variables; every comparison made by the code forks on the
// solver's answer, so all orderings and coincidences of the keys are explored.
#pragma once
#include "vf.h"
#include "talloc.h"
#include <initializer_list>
#include <iterator>
#include <utility>
#include <vector>
#include <stdexcept>
namespace vff {
struct Ot { uint32_t v; };                      // another type keys can be looked up by
struct Part { uint32_t v; };                    // designates the (up to four) keys with v in their upper bits
struct K {                                      // key; moving from it destroys its value
    uint32_t v;
    K() : v(0) {}
    explicit K(uint32_t x) : v(x) {}
    K(const Ot& o) : v(o.v) {}
    K(const K& o) : v(o.v) {}
    K(K&& o) noexcept : v(o.v) { o.v = 0xeeee0001; }
    K& operator=(const K& o) { v = o.v; return *this; }
    K& operator=(K&& o) noexcept { if (this != &o) { v = o.v; o.v = 0xeeee0002; } return *this; }
    ~K() { v = 0xeeee0003; }
    bool operator==(const K& o) const { return v == o.v; }
    bool operator!=(const K& o) const { return v != o.v; }
    friend bool operator<(const K& a, const K& b) { return a.v < b.v; }
    friend bool operator<(const K& a, const Ot& b) { return a.v < b.v; }
    friend bool operator<(const Ot& a, const K& b) { return a.v < b.v; }
    friend bool operator<(const K& a, const Part& b) { return (a.v >> 2) < b.v; }
    friend bool operator<(const Part& a, const K& b) { return a.v < (b.v >> 2); }
};
struct Less { static const bool stateful = false; bool rev() const { return false; } };
struct Cmp {                                    // stateful strict weak order
    int r; Cmp(int x = 0) : r(x) {} // 0: ascending, 1: descending, 2: pairs of neighbours are equivalent
    template <class A, class B> bool operator()(const A& a, const B& b) const { return r == 2 ? (a.v >> 1) < (b.v >> 1) : r ? b < a : a < b; }
};
struct Model {
    enum { MAX = 24 };
    uint32_t k[MAX], v[MAX]; size_t n = 0; int rev = 0;
    bool before(uint32_t a, uint32_t b) const { return rev == 2 ? (a >> 1) < (b >> 1) : rev ? b < a : a < b; }
    bool same(uint32_t a, uint32_t b) const { return rev == 2 ? (a >> 1) == (b >> 1) : a == b; }
    size_t lower(uint32_t x) const { size_t i = 0; while (i < n && before(k[i], x)) ++i; return i; }
    size_t upper(uint32_t x) const { size_t i = 0; while (i < n && !before(x, k[i])) ++i; return i; }
    bool has(uint32_t x) const { size_t i = lower(x); return i < n && same(k[i], x); }
    size_t put(uint32_t x, uint32_t y, bool& fresh) { size_t i = lower(x); fresh = !(i < n && same(k[i], x)); if (fresh) { if (n >= MAX) vf_fail("harness: model overflow"); for (size_t j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; } return i; }
    void erase(size_t i) { for (; i + 1 < n; ++i) { k[i] = k[i + 1]; v[i] = v[i + 1]; } --n; }
};
template <class It> It nth(It b, size_t i) { return b + ptrdiff_t(i); }
} // namespace vff
namespace vff {
// a single pass iterator: copies share one position
template <class T> struct InIt {
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
    struct Src { const T* p; const T* e; }; Src* s;
    const T& operator*() const { vf_check(s->p != s->e, "reads beyond the range given"); return *s->p; }
    const T* operator->() const { return s->p; }
    InIt& operator++() { vf_check(s->p != s->e, "moves beyond the range given"); ++s->p; return *this; }
    struct Proxy { T v; const T& operator*() const { return v; } };
    Proxy operator++(int) { Proxy x{*s->p}; ++s->p; return x; }
    bool operator==(const InIt& o) const { bool a = !s || s->p == s->e, b = !o.s || o.s->p == o.s->e; return a == b; }
    bool operator!=(const InIt& o) const { return !(*this == o); }
};
// a key, value and comparison of which any construction and any call may throw
typedef vf::Tracked<1, true, true> TK;
struct TOt { uint32_t v; operator TK() const { return TK(v); } };
struct TCmp {
    template <class A, class B> bool operator()(const A& a, const B& b) const { vf::may_throw(); return a.v < b.v; }
};
} // namespace vff
