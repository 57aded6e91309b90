// Harness interface.  The same harness source is executed symbolically (engine/vfse on LLVM IR) and compiled
// natively together with vf_rt.cpp to replay a solver assignment against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>
#include <utility>
extern "C" {
uint64_t vf_sym(const char* name, unsigned width);      // arbitrary value of `width` bits (a solver variable)
uint64_t vf_choice(const char* name, uint64_t n);       // arbitrary value in [0,n), one path per value
uint64_t vf_concretize(uint64_t v);                     // one path per feasible value
void vf_assume(bool c);
void vf_check(bool c, const char* msg);                 // the assertion decided by the solver
[[noreturn]] void vf_fail(const char* msg);
void vf_reach(const char* label);                       // reachability witness
void vf_observe(uint64_t v);                            // compared with the native run of the same inputs
void vf_live_add(const void* p, uint64_t tag);
bool vf_live_del(const void* p);
uint64_t vf_live_get(const void* p);
uint64_t vf_live_count(uint64_t tag);
void vf_no_leak_check();
int vf_spawn(void (*fn)(void*), void* arg);
void vf_join_all();
int vf_self();
void vf_yield();
void vf_acq(const void* p);
void vf_rel(const void* p);
void vf_block(const void* p);
void vf_wake(const void* p);
void vf_visible();
bool vf_is_engine();
bool vf_thorough();
uint64_t vf_param(const char* name, uint64_t dflt);
}
#define VF_ENTRY extern "C" __attribute__((used, noinline)) void
#define VF_NOINLINE __attribute__((noinline))

namespace vf {
inline uint8_t  u8(const char* n = "b")  { return (uint8_t)vf_sym(n, 8); }
inline uint16_t u16(const char* n = "h") { return (uint16_t)vf_sym(n, 16); }
inline uint32_t u32(const char* n = "w") { return (uint32_t)vf_sym(n, 32); }
inline uint64_t u64(const char* n = "q") { return vf_sym(n, 64); }
inline double f64(const char* n = "d") { uint64_t u = vf_sym(n, 64); double d; __builtin_memcpy(&d, &u, 8); return d; }
inline float f32(const char* n = "f") { uint32_t u = uint32_t(vf_sym(n, 32)); float d; __builtin_memcpy(&d, &u, 4); return d; }
inline size_t pick(const char* n, size_t cnt) { return (size_t)vf_choice(n, cnt); }
inline bool flag(const char* n) { return vf_choice(n, 2) != 0; }
// a symbolic value in [0, hi]
inline uint64_t upto(const char* n, uint64_t hi) { uint64_t v = vf_sym(n, 64); vf_assume(v <= hi); return v; }
// one fork free conjunction
inline bool all() { return true; }

struct Boom { int id; };   // the exception thrown by instrumented element operations

// fault injection: throw_at == k makes the k-th fallible operation from now throw (0: never)
inline int& throw_at() { static int t = 0; return t; }
inline void may_throw() { int& t = throw_at(); if (t > 0 && --t == 0) throw Boom{1}; }

// Element type which verifies its own lifetime: every construction must happen in storage with no live object,
// every use must be of a live object.
template <int Tag, bool NoexceptMove = true, bool Throwing = false>
struct Tracked {
    enum : uint32_t { MOVED = 0xdeadu };
    uint32_t v;
    void born() { vf_check(vf_live_get(this) == 0, "object constructed over a live object"); vf_live_add(this, Tag); }
    static void need(const Tracked& o) { vf_check(vf_live_get(&o) == Tag, "operation on an object whose lifetime has not started or has ended"); }
    Tracked() : v(0) { if (Throwing) may_throw(); born(); }
    Tracked(uint32_t x) : v(x) { if (Throwing) may_throw(); born(); }
    Tracked(uint32_t x, uint32_t y) : v(x + y) { if (Throwing) may_throw(); born(); }
    Tracked(const Tracked& o) : v(0) { need(o); if (Throwing) may_throw(); v = o.v; born(); }
    Tracked(Tracked&& o) noexcept(NoexceptMove) : v(0) { need(o); if (Throwing && !NoexceptMove) may_throw(); v = o.v; born(); if (this != &o) o.v = MOVED; }
    Tracked& operator=(const Tracked& o) { need(*this); need(o); if (Throwing) may_throw(); v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept(NoexceptMove) { need(*this); need(o); if (Throwing && !NoexceptMove) may_throw(); if (this != &o) { v = o.v; o.v = MOVED; } return *this; }
    ~Tracked() { vf_check(vf_live_del(this), "destructor of an object which is not alive"); v = 0xdddddddd; }
    friend bool operator==(const Tracked& a, const Tracked& b) { need(a); need(b); return a.v == b.v; }
    friend bool operator!=(const Tracked& a, const Tracked& b) { need(a); need(b); return a.v != b.v; }
    friend bool operator<(const Tracked& a, const Tracked& b) { need(a); need(b); return a.v < b.v; }
};

// fixed capacity reference sequence
template <typename T, size_t N>
struct Seq {
    T a[N]; size_t n = 0;
    Seq() : a{} {}
    void push(T v) { if (n >= N) vf_fail("harness: reference sequence overflow"); a[n++] = v; }
    void insert(size_t p, T v) { if (n >= N) vf_fail("harness: reference sequence overflow"); for (size_t i = n; i > p; --i) a[i] = a[i - 1]; a[p] = v; ++n; }
    void erase(size_t p) { for (size_t i = p; i + 1 < n; ++i) a[i] = a[i + 1]; --n; }
    void erase(size_t p, size_t q) { while (q > p) { erase(p); --q; } }
    void clear() { n = 0; }
    void resize(size_t m, T v) { while (n < m) push(v); n = m; }
};
} // namespace vf
