#include "vf.h"
#include <itlib/atomic.hpp>
// every operation against the arithmetic of the type modulo 2^width
template <typename I> static I wrap(uint64_t v) { return (I)v; }
template <typename I> static I arb(const char* n) { return (I)vf_sym(n, sizeof(I) * 8); }
template <typename I> static void seq() {
    using C = itlib::atomic_relaxed_counter<I>; I x = arb<I>("init"); C c(x), other(arb<I>("other")); I ox = other.load(); const C& cc = c; vf_check(c.load() == x && I(cc) == x, "the counter does not hold its initial value");
    size_t n = vf_param("ops", 2);
    for (size_t k = 0; k < n; ++k) {
        I a = arb<I>("arg"), r = 0, want = 0; bool res = true; uint64_t ux = (uint64_t)x, ua = (uint64_t)a;
        switch (vf::pick("op", 12)) {
        case 0: r = ++c; want = x = wrap<I>(ux + 1); break; case 1: r = c++; want = x; x = wrap<I>(ux + 1); break;
        case 2: r = --c; want = x = wrap<I>(ux - 1); break; case 3: r = c--; want = x; x = wrap<I>(ux - 1); break;
        case 4: r = c += a; want = x = wrap<I>(ux + ua); break; case 5: r = c -= a; want = x = wrap<I>(ux - ua); break;
        case 6: r = c = a; want = x = a; break; case 7: c.store(a); x = a; res = false; break;
        case 8: { C d(c); vf_check(d.load() == x, "a copy holds another value"); ++d; d.store(a); res = false; break; }
        case 9: { C& q = c = other; vf_check(&q == &c && other.load() == ox, "assignment returns another object or changes its source"); x = ox; res = false; break; }
        case 10: { C& self = c; c = self; res = false; break; }
        default: r = c; want = x; break;
        }
        if (res) vf_check(r == want, "an operation returns another value than the integer operation"); vf_check(c.load() == x && I(cc) == x && other.load() == ox, "the counter holds another value than the integer");
        vf_observe((uint64_t)r);
    }
    vf_reach("end");
}
#define SEQ(name, T) VF_ENTRY seq_##name() { seq<T>(); }
SEQ(i8, int8_t) SEQ(u8, uint8_t) SEQ(i16, int16_t) SEQ(u16, uint16_t) SEQ(i32, int32_t) SEQ(u32, uint32_t) SEQ(i64, int64_t) SEQ(u64, uint64_t) SEQ(c, char) SEQ(c16, char16_t) SEQ(ll, long long) SEQ(wc, wchar_t)
// concurrent updates: the results are those of one order of the updates, consistent with the order of the calls
struct Op { int kind; uint64_t arg, res; uint64_t b, e; };
static char g_clk[64]; static uint64_t stamp() { uint64_t n = vf_live_count(77); vf_live_add(&g_clk[n], 77); return n; } // no scheduling point, no memory access
template <typename I> struct Ctx { itlib::atomic_relaxed_counter<I>* c; Op* op; int n; };
template <typename I> static void worker(void* p) {
    Ctx<I>& x = *(Ctx<I>*)p; auto& c = *x.c;
    for (int i = 0; i < x.n; ++i) { Op& o = x.op[i]; o.b = stamp(); I a = (I)o.arg, r = 0;
        switch (o.kind) { case 0: r = ++c; break; case 1: r = c++; break; case 2: r = --c; break; case 3: r = c--; break; case 4: r = c += a; break; case 5: r = c -= a; break; case 6: r = c.load(); break; default: c.store(a); break; }
        o.res = (uint64_t)r; o.e = stamp(); }
}
template <typename I> static bool lin(const Op* o, int n, unsigned done, I cur, I fin) {
    if (done == (1u << n) - 1) return cur == fin;
    for (int i = 0; i < n; ++i) {
        if (done >> i & 1) continue; bool first = true; for (int j = 0; j < n; ++j) if (!(done >> j & 1) && j != i && o[j].e < o[i].b) first = false;
        if (!first) continue; uint64_t u = (uint64_t)cur; I nx = cur, r = 0;
        switch (o[i].kind) { case 0: r = nx = I(u + 1); break; case 1: r = cur; nx = I(u + 1); break; case 2: r = nx = I(u - 1); break; case 3: r = cur; nx = I(u - 1); break; case 4: r = nx = I(u + o[i].arg); break; case 5: r = nx = I(u - o[i].arg); break; case 6: r = cur; break; default: nx = I(o[i].arg); break; }
        if ((uint64_t)r == o[i].res && lin<I>(o, n, done | 1u << i, nx, fin)) return true;
    }
    return false;
}
template <typename I> static void concurrent(int threads, int per, I init) {
    itlib::atomic_relaxed_counter<I> c(init); Op ops[9] = {}; Ctx<I> x[3]; int n = 0; static const int args[] = {5, 40, 130, 7, 300, 21, 64, 3, 90};
    for (int t = 0; t < threads; ++t) { x[t] = {&c, ops + n, per}; for (int i = 0; i < per; ++i) { ops[n].kind = (int)vf::pick("op", 8); ops[n].arg = (uint64_t)args[n]; ++n; } }
    for (int t = 1; t < threads; ++t) vf_spawn(worker<I>, &x[t]); worker<I>(&x[0]); vf_join_all();
    vf_check(lin<I>(ops, n, 0, init, c.load()), "an update is lost or a returned value is that of no order of the updates"); vf_reach("end");
}
VF_ENTRY two_u32() { concurrent<uint32_t>(2, (int)vf_param("per", 2), 0xfffffff0u); }
VF_ENTRY two_i8() { concurrent<int8_t>(2, (int)vf_param("per", 2), 120); }
VF_ENTRY three_u64() { concurrent<uint64_t>(3, (int)vf_param("per", 1), 1); }
VF_ENTRY three_i16() { concurrent<int16_t>(3, (int)vf_param("per", 1), -2); }
