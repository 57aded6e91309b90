#include "vf.h"
#include <itlib/mutex.hpp>
#include <mutex>
using M = itlib::strong_try_rec_mutex;
static uint64_t stamps() { return vf_live_count(77); } static char g_clk[64]; static uint64_t stamp() { uint64_t n = stamps(); vf_live_add(&g_clk[n], 77); return n; }
struct Ev { uint64_t b, e; int thread; bool lock, ok; };
struct Ctx { M* m; int op[4], n, id; Ev ev[6]; int nev; };
static uint32_t g_data, g_data2, g_add[3]; // guarded by the mutex
static void worker(void* p) {
    Ctx& c = *(Ctx*)p; int depth = 0;
    auto unl = [&] { Ev& e = c.ev[c.nev++]; e.thread = c.id; e.lock = false; e.ok = true; e.b = stamp(); c.m->unlock(); e.e = stamp(); --depth; };
    for (int i = 0; i < c.n; ++i) {
        if (c.op[i] == 0) { Ev& e = c.ev[c.nev++]; e.thread = c.id; e.lock = true; e.b = stamp(); e.ok = c.m->try_lock(); e.e = stamp(); if (depth) vf_check(e.ok, "try_lock by the owner fails"); if (e.ok) { ++depth; vf_check(g_data == g_data2, "two threads own the mutex"); g_data += g_add[c.id]; g_data2 += g_add[c.id]; } }
        else if (depth) unl();
    }
    while (depth) unl();
}
// is there an order of the calls, consistent with when they began and ended, in which every result is the specified one?
static bool lin(Ev** ev, int n, unsigned done, int owner, int depth) {
    if (done == (1u << n) - 1) return owner < 0;
    for (int i = 0; i < n; ++i) {
        if (done >> i & 1) continue; bool first = true; for (int j = 0; j < n; ++j) if (!(done >> j & 1) && j != i && ev[j]->e < ev[i]->b) first = false; if (!first) continue;
        const Ev& e = *ev[i]; int o = owner, d = depth;
        if (e.lock) { if (e.ok != (owner < 0 || owner == e.thread)) continue; if (e.ok) { o = e.thread; ++d; } } else { if (owner != e.thread) continue; if (!--d) o = -1; }
        if (lin(ev, n, done | 1u << i, o, d)) return true;
    }
    return false;
}
static void run(int threads, int per) {
    M m; Ctx c[3]; g_data = g_data2 = vf::u32("data"); const uint32_t d0 = g_data; for (uint32_t& x : g_add) x = vf::u32("add"); for (int t = 0; t < threads; ++t) { c[t].m = &m; c[t].n = per; c[t].id = t; c[t].nev = 0; for (int i = 0; i < per; ++i) c[t].op[i] = i == 0 ? 0 : (int)vf::pick("op", 2); }
    for (int t = 1; t < threads; ++t) vf_spawn(worker, &c[t]); worker(&c[0]); vf_join_all();
    Ev* ev[18]; int n = 0; uint32_t locks = 0, sum = d0; for (int t = 0; t < threads; ++t) for (int i = 0; i < c[t].nev; ++i) { ev[n++] = &c[t].ev[i]; if (c[t].ev[i].lock && c[t].ev[i].ok) { ++locks; sum += g_add[t]; } }
    vf_check(lin(ev, n, 0, -1, 0), "the results are those of no order of the calls"); vf_check(g_data == sum && g_data2 == sum, "an update of guarded data was lost"); vf_observe(locks); vf_check(m.try_lock(), "try_lock of a free mutex fails"); m.unlock(); vf_reach("end");
}
VF_ENTRY two() { run(2, (int)vf_param("per", 2)); }
VF_ENTRY three() { run(3, (int)vf_param("per", 1)); }
static void other(void* p) { Ctx& c = *(Ctx*)p; c.ev[0].ok = c.m->try_lock(); if (c.ev[0].ok) c.m->unlock(); }
// one thread's history: after every step another thread tries to lock
VF_ENTRY seq() { M m; int depth = 0; int n = (int)vf_param("ops", 5); for (int i = 0; i < n; ++i) { if (depth && vf::flag("unlock")) { m.unlock(); --depth; } else { vf_check(m.try_lock(), "try_lock of a free or owned mutex fails"); ++depth; } Ctx c; c.m = &m; vf_spawn(other, &c); vf_join_all(); vf_check(c.ev[0].ok == (depth == 0), "try_lock by another thread succeeds exactly when the mutex is free"); } while (depth--) m.unlock(); vf_reach("end"); }
// deep recursion: other threads can lock only after as many unlocks
VF_ENTRY deep() {
    static const uint32_t L[] = {127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537}; M m; uint32_t n = L[vf::pick("depth", vf_param("deep", 8))], k = 0; Ctx c; c.m = &m;
    auto probe = [&](bool free) { vf_spawn(other, &c); vf_join_all(); vf_check(c.ev[0].ok == free, "try_lock by another thread succeeds exactly when the mutex is free"); };
    for (uint32_t i = 0; i < n; ++i) { vf_check(m.try_lock(), "try_lock by the owner fails"); }
    probe(false); for (k = n; k > 1; --k) { m.unlock(); if (k == 2 || k == n || k % 128 == 1 || k % 128 == 0) { if (n < 1000 || k < 130) probe(false); } }
    m.unlock(); probe(true); vf_reach("end");
}
