// Native runtime for multi-threaded harnesses: the unit is compiled with -fsanitize=thread and linked with this
// implementation of the instrumentation interface.  Real threads take turns: an "@ t" entry of the input file says
// that thread t executes the next visible operation (atomic access, mutex operation, vf_visible, vf_yield).  Vector
// clocks detect data races, freed memory is never reused so that uses of it are detected.
#include "vf_rt.cpp"
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
namespace {
typedef std::vector<uint32_t> VC;
void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) if (a[i] < b[i]) a[i] = b[i]; }
uint32_t at(const VC& a, size_t i) { return i < a.size() ? a[i] : 0; }
enum St { Run, Blocked, Done };
struct Th { sem_t sem; VC vc, acq, fence; St st = Run; const void* wait = nullptr; void (*fn)(void*) = nullptr; void* arg = nullptr; pthread_t pt; };
std::vector<Th*>* g_th; thread_local int t_self = 0; bool g_multi = false; size_t g_after = 0; int g_joining = -1;
struct Sh { int wt = -1; uint32_t wc = 0; VC rd, ard, awr; };
std::unordered_map<uintptr_t, Sh>* g_sh; std::map<const void*, VC>* g_rel; std::map<const void*, int>* g_mtx; std::map<uintptr_t, size_t>*g_blk, *g_dead;
Th& me() { return *(*g_th)[t_self]; }
void tick() { VC& v = me().vc; if ((int)v.size() <= t_self) v.resize(t_self + 1, 0); ++v[t_self]; }
int scheduled() { for (size_t i = g_pos; i < g_in->size(); ++i) if ((*g_in)[i].name == "@") return (int)(*g_in)[i].v; return -1; }
void consume() { while (g_pos < g_in->size() && (*g_in)[g_pos].name != "@") ++g_pos; if (g_pos < g_in->size()) ++g_pos; }
void give(int t) { if (t == t_self) return; sem_post(&(*g_th)[t]->sem); if (me().st != Done) sem_wait(&me().sem); }
// picks some thread which can run once the schedule is exhausted
int anyRunnable(int from) { size_t n = g_th->size(); for (size_t k = 1; k <= n; ++k) { int t = int((from + k) % n); if ((*g_th)[t]->st == Run) return t; } return -1; }
// waits for the turn of the calling thread to execute a visible operation
void turn() {
    if (!g_multi) return; Guard g;
    for (;;) {
        int s = scheduled();
        if (s == t_self) { consume(); return; }
        if (s < 0) { // beyond the recorded schedule: round robin
            if (++g_after > 20000) die(77, "NONTERMINATION", "threads make no progress");
            int t = anyRunnable(t_self); if (t < 0) die(77, "NONTERMINATION", "deadlock: no thread can run");
            if (t == t_self) return; give(t); int s2 = scheduled(); if (s2 < 0) return; continue;
        }
        if (s >= (int)g_th->size() || (*g_th)[s]->st == Done) die(79, "INPUTS", "schedule differs");
        (*g_th)[s]->st = Run; give(s);
    }
}
// gives the turn away for good (the thread ended) or until woken
void leave() {
    Guard g; for (;;) {
        if (g_joining >= 0) { bool all = true; for (size_t i = 0; i < g_th->size(); ++i) if ((int)i != g_joining && (*g_th)[i]->st != Done) all = false; if (all) { if (g_joining == t_self) return; give(g_joining); return; } }
        int s = scheduled(); if (s >= 0 && (s >= (int)g_th->size() || (*g_th)[s]->st == Done)) die(79, "INPUTS", "schedule differs");
        if (s >= 0 && s != t_self) (*g_th)[s]->st = Run; else if (s == t_self && me().st != Done) { me().st = Run; return; }
        if (s < 0) { s = anyRunnable(t_self); if (s < 0) die(77, "NONTERMINATION", "deadlock: no thread can run"); if (++g_after > 20000) die(77, "NONTERMINATION", "threads make no progress"); }
        if (s == t_self) return; give(s); if (me().st != Blocked) return; }
}
void wakeAll(const void* p) { for (auto t : *g_th) if (t->st == Blocked && t->wait == p) t->st = Run; }
void alive(const void* p, size_t n) { auto it = g_dead->upper_bound((uintptr_t)p); if (it != g_dead->begin()) { --it; if ((uintptr_t)p < it->first + it->second) die(77, "MEMORY", "use of freed memory"); } (void)n; }
void access(const void* p, size_t n, bool w, bool atomic) {
    if (!g_track) return; Guard g; alive(p, n); if (!g_multi) return;
    VC& vc = me().vc; int m = t_self;
    for (size_t i = 0; i < n; ++i) {
        Sh& h = (*g_sh)[(uintptr_t)p + i];
        if (h.wt >= 0 && h.wt != m && h.wc > at(vc, h.wt)) die(77, "RACE", "data race with an unordered write");
        if (w) for (size_t k = 0; k < h.rd.size(); ++k) if ((int)k != m && h.rd[k] > at(vc, k)) die(77, "RACE", "data race: write after an unordered read");
        if (!atomic) {
            if (w) for (size_t k = 0; k < h.ard.size(); ++k) if ((int)k != m && h.ard[k] > at(vc, k)) die(77, "RACE", "data race: write after an unordered atomic access");
            for (size_t k = 0; k < h.awr.size(); ++k) if ((int)k != m && h.awr[k] > at(vc, k)) die(77, "RACE", "data race: access after an unordered atomic write");
            if (w) { h.wt = m; h.wc = at(vc, m); h.rd.clear(); } else { if ((int)h.rd.size() <= m) h.rd.resize(m + 1, 0); h.rd[m] = at(vc, m); }
        } else { VC& v = w ? h.awr : h.ard; if ((int)v.size() <= m) v.resize(m + 1, 0); v[m] = at(vc, m); }
    }
}
bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
bool rel(int o) { return o == 3 || o == 4 || o == 5; }
void hbLoad(const void* p, int o) { if (!g_multi) return; Guard g; auto it = g_rel->find(p); if (it == g_rel->end()) return; join(acq(o) ? me().vc : me().acq, it->second); }
void hbStore(const void* p, int o, bool rmw) { if (!g_multi) return; Guard g; VC c = rel(o) ? me().vc : me().fence; if (rmw) join((*g_rel)[p], c); else (*g_rel)[p] = c; if (rel(o)) tick(); }
void schedAlloc(void* p, size_t n) { if (!g_track) return; Guard g; (*g_blk)[(uintptr_t)p] = n; }
void schedFree(void* p) {
    if (!g_blk || !g_track) { free(p); return; }
    if (g_dead->count((uintptr_t)p)) die(77, "MEMORY", "double free");
    auto it = g_blk->find((uintptr_t)p); if (it == g_blk->end()) { Guard g; free(p); return; }
    if (g_multi) access(p, it->second, true, false);
    Guard g; (*g_dead)[it->first] = it->second; g_blk->erase(it);
}
struct Init { Init() { g_th = new std::vector<Th*>; auto t = new Th; sem_init(&t->sem, 0, 0); t->vc = {1}; g_th->push_back(t); g_sh = new std::unordered_map<uintptr_t, Sh>; g_rel = new std::map<const void*, VC>; g_mtx = new std::map<const void*, int>; g_blk = new std::map<uintptr_t, size_t>; g_dead = new std::map<uintptr_t, size_t>; } } g_init;
void* threadMain(void* a) {
    Th* t = (Th*)a; sem_wait(&t->sem); for (size_t i = 0; i < g_th->size(); ++i) if ((*g_th)[i] == t) t_self = int(i);
    g_track = true; t->fn(t->arg); g_track = true; t->st = Done; leave(); return nullptr;
}
template <class T> T aload(const volatile void* a, int o) { turn(); access((const void*)a, sizeof(T), false, true); T r = *(const volatile T*)a; hbLoad((const void*)a, o); return r; }
template <class T> void astore(volatile void* a, T v, int o) { turn(); access((const void*)a, sizeof(T), true, true); *(volatile T*)a = v; hbStore((const void*)a, o, false); }
template <class T, class F> T armw(volatile void* a, int o, F f) { turn(); access((const void*)a, sizeof(T), true, true); T r = *(volatile T*)a; *(volatile T*)a = f(r); hbLoad((const void*)a, o); hbStore((const void*)a, o, true); return r; }
template <class T> T acas(volatile void* a, T c, T v, int o, int fo) { turn(); T r = *(volatile T*)a; bool eq = r == c; access((const void*)a, sizeof(T), eq, true); if (eq) { *(volatile T*)a = v; hbLoad((const void*)a, o); hbStore((const void*)a, o, true); } else hbLoad((const void*)a, fo); return r; }
bool mlock(const void* m, bool tryOnly, int& res) { int& o = (*g_mtx)[m]; if (o) { if (o == t_self + 1 && !tryOnly) die(77, "NONTERMINATION", "mutex locked twice by its owner (deadlock)"); res = 16; return tryOnly; } o = t_self + 1; res = 0; if (g_multi) { auto it = g_rel->find((const char*)m + 1); if (it != g_rel->end()) join(me().vc, it->second); } return true; }
void lockMutex(const void* m) { Guard g; int r; for (;;) { turn(); if (mlock(m, false, r)) return; if (!g_multi) die(77, "NONTERMINATION", "deadlock"); if (scheduled() >= 0) die(79, "INPUTS", "schedule differs"); me().st = Blocked; me().wait = m; leave(); } }
}
extern "C" {
int vf_self() { return t_self; }
int vf_spawn(void (*fn)(void*), void* arg) {
    Guard g; if (!g_multi) { g_multi = true; me().vc = {1}; }
    auto t = new Th; sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; int id = int(g_th->size()); g_th->push_back(t);
    t->vc = me().vc; t->vc.resize(id + 1, 0); t->vc[id] = 1; me().vc[t_self]++; pthread_create(&t->pt, nullptr, threadMain, t); return id;
}
void vf_join_all() {
    Guard g; g_joining = t_self;
    for (;;) { bool all = true; for (size_t i = 0; i < g_th->size(); ++i) if ((int)i != t_self && (*g_th)[i]->st != Done) all = false; if (all) break; me().st = Blocked; me().wait = nullptr; leave(); }
    me().st = Run; g_joining = -1; for (size_t i = 1; i < g_th->size(); ++i) pthread_join((*g_th)[i]->pt, nullptr);
    g_multi = false; g_th->resize(1); g_sh->clear(); g_rel->clear();
}
void vf_yield() { turn(); }
void vf_visible() { turn(); }
void vf_acq(const void* p) { if (!g_multi) return; Guard g; auto it = g_rel->find((const char*)p + 2); if (it != g_rel->end()) join(me().vc, it->second); }
void vf_rel(const void* p) { if (!g_multi) return; Guard g; join((*g_rel)[(const char*)p + 2], me().vc); tick(); }
void vf_block(const void* p) { if (!g_multi) die(77, "NONTERMINATION", "blocks forever (single thread)"); Guard g; me().st = Blocked; me().wait = p; leave(); }
void vf_wake(const void* p) { Guard g; wakeAll(p); }
int pthread_mutex_lock(pthread_mutex_t* m) { lockMutex(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { Guard g; turn(); int r; mlock(m, true, r); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { Guard g; turn(); int& o = (*g_mtx)[m]; if (o != t_self + 1) die(77, "LOCKING", "mutex unlocked by a thread that does not own it"); o = 0; if (g_multi) { join((*g_rel)[(char*)m + 1], me().vc); tick(); wakeAll(m); } return 0; }
// instrumentation interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void** p) { access(p, 8, false, false); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, false); }
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, false); } void __tsan_write##n(void* p) { access(p, n, true, false); } void __tsan_unaligned_read##n(void* p) { access(p, n, false, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, false); } void __tsan_read_write##n(void* p) { access(p, n, true, false); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, false); access(d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int o) { Guard g; if (acq(o)) join(me().vc, me().acq); if (rel(o)) { me().fence = me().vc; tick(); } }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T* a, int o) { return aload<T>(a, o); } void __tsan_atomic##n##_store(volatile T* a, T v, int o) { astore<T>(a, v, o); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int o) { return armw<T>(a, o, [=](T) { return v; }); } T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int o) { return armw<T>(a, o, [=](T x) { return T(x + v); }); } T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int o) { return armw<T>(a, o, [=](T x) { return T(x - v); }); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int o) { return armw<T>(a, o, [=](T x) { return T(x & v); }); } T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int o) { return armw<T>(a, o, [=](T x) { return T(x | v); }); } T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int o) { return armw<T>(a, o, [=](T x) { return T(x ^ v); }); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int o, int fo) { return acas<T>(a, c, v, o, fo); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int fo) { T r = acas<T>(a, *c, v, o, fo); bool ok = r == *c; *c = r; return ok; } int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int fo) { T r = acas<T>(a, *c, v, o, fo); bool ok = r == *c; *c = r; return ok; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
