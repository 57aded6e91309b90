// Native runtime: replays recorded inputs against the real code (sequential harnesses).
//   VF_INPUTS=<file of "name value" lines>   VF_FILL=<byte used to fill fresh heap memory>
// exit codes: 0 ran to the end, 77 a vf_check failed / defect seen by the runtime, 78 an assumption does not hold, 79 out of inputs
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <malloc.h>
#include <dlfcn.h>
#include <exception>
namespace {
struct In { std::string name; uint64_t v; };
std::vector<In>* g_in; size_t g_pos;
std::map<const void*, uint64_t>* g_live;
struct Rec { size_t size; int kind; };
bool g_track = false, g_leak = true; int g_fill = -1;
struct Guard { bool old; Guard() : old(g_track) { g_track = false; } ~Guard() { g_track = old; } };
std::map<void*, Rec>* g_alloc; // allocations through operator new
size_t g_mallocs = 0;
[[noreturn]] void die(int code, const char* what, const char* m) { fflush(stdout); fprintf(stderr, "VF-%s: %s\n", what, m); fflush(stderr); _exit(code); }
uint64_t next(const char* name) {
    Guard g;
    while (g_pos < g_in->size() && (*g_in)[g_pos].name == "@") ++g_pos;
    if (g_pos >= g_in->size()) die(79, "INPUTS", name);
    In& i = (*g_in)[g_pos++];
    if (i.name != name) { fprintf(stderr, "expected %s, have %s\n", name, i.name.c_str()); die(79, "INPUTS", "input order differs"); }
    return i.v;
}
#if defined(VF_SCHED)
void schedAlloc(void* p, size_t n); void schedFree(void* p);
#endif
void* doNew(size_t n, size_t al, int kind, bool nothrow) {
    if (n > 0x80000) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = nullptr; if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
    if (g_fill >= 0) memset(p, g_fill, n);
    if (g_track) { Guard g; (*g_alloc)[p] = {n, kind}; }
#if defined(VF_SCHED)
    schedAlloc(p, n ? n : 1);
#endif
    return p;
}
void doDel(void* p, int kind, bool sized, size_t n) {
    if (!p) return;
    if (g_track) {
        Guard g; auto it = g_alloc->find(p);
        if (it != g_alloc->end()) {
            if (it->second.kind != kind) die(77, "MEMORY", "mismatched allocation and deallocation functions");
            if (sized && it->second.size != n) die(77, "MEMORY", "sized deallocation with wrong size");
            g_alloc->erase(it);
        }
    }
#if defined(VF_SCHED)
    schedFree(p); // the block is not reused: uses of it are detected
#else
    free(p);
#endif
}
}
#if !defined(VF_MSAN)
void* operator new(size_t n) { return doNew(n, 16, 1, false); }
void* operator new[](size_t n) { return doNew(n, 16, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16, 2, true); }
void operator delete(void* p) noexcept { doDel(p, 1, false, 0); }
void operator delete[](void* p) noexcept { doDel(p, 2, false, 0); }
void operator delete(void* p, size_t n) noexcept { doDel(p, 1, true, n); }
void operator delete[](void* p, size_t n) noexcept { doDel(p, 2, true, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doDel(p, 1, false, 0); }
#if __cplusplus >= 201703L
void* operator new(size_t n, std::align_val_t a) { return doNew(n, (size_t)a, 1, false); }
void* operator new[](size_t n, std::align_val_t a) { return doNew(n, (size_t)a, 2, false); }
void operator delete(void* p, std::align_val_t) noexcept { doDel(p, 1, false, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { doDel(p, 2, false, 0); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { doDel(p, 1, true, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { doDel(p, 2, true, n); }
#endif
#endif
#if defined(VF_ASAN)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static std::set<const volatile void*>* g_heap;
static void onMalloc(const volatile void* p, size_t) { if (g_track) { Guard g; g_heap->insert(p); } }
static void onFree(const volatile void* p) { if (g_track) { Guard g; g_heap->erase(p); } }
#endif
extern "C" {
uint64_t vf_sym(const char* n, unsigned) { return next(n); }
uint64_t vf_choice(const char* n, uint64_t cnt) { uint64_t v = next(n); if (v >= cnt) die(79, "INPUTS", "choice out of range"); return v; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_assume(bool c) { if (!c) die(78, "ASSUME", "assumption does not hold"); }
void vf_check(bool c, const char* m) { if (!c) die(77, "CHECK", m); }
void vf_fail(const char* m) { die(77, "CHECK", m); }
void vf_reach(const char*) {}
void vf_observe(uint64_t v) { Guard g; printf("OBS %llu\n", (unsigned long long)v); }
void vf_live_add(const void* p, uint64_t t) { Guard g; (*g_live)[p] = t; }
bool vf_live_del(const void* p) { Guard g; return g_live->erase(p) != 0; }
uint64_t vf_live_get(const void* p) { Guard g; auto it = g_live->find(p); return it == g_live->end() ? 0 : it->second; }
uint64_t vf_live_count(uint64_t t) { Guard g; uint64_t n = 0; for (auto& p : *g_live) if (!t || p.second == t) ++n; return n; }
void vf_no_leak_check() { g_leak = false; }
bool vf_is_engine() { return false; }
bool vf_thorough() { return getenv("VF_THOROUGH") != nullptr; }
uint64_t vf_param(const char* n, uint64_t d) { Guard g; const char* e = getenv((std::string("VF_") + n).c_str()); return e ? strtoull(e, 0, 0) : d; }
#if !defined(VF_SCHED)
int vf_self() { return 0; }
int vf_spawn(void (*)(void*), void*) { die(76, "RT", "threads need the scheduled runtime"); }
void vf_join_all() {}
void vf_yield() {}
void vf_acq(const void*) {}
void vf_rel(const void*) {}
void vf_block(const void*) { die(77, "CHECK", "blocks forever (single thread)"); }
void vf_wake(const void*) {}
void vf_visible() {}
#endif
}
static void onTerminate() { die(77, "TERMINATE", "std::terminate called or uncaught exception"); }
int main() {
    g_in = new std::vector<In>; g_live = new std::map<const void*, uint64_t>; g_alloc = new std::map<void*, Rec>;
#if defined(VF_ASAN)
    g_heap = new std::set<const volatile void*>;
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
    if (const char* f = getenv("VF_INPUTS")) {
        FILE* h = fopen(f, "r"); if (!h) die(76, "RT", "no inputs file");
        char nm[256]; unsigned long long v; while (fscanf(h, "%255s %llu", nm, &v) == 2) g_in->push_back({nm, v});
        fclose(h);
    }
    if (const char* f = getenv("VF_FILL")) g_fill = atoi(f);
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, getenv("VF_ENTRY") ? getenv("VF_ENTRY") : "");
    if (!fn) die(76, "RT", "no entry");
    std::set_terminate(onTerminate);
    printf("START\n"); fflush(stdout);
    g_track = true;
    fn();
    g_track = false;
    if (g_leak && !g_alloc->empty()) die(77, "LEAK", "memory leak at end of scenario");
#if defined(VF_ASAN)
    if (g_leak && !g_heap->empty()) die(77, "LEAK", "memory leak at end of scenario");
#endif
    printf("END\n"); fflush(stdout);
    _exit(0);
}
