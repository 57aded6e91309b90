#include "vf.h"
#include <itlib/sentry.hpp>
#include <exception>
static uint32_t g_log[16]; static int g_n; static void log(uint32_t x) { if (g_n < 16) g_log[g_n] = x; ++g_n; }
struct Fn { uint32_t id; bool moved = false; Fn(uint32_t i) : id(i) { vf_live_add(this, 3); } Fn(Fn&& o) noexcept : id(o.id) { vf_check(vf_live_get(&o) == 3 && !o.moved, "a function which is not alive is moved"); o.moved = true; vf_live_add(this, 3); } Fn(const Fn&) = delete; ~Fn() { vf_check(vf_live_del(this), "function destroyed twice"); } void operator()() { vf_check(vf_live_get(this) == 3 && !moved, "a function which is not alive or was moved from is run"); log(id); } };
struct Cnt { int n = 0; Cnt() = default; Cnt(const Cnt&) = delete; Cnt(Cnt&&) = delete; void operator()() { ++n; log(9); } };
struct Const { void operator()() const { log(20); } };
static void freeFn() { log(30); }
// scopes which are left in every way; nested guards run in reverse order, once
static uint32_t runs(size_t how, int exitAt) {
    // three guards in one scope
    auto body = [&]() -> int {
        for (int i = 0; i < 2; ++i) {
#if __cplusplus >= 201700
            itlib::sentry a(Fn(1)); itlib::sentry b([] { log(2); }); Cnt c; itlib::sentry<Cnt&> d(c); 
#else
            auto a = itlib::make_sentry(Fn(1)); auto b = itlib::make_sentry([] { log(2); }); Cnt c; auto d = itlib::make_sentry(c);
#endif
            log(100 + i); vf_check(c.n == 0, "a guard runs its function before its scope is left");
            if (exitAt == i) { if (how == 1) return 1; if (how == 2) break; if (how == 3) throw vf::Boom{i}; if (how == 4) continue; }
            log(150);
        }
        log(200); return 0;
    };
    int r = -1; try { r = body(); } catch (vf::Boom&) { log(300); } return (uint32_t)r;
}
VF_ENTRY exits() {
    size_t how = vf::pick("how", 5); int exitAt = (int)vf::pick("exitAt", 2); g_n = 0; runs(how, exitAt);
    uint32_t exp[16]; int n = 0; bool left = false;
    for (int i = 0; i < 2 && !left; ++i) { exp[n++] = 100 + i; bool ex = exitAt == i && how; if (!ex) exp[n++] = 150; exp[n++] = 9; exp[n++] = 2; exp[n++] = 1; if (ex && how == 3) { exp[n++] = 300; left = true; } else if (ex && how == 1) left = true; else if (ex && how == 2) break; }
    if (!left) exp[n++] = 200;
    vf_check(g_n == n, "guards do not run exactly once each"); for (int i = 0; i < n; ++i) vf_check(g_log[i] == exp[i], "guards run in another order or at another time"); vf_check(vf_live_count(3) == 0, "a function is not destroyed"); vf_reach("end");
}
// an lvalue is used by reference; const and free functions; results are ignored
VF_ENTRY kinds() {
    g_n = 0; Cnt c; const Const k{}; Fn f(7); uint32_t exp = 0; int ret = 0; auto lam = [&ret] { return ++ret; };
    switch (vf::pick("kind", 8)) {
    case 0: { auto&& s = itlib::make_sentry(c); (void)s; vf_check(g_n == 0 && c.n == 0, "a guard runs its function before its scope is left"); } vf_check(c.n == 1, "an lvalue function is not used by reference"); exp = 9; break;
    case 1: { auto&& s = itlib::make_sentry(k); (void)s; } exp = 20; break;
    case 2: { auto&& s = itlib::make_sentry(freeFn); (void)s; vf_check(g_n == 0, "a guard runs its function before its scope is left"); } exp = 30; break;
    case 3: { auto&& s = itlib::make_sentry(&freeFn); (void)s; } exp = 30; break;
    case 4: { auto&& s = itlib::make_sentry(f); (void)s; } vf_check(!f.moved, "an lvalue function was moved from"); exp = 7; break;
    case 5: { auto&& s = itlib::make_sentry(std::move(f)); (void)s; vf_check(f.moved, "an rvalue function is not moved"); } exp = 7; break;
    case 6: { auto&& s = itlib::make_sentry(lam); (void)s; } vf_check(ret == 1, "an lvalue function is not used by reference"); log(1); exp = 1; break;
    case 7: { itlib::sentry<Cnt&> s(c); vf_check(g_n == 0, "a guard runs its function before its scope is left"); } vf_check(c.n == 1, "an lvalue function is not used by reference"); exp = 9; break;
    }
    vf_check(g_n == 1 && g_log[0] == exp, "the function does not run exactly once"); vf_reach("end");
}
// a guard runs while an exception propagates through its scope and sees it
VF_ENTRY unwinding() { g_n = 0; bool caught = false; try { try { auto&& s = itlib::make_sentry([] { log(std::uncaught_exception() ? 1 : 2); }); (void)s; if (vf::flag("throw")) throw vf::Boom{3}; log(5); } catch (int) { log(6); } } catch (vf::Boom& b) { caught = b.id == 3; log(7); } if (caught) vf_check(g_n == 2 && g_log[0] == 1 && g_log[1] == 7, "the function does not run during unwinding"); else vf_check(g_n == 2 && g_log[0] == 5 && g_log[1] == 2, "the function does not run at scope exit"); vf_reach("end"); }
#if __cplusplus < 201700
// moved guards (before C++17)
VF_ENTRY moves() {
    g_n = 0; Cnt c; size_t chain = vf::pick("chain", 3);
    { alignas(itlib::sentry<Fn>) unsigned char raw[3][sizeof(itlib::sentry<Fn>)]; using S = itlib::sentry<Fn>; S* a = new (raw[0]) S(Fn(4)); S* last = a; S* g[3] = {a};
      for (size_t i = 1; i <= chain; ++i) { g[i] = new (raw[i]) S(std::move(*last)); last = g[i]; vf_check(g_n == 0, "moving a guard runs its function"); }
      size_t d = vf::pick("first", chain + 1); // destruction order
      for (size_t k = 0; k <= chain; ++k) { size_t i = (d + k) % (chain + 1); int before = g_n; g[i]->~S(); vf_check(g_n == before + (i == chain), "a guard which was moved from runs the function, or its target does not"); } }
    vf_check(g_n == 1 && g_log[0] == 4, "the function does not run exactly once"); { itlib::sentry<Cnt&> s(c); { itlib::sentry<Cnt&> t(std::move(s)); vf_check(c.n == 0, "moving a guard runs its function"); } vf_check(c.n == 1, "the target of a move does not run the function"); } vf_check(c.n == 1, "a guard which was moved from runs the function"); vf_check(vf_live_count(3) == 0, "a function is not destroyed"); vf_reach("end");
}
// any guard may be moved, one which was moved from too
struct Cp { uint32_t id; void operator()() { log(id); } };
VF_ENTRY removes() {
    g_n = 0; size_t n = 2 + vf::pick("n", 3); using S = itlib::sentry<Cp>; alignas(S) unsigned char raw[5][sizeof(S)]; S* g[5]; bool has[5] = {true}; uint32_t id = vf::u32("id"); g[0] = new (raw[0]) S(Cp{id});
    for (size_t i = 1; i < n; ++i) { size_t from = vf::pick("from", i); g[i] = new (raw[i]) S(std::move(*g[from])); has[i] = has[from]; has[from] = false; vf_check(g_n == 0, "moving a guard runs its function"); }
    for (size_t k = 0; k < n; ++k) { int before = g_n; g[k]->~S(); vf_check(g_n == before + has[k], "a guard which was moved from runs the function, or its target does not"); } vf_check(g_n == 1 && g_log[0] == id, "the function does not run exactly once"); vf_reach("end");
}
#endif
