#include "vf.h"
#include <memory>
#include <itlib/ufunction.hpp>
// result encodes which callable ran, how often it ran, and the arguments
static int g_calls; static uint32_t* g_ref; static const uint32_t* g_cref;
using Sig = std::unique_ptr<uint32_t>(std::unique_ptr<uint32_t>, uint32_t&, const uint32_t&, uint32_t&&);
static std::unique_ptr<uint32_t> body(uint32_t id, uint32_t n, std::unique_ptr<uint32_t> p, uint32_t& r, const uint32_t& c, uint32_t&& v) { ++g_calls; vf_check(&r == g_ref && &c == g_cref, "a reference argument designates another object"); *p += id * 1000 + n + c + v; r = id; v = n; return p; }
template <int Size, int Align, bool NoMoveAssign> struct alignas(Align) Fn {
    uint32_t id, n = 0; unsigned char pad[Size]; uint32_t end;
    Fn(uint32_t id) : id(id), end(id) { born(); for (auto& x : pad) x = (unsigned char)id; }
    void born() { vf_check(vf_live_get(this) == 0, "callable constructed over a live one"); vf_check((uintptr_t)this % Align == 0, "callable is misaligned"); vf_live_add(this, 3); } void need() const { vf_check(vf_live_get(this) == 3, "operation on a callable which is not alive"); }
    Fn(const Fn&) = delete; Fn(Fn&& o) noexcept : id(o.id), n(o.n), end(o.end) { o.need(); born(); for (int i = 0; i < Size; ++i) pad[i] = o.pad[i]; o.id = o.end = 0; }
    ~Fn() { vf_check(vf_live_del(this), "callable destroyed twice"); id = 0xdddd; }
    std::unique_ptr<uint32_t> operator()(std::unique_ptr<uint32_t> p, uint32_t& r, const uint32_t& c, uint32_t&& v) { need(); vf_check(id && id == end && pad[Size - 1] == (unsigned char)id, "a moved-from callable is called"); return body(id, ++n, std::move(p), r, c, std::move(v)); }
};
using Small = Fn<1, 4, false>; using Big = Fn<40, 4, false>; using Aligned = Fn<100, (__cplusplus >= 201700 ? 64 : 16), false>;
// a copyable callable: copied at most where the caller hands over an lvalue
static int g_copies; struct Cp { uint32_t id, n = 0; std::shared_ptr<int> owner; Cp(uint32_t i) : id(i), owner(std::make_shared<int>(1)) { vf_live_add(this, 3); } Cp(const Cp& o) : id(o.id), n(o.n), owner(o.owner) { ++g_copies; vf_live_add(this, 3); } Cp(Cp&& o) noexcept : id(o.id), n(o.n), owner(std::move(o.owner)) { vf_live_add(this, 3); o.id = 0; } ~Cp() { vf_check(vf_live_del(this), "callable destroyed twice"); }
    std::unique_ptr<uint32_t> operator()(std::unique_ptr<uint32_t> p, uint32_t& r, const uint32_t& c, uint32_t&& v) { return body(id, ++n, std::move(p), r, c, std::move(v)); } };
static std::unique_ptr<uint32_t> freeFn(std::unique_ptr<uint32_t> p, uint32_t& r, const uint32_t& c, uint32_t&& v) { return body(77, 0, std::move(p), r, c, std::move(v)); }
using U = itlib::ufunction<Sig>;
struct Mo { uint32_t id, n; bool counted, stateless; Mo(uint32_t i = 0, uint32_t n = 0, bool c = false, bool s = false) : id(i), n(n), counted(c), stateless(s) {} };
struct Slot { alignas(U) unsigned char raw[sizeof(U)]; U* u = nullptr; ~Slot() { if (u) u->~U(); } };
static void callIt(U& u, Mo& m) {
    uint32_t a = vf::u32("a"), r = 5, c = vf::u32("c"), v = vf::u32("v"); g_ref = &r; g_cref = &c; g_calls = 0; std::unique_ptr<uint32_t> p(new uint32_t(a)); uint32_t* raw = p.get(); uint32_t v0 = v;
    std::unique_ptr<uint32_t> q = u(std::move(p), r, c, std::move(v)); if (!m.stateless) ++m.n;
    vf_check(g_calls == 1, "the callable is not called exactly once"); vf_check(q.get() == raw && !p, "a move-only argument or result is not forwarded"); vf_check(*q == a + m.id * 1000 + m.n + c + v0, "another callable is called, or with other arguments"); vf_check(r == m.id && v == m.n, "an update through a reference argument is lost");
}
VF_ENTRY histories() {
    {
    Slot s[2]; Mo m[2]; size_t ops = vf_param("ops", 4); uint32_t next = 1;
    for (size_t k = 0; k < ops; ++k) {
        size_t i = vf::pick("slot", 2), j = 1 - i; int copies = g_copies;
        if (!s[i].u) {
            void* at = s[i].raw; m[i] = Mo(); size_t src = vf::pick("ctor", 9); uint32_t id = next++;
            switch (src) {
            case 0: s[i].u = new (at) U; break; case 1: s[i].u = new (at) U(nullptr); break;
            case 2: s[i].u = new (at) U(Small(id)); m[i] = {id, 0, true, false}; break; case 3: s[i].u = new (at) U(Big(id)); m[i] = {id, 0, true, false}; break; case 4: s[i].u = new (at) U(Aligned(id)); m[i] = {id, 0, true, false}; break;
            case 5: s[i].u = new (at) U(&freeFn); m[i] = {77, 0, false, true}; break; case 6: s[i].u = new (at) U((Sig*)nullptr); break;
            case 7: if (!s[j].u) continue; s[i].u = new (at) U(std::move(*s[j].u)); m[i] = m[j]; m[j] = Mo(); break;
            case 8: { if (vf::flag("lvalue")) { Cp c(id); s[i].u = new (at) U(c); vf_check(c.id == id && c.owner, "a callable given as an lvalue was moved from"); ++copies; } else s[i].u = new (at) U(Cp(id)); m[i] = {id, 0, true, false}; break; }
            }
        } else {
            U& u = *s[i].u; U* ret = &u; size_t op = vf::pick("op", 12); uint32_t id = next++;
            switch (op) {
            case 0: if (!m[i].id) continue; callIt(u, m[i]); break;
            case 1: ret = &(u = nullptr); m[i] = Mo(); break;
            case 2: ret = &(u = Small(id)); m[i] = {id, 0, true, false}; break; case 3: ret = &(u = Big(id)); m[i] = {id, 0, true, false}; break; case 4: ret = &(u = Aligned(id)); m[i] = {id, 0, true, false}; break;
            case 5: ret = &(u = &freeFn); m[i] = {77, 0, false, true}; break; case 6: ret = &(u = (Sig*)nullptr); m[i] = Mo(); break;
            case 7: if (!s[j].u) continue; ret = &(u = std::move(*s[j].u)); m[i] = m[j]; m[j] = Mo(); break;
            case 8: { U t(std::move(u)); vf_check(!u, "a ufunction which was moved from is not empty"); u = std::move(t); vf_check(!t, "a ufunction which was moved from is not empty"); break; }
            case 9: { if (vf::flag("lvalue")) { Cp c(id); ret = &(u = c); vf_check(c.id == id && c.owner, "a callable given as an lvalue was moved from"); ++copies; } else ret = &(u = Cp(id)); m[i] = {id, 0, true, false}; break; }
            case 10: { s[i].u->~U(); s[i].u = nullptr; m[i] = Mo(); break; }
            case 11: ret = &(u = U()); m[i] = Mo(); break;
            }
            if (s[i].u) vf_check(ret == &u, "assignment gives another object");
        }
        vf_check(g_copies == copies, "a callable is copied");
        uint64_t live = 0; for (int x = 0; x < 2; ++x) { live += m[x].counted; if (s[x].u) { const U& c = *s[x].u; vf_check(bool(c) == (m[x].id != 0), "the truth value is not whether a callable is held"); } }
        vf_check(vf_live_count(3) == live, "there is not exactly one live callable for each non-empty ufunction");
    }
    for (int x = 0; x < 2; ++x) if (m[x].id) callIt(*s[x].u, m[x]);
    }
    vf_check(vf_live_count(3) == 0, "a callable is not destroyed"); vf_reach("end");
}
// results: references, void, exceptions; callables: lambdas with state, functions of a related type, const calls
static uint32_t g_x; static uint32_t& refFn() { return g_x; } struct Thrower { void operator()(int) { throw vf::Boom{4}; } };
struct Arg { uint32_t v; Arg(uint32_t v) : v(v) {} Arg(const Arg& o) : v(o.v) { ++g_copies; } Arg(Arg&& o) noexcept : v(o.v) { o.v = 0; } }; struct Derived : Arg { using Arg::Arg; };
struct Which { uint32_t k; uint32_t operator()(Arg a) { return k + a.v; } uint32_t operator()(Arg a) const { return k - a.v; } };
struct Chain { std::unique_ptr<uint32_t> add; itlib::ufunction<uint32_t(uint32_t)> inner; uint32_t operator()(uint32_t x) { return (inner ? inner(x) : x) * 3 + *add; } };
static uint8_t narrow(uint64_t x) { return (uint8_t)x; }
VF_ENTRY results() {
    switch (vf::pick("case", 11)) {
    case 0: { itlib::ufunction<uint32_t&()> f(refFn); vf_check(&f() == &g_x, "a reference result designates another object"); auto g = std::move(f); const auto& c = g; vf_check(&c() == &g_x && !f, "a reference result designates another object"); break; }
    case 1: { uint32_t y = 0; itlib::ufunction<uint32_t&()> f([&y]() -> uint32_t& { return y; }); vf_check(&f() == &y, "a reference result designates another object"); break; }
    case 2: { itlib::ufunction<void(int)> f((Thrower())); itlib::ufunction<void(int)> g(std::move(f)); bool t = false; try { g(1); } catch (vf::Boom& b) { t = b.id == 4; } vf_check(t && bool(g), "an exception of the callable is lost"); break; }
    case 3: { uint64_t a = vf::u64("a"); itlib::ufunction<uint32_t(uint64_t)> f(narrow); vf_check(f(a) == (uint32_t)(uint8_t)a, "result conversion differs"); f = [a](uint32_t b) mutable { return a += b; }; uint32_t r1 = f(3), r2 = f(uint64_t(1) << 32 | 4); vf_check(r1 == (uint32_t)(a + 3) && r2 == (uint32_t)(a + 7), "the callable does not keep its state or gets other arguments"); break; }
    case 4: { int n = 0; itlib::ufunction<void()> f([&n] { ++n; return 5; }); f(); vf_check(n == 1, "the callable is not called exactly once"); itlib::ufunction<void()> e; bool t = false; try { e(); } catch (const std::bad_function_call&) { t = true; } vf_check(t, "calling an empty ufunction does not throw std::bad_function_call"); break; }
    case 5: { itlib::ufunction<int(int)> inner([](int x) { return x + 1; }); itlib::ufunction<int(int)> outer(nullptr); { auto p = std::unique_ptr<int>(new int(5)); struct L { std::unique_ptr<int> p; itlib::ufunction<int(int)> f; int operator()(int x) { return f(x) + *p; } }; outer = L{std::move(p), std::move(inner)}; } vf_check(outer(3) == 9 && !inner, "captured objects are lost"); break; }
    case 6: { uint32_t k = vf::u32("k"), v = vf::u32("v"); itlib::ufunction<uint32_t(Arg)> f(Which{k}); Arg a(v); g_copies = 0; uint32_t r = f(a); vf_check(r == k + v && a.v == v && g_copies == 1, "an argument passed by value is not copied exactly once, or another overload is called"); r = f(std::move(a)); vf_check(r == k + v && a.v == 0 && g_copies == 1, "an argument which can be moved is copied"); const itlib::ufunction<uint32_t(Arg)>& cf = f; r = cf(Arg(v)); vf_check(r == k + v && g_copies == 1, "an argument which can be moved is copied"); break; }
    case 7: { uint32_t v = vf::u32("v"); itlib::ufunction<const Arg*(const Arg&)> f([](const Arg& a) { return &a; }); Derived d(v); g_copies = 0; vf_check(f(d) == static_cast<Arg*>(&d) && g_copies == 0, "a reference argument designates another object"); itlib::ufunction<Arg*(Arg*)> g([](Arg* a) { ++a->v; return a; }); vf_check(g(&d) == &d && d.v == v + 1, "a pointer argument or result differs"); itlib::ufunction<Arg(Arg&&)> h([](Arg&& a) { return std::move(a); }); Arg e = h(std::move(d)); vf_check(e.v == v + 1 && d.v == 0 && g_copies == 0, "a result is copied"); break; }
    case 8: { uint32_t x = vf::u32("x"), want = x; itlib::ufunction<uint32_t(uint32_t)> f; size_t n = 1 + vf::pick("n", 4); for (size_t i = 0; i < n; ++i) { uint32_t a = vf::u32("add"); std::unique_ptr<uint32_t> p(new uint32_t(a)); if (vf::flag("ctor")) { itlib::ufunction<uint32_t(uint32_t)> g(Chain{std::move(p), std::move(f)}); vf_check(!f, "a ufunction which was moved from is not empty"); f = std::move(g); } else f = Chain{std::move(p), std::move(f)}; want = want * 3 + a; } vf_check(f && f(x) == want && f(x) == want, "a callable assigned to the ufunction it holds lost something"); f = nullptr; vf_check(!f, "the truth value is not whether a callable is held"); break; }
    case 9: { uint32_t n = (uint32_t)vf::pick("n", 6), k = vf::u32("k"); itlib::ufunction<uint32_t(uint32_t)> f; itlib::ufunction<uint32_t(uint32_t)>* self = &f; f = [self, k](uint32_t i) -> uint32_t { return i ? (*self)(i - 1) + k : k; }; vf_check(f(n) == (n + 1) * k, "a recursive call differs"); itlib::ufunction<uint32_t(uint32_t)> g(std::move(f)); self = nullptr; bool t = false; try { f(1); } catch (const std::bad_function_call&) { t = true; } vf_check(t, "calling an empty ufunction does not throw std::bad_function_call"); break; }
    case 10: { uint32_t a = vf::u32("a"), b = vf::u32("b"); Which w{a}; itlib::ufunction<uint32_t(Arg)> f(std::ref(w)); w.k = b; vf_check(f(Arg(1)) == b + 1, "a reference to a callable is not called through"); const Which cw{a}; f = std::cref(cw); vf_check(f(Arg(1)) == a - 1, "a reference to a callable is not called through"); f = w; w.k = a; vf_check(f(Arg(2)) == b + 2, "a callable given as an lvalue is not copied"); break; }
    }
    vf_reach("end");
}
