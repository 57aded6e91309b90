#include "vf.h"
#include <itlib/data_mutex.hpp>
#include <atomic>
#include <memory>
#include <mutex>
struct M; static M* g_m;
// a mutex which checks how it is used; lock and try_lock may throw, try_lock may fail
struct M {
    int excl = 0, shared = 0; M() { g_m = this; } ~M() { vf_check(!excl && !shared, "the mutex is destroyed while locked"); }
    void lock() { if (excl || shared) vf_fail("harness: would block"); if (vf::flag("throws")) throw vf::Boom{1}; excl = 1; }
    bool try_lock() { if (excl || shared) return false; size_t r = vf::pick("try", 3); if (r == 2) throw vf::Boom{2}; excl = r == 0; return r == 0; }
    void unlock() { vf_check(excl == 1, "a mutex which is not locked exclusively is unlocked"); excl = 0; }
    void lock_shared() { if (excl) vf_fail("harness: would block"); if (vf::flag("throws")) throw vf::Boom{3}; ++shared; }
    bool try_lock_shared() { if (excl) return false; size_t r = vf::pick("try", 3); if (r == 2) throw vf::Boom{4}; shared += r == 0; return r == 0; }
    void unlock_shared() { vf_check(shared > 0, "a mutex which is not locked shared is unlocked"); --shared; }
};
struct D { uint32_t a; std::unique_ptr<int> p; int get() const { return 1; } int get() { return 2; } D(uint32_t a, std::unique_ptr<int> p, int& r) : a(a), p(std::move(p)) { r = 5; } };
using DM = itlib::data_mutex<D, M>;
struct Holder { virtual ~Holder() {} virtual Holder* moved() = 0; virtual const D* ptr() = 0; virtual int truth() = 0; virtual bool isConst() = 0; bool owns; int mode; };
template <class L> auto truthOf(const L& l, int) -> decltype(bool(l)) { return bool(l); }
template <class L> int truthOf(const L&, long) { return 2; }
template <class L> struct H : Holder {
    L l; template <class F> H(F f, int) : l(f()) {} H(L&& o) : l(std::move(o)) {}
    Holder* moved() override { return new H(std::move(l)); }
    const D* ptr() override { const L& c = l; vf_check(l.operator->() == c.operator->(), "the access operators differ"); if (owns) vf_check(&*l == l.operator->() && &*c == l.operator->(), "the access operators differ"); return l.operator->(); }
    int truth() override { return truthOf(l, 0); } bool isConst() override { return l->get() == 1; }
};
template <class F> static Holder* make(F f) { return new H<decltype(f())>(f, 0); }
VF_ENTRY modes() {
    using X = DM; int ref = 0; auto up = std::make_unique<int>(3); { X dm(9u, std::move(up), ref); const X& cdm = dm; vf_check(ref == 5 && !up, "constructor arguments are not forwarded"); const D* data = nullptr; M& m = *g_m;
    Holder* s[3] = {}; size_t ops = vf_param("ops", 4);
    for (size_t k = 0; k < ops; ++k) {
        size_t op = vf::pick("op", 12), i = 0; while (i < 3 && s[i]) ++i; // the first free slot
        if (op < 9) {
            if (i == 3) continue; bool busy = m.excl || m.shared;
            if (op >= 6) { size_t j = op - 6; if (j == i || !s[j]) continue; s[i] = s[j]->moved(); s[i]->owns = s[j]->owns; s[i]->mode = s[j]->mode; s[j]->owns = false; }
            else {
                if ((op < 2 && busy) || (op == 4 && m.excl)) continue; int me = m.excl, ms = m.shared;
                try {
                    switch (op) { case 0: s[i] = make([&] { return dm.unique_lock(); }); break; case 1: s[i] = make([&] { return cdm.unique_lock(); }); break; case 2: s[i] = make([&] { return dm.try_unique_lock(); }); break; case 3: s[i] = make([&] { return cdm.try_unique_lock(); }); break; case 4: s[i] = make([&] { return cdm.shared_lock(); }); break; case 5: s[i] = make([&] { return cdm.try_shared_lock(); }); break; }
                    s[i]->owns = me != m.excl || ms != m.shared; s[i]->mode = op >= 4; vf_check(m.excl - me == (s[i]->owns && op < 4) && m.shared - ms == (s[i]->owns && op >= 4), "a lock is taken in another mode"); vf_check(op == 2 || op == 3 || op == 5 || s[i]->owns, "a lock object does not lock");
                    if (s[i]->owns) vf_check(s[i]->isConst() == (op != 0 && op != 2), "a lock on a const object gives access for writing");
                } catch (vf::Boom&) { s[i] = nullptr; vf_check(m.excl == me && m.shared == ms, "a lock which could not be taken is released"); }
            }
        } else { i = op - 9; if (!s[i]) continue; delete s[i]; s[i] = nullptr; }
        int e = 0, sh = 0; for (Holder* h : s) if (h) {
            const D* p = h->ptr(); if (h->owns) { vf_check(p != nullptr, "a lock which is owned gives no access"); if (!data) data = p; vf_check(p == data && p->a == 9 && *p->p == 3, "a lock gives access to another object"); (h->mode ? sh : e)++; } else vf_check(!p, "a lock object gives access without owning the lock");
            int t = h->truth(); vf_check(t == 2 || t == h->owns, "the truth value is not whether the lock is owned"); }
        vf_check(m.excl == e && m.shared == sh, "the mutex is not locked exactly as often as it is owned");
    }
    for (Holder* h : s) delete h; vf_check(!m.excl && !m.shared, "a lock is not released"); } vf_reach("end");
}
// concurrent use
struct SM { // readers-writer spin lock
    std::atomic<int> st{0};
    void lock() { int e = 0; while (!st.compare_exchange_weak(e, -1, std::memory_order_acquire, std::memory_order_relaxed)) e = 0; }
    bool try_lock() { int e = 0; return st.compare_exchange_strong(e, -1, std::memory_order_acquire, std::memory_order_relaxed); }
    void unlock() { st.store(0, std::memory_order_release); }
    void lock_shared() { while (!try_lock_shared()) {} }
    bool try_lock_shared() { int e = st.load(std::memory_order_relaxed); return e >= 0 && st.compare_exchange_strong(e, e + 1, std::memory_order_acquire, std::memory_order_relaxed); }
    void unlock_shared() { st.fetch_sub(1, std::memory_order_release); }
};
static uint32_t g_add; // what a writer adds
struct V { uint32_t a, b; V(uint32_t x) : a(x), b(x) {} };
template <class Mx> struct Ctx { itlib::data_mutex<V, Mx>* dm; int op[3], n; uint32_t wrote; };
template <class DMx> static void write(DMx& dm, uint32_t& w) { auto l = dm.unique_lock(); auto l2 = std::move(l); vf_check(l2->a == l2->b, "an update by another owner is seen in parts"); l2->a += g_add; (*l2).b += g_add; ++w; }
template <class DMx> static void tryWrite(DMx& dm, uint32_t& w) { if (auto l = dm.try_unique_lock()) { vf_check(l->a == l->b, "an update by another owner is seen in parts"); l->a += g_add; l->b += g_add; ++w; } }
template <class DMx> static void readUnique(const DMx& dm) { auto l = dm.unique_lock(); vf_check(l->a == l->b, "an update by another owner is seen in parts"); }
template <class DMx> static void tryReadUnique(const DMx& dm) { if (auto l = dm.try_unique_lock()) vf_check(l->a == l->b, "an update by another owner is seen in parts"); }
template <class DMx> static void readShared(const DMx& dm) { auto l = dm.shared_lock(); auto l2 = std::move(l); vf_check(l2->a == l2->b, "an update by another owner is seen in parts"); }
template <class DMx> static void tryReadShared(const DMx& dm) { auto l = dm.try_shared_lock(); if (l) vf_check(l->a == l->b, "an update by another owner is seen in parts"); }
static void step(itlib::data_mutex<V, SM>& dm, int op, uint32_t& w) { switch (op) { case 0: write(dm, w); break; case 1: tryWrite(dm, w); break; case 2: readUnique(dm); break; case 3: tryReadUnique(dm); break; case 4: readShared(dm); break; case 5: tryReadShared(dm); break; } }
static void step(itlib::data_mutex<V, std::mutex>& dm, int op, uint32_t& w) { switch (op) { case 0: write(dm, w); break; case 1: tryWrite(dm, w); break; case 2: readUnique(dm); break; case 3: tryReadUnique(dm); break; } }
template <class Mx> static void worker(void* p) { auto& c = *(Ctx<Mx>*)p; for (int i = 0; i < c.n; ++i) step(*c.dm, c.op[i], c.wrote); }
template <class Mx, int Kinds> void concurrent(int threads, int per) {
    const uint32_t d0 = vf::u32("data"); g_add = vf::u32("add"); itlib::data_mutex<V, Mx> dm(d0); Ctx<Mx> c[3]; for (int t = 0; t < threads; ++t) { c[t].dm = &dm; c[t].n = per; c[t].wrote = 0; for (int i = 0; i < per; ++i) c[t].op[i] = (int)vf::pick("op", Kinds); }
    for (int t = 1; t < threads; ++t) vf_spawn(worker<Mx>, &c[t]); worker<Mx>(&c[0]); vf_join_all();
    uint32_t w = 0; for (int t = 0; t < threads; ++t) w += c[t].wrote; { auto l = dm.unique_lock(); vf_check(l->a == d0 + w * g_add && l->b == d0 + w * g_add, "an update was lost"); } vf_check(bool(dm.try_unique_lock()), "a lock is not released"); vf_observe(w); vf_reach("end");
}
VF_ENTRY two_shared() { concurrent<SM, 6>(2, (int)vf_param("per", 1)); }
VF_ENTRY three_shared() { concurrent<SM, 6>(3, 1); }
VF_ENTRY two_std() { concurrent<std::mutex, 4>(2, 2); }
