// a stateful allocator which records every block: id of the allocator group, count, liveness
#pragma once
#include "vf.h"
#include <memory>
namespace vf {
struct Block { void* p; size_t n; int id; };
struct Blocks { enum { MAX = 64 }; Block b[MAX]; int cnt = 0; int total = 0; };
inline Blocks& blocks() { static Blocks b; return b; }
inline int live_blocks(int id = -1) { int n = 0; Blocks& t = blocks(); for (int i = 0; i < t.cnt; ++i) if (t.b[i].p && (id < 0 || t.b[i].id == id)) ++n; return n; }
inline bool& alloc_fails() { static bool b = false; return b; } // allocations are fallible operations, too

template <class T, bool AlwaysEqual, bool Prop = true>
struct TAlloc {
    typedef T value_type; typedef std::integral_constant<bool, AlwaysEqual> is_always_equal;
    typedef std::integral_constant<bool, Prop> propagate_on_container_move_assignment; typedef std::integral_constant<bool, Prop> propagate_on_container_swap; typedef std::false_type propagate_on_container_copy_assignment;
    int id;
    TAlloc(int i = 1) : id(i) {}
    template <class U> TAlloc(const TAlloc<U, AlwaysEqual, Prop>& o) : id(o.id) {}
    template <class U> struct rebind { typedef TAlloc<U, AlwaysEqual, Prop> other; };
    T* allocate(size_t n) {
        if (alloc_fails()) may_throw();
        void* p = ::operator new(n * sizeof(T));
        Blocks& t = blocks(); ++t.total;
        int k = -1; for (int i = 0; i < t.cnt; ++i) if (!t.b[i].p) { k = i; break; }
        if (k < 0) { if (t.cnt >= Blocks::MAX) vf_fail("harness: too many blocks"); k = t.cnt++; }
        t.b[k].p = p; t.b[k].n = n * sizeof(T); t.b[k].id = id;
        return (T*)p;
    }
    void deallocate(T* p, size_t n) {
        Blocks& t = blocks();
        for (int i = 0; i < t.cnt; ++i) if (t.b[i].p == (void*)p) {
            vf_check(t.b[i].n == n * sizeof(T), "block returned with a size other than it was requested with");
            vf_check(AlwaysEqual || t.b[i].id == id, "block returned to an allocator it did not come from");
            t.b[i].p = nullptr; ::operator delete((void*)p); return;
        }
        vf_fail("returned a block which was not obtained or was already returned");
    }
    template <class U> friend bool operator==(const TAlloc& a, const TAlloc<U, AlwaysEqual, Prop>& b) { return AlwaysEqual || a.id == b.id; }
    template <class U> friend bool operator!=(const TAlloc& a, const TAlloc<U, AlwaysEqual, Prop>& b) { return !(a == b); }
};
} // namespace vf
