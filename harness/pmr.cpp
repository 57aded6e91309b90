#include "vf.h"
#include <memory>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <vector>
#include <stdlib.h>
struct Blk { size_t n, a; void* p; };
struct Res : std::pmr::memory_resource { // records and checks; refuses (with an exception) what is larger than 256 bytes
    Blk b[8]; int live = 0, allocs = 0; size_t lastN = 0, lastA = 0; int failNext = 0; size_t lim = 256;
    void* do_allocate(size_t n, size_t a) override { ++allocs; lastN = n; lastA = a; if (failNext || n > lim) throw std::bad_alloc(); void* p = ::operator new(lim + a, std::align_val_t(4096)); vf_check(live < 8, "harness: blocks"); b[live++] = {n, a, p}; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { int i = 0; while (i < live && b[i].p != p) ++i; vf_check(i < live, "a block is returned to a resource it is not from"); vf_check(b[i].n == n && b[i].a == a, "a block is returned with another size or alignment"); ::operator delete(p, std::align_val_t(4096)); b[i] = b[--live]; }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
#ifdef VF_ENGINE
namespace std { namespace pmr { memory_resource::~memory_resource() = default; static Res* g_default; memory_resource* get_default_resource() noexcept { return g_default; } } }
#endif
template <size_t N, size_t Al> struct alignas(Al) Obj { unsigned char c[N]; };
template <class T, class A> static bool uses(const A& a, Res& r) { return a.resource() == &r; }
VF_ENTRY bytes() {
    Res r, other; itlib::pmr_allocator<> a(&r); uint64_t n = vf::u64("n"); size_t al = (size_t)1 << vf::pick("align", 13); if (n <= 64) n = vf_concretize(n);
    vf_check(a.resource() == &r, "the allocator uses another resource");
    bool dflt = vf::flag("dflt"); void* p = nullptr; bool thrown = false; try { p = dflt ? a.allocate_bytes(n) : a.allocate_bytes(n, al); } catch (const std::bad_alloc&) { thrown = true; }
    vf_check(r.allocs == 1 && r.lastN == n && r.lastA == (dflt ? alignof(std::max_align_t) : al), "allocate_bytes asks for another size or alignment"); vf_check(thrown == (n > 256), "allocate_bytes loses an exception");
    if (!thrown) { vf_check(r.live == 1 && r.b[0].p == p, "allocate_bytes returns another block"); if (dflt) a.deallocate_bytes(p, n); else a.deallocate_bytes(p, n, al); }
    vf_check(r.live == 0 && other.allocs == 0, "a block is not returned"); vf_reach("end");
}
template <class U> static void objects() {
    Res r; itlib::pmr_allocator<int> a(&r); uint64_t n = vf::u64("n"); if (n <= 12) n = vf_concretize(n); bool one = vf::flag("one"); if (one) n = 1; U* p = nullptr; bool thrown = false, bad = false;
    try { p = one ? a.template allocate_object<U>() : a.template allocate_object<U>(n); } catch (const std::bad_array_new_length&) { bad = true; } catch (const std::bad_alloc&) { thrown = true; }
    bool over = n > SIZE_MAX / sizeof(U); vf_check(bad == over, "an impossible count is not refused"); if (!over) vf_check(r.allocs == 1 && r.lastN == n * sizeof(U) && r.lastA == alignof(U), "allocate_object asks for another size or alignment"); else vf_check(r.allocs == 0, "allocate_object asks for another size or alignment");
    vf_check((thrown || bad) == (over || n * sizeof(U) > 256), "allocate_object loses an exception"); if (!thrown && !bad) { vf_check((void*)p == r.b[0].p, "allocate_object returns another block"); if (one) a.deallocate_object(p); else a.deallocate_object(p, n); } vf_check(r.live == 0, "a block is not returned"); vf_reach("end");
}
VF_ENTRY objects_1() { objects<Obj<1, 1>>(); } VF_ENTRY objects_12() { objects<Obj<12, 4>>(); } VF_ENTRY objects_32() { objects<Obj<32, 32>>(); } VF_ENTRY objects_8() { objects<uint64_t>(); }
// objects
struct Plain : vf::Tracked<3> { uint32_t b; std::unique_ptr<int> u; Plain() : Tracked(9u), b(1) {} Plain(uint32_t x, std::unique_ptr<int> u, uint32_t& ref) : Tracked(x), b(ref), u(std::move(u)) { ref = 77; } Plain(bool t) : Tracked(1u) { if (t) throw vf::Boom{3}; } };
struct Aware : vf::Tracked<3> { using allocator_type = std::pmr::polymorphic_allocator<std::byte>; allocator_type al; uint32_t b; Aware(uint32_t b, allocator_type al) : Tracked(5u), al(al), b(b) {} Aware(const Aware&) = delete; };
struct Lead : vf::Tracked<3> { using allocator_type = std::pmr::polymorphic_allocator<std::byte>; std::pmr::memory_resource* m; uint32_t b; Lead(std::allocator_arg_t, allocator_type al, uint32_t b) : Tracked(5u), m(al.resource()), b(b) {} };
struct alignas(1024) Huge : vf::Tracked<3> { unsigned char c[70000]; uint32_t last; Huge(uint32_t x, bool t) : Tracked(x), last(x) { c[0] = 1; c[69999] = 2; if (t) throw vf::Boom{4}; } };
struct alignas(32) Over : vf::Tracked<3> { Over(uint32_t x) : Tracked(x) {} };
VF_ENTRY make() {
    Res r; { itlib::pmr_allocator<> a(&r); uint32_t x = vf::u32("x");
    switch (vf::pick("type", 8)) {
    case 0: { auto u = std::make_unique<int>(4); int* raw = u.get(); uint32_t ref = 6; Plain* p = a.new_object<Plain>(x, std::move(u), ref); vf_check(r.allocs == 1 && r.live == 1 && (void*)p == r.b[0].p && r.b[0].n == sizeof(Plain) && r.b[0].a == alignof(Plain), "new_object does not use a block of the object's size and alignment"); vf_check(vf_live_count(3) == 1 && p->v == x && p->b == 6 && ref == 77 && p->u.get() == raw && !u, "new_object does not construct one object from its arguments"); a.delete_object(p); vf_check(vf_live_count(3) == 0 && r.live == 0, "delete_object does not destroy the object and return its block"); break; }
    case 1: { Plain* p = a.new_object<Plain>(); vf_check(p->v == 9 && p->b == 1 && vf_live_count(3) == 1, "new_object does not construct one object"); a.delete_object(p); break; }
    case 2: { bool t = false; try { (void)a.new_object<Plain>(true); } catch (const vf::Boom& b) { t = b.id == 3; } vf_check(t, "new_object loses the exception of the constructor"); vf_check(r.allocs == 1 && r.live == 0, "new_object keeps the block if the constructor throws"); break; }
    case 3: { r.failNext = 1; bool t = false; try { (void)a.new_object<Plain>(); } catch (const std::bad_alloc&) { t = true; } vf_check(t && vf_live_count(3) == 0, "new_object loses the exception of the resource"); break; }
    case 4: { Aware* p = a.new_object<Aware>(x); vf_check(p->b == x && p->al.resource() == &r && vf_live_count(3) == 1, "new_object does not pass the allocator to an object which uses it"); a.delete_object(p); break; }
    case 5: { Lead* p = a.new_object<Lead>(x); vf_check(p->b == x && p->m == &r && vf_live_count(3) == 1, "new_object does not pass the allocator to an object which uses it"); a.delete_object(p); break; }
    case 6: { r.lim = sizeof(Huge); bool t = vf::flag("throws"); Huge* p = nullptr; bool got = false; try { p = a.new_object<Huge>(x, t); } catch (const vf::Boom& b) { got = b.id == 4; } vf_check(r.allocs == 1 && r.lastN == sizeof(Huge) && r.lastA == 1024, "new_object does not use a block of the object's size and alignment"); vf_check(got == t && vf_live_count(3) == (t ? 0 : 1) && r.live == (t ? 0 : 1), "new_object keeps the block if the constructor throws"); if (!t) { vf_check(p->v == x && p->last == x && p->c[0] == 1 && p->c[69999] == 2, "new_object does not construct one object from its arguments"); a.delete_object(p); } break; }
    default: { itlib::pmr_allocator<Over> b(a); Over* p = b.new_object<Over>(x); vf_check(p->v == x && r.b[0].a == 32, "new_object does not use a block of the object's alignment"); Over* q = b.new_object<Over>(x + 1); vf_check(q->v == x + 1 && p->v == x && r.live == 2, "objects share a block"); if (vf::flag("first")) { a.delete_object(p); vf_check(q->v == x + 1, "another object changes"); a.delete_object(q); } else { b.delete_object(q); vf_check(p->v == x, "another object changes"); b.delete_object(p); } break; }
    } } vf_check(vf_live_count(3) == 0 && r.live == 0, "an object or block is not released"); vf_reach("end");
}
// copies, rebound allocators, slices
VF_ENTRY copies() {
    Res r, s;
#ifdef VF_ENGINE
    std::pmr::g_default = &s;
#endif
    itlib::pmr_allocator<int> a(&r); itlib::pmr_allocator<int> b(a); itlib::pmr_allocator<double> c(a); typename std::allocator_traits<decltype(a)>::template rebind_alloc<char> d(c); std::pmr::polymorphic_allocator<int> e = a; itlib::pmr_allocator<int> o(&s), f(std::move(b)); const auto& ca = a;
    vf_check(a.resource() == &r && c.resource() == &r && d.resource() == &r && e.resource() == &r && f.resource() == &r && ca.resource() == &r && o.resource() == &s, "a copy uses another resource"); vf_check(a == c && a == f && a != o && e == a, "allocators compare unequal although their resources are equal (or the reverse)");
    itlib::pmr_allocator<int> z; vf_check(z.resource() == std::pmr::get_default_resource(), "a default allocator does not use the default resource");
    { size_t n = vf::pick("n", 5); std::vector<int, itlib::pmr_allocator<int>> v(a); for (size_t i = 0; i < n; ++i) v.push_back((int)i); int* p = a.allocate(3); vf_check(r.lastN == 12 && r.lastA == alignof(int), "allocate asks for another size or alignment"); a.deallocate(p, 3); for (size_t i = 0; i < n; ++i) vf_check(v[i] == (int)i, "an element of a vector differs"); vf_check(r.live == (n ? 1 : 0) && s.live == 0, "a container uses another resource"); auto w = std::move(v); vf_check(w.get_allocator().resource() == &r, "a moved container uses another resource"); }
    vf_check(r.live == 0, "a block is not returned"); vf_reach("end");
}
