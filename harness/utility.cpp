#include "vf.h"
#include <itlib/utility.hpp>
#include <itlib/type_traits.hpp>
#include <vector>
#include <map>
#include <string>
#include <string.h>
// bit_cast
template <class A, class B> static void roundTrip() {
    static_assert(sizeof(A) == sizeof(B), ""); unsigned char in[sizeof(A)], mid[sizeof(A)], out[sizeof(A)]; for (unsigned char& c : in) c = vf::u8("b"); A a; memcpy(&a, in, sizeof a); const A& ca = a;
    const B b = itlib::bit_cast<B>(ca); memcpy(mid, &b, sizeof b); vf_check(memcmp(in, mid, sizeof in) == 0, "bit_cast changes bits"); const A c = itlib::bit_cast<A>(b); memcpy(out, &c, sizeof c); vf_check(memcmp(in, out, sizeof in) == 0, "bit_cast back changes bits"); memcpy(out, &a, sizeof a); vf_check(memcmp(in, out, sizeof in) == 0, "bit_cast changes its source");
}
struct S3 { unsigned char a, b, c; }; struct S8 { uint16_t a, b; uint32_t c; }; struct S16 { uint64_t a; double b; }; struct A8 { float v; int32_t w; }; enum class E32 : uint32_t {}; struct A3 { signed char x[3]; }; struct S40 { uint64_t a[4]; uint16_t b; uint8_t c[6]; }; struct F40 { double a[2]; float b[6]; }; struct S300 { uint8_t a[300]; }; struct W300 { uint16_t a[150]; };
VF_ENTRY casts() {
    switch (vf::pick("pair", 19)) {
    case 0: roundTrip<uint8_t, int8_t>(); break; case 1: roundTrip<uint16_t, int16_t>(); break; case 2: roundTrip<uint32_t, float>(); break; case 3: roundTrip<uint64_t, double>(); break; case 4: roundTrip<S8, uint64_t>(); break; case 5: roundTrip<A8, S8>(); break; case 6: roundTrip<uint64_t, A8>(); break; case 7: roundTrip<E32, int32_t>(); break; case 8: roundTrip<S3, A3>(); break; case 9: roundTrip<char, unsigned char>(); break; case 10: roundTrip<char16_t, int16_t>(); break; case 11: roundTrip<int64_t, unsigned long long>(); break; case 12: roundTrip<void*, uint64_t>(); break; case 13: { unsigned char in[16], out[16]; for (auto& c : in) c = vf::u8("b"); S16 s; memcpy(&s, in, 16); struct Q { uint32_t w[4]; }; Q q = itlib::bit_cast<Q>(s); memcpy(out, &q, 16); vf_check(memcmp(in, out, 16) == 0, "bit_cast changes bits"); break; }
    case 14: roundTrip<S40, F40>(); break; case 15: roundTrip<unsigned __int128, S16>(); break; case 16: roundTrip<int*, const char*>(); break; case 17: roundTrip<S300, W300>(); break;
    default: roundTrip<double, int64_t>(); break;
    }
    vf_reach("end");
}
// owner_from_member
struct In { uint16_t x; uint64_t y; }; struct Own { uint8_t a; uint32_t b; In in; uint8_t arr[5]; uint64_t z; int* p; };
struct Virt { virtual ~Virt() {} virtual int f() { return 1; } uint8_t q; uint32_t w; };
struct Base1 { uint64_t k; uint8_t m1; }; struct Der : Base1, Virt { uint8_t d; In e; };
struct Priv { static uint32_t Priv::* ptr() { return &Priv::hidden; } const uint32_t& mem() const { return hidden; } private: char c[3]; uint32_t hidden = 0; };
#pragma pack(push, 1)
struct Packed { uint8_t a; uint8_t b[3]; uint8_t c; };
#pragma pack(pop)
struct Far { uint8_t a; char pad[200]; uint8_t b; char pad2[70000]; uint32_t c; In in; }; struct FarDer : Far { char pad3[40000]; uint16_t e; };
template <class O, class M> static void owner(const O& o, M O::* p) { const M& m = o.*p; const O* r = itlib::owner_from_member(m, p); vf_check(r == &o, "owner_from_member returns another object than the owner"); static_assert(noexcept(itlib::owner_from_member(m, p)), ""); }
VF_ENTRY owners() {
    static FarDer far[2];
    Own o[3]; Virt v[2]; Der d[3]; Priv pr[2]; Packed pk[3]; size_t i = vf::pick("i", 3), k = i % 2;
    switch (vf::pick("member", 22)) {
    case 0: owner(o[i], &Own::a); break; case 1: owner(o[i], &Own::b); break; case 2: owner(o[i], &Own::in); break; case 3: owner(o[i], &Own::arr); break; case 4: owner(o[i], &Own::z); break; case 5: owner(o[i], &Own::p); break;
    case 6: owner(o[i].in, &In::x); break; case 7: { const In& in = o[i].in; const In* r = itlib::owner_from_member(in.y, &In::y); vf_check(r == &in && itlib::owner_from_member(*r, &Own::in) == &o[i], "owner_from_member returns another object than the owner"); break; }
    case 8: owner(v[k], &Virt::q); break; case 9: owner(v[k], &Virt::w); break; case 10: owner(d[i], &Der::d); break; case 11: owner(d[i], &Der::e); break;
    case 12: { const Base1* b = itlib::owner_from_member(d[i].m1, &Base1::m1); vf_check(b == &d[i], "owner_from_member returns another object than the owner"); break; }
    case 13: { const Virt* b = itlib::owner_from_member(d[i].w, &Virt::w); vf_check(b == &d[i], "owner_from_member returns another object than the owner"); break; }
    case 14: { const Der* b = itlib::owner_from_member<Der, uint32_t>(d[i].w, &Der::w); vf_check(b == &d[i], "owner_from_member returns another object than the owner"); break; }
    case 15: { const Priv* b = itlib::owner_from_member(pr[k].mem(), Priv::ptr()); vf_check(b == &pr[k], "owner_from_member returns another object than the owner"); break; }
    case 16: owner<Far>(far[k], &Far::b); break; case 17: owner<Far>(far[k], &Far::c); break; case 18: owner<Far>(far[k], &Far::in); break; case 19: owner(far[k], &FarDer::e); break; case 20: { const Far* b = itlib::owner_from_member(far[k].in, &Far::in); vf_check(b == &far[k], "owner_from_member returns another object than the owner"); break; }
    default: owner(pk[i], &Packed::c); break;
    }
    uint32_t Own::* pm = &Own::b; o[i].b = vf::u32("v"); vf_check(itlib::owner_from_member(o[i].b, pm)->b == o[i].b, "the owner found has another member"); vf_reach("end");
}
// force_move, make_nullptr
struct Mv { static int copies, moves; uint32_t v; Mv(uint32_t v) : v(v) {} Mv(const Mv& o) : v(o.v) { ++copies; } Mv(Mv&& o) noexcept : v(o.v) { ++moves; o.v = 0; } Mv& operator=(const Mv& o) { v = o.v; ++copies; return *this; } Mv& operator=(Mv&& o) noexcept { v = o.v; o.v = 0; ++moves; return *this; } };
int Mv::copies, Mv::moves; struct Incomplete;
VF_ENTRY moves() {
    Mv::copies = Mv::moves = 0; uint32_t x = vf::u32("x"); Mv a(x), b(5), c(3); static_assert(std::is_same<decltype(itlib::force_move(a)), Mv&&>::value && std::is_same<decltype(itlib::force_move(Mv(1))), Mv&&>::value && noexcept(itlib::force_move(a)), "");
    switch (vf::pick("how", 4)) { case 0: { Mv m(itlib::force_move(a)); vf_check(m.v == x, "the moved value differs"); break; } case 1: b = itlib::force_move(a); vf_check(b.v == x, "the moved value differs"); break; case 2: { Mv& r = a; Mv m = itlib::force_move(r); vf_check(m.v == x, "the moved value differs"); break; } default: { Mv&& r = std::move(a); Mv m = itlib::force_move(r); vf_check(m.v == x, "the moved value differs"); break; } }
    vf_check(Mv::copies == 0 && Mv::moves == 1 && a.v == 0, "force_move copies or moves another number of times"); Mv&& same = itlib::force_move(c); vf_check(&same == &c && c.v == 3, "force_move designates another object");
    vf_check(itlib::make_nullptr<Incomplete>() == nullptr && itlib::make_nullptr<const int>() == nullptr, "make_nullptr is not null"); static_assert(std::is_same<decltype(itlib::make_nullptr<Incomplete>()), Incomplete*>::value, ""); vf_reach("end");
}
// is_noop_convertible: for every value of From, the conversion keeps the bytes; and where it does for every value, the trait says so
enum Eu : uint32_t {}; enum class Ei : int {}; enum class E8 : uint8_t {}; enum class Eb : bool {}; enum Es : int16_t {}; struct Cl { int x; };
template <class T> struct Boolish { static constexpr bool value = std::is_same<T, bool>::value; }; template <> struct Boolish<Eb> { static constexpr bool value = true; };
template <class From, class To> static typename std::enable_if<sizeof(From) == sizeof(To) && std::is_floating_point<From>::value == std::is_floating_point<To>::value>::type one() {
    constexpr bool is = itlib::is_noop_convertible<From, To>::value; unsigned char in[sizeof(From)], out[sizeof(From)]; uint64_t bits = vf_sym("v", 64); if (Boolish<From>::value) bits &= 1; memcpy(in, &bits, sizeof in); From f; memcpy(&f, in, sizeof f);
    To t = (To)f; memcpy(out, &t, sizeof t); bool keeps = memcmp(in, out, sizeof in) == 0;
    if (is) vf_check(keeps, "is_noop_convertible is true for a conversion which changes the representation");
    else { bits = Boolish<From>::value ? 1 : 2; memcpy(in, &bits, sizeof in); memcpy(&f, in, sizeof f); t = (To)f; memcpy(out, &t, sizeof t); vf_check(memcmp(in, out, sizeof in) != 0, "is_noop_convertible is false for a conversion which does nothing"); }
}
template <class From, class To> static typename std::enable_if<!(sizeof(From) == sizeof(To) && std::is_floating_point<From>::value == std::is_floating_point<To>::value)>::type one() { vf_check(!itlib::is_noop_convertible<From, To>::value, "is_noop_convertible is true for types of other sizes or kinds"); }
template <class From, class To> static void pair() { one<From, To>(); using T = itlib::is_noop_convertible<From, To>; vf_check(T::value == itlib::is_noop_convertible<const From, To>::value && T::value == itlib::is_noop_convertible<From, volatile To>::value && T::value == itlib::is_noop_convertible<const From, const To>::value, "is_noop_convertible depends on const or volatile"); }
template <class From, class... To> static void row() { int x[] = {(pair<From, To>(), 0)...}; (void)x; }
template <class... T> static void table() { void (*const f[])() = {row<T, T...>...}; f[vf::pick("from", sizeof...(T))](); }
VF_ENTRY noop() {
    if (vf::flag("ptr")) { switch (vf::pick("p", 5)) { case 0: pair<void*, uintptr_t>(); break; case 1: pair<int*, void*>(); break; case 2: pair<uint64_t, Cl*>(); break; case 3: pair<Cl*, int64_t>(); break; default: { constexpr bool b = itlib::is_noop_convertible<Cl, int>::value || itlib::is_noop_convertible<int, Cl>::value || itlib::is_noop_convertible<Cl, Cl>::value || itlib::is_noop_convertible<double, void*>::value || itlib::is_noop_convertible<void*, double>::value; vf_check(!b, "is_noop_convertible is true for class types"); break; } } }
    else table<bool, char, int8_t, uint8_t, int16_t, uint16_t, char16_t, int32_t, uint32_t, wchar_t, char32_t, int64_t, uint64_t, long long, float, double, Eu, Ei, E8, Eb, Es>();
    vf_reach("end");
}
template <class...> struct Many {}; template <class A, class B = int> struct Dflt {}; template <class T> using Alias = std::vector<T>;
VF_ENTRY traits() {
    using namespace itlib; struct DerV : std::vector<int> {};
    vf_check(is_instantiation_of<std::vector, std::vector<int>>::value && is_instantiation_of<std::map, std::map<int, char>>::value && is_instantiation_of<Many, Many<>>::value && is_instantiation_of<Many, Many<int, char, int>>::value && is_instantiation_of<Dflt, Dflt<int>>::value && is_instantiation_of<std::vector, Alias<Cl>>::value && is_instantiation_of<std::basic_string, std::string>::value, "an instantiation is not recognized");
    vf_check(!is_instantiation_of<std::vector, int>::value && !is_instantiation_of<std::vector, std::map<int, int>>::value && !is_instantiation_of<Many, Dflt<int>>::value && !is_instantiation_of<std::vector, std::vector<int>*>::value && !is_instantiation_of<std::vector, DerV>::value && !is_instantiation_of<std::map, std::multimap<int, int>>::value && !is_instantiation_of<std::vector, const std::vector<int>&>::value, "a type which is no instantiation is taken for one");
    vf_check(std::is_same<type_identity<int>::type, int>::value && std::is_same<type_identity<const Cl&>::type, const Cl&>::value && std::is_same<type_identity<int[3]>::type, int[3]>::value && std::is_same<type_identity<void>::type, void>::value, "type_identity is another type");
#if __cplusplus >= 201703L
    vf_check(is_instantiation_of_v<std::vector, std::vector<int>> && !is_instantiation_of_v<std::vector, int> && std::is_same_v<type_identity_t<const int>, const int> && is_noop_convertible_v<int, unsigned> && !is_noop_convertible_v<int, float>, "a variable template differs from its class template");
#endif
    vf_reach("end");
}
