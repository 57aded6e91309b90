#include "vf.h"
#include <memory>
#include <string>
#include <vector>
#include <itlib/strutil.hpp>
#include <itlib/span.hpp>
#include <itlib/small_vector.hpp>
using sv = std::string_view;
struct Str { std::unique_ptr<char[]> mem; size_t n; Str(const char* nm, size_t n) : mem(new char[n]), n(n) { for (size_t i = 0; i < n; ++i) mem[i] = (char)vf::u8(nm); } sv view() const { return n || !nul ? sv(mem.get(), n) : sv(); } bool nul = false; };
static bool eqAt(const Str& a, size_t at, const Str& b) { bool r = true; for (size_t i = 0; i < b.n; ++i) r &= a.mem[at + i] == b.mem[i]; return r; }
VF_ENTRY affix() {
    Str s("s", vf::pick("ls", vf_param("maxs", 5) + 1)), p("p", vf::pick("lp", vf_param("maxp", 4) + 1)); if (!s.n) s.nul = vf::flag("null"); if (!p.n) p.nul = vf::flag("null");
    bool fits = p.n <= s.n; bool st = fits && eqAt(s, 0, p), en = fits && eqAt(s, s.n - p.n, p);
    vf_check(itlib::starts_with(s.view(), p.view()) == st, "starts_with answers differently"); vf_check(itlib::ends_with(s.view(), p.view()) == en, "ends_with answers differently"); vf_reach("end");
}
VF_ENTRY strip() {
    Str s("s", vf::pick("ls", vf_param("maxs", 6) + 1)), p("p", vf::pick("lp", vf_param("maxp", 3) + 1)); if (!s.n) s.nul = vf::flag("null"); if (!p.n) p.nul = vf::flag("null"); size_t b = 0, e = s.n;
    if (vf::flag("prefix")) { sv r = itlib::remove_prefix_all(s.view(), p.view()); if (p.n) while (e - b >= p.n && eqAt(s, b, p)) b += p.n; vf_check(r.size() == e - b, "remove_prefix_all strips another number of repetitions"); vf_check(r.data() == s.view().data() + b, "the result is not a view into the original characters"); }
    else { sv r = itlib::remove_suffix_all(s.view(), p.view()); if (p.n) while (e - b >= p.n && eqAt(s, e - p.n, p)) e -= p.n; vf_check(r.size() == e - b, "remove_suffix_all strips another number of repetitions"); vf_check(r.data() == s.view().data(), "the result is not a view into the original characters"); }
    vf_observe(e - b); vf_reach("end");
}
VF_ENTRY views() {
    size_t n = vf::pick("n", 5), b = vf::pick("b", n + 1), e = b + vf::pick("l", n - b + 1); sv r; const char* base = nullptr; bool keepsEmpty = false;
    switch (vf::pick("kind", 7)) {
    case 0: { std::unique_ptr<char[]> m(new char[n]); r = itlib::make_string_view((const char*)m.get() + b, (const char*)m.get() + e); base = m.get(); keepsEmpty = true; break; }
    case 1: { std::vector<char> v(n); r = itlib::make_string_view(v.begin() + b, v.begin() + e); base = v.data(); break; }
    case 2: { const std::vector<char> v(n); r = itlib::make_string_view(v.begin() + b, v.begin() + e); base = v.data(); break; }
    case 3: { std::string v(n, 'x'); r = itlib::make_string_view(v.begin() + b, v.begin() + e); base = v.data(); break; }
    case 4: { itlib::small_vector<char, 3> v(n); r = itlib::make_string_view(v.begin() + b, v.begin() + e); base = v.data(); vf_check(r.size() == e - b && (b == e || r.data() == base + b), "the view does not designate the given characters"); base = nullptr; break; }
    case 5: { sv v("abcd", n); r = itlib::make_string_view(v.begin() + b, v.begin() + e); base = v.data(); break; }
    case 6: { std::unique_ptr<char[]> m(new char[n]); r = itlib::make_string_view(m.get() + b, m.get() + e); base = m.get(); break; }
    }
    vf_check(r.size() == e - b, "the view does not have the given length"); if (b != e && base) vf_check(r.data() == base + b, "the view does not designate the given characters"); if (b == e) vf_check(r.empty(), "the view does not have the given length");
    vf_check(itlib::make_string_view((const char*)nullptr, (const char*)nullptr).empty(), "the view of an empty range is not empty"); vf_reach("end");
}
// long strings: a repeated affix of up to 17 characters, some of which are arbitrary, and a rest
VF_ENTRY lengthy() {
    static const size_t L[] = {1, 2, 7, 8, 16, 17, 255, 256, 257}; size_t lp = L[vf::pick("lp", 9)], k = vf::pick("times", lp <= 2 ? 6 : 4); if (k > 3) k += 251; size_t rest = vf::pick("rest", 3); if (rest == 2) rest = lp - 1;
    Str p("p", 0), s("s", 0); p.n = lp; p.mem.reset(new char[lp]); for (size_t i = 0; i < lp; ++i) p.mem[i] = char('a' + i % 3); p.mem[0] = (char)vf::u8("p"); p.mem[lp - 1] = (char)vf::u8("p");
    s.n = lp * k + rest; s.mem.reset(new char[s.n]); bool pre = vf::flag("prefix"); for (size_t i = 0; i < s.n; ++i) { size_t j = pre ? i % lp : lp - 1 - (s.n - 1 - i) % lp; s.mem[i] = p.mem[j]; }
    if (s.n) { size_t x = vf::pick("at", 4); x = x == 0 ? 0 : x == 1 ? s.n - 1 : x == 2 ? s.n / 2 : (s.n > lp ? lp : 0); s.mem[x] = (char)vf::u8("s"); }
    bool fits = p.n <= s.n, st = fits && eqAt(s, 0, p), en = fits && eqAt(s, s.n - p.n, p);
    vf_check(itlib::starts_with(s.view(), p.view()) == st, "starts_with answers differently"); vf_check(itlib::ends_with(s.view(), p.view()) == en, "ends_with answers differently");
    size_t b = 0, e = s.n; while (s.n - b >= lp && eqAt(s, b, p)) b += lp; while (e >= lp && eqAt(s, e - lp, p)) e -= lp;
    sv r = itlib::remove_prefix_all(s.view(), p.view()); vf_check(r.size() == s.n - b && r.data() == s.mem.get() + b, "remove_prefix_all strips another number of repetitions");
    r = itlib::remove_suffix_all(s.view(), p.view()); vf_check(r.size() == e && r.data() == s.mem.get(), "remove_suffix_all strips another number of repetitions"); vf_reach("end");
}
