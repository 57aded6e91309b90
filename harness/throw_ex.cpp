#include "vf.h"
#include "ios_model.h"
#include <itlib/throw_ex.hpp>
#include <stdexcept>
#include <string>
#include <string.h>
struct Ex { static int made, alive; std::string s; int copies = 0; explicit Ex(const std::string& t) : s(t) { ++made; ++alive; } Ex(const Ex& o) : s(o.s), copies(o.copies + 1) { ++alive; } ~Ex() { --alive; } };
int Ex::made, Ex::alive;
struct Val { static int copies, outs; static const Val* last; uint8_t c; Val(uint8_t c) : c(c) {} Val(const Val& o) : c(o.c) { ++copies; } friend std::ostream& operator<<(std::ostream& o, const Val& v) { ++outs; last = &v; return o.put('<').put((char)v.c) << '>'; } };
int Val::copies, Val::outs; const Val* Val::last;
static char g_exp[256]; static size_t g_n; static int g_evals;
static void want(char c) { if (g_n < 255) g_exp[g_n++] = c; }
static void want(const char* s) { while (*s) want(*s++); }
static void num(uint64_t v) { char b[24]; int k = 0; do b[k++] = char('0' + v % 10); while (v /= 10); while (k) want(b[--k]); }
struct Poly : std::exception { std::string s; Poly(std::string t) : s(std::move(t)) {} const char* what() const noexcept override { return s.c_str(); } };
template <class X> struct Text { static std::string of(const X& x) { return x.what(); } }; template <> struct Text<Ex> { static std::string of(const Ex& x) { return x.s; } };
static char str[4][8]; static const Val* g_vals[8]; static int g_vn;
// streams operand k of an arbitrary kind
template <class X> static itlib::throw_ex<X>& operand(itlib::throw_ex<X>& t) {
    ++g_evals; vf_check(Ex::made == 0, "something is thrown before everything was streamed"); size_t i = vf::pick("which", 3);
    switch (vf::pick("kind", 10)) {
    case 0: { itlib::throw_ex<X>& r = t << "literal"; want("literal"); vf_check(&r == &t, "streaming returns another object"); break; }
    case 1: { const char* p = str[i]; itlib::throw_ex<X>& r = t << p; want(p); vf_check(&r == &t, "streaming returns another object"); break; }
    case 2: { char* p = str[i]; t << p; want(p); break; }
    case 3: { std::string s(str[i]); s += '\0'; s += 'z'; t << s; want(str[i]); want('\0'); want('z'); break; }
    case 4: { uint8_t c = vf::u8("c"); if (vf::flag("signed")) t << (char)c; else t << c; want((char)c); break; }
    case 5: { uint8_t c = vf::u8("c"); Val v(c); Val::outs = Val::copies = 0; itlib::throw_ex<X>& r = t << v; vf_check(Val::outs == 1 && Val::copies == 0 && Val::last == &v && &r == &t, "an operand is not streamed exactly once, itself"); want('<'); want((char)c); want('>'); break; }
    case 6: { static const int v[] = {0, -7, 120}; if (vf::flag("wide")) t << (long)v[i]; else t << v[i]; if (v[i] < 0) { want('-'); num(7); } else num((uint64_t)v[i]); break; }
    case 7: { static const uint64_t v[] = {0, 18446744073709551615ull, 42}; t << v[i]; num(v[i]); break; }
    case 8: { t << bool(i); want(i ? '1' : '0'); break; }
    default: { t << std::hex << 255u << std::dec; want("ff"); break; }
    }
    return t;
}
template <class X> static void expression(size_t n) { // the object is a temporary which lives until the end of the full expression
    switch (n) { case 0: (void)itlib::throw_ex<X>(); break; case 1: operand(itlib::throw_ex<X>() << ""); break; case 2: operand(operand(itlib::throw_ex<X>() << "")); break; case 3: operand(operand(operand(itlib::throw_ex<X>() << "a"))); break; default: operand(operand(operand(operand(itlib::throw_ex<X>() << "a")))); break; }
    vf_fail("nothing is thrown");
}
template <class X> static void run(size_t max) {
    Ex::made = Ex::alive = 0; g_n = 0; g_evals = 0; for (int i = 0; i < 3; ++i) { size_t n = i == 0 ? 0 : i == 1 ? 2 : 5; for (size_t k = 0; k < n; ++k) { uint8_t c = vf::u8("s"); vf_assume(c != 0); str[i][k] = (char)c; } str[i][n] = 0; }
    size_t n = vf::pick("operands", max + 1); if (n >= 3) want('a'); bool thrown = false;
    try { try { expression<X>(n); } catch (const X& x) { thrown = true; if (std::is_same<X, Ex>::value) vf_check(Ex::made == 1, "not exactly one exception is made"); if (std::is_base_of<std::runtime_error, X>::value && vf_is_engine()) throw 5; std::string s = Text<X>::of(x); bool nul = false; for (size_t i = 0; i < g_n; ++i) nul |= g_exp[i] == 0; if (std::is_same<X, Ex>::value || !nul) { vf_check(s.size() == g_n, "the text is shorter or longer than what was streamed"); vf_check(memcmp(s.data(), g_exp, g_n) == 0, "the text differs from what was streamed"); } } } catch (int) { } catch (...) { vf_fail("another exception is thrown"); }
    vf_check(thrown, "nothing is thrown"); vf_check((size_t)g_evals == n, "not every operand was evaluated once"); vf_check(Ex::alive == 0, "the exception is not destroyed"); vf_reach("end");
}
VF_ENTRY custom() { run<Ex>(vf_param("max", 2)); }
VF_ENTRY runtime_error() { run<std::runtime_error>(vf_param("max", 2)); }
VF_ENTRY poly() { run<Poly>(vf_param("max", 2)); }
// long texts
VF_ENTRY longText() { static const size_t lens[] = {1, 511, 512, 513, 4095, 4096, 4097, 20000, 65535, 65536, 100000}; size_t n = lens[vf::pick("len", 11)]; uint8_t c = vf::u8("c"), d = vf::u8("d"); bool thrown = false; std::string piece(n, (char)c); size_t kind = vf::pick("kind", 3); if (kind == 1) { vf_assume(c != 0); }
    try { if (kind == 0) itlib::throw_ex<Poly>() << "<" << piece << (char)d << 12; else if (kind == 1) itlib::throw_ex<Poly>() << "<" << piece.c_str() << (char)d << 12; else itlib::throw_ex<Poly>() << "<" << piece << (char)d << piece.substr(0, n - 1) << 12; vf_fail("nothing is thrown"); }
    catch (Poly& e) { thrown = true; size_t m = kind == 2 ? 2 * n + 3 : n + 4; bool ok = e.s.size() == m && e.s[0] == '<' && e.s[m - 1] == '2' && e.s[m - 2] == '1' && e.s[n + 1] == (char)d; vf_check(ok, "a long text is cut or changed"); for (size_t i : {size_t(1), n / 2 + 1, n}) vf_check(e.s[i] == (char)c, "a long text is changed"); if (kind == 2 && n > 1) vf_check(e.s[n + 2] == (char)c && e.s[m - 3] == (char)c, "a long text is changed"); }
    vf_check(thrown, "nothing is thrown"); vf_reach("end"); }
// inside of a function called in the expression nothing is thrown yet; nested throws
static int g_step; static const char* step() { ++g_step; return "s"; } static std::string inner() { try { itlib::throw_ex<Poly>() << "in" << step(); } catch (Poly& e) { return e.what(); } return "?"; }
VF_ENTRY nested() { g_step = 0; try { itlib::throw_ex<Poly>() << "a" << step() << inner() << step(); vf_fail("nothing is thrown"); } catch (Poly& e) { vf_check(g_step == 3 && !strcmp(e.what(), "asinss"), "the text differs from what was streamed"); } vf_reach("end"); }
