#include "vf.h"
#include <ctime>
#include <string.h>
// the C library functions are stand-ins (in the native replay too) which record what they are given and return arbitrary results
static std::tm g_tm; static std::time_t g_time; // what they return
struct Call { int fn; std::time_t t; const std::tm* tm; }; static Call g_call[8]; static int g_calls;
static void called(int fn, std::time_t t, const std::tm* tm) { if (g_calls < 8) g_call[g_calls++] = {fn, t, tm}; }
enum { GMTIME = 1, LOCALTIME, TIMEGM, MKTIME, TIME };
static std::tm* g_st() { static std::tm st; return &st; }
static int g_threads; // concurrent use: no recording
static void fill(std::tm* out, std::time_t t, int local) { if (!g_threads) { *out = g_tm; return; } std::tm z = {}; *out = z; out->tm_sec = int(t); out->tm_hour = local; }
extern "C" {
std::tm* gmtime_r(const std::time_t* t, std::tm* out) { if (!g_threads) called(GMTIME, *t, out); fill(out, *t, 0); return out; }
std::tm* localtime_r(const std::time_t* t, std::tm* out) { if (!g_threads) called(LOCALTIME, *t, out); fill(out, *t, 1); return out; }
std::tm* gmtime(const std::time_t* t) { return gmtime_r(t, g_st()); }
std::tm* localtime(const std::time_t* t) { return localtime_r(t, g_st()); }
std::time_t timegm(std::tm* tm) { called(TIMEGM, 0, tm); tm->tm_yday = 77; tm->tm_mday += 1; return g_time; }
std::time_t mktime(std::tm* tm) { called(MKTIME, 0, tm); tm->tm_yday = 78; tm->tm_mday += 2; return g_time; }
std::time_t time(std::time_t* out) { called(TIME, 0, nullptr); if (out) *out = g_time; return g_time; }
// a strftime for some conversions: %S seconds, %Y a number, %A a text of the "locale" of any length, %p an empty text of the "locale", %%
static size_t g_A; static int g_fmtCalls; static const std::tm* g_fmtTm;
static char ch(size_t i) { return char('a' + i % 23); }
size_t strftime(char* out, size_t max, const char* f, const std::tm* tm) {
    ++g_fmtCalls; g_fmtTm = tm; size_t n = 0; auto put = [&](char c) { if (n < max) out[n] = c; ++n; };
    for (; *f; ++f) { if (*f != '%') { put(*f); continue; } if (!*++f) { put('%'); break; }
        switch (*f) { case '%': put('%'); break; case 'p': break; case 'S': put(char('0' + tm->tm_sec / 10)); put(char('0' + tm->tm_sec % 10)); break; case 'A': if (n + g_A >= max) n += g_A; else for (size_t i = 0; i < g_A; ++i) put(ch(i)); break; case 'Y': put(char('A' + (tm->tm_year & 15))); break; default: put('?'); } }
    if (n >= max) { if (max) out[max - 1] = '#'; return 0; } // what is in the buffer now is unspecified
    out[n] = 0; return n;
}
}
#include <itlib/time_t.hpp>
using T = itlib::time_t; using namespace std::chrono;
static bool fits(int64_t a, int64_t b, bool add) { int64_t r; return !(add ? __builtin_add_overflow(a, b, &r) : __builtin_sub_overflow(a, b, &r)); }
template <class D> static void withDuration(T t, int64_t x, D d, int64_t secs) {
    if (fits(x, secs, true)) { T u = t; T& r = u += d; vf_check(&r == &u && u.seconds_since_epoch() == (int64_t)((uint64_t)x + (uint64_t)secs), "+= is not the sum"); vf_check((t + d).seconds_since_epoch() == (int64_t)((uint64_t)x + (uint64_t)secs) && t.seconds_since_epoch() == x, "+ is not the sum"); vf_check((t + d) - t == seconds(secs) || !fits(u.seconds_since_epoch(), x, false), "the difference of times is not the duration added"); }
    if (fits(x, secs, false)) { T u = t; T& r = u -= d; vf_check(&r == &u && u.seconds_since_epoch() == (int64_t)((uint64_t)x - (uint64_t)secs), "-= is not the difference"); vf_check((t - d).seconds_since_epoch() == (int64_t)((uint64_t)x - (uint64_t)secs) && t.seconds_since_epoch() == x, "- is not the difference"); }
}
// sums are known to be representable: |x| < 2^62, |secs| < 2^61
template <class D> static void withWide(T t, int64_t x, D d, int64_t secs) {
    vf_assume(x > -(1ll << 62) && x < (1ll << 62)); T u = t, v = t; u += d; v -= d; int64_t p = (int64_t)((uint64_t)x + (uint64_t)secs), m = (int64_t)((uint64_t)x - (uint64_t)secs);
    vf_check(u.seconds_since_epoch() == p && (t + d).seconds_since_epoch() == p, "+= or + is not the sum"); vf_check(v.seconds_since_epoch() == m && (t - d).seconds_since_epoch() == m && t.seconds_since_epoch() == x, "-= or - is not the difference");
}
VF_ENTRY arithmetic() {
    int64_t x = (int64_t)vf::u64("x"), y = (int64_t)vf::u64("y"); std::time_t sx = x; vf_check(T().seconds_since_epoch() == 0, "the default time is not the epoch");
    T a(sx), b = T::from_seconds(y), c = a; vf_check(a.seconds_since_epoch() == x && b.seconds_since_epoch() == y && c.seconds_since_epoch() == x && std::time_t(a) == x && std::time_t(b) == y, "a time does not keep its second count");
    vf_check((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y), "a comparison differs from that of the second counts");
    c = b; vf_check(c == b && c.seconds_since_epoch() == y, "an assigned time does not keep its second count");
    switch (vf::pick("unit", 13)) {
    case 7: { double d = vf::f64("d"); vf_assume(d > -9e18 && d < 9e18); size_t u = vf::pick("f", 3); if (u == 0) withDuration(a, x, duration<double>(d), (int64_t)d); else if (u == 1) withDuration(a, x, duration<double, std::milli>(d), (int64_t)(d / 1000)); else { vf_assume(d > -1e17 && d < 1e17); withDuration(a, x, duration<double, std::ratio<60>>(d), (int64_t)(d * 60)); } break; }
    case 8: { float f = vf::f32("f"); vf_assume(f > -9e18f && f < 9e18f); withDuration(a, x, duration<float>(f), (int64_t)f); break; }
    case 0: withDuration(a, x, seconds(y), y); break;
    case 1: { T::duration_type d(y); withDuration(a, x, d, y); if (fits(x, y, false)) { static_assert(std::is_same<decltype(a - b), T::duration_type>::value, ""); vf_check((a - b).count() == (int64_t)((uint64_t)x - (uint64_t)y), "the difference of two times is wrong"); } break; }
    case 2: { int16_t m = (int16_t)y; withDuration(a, x, minutes(m), (int64_t)m * 60); break; }
    case 3: { int8_t h = (int8_t)y; withDuration(a, x, hours(h), (int64_t)h * 3600); break; }
    case 4: { int32_t s = (int32_t)y; withDuration(a, x, duration<int32_t>(s), s); break; }
    case 5: { uint8_t q = (uint8_t)y; withDuration(a, x, duration<uint8_t, std::ratio<86400>>(q), (int64_t)q * 86400); break; }
    case 9: { int64_t m = (int32_t)y; withWide(a, x, duration<int64_t, std::ratio<60>>(m), m * 60); break; }
    case 10: { int64_t d = (int32_t)y; withWide(a, x, duration<int64_t, std::ratio<86400>>(d), d * 86400); break; }
    case 11: { withWide(a, x, milliseconds(y), y / 1000); break; }
    case 12: { withWide(a, x, nanoseconds(y), y / 1000000000); break; }
    default: { int16_t ms = (int16_t)y; withDuration(a, x, milliseconds(ms), ms / 1000); break; } // towards zero, as by duration_cast
    }
    vf_reach("end");
}
static std::tm symTm(const char* n) { std::tm t = {}; t.tm_sec = (int)vf::u32(n); t.tm_min = (int)vf::u32(n); t.tm_hour = (int)vf::u32(n); t.tm_mday = (int)vf_sym(n, 16); t.tm_mon = (int)vf::u32(n); t.tm_year = (int)vf::u32(n); t.tm_wday = (int)vf::u32(n); t.tm_yday = (int)vf::u32(n); t.tm_isdst = (int)vf::u32(n); t.tm_gmtoff = (long)vf::u64(n); t.tm_zone = "zone"; return t; }
static bool same(const std::tm& a, const std::tm& b) { return (a.tm_sec == b.tm_sec) & (a.tm_min == b.tm_min) & (a.tm_hour == b.tm_hour) & (a.tm_mday == b.tm_mday) & (a.tm_mon == b.tm_mon) & (a.tm_year == b.tm_year) & (a.tm_wday == b.tm_wday) & (a.tm_yday == b.tm_yday) & (a.tm_isdst == b.tm_isdst) & (a.tm_gmtoff == b.tm_gmtoff) & (a.tm_zone == b.tm_zone); }
VF_ENTRY calendar() {
    g_calls = 0; g_threads = 0; int64_t x = (int64_t)vf::u64("x"); g_time = (std::time_t)vf::u64("time"); g_tm = symTm("tm"); T t = T::from_seconds(x); std::tm in = symTm("in"), was = in; bool conv = false;
    switch (vf::pick("op", 5)) {
    case 0: { std::tm r = t.gmtime(); vf_check(same(r, g_tm), "gmtime gives other fields than the C library"); vf_check(g_calls == 1 && g_call[0].fn == GMTIME && g_call[0].t == x, "gmtime converts another time"); break; }
    case 1: { std::tm r = t.localtime(); vf_check(same(r, g_tm), "localtime gives other fields than the C library"); vf_check(g_calls == 1 && g_call[0].fn == LOCALTIME && g_call[0].t == x, "localtime converts another time"); break; }
    case 2: { T r = T::from_gmtime(in); vf_check(r.seconds_since_epoch() == g_time && g_calls == 1 && g_call[0].fn == TIMEGM && g_call[0].tm == &in, "from_gmtime gives another time than the C library"); was.tm_yday = 77; was.tm_mday += 1; conv = true; break; }
    case 3: { T r = T::from_localtime(in); vf_check(r.seconds_since_epoch() == g_time && g_calls == 1 && g_call[0].fn == MKTIME && g_call[0].tm == &in, "from_localtime gives another time than the C library"); was.tm_yday = 78; was.tm_mday += 2; conv = true; break; }
    default: { T r = T::now(); vf_check(r.seconds_since_epoch() == g_time && g_calls == 1 && g_call[0].fn == TIME, "now is not the time of the C library"); break; }
    }
    vf_check(same(in, was), conv ? "the fields are not normalized by the C library's function" : "unrelated fields change"); vf_check(t.seconds_since_epoch() == x, "the time changes"); vf_reach("end");
}
VF_ENTRY format() {
    g_fmtCalls = 0; std::tm tm = {}; tm.tm_sec = (int)vf::pick("sec", 3) * 29; tm.tm_year = (int)vf::u8("year");
    static const char* const F[] = {"", "%p", "%A", "%S", "x%Ay", "%A%A", "%p%%", "%Y", " %p", " ", "%Y%A%p ", "a literal", "%"}; const char* f = F[vf::pick("fmt", 13)];
    static const uint16_t L[] = {0, 1, 15, 16, 62, 63, 64, 65, 125, 126, 127, 128, 129, 130, 190, 253, 254, 255, 256, 257, 258, 300, 509, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026}; g_A = 0; bool hasA = false; for (const char* p = f; *p; ++p) hasA |= *p == 'A'; if (hasA) g_A = L[vf::pick("len", sizeof L / sizeof *L)];
    std::string r = itlib::strftime(f, tm); vf_check(g_fmtTm != nullptr, "strftime does not format");
    size_t n = 0; auto want = [&](char c) { if (n < r.size()) vf_check(r[n] == c, "the text differs from that of std::strftime"); ++n; };
    for (const char* p = f; *p; ++p) { if (*p != '%') { want(*p); continue; } if (!*++p) { want('%'); break; }
        switch (*p) { case '%': want('%'); break; case 'S': want(char('0' + tm.tm_sec / 10)); want(char('0' + tm.tm_sec % 10)); break; case 'A': for (size_t i = 0; i < g_A; ++i) want(ch(i)); break; case 'Y': want(char('A' + (tm.tm_year & 15))); break; default: break; } }
    vf_check(r.size() == n, "the text is shorter or longer than that of std::strftime"); vf_check(strlen(r.c_str()) == n, "the text contains a zero"); vf_observe(n); vf_reach("end");
}
VF_ENTRY formatLong() {
    static const uint32_t L[] = {2046, 2047, 2048, 4095, 4096, 8191, 16384, 32767, 65534, 65535, 65536, 131072}; g_A = L[vf::pick("len", sizeof L / sizeof *L)]; std::tm tm = {}; bool p = vf::flag("lead");
    std::string r = itlib::strftime(p ? "-%A" : "%A", tm); vf_check(r.size() == g_A + p, "the text is shorter or longer than that of std::strftime"); for (size_t i : {size_t(0), size_t(1), g_A / 2, g_A - 2, g_A - 1}) vf_check(r[i + p] == ch(i), "the text differs from that of std::strftime"); vf_observe(r.size()); vf_reach("end");
}
// conversions on several threads do not share data
struct Th { int64_t t; bool local; std::tm r; };
static void conv(void* p) { Th& x = *(Th*)p; x.r = x.local ? T::from_seconds(x.t).localtime() : T::from_seconds(x.t).gmtime(); }
VF_ENTRY threads() {
    g_threads = 1; Th a{5, vf::flag("local"), {}}, b{9, vf::flag("local"), {}}; vf_spawn(conv, &a); conv(&b); vf_join_all();
    vf_check(a.r.tm_sec == 5 && a.r.tm_hour == a.local && b.r.tm_sec == 9 && b.r.tm_hour == b.local, "concurrent conversions mix their results"); g_threads = 0; vf_reach("end");
}
