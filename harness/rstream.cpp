#include "vf.h"
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include <itlib/rstream.hpp>
#include <string.h>
#include "ios_model.h"
// a seekable buffer over an array, refilled in pieces so that reads cross its get area; it may end early
struct Buf : std::streambuf {
    char d[16]; size_t n, piece; Buf() { for (char& c : d) c = 0; n = 0; piece = 4; }
    int_type underflow() override { size_t at = gptr() ? size_t(gptr() - d) : 0; if (at >= n) return traits_type::eof(); size_t e = at + piece < n ? at + piece : n; setg(d, d + at, d + e); return traits_type::to_int_type(d[at]); }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode m) override { if (!(m & std::ios_base::in)) return pos_type(off_type(-1)); off_type at = (w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? off_type(gptr() ? gptr() - d : 0) : off_type(n)) + o; if (at < 0 || at > off_type(n)) return pos_type(off_type(-1)); setg(d, d + at, d + at); return pos_type(at); }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    off_type where() const { return gptr() ? gptr() - d : 0; }
};
static void fill(Buf& a, Buf& b) { a.n = b.n = vf::pick("size", 7); a.piece = b.piece = 1 + vf::pick("piece", 3); for (size_t i = 0; i < a.n; ++i) a.d[i] = b.d[i] = (char)vf::u8("c"); }
template <class S> static void same(S& in, S& ref, const Buf& a, const Buf& b, const char* m) { vf_check(in.rdstate() == ref.rdstate() && in.gcount() == ref.gcount() && a.where() == b.where(), m); }
// something which looks at the next character but takes nothing: sets eof without failure at the end
struct Look { int c = 0; }; static std::istream& operator>>(std::istream& s, Look& l) { l.c = s.peek(); return s; }
// the reads: r reads from `in`, the same reads are made on `ref`
template <class R> static void reads(R& r, std::istream& in, std::istream& ref, const Buf& a, const Buf& b) {
    size_t ops = vf_param("ops", 3);
    for (size_t k = 0; k < ops; ++k) {
        char x[10], y[10]; memset(x, 33, 10); memset(y, 33, 10);
        switch (vf::pick("op", 3)) {
        case 0: { size_t c = vf::pick("count", 9); R& q = static_cast<R&>(r.read(x, (std::streamsize)c)); vf_check(&q == &r, "read returns another stream"); ref.read(y, (std::streamsize)c); break; }
        case 1: { Look l, m; r >> l; ref >> m; vf_check(l.c == m.c, "other bytes are read"); break; }
        default: { r >> x[0]; ref >> y[0]; break; }
        }
        bool eq = true; for (int i = 0; i < 10; ++i) eq &= x[i] == y[i]; vf_check(eq, "other bytes are read"); same(in, ref, a, b, "a read leaves the stream in another state");
        vf_check(r.fail() == ref.fail() && bool(r) == !ref.fail() && r.good() == ref.good() && r.eof() == ref.eof(), "the state functions differ from those of the stream");
    }
}
VF_ENTRY plain() { Buf a, b; fill(a, b); std::istream in(&a), ref(&b); size_t skip = vf::pick("skip", 3); char t[4]; in.read(t, (std::streamsize)skip); ref.read(t, (std::streamsize)skip); { itlib::rstream r(in); if (vf::flag("peek")) { in.peek(); ref.peek(); } /* end of the stream without failure */ vf_check(bool(r) == !ref.fail(), "the state functions differ from those of the stream"); same(in, ref, a, b, "making an rstream changes the stream"); vf_check(r.good() == ref.good() && r.fail() == ref.fail() && r.eof() == ref.eof(), "the state functions differ from those of the stream"); reads(r, in, ref, a, b); } same(in, ref, a, b, "destroying an rstream changes the stream"); vf_reach("end"); }
VF_ENTRY redirect() {
    Buf a, b; fill(a, b); std::istream in(&a), ref(&b); size_t skip = vf::pick("skip", 3); vf_assume(skip <= a.n); char t[4]; in.read(t, (std::streamsize)skip); ref.read(t, (std::streamsize)skip); size_t pos = vf::pick("pos", a.n + 1); Buf::off_type was = a.where();
    bool nested = vf::flag("nested"); bool failed;
    { itlib::redirect_rstream r(in, (std::streamoff)pos); ref.seekg((std::streamoff)pos); vf_check(a.where() == (Buf::off_type)pos, "a redirect_rstream reads from another position"); same(in, ref, a, b, "a redirect_rstream leaves the stream in another state");
        reads(r, in, ref, a, b);
        if (nested && in.good()) { auto at = a.where(); { itlib::redirect_rstream q(in, (std::streamoff)0); char c; q.read(&c, a.n ? 1 : 0); vf_check(!a.n || c == b.d[0], "a nested redirect_rstream reads from another position"); } vf_check(a.where() == at && in.good(), "a nested redirect_rstream does not restore the position"); }
        failed = in.fail(); }
    vf_check(a.where() == was, "a redirect_rstream does not restore the position"); vf_check(in.fail() == failed, "destroying a redirect_rstream changes whether the stream failed"); if (!failed) vf_check(in.good() && in.tellg() == std::streampos(was), "a redirect_rstream does not restore the position");
    in.clear(); char x; in.read(&x, 1); vf_check(a.n > (size_t)was ? in.good() && x == b.d[was] : in.eof(), "reading does not continue from the restored position"); vf_reach("end");
}

// a stream of 2^62 characters: positions are solver variables
template <class C> struct FarBuf : std::basic_streambuf<C> {
    typedef std::basic_streambuf<C> S; typedef typename S::int_type int_type; typedef typename S::pos_type pos_type; typedef typename S::off_type off_type; typedef typename S::traits_type T;
    C d[3]; int64_t base = 0; static const int64_t N = int64_t(1) << 62; static C content(int64_t p) { return C((p ^ p >> 7 ^ p >> 30 ^ p >> 45) & 0x7f); }
    int64_t where() const { return base + (this->gptr() - this->eback()); }
    int_type underflow() override { int64_t at = where(); if (at >= N) return T::eof(); base = at; for (int i = 0; i < 3; ++i) d[i] = content(at + i); this->setg(d, d, d + 3); return T::to_int_type(d[0]); }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode m) override { if (!(m & std::ios_base::in)) return pos_type(off_type(-1)); int64_t at = (w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? where() : N) + o; if (at < 0 || at > N) return pos_type(off_type(-1)); base = at; this->setg(d, d, d); return pos_type(at); }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    FarBuf() { this->setg(d, d, d); }
};
template <class C> static void far() {
    FarBuf<C> b; std::basic_istream<C> in(&b); int64_t was = (int64_t)vf::upto("was", uint64_t(b.N) - 8), pos = (int64_t)vf::upto("pos", uint64_t(b.N) - 8); in.seekg(std::streamoff(was)); C x[4]; size_t skip = vf::pick("skip", 3); in.read(x, (std::streamsize)skip); was += int64_t(skip);
    { itlib::basic_redirect_rstream<std::basic_istream<C>> r(in, std::streamoff(pos)); vf_check(b.where() == pos && r.good(), "a redirect_rstream reads from another position"); size_t c = vf::pick("count", 5); r.read(x, (std::streamsize)c); bool eq = true; for (size_t i = 0; i < c; ++i) eq &= x[i] == b.content(pos + int64_t(i)); vf_check(eq && !r.fail() && in.gcount() == (std::streamsize)c, "other bytes are read");
        if (vf::flag("nested")) { int64_t p2 = (int64_t)vf::upto("pos2", uint64_t(b.N) - 8), w = b.where(); { itlib::basic_redirect_rstream<std::basic_istream<C>> q(in, std::streamoff(p2)); q.read(x, 1); vf_check(x[0] == b.content(p2), "other bytes are read"); } vf_check(b.where() == w, "a nested redirect_rstream does not restore the position"); }
        if (vf::flag("fail")) { in.setstate(std::ios_base::failbit); } }
    vf_check(b.where() == was, "a redirect_rstream does not restore the position"); in.clear(); in.read(x, 1); vf_check(x[0] == b.content(was), "reading does not continue from the restored position"); vf_observe(b.where()); vf_reach("end");
}
VF_ENTRY far_char() { far<char>(); }
VF_ENTRY far_wide() { far<char16_t>(); }
// a stream which reports failure by exceptions: the position is restored while the exception passes
VF_ENTRY throwing() {
    Buf a, b; fill(a, b); std::istream in(&a); size_t skip = vf::pick("skip", 3); vf_assume(skip <= a.n); char t[12]; in.read(t, (std::streamsize)skip); size_t pos = vf::pick("pos", a.n + 1), count = vf::pick("count", 9); auto was = a.where(); size_t k = vf::pick("mask", 3); std::ios_base::iostate mask = k == 0 ? std::ios_base::failbit : k == 1 ? std::ios_base::eofbit : std::ios_base::failbit | std::ios_base::eofbit | std::ios_base::badbit; in.exceptions(mask); bool threw = false;
    try { itlib::redirect_rstream r(in, (std::streamoff)pos); r.read(t, (std::streamsize)count); bool eq = true; for (size_t i = 0; i < count; ++i) eq &= t[i] == b.d[pos + i]; vf_check(eq, "other bytes are read"); if (vf::flag("look")) in.peek(); } catch (const std::exception&) { threw = true; }
    vf_check(in.exceptions() == mask, "a redirect_rstream leaves the stream in another state"); if (pos + count > a.n) { vf_check(threw, "a failure is not reported"); vf_reach("threw"); } vf_check(a.where() == was, "a redirect_rstream does not restore the position"); in.exceptions(std::ios_base::goodbit); in.clear(); char x; in.read(&x, 1); vf_check(a.n > (size_t)was ? in.good() && x == b.d[was] : in.eof(), "reading does not continue from the restored position"); vf_reach("end");
}
