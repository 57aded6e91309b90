// std::ios_base, std::locale and the facets' constructors live in libstdc++'s shared library.  For the symbolic execution (not for the
// native replay) these stand-ins keep the part of their contract which the "C" locale gives; everything else of the streams, number
// formatting included, is the library's own template code.
#pragma once
#include <istream>
#include <ostream>
#include <locale>
#ifdef VF_ENGINE
namespace std {
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
locale::facet::~facet() {}
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(badbit), _M_callbacks(nullptr), _M_word_size(0), _M_word(nullptr) {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
ios_base::~ios_base() {}
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
struct vf_ios_failure : exception { const char* what() const noexcept override { return "ios_failure"; } }; // ios_base::failure
void __throw_ios_failure(const char*) { throw vf_ios_failure(); }
void __throw_ios_failure(const char*, int) { throw vf_ios_failure(); }
struct vf_ctype : ctype<char> { // never constructed: the members which inline code reads are set up in place
    static const ctype<char>* get() {
        alignas(16) static unsigned char raw[sizeof(ctype<char>)]; static ctype_base::mask table[256]; ctype<char>* c = (ctype<char>*)raw; static bool done;
        if (!done) { done = true; for (int i = 9; i < 14; ++i) table[i] = ctype_base::space; table[32] = ctype_base::space; for (int i = '0'; i <= '9'; ++i) table[i] = ctype_base::digit; c->*(&vf_ctype::_M_table) = table; c->*(&vf_ctype::_M_widen_ok) = 1; c->*(&vf_ctype::_M_narrow_ok) = 1; for (int i = 0; i < 256; ++i) (c->*(&vf_ctype::_M_widen))[i] = (c->*(&vf_ctype::_M_narrow))[i] = (char)i; }
        return c;
    }
};
template <class F> struct vf_facet { static const F* get() { alignas(16) static unsigned char raw[sizeof(F)]; static const F* f; if (!f) f = new (raw) F(1); return f; } };
template <> inline const ctype<char>* __try_use_facet<ctype<char>>(const locale&) noexcept { return vf_ctype::get(); }
template <> inline const num_put<char>* __try_use_facet<num_put<char>>(const locale&) noexcept { return vf_facet<num_put<char>>::get(); }
template <> inline const num_get<char>* __try_use_facet<num_get<char>>(const locale&) noexcept { return nullptr; }
template <> inline const ctype<char16_t>* __try_use_facet<ctype<char16_t>>(const locale&) noexcept { return nullptr; }
template <> inline const num_put<char16_t>* __try_use_facet<num_put<char16_t>>(const locale&) noexcept { return nullptr; }
template <> inline const num_get<char16_t>* __try_use_facet<num_get<char16_t>>(const locale&) noexcept { return nullptr; }
template <> struct __use_cache<__numpunct_cache<char>> {
    const __numpunct_cache<char>* operator()(const locale&) const {
        static __numpunct_cache<char>* c; if (c) return c; alignas(16) static unsigned char raw[sizeof(__numpunct_cache<char>)]; c = new (raw) __numpunct_cache<char>(1);
        c->_M_grouping = ""; c->_M_truename = "true"; c->_M_truename_size = 4; c->_M_falsename = "false"; c->_M_falsename_size = 5; c->_M_decimal_point = '.'; c->_M_thousands_sep = ',';
        for (size_t i = 0; i < __num_base::_S_oend; ++i) c->_M_atoms_out[i] = __num_base::_S_atoms_out[i]; for (size_t i = 0; i < __num_base::_S_iend; ++i) c->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
        return c;
    }
};
}
#endif
