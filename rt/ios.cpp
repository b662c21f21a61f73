// Stand-ins for the locale and stream parts of libstdc++ that have no bitcode: one classic ("C") locale
// with the facets that streams of char and wchar_t reach. Symbolic build only.
//@ flags -fno-access-control
#include <locale>
#include <ostream>
#include <istream>
#include <cstring>
#include <cwchar>
#include <new>
namespace std {
// --- facets
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
const char locale::facet::_S_c_name[2] = "C";
const char* locale::facet::_S_get_c_name() throw() { return "C"; }
static size_t next_id = 0;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++next_id; return _M_index - 1; }
template<class F> struct Box { alignas(F) unsigned char mem[sizeof(F)]; };
static const locale::facet* facets[64]; static const locale::facet* caches[64]; static locale::_Impl* impl;
alignas(locale::_Impl) static unsigned char impl_mem[sizeof(locale::_Impl)];
locale::id ctype<char>::id, ctype<wchar_t>::id;
const size_t ctype<char>::table_size;
struct Table { ctype_base::mask m[256]; constexpr Table() : m() { for (int c = 0; c < 128; ++c) { unsigned short v = 0;
    bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9', sp = c == ' ' || (c >= 9 && c <= 13);
    if (up) v |= ctype_base::upper | ctype_base::alpha; if (lo) v |= ctype_base::lower | ctype_base::alpha; if (dg) v |= ctype_base::digit;
    if (dg || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) v |= ctype_base::xdigit; if (sp) v |= ctype_base::space; if (c == ' ' || c == 9) v |= ctype_base::blank;
    if (c < 32 || c == 127) v |= ctype_base::cntrl; else v |= ctype_base::print; if (c > 32 && c < 127 && !up && !lo && !dg) v |= ctype_base::punct; m[c] = v; } } };
static constexpr Table ctab;
ctype<char>::ctype(const mask* t, bool del, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(), _M_tolower(), _M_table(t ? t : ctab.m), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; ++i) _M_widen[i] = _M_narrow[i] = char(i); }
ctype<char>::~ctype() {}
const ctype<char>::mask* ctype<char>::classic_table() throw() { return ctab.m; }
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; ++a) *a = do_toupper(*a); return b; }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; ++a) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
void __throw_bad_cast();
ctype<wchar_t>::ctype(size_t refs) : __ctype_abstract_base<wchar_t>(refs), _M_c_locale_ctype(), _M_narrow_ok(false) {}
ctype<wchar_t>::~ctype() {}
bool ctype<wchar_t>::do_is(mask m, wchar_t c) const { return c >= 0 && c < 128 && (ctab.m[c] & m); }
const wchar_t* ctype<wchar_t>::do_is(const wchar_t* lo, const wchar_t* hi, mask* v) const { for (; lo < hi; ++lo, ++v) *v = *lo >= 0 && *lo < 128 ? ctab.m[*lo] : 0; return hi; }
const wchar_t* ctype<wchar_t>::do_scan_is(mask m, const wchar_t* lo, const wchar_t* hi) const { while (lo < hi && !do_is(m, *lo)) ++lo; return lo; }
const wchar_t* ctype<wchar_t>::do_scan_not(mask m, const wchar_t* lo, const wchar_t* hi) const { while (lo < hi && do_is(m, *lo)) ++lo; return lo; }
wchar_t ctype<wchar_t>::do_toupper(wchar_t c) const { return c >= 'a' && c <= 'z' ? wchar_t(c - 32) : c; }
wchar_t ctype<wchar_t>::do_tolower(wchar_t c) const { return c >= 'A' && c <= 'Z' ? wchar_t(c + 32) : c; }
const wchar_t* ctype<wchar_t>::do_toupper(wchar_t* a, const wchar_t* b) const { for (; a < b; ++a) *a = do_toupper(*a); return b; }
const wchar_t* ctype<wchar_t>::do_tolower(wchar_t* a, const wchar_t* b) const { for (; a < b; ++a) *a = do_tolower(*a); return b; }
wchar_t ctype<wchar_t>::do_widen(char c) const { return wchar_t((unsigned char)c); }
const char* ctype<wchar_t>::do_widen(const char* a, const char* b, wchar_t* to) const { for (; a < b; ++a) *to++ = do_widen(*a); return b; }
char ctype<wchar_t>::do_narrow(wchar_t c, char d) const { return c >= 0 && c < 128 ? char(c) : d; }
const wchar_t* ctype<wchar_t>::do_narrow(const wchar_t* a, const wchar_t* b, char d, char* to) const { for (; a < b; ++a) *to++ = do_narrow(*a, d); return b; }
template<> void numpunct<char>::_M_initialize_numpunct(__c_locale) { alignas(16) static unsigned char m[sizeof(__numpunct_cache<char>)]; auto* d = new (m) __numpunct_cache<char>; d->_M_grouping = ""; d->_M_grouping_size = 0; d->_M_use_grouping = false; d->_M_decimal_point = '.'; d->_M_thousands_sep = ','; d->_M_truename = "true"; d->_M_truename_size = 4; d->_M_falsename = "false"; d->_M_falsename_size = 5; _M_data = d; }
template<> void numpunct<wchar_t>::_M_initialize_numpunct(__c_locale) { alignas(16) static unsigned char m[sizeof(__numpunct_cache<wchar_t>)]; auto* d = new (m) __numpunct_cache<wchar_t>; d->_M_grouping = ""; d->_M_grouping_size = 0; d->_M_use_grouping = false; d->_M_decimal_point = L'.'; d->_M_thousands_sep = L','; d->_M_truename = L"true"; d->_M_truename_size = 4; d->_M_falsename = L"false"; d->_M_falsename_size = 5; _M_data = d; }
template<> numpunct<char>::~numpunct() {}
template<> numpunct<wchar_t>::~numpunct() {}
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
template<class C> static void cache(const numpunct<C>& np) { alignas(16) static unsigned char m[sizeof(__numpunct_cache<C>)]; auto* d = new (m) __numpunct_cache<C>; auto& q = *np._M_data;
    d->_M_grouping = ""; d->_M_grouping_size = 0; d->_M_use_grouping = false; d->_M_decimal_point = C('.'); d->_M_thousands_sep = C(','); d->_M_truename = q._M_truename; d->_M_truename_size = 4; d->_M_falsename = q._M_falsename; d->_M_falsename_size = 5;
    for (int i = 0; i < __num_base::_S_oend; ++i) d->_M_atoms_out[i] = C(__num_base::_S_atoms_out[i]); for (int i = 0; i < __num_base::_S_iend; ++i) d->_M_atoms_in[i] = C(__num_base::_S_atoms_in[i]);
    caches[numpunct<C>::id._M_id()] = d; }
template<class F> static void put(F* f) { facets[F::id._M_id()] = f; }
static locale::_Impl* get_impl()
{
    if (!impl) {
        static Box<ctype<char>> a; put(new (a.mem) ctype<char>(nullptr, false, 1)); static Box<ctype<wchar_t>> b; put(new (b.mem) ctype<wchar_t>(1));
        static Box<num_put<char>> c; put(new (c.mem) num_put<char>(1)); static Box<num_put<wchar_t>> d; put(new (d.mem) num_put<wchar_t>(1));
        static Box<num_get<char>> e; put(new (e.mem) num_get<char>(1)); static Box<num_get<wchar_t>> f; put(new (f.mem) num_get<wchar_t>(1));
        static Box<numpunct<char>> g; put(new (g.mem) numpunct<char>(1)); cache(*reinterpret_cast<numpunct<char>*>(g.mem)); static Box<numpunct<wchar_t>> h; put(new (h.mem) numpunct<wchar_t>(1)); cache(*reinterpret_cast<numpunct<wchar_t>*>(h.mem));
        impl = reinterpret_cast<locale::_Impl*>(impl_mem); impl->_M_refcount = 1; impl->_M_facets = facets; impl->_M_facets_size = 64; impl->_M_caches = caches; impl->_M_names = nullptr;
    }
    return impl;
}
locale::_Impl::~_Impl() throw() {}
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { caches[i] = c; }
locale::locale() throw() : _M_impl(get_impl()) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
const locale& locale::classic() { static locale l; return l; }
locale locale::global(const locale&) { return locale(); }
// --- ios
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::_M_swap(ios_base& o) throw() {}
ios_base::Init::Init() {} ios_base::Init::~Init() {}
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }
ios_base::failure::failure(const string& s) : system_error(error_code(), s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return system_error::what(); }
// floating-point numbers appear as "F": what they look like is not modelled
#define FLT(C, T) template<> template<> num_put<C>::iter_type num_put<C>::_M_insert_float<T>(iter_type s, ios_base& io, C, char, T) const { io.width(0); *s = C('F'); ++s; return s; }
FLT(char, double) FLT(char, long double) FLT(wchar_t, double) FLT(wchar_t, long double)
template class num_put<char>; template class num_put<wchar_t>; template class num_get<char>; template class num_get<wchar_t>;
template class numpunct<char>; template class numpunct<wchar_t>; template struct __numpunct_cache<char>; template struct __numpunct_cache<wchar_t>;
#define INS(C, T) template basic_ostream<C>& basic_ostream<C>::_M_insert(T);
#define EXT(C, T) INS(C, T) template basic_istream<C>& basic_istream<C>::_M_extract(T&);
#define ALL(C) template class basic_streambuf<C>; template class basic_ios<C>; template class basic_ostream<C>; template class basic_istream<C>; template class basic_iostream<C>; \
    template basic_ostream<C>& __ostream_insert(basic_ostream<C>&, const C*, streamsize); \
    EXT(C, bool) EXT(C, long) EXT(C, unsigned long) EXT(C, long long) EXT(C, unsigned long long) INS(C, const void*) INS(C, double) INS(C, long double)
ALL(char) ALL(wchar_t)
}
extern "C" int mbsinit(const mbstate_t* s) noexcept { if (!s) return 1; const unsigned char* p = (const unsigned char*)s; unsigned x = 0; for (unsigned i = 0; i < sizeof *s; ++i) x |= p[i]; return x == 0; }
