// Definitions of the parts of the C++ runtime library that the code under test reaches and that
// live only in libstdc++.so (so have no bitcode). Used in the symbolic build only; the native
// replay uses the real library.
#include <stdexcept>
#include <new>
#include <string>
#include <system_error>
#include <functional>
#include <optional>
#include <typeinfo>
#include <cstring>
#include <cstdlib>

extern "C" { int irsym_rt_errno = 0; [[noreturn]] void irsym_rt_throw_bad_alloc() { throw std::bad_alloc(); }
[[noreturn]] void irsym_rt_throw_out_of_range() { throw std::out_of_range("index out of range"); } }

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* dupstr(const char* s, size_t n) { char* p = static_cast<char*>(::operator new(n + 1)); for (size_t i = 0; i < n; ++i) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupstr("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { ::operator delete(const_cast<char*>(_M_p)); _M_p = dupstr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { ::operator delete(const_cast<char*>(_M_p)); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = static_cast<const __cow_string&>(o); }

#define DEF(T, B) \
    T::T(const string& s) : B(s) {} \
    T::T(const char* s) : B(s) {} \
    T::~T() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
DEF(domain_error, logic_error) DEF(invalid_argument, logic_error) DEF(length_error, logic_error) DEF(out_of_range, logic_error)
DEF(range_error, runtime_error) DEF(overflow_error, runtime_error) DEF(underflow_error, runtime_error)

void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...);
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw bad_function_call(); }

// error categories
namespace {
struct GenericCat : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "generic error"; } };
struct SystemCat : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "system error"; }
    error_condition default_error_condition(int ev) const noexcept override { return error_condition(ev, generic_category()); } };
alignas(GenericCat) char gc_buf[sizeof(GenericCat)]; alignas(SystemCat) char sc_buf[sizeof(SystemCat)]; bool cat_init = false;
void initcat() { if (!cat_init) { cat_init = true; new (gc_buf) GenericCat; new (sc_buf) SystemCat; } }
}
const error_category& _V2::generic_category() noexcept { initcat(); return *reinterpret_cast<GenericCat*>(gc_buf); }
const error_category& _V2::system_category() noexcept { initcat(); return *reinterpret_cast<SystemCat*>(sc_buf); }
_V2::error_category::~error_category() {}
__cow_string _V2::error_category::_M_message(int) const { return __cow_string("error", 5); }
error_condition _V2::error_category::default_error_condition(int ev) const noexcept { return error_condition(ev, *this); }
bool _V2::error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool _V2::error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
}


// nextafter, per IEEE 754 (libm function)
template<class F, class U> static F na(F x, F y)
{
    U a, b; memcpy(&a, &x, sizeof a); memcpy(&b, &y, sizeof b);
    U sign = U(1) << (8 * sizeof(U) - 1); U ax = a & ~sign, ay = b & ~sign;
    if (x != x) return x;
    if (y != y) return y;
    if (ax == 0 && ay == 0) return y;
    if (a == b) return y;
    if (ax == 0) a = (b & sign) | 1;
    else { bool away = ax < ay; if (((a ^ b) & sign) != 0) away = false; a = away ? a + 1 : a - 1; }
    F r; memcpy(&r, &a, sizeof a); return r;
}
extern "C" double nextafter(double x, double y) { return na<double, unsigned long>(x, y); }
extern "C" float nextafterf(float x, float y) { return na<float, unsigned>(x, y); }
