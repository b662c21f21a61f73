// Harness API. In the symbolic build these functions are interpreted by the engine; in the native
// build (used to replay counterexamples and to cross-check sampled paths) they read recorded values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <limits>
#include <exception>
extern "C" {
std::uint64_t irsym_bits(const char* name, int nbits);
void irsym_bytes(void* p, std::size_t n, const char* name);
void irsym_assume(bool);
void irsym_check(bool, const char* msg);
[[noreturn]] void irsym_fail(const char* msg);
void irsym_cover(const char* label);
void irsym_observe(const char* name, std::uint64_t);
std::uint64_t irsym_concretize(std::uint64_t);
int irsym_param(const char* name, int dflt);
[[noreturn]] void irsym_stop();
void irsym_print(const char*, std::uint64_t);
std::uint64_t irsym_live_heap();
}
#ifdef IRSYM_NATIVE
namespace irsym_native { struct Reg { Reg(const char*, void (*)()); }; }
#define HARNESS(n) extern "C" void h_##n(); static irsym_native::Reg irsym_reg_##n("h_" #n, &h_##n); extern "C" void h_##n()
#else
#define HARNESS(n) extern "C" __attribute__((used, noinline)) void h_##n()
#endif
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c) irsym_check(static_cast<bool>(c), #c)
#define CHECKM(c, m) irsym_check(static_cast<bool>(c), m)
#define COVER(l) irsym_cover(l)

template<class T> inline T sym(const char* name)
{
    if constexpr (std::is_same_v<T, bool>) return irsym_bits(name, 1) != 0;
    else if constexpr (std::is_floating_point_v<T>) {
        static_assert(sizeof(T) <= 8);
        std::uint64_t b = irsym_bits(name, int(8 * sizeof(T))); T v; std::memcpy(&v, &b, sizeof(T)); return v; }
    else return static_cast<T>(irsym_bits(name, int(8 * sizeof(T))));
}
template<class T> inline T sym_range(const char* name, T lo, T hi)
{
    T v = sym<T>(name); irsym_assume((v >= lo) & (v <= hi)); return v;
}
// a non-negative value, by construction
template<class T> inline T sym_nonneg(const char* name)
{
    return static_cast<T>(sym<T>(name) & std::numeric_limits<T>::max());
}
// a case split: every value in [0,n) is explored as a concrete value
inline int sym_choice(const char* name, int n)
{
    std::uint64_t v = irsym_bits(name, 8); irsym_assume(v < std::uint64_t(n)); return int(irsym_concretize(v));
}
template<class T> inline void observe(const char* name, T v)
{
    if constexpr (std::is_floating_point_v<T>) { double d = double(v); std::uint64_t b; std::memcpy(&b, &d, 8); irsym_observe(name, b); }
    else irsym_observe(name, static_cast<std::uint64_t>(v));
}
inline int param(const char* name, int dflt) { return irsym_param(name, dflt); }
