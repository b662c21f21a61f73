//@ entry width8 S=0..1 covers=done
//@ entry width16 M=1..16 covers=done
//@ entry width32 M=1..32 S=0..1 covers=done tier=thorough time=60|900
//@ entry width64 M=1..64 covers=done tier=thorough time=60|900
//@ entry wide_few K=0..3 covers=done time=60|600
//@ entry round8 F=0..1 covers=done time=90|600
//@ entry round16 F=0..1 covers=done time=90|900 qto=400 tier=thorough
//@ entry round_part K=0..3 covers=done time=60|600
//@ entry round_part_d K=0..3 covers=done tier=thorough time=60|900
//@ entry to_int K=0..2 covers=inside,clamped time=90|900
//@ entry to_int_d K=0..3 covers=inside,clamped tier=thorough time=90|900
//@ entry clamp F=0..1 T=0..2 covers=done
//@ entry ints K=0..6|0..7 covers=done
//@ entry pack covers=done
//@ bound width8: every value and every pair of bit widths of an unsigned and a signed 8-bit type
//@ bound width16: every value and every pair of bit widths of a 16-bit type
//@ bound width32: every value and every pair of bit widths of a 32-bit type (thorough only)
//@ bound width64: every value and every pair of bit widths of a 64-bit type (thorough only)
//@ bound wide_few: every value of 32 and 64-bit types for the widths 1, 5, 8, 10, 12, 16, 24, 31, 32, 63, 64 that the type has
//@ bound round8: every 8-bit value through float and double and back (both inverse functions)
//@ bound round16: every 16-bit value through double, and through float with the centred inverse (with the other one, float is too narrow, as documented)
//@ bound round_part: every value of 1, 5, 6 and 10-bit components through float (double: thorough) and back
//@ bound to_int: every float m * 2^-e with m of 12 bits, e from 12 to 16, for maximum 1, 31 and 255 (double, also for 65535: thorough): the level is the floor of x(max+1), or the nearest one
//@ bound clamp: every float and double bit pattern that is negative, not a number or at least 1, for 8, 16 and 32-bit targets
//@ bound ints: every value for 8 pairs of maxima
//@ bound pack: every value of N-bit fields stored in signed and unsigned types of 8 and 16 bits, N = 1, 5, 7, 8, 15, 16
#include "sym.hpp"
#include <archon/util/unit_frac.hpp>
#include <archon/image/bit_medium.hpp>
using namespace archon;
namespace uf = util::unit_frac;
template<class T> static T mask_of(int n) { T m = 0; for (int i = 0; i < n; ++i) m = T(m | T(T(1) << i)); return m; }
template<class T> static void width(int m, int n) // from m to n bits
{
    typedef std::uint64_t U; T v = T(irsym_bits("v", m)); T r = uf::change_bit_width<T>(v, m, n); U x = U(v), want = 0;
    if (n <= m) want = x >> (m - n); else { int left = n; while (left >= m) { left -= m; want |= x << left; } if (left) want |= x >> (m - left); }
    CHECKM(U(r) == want, "bit pattern truncated or repeated"); CHECKM(r <= mask_of<T>(n) && r >= 0, "in range"); if (n >= m) { T back = uf::change_bit_width<T>(r, n, m); CHECKM(back == v, "widening and narrowing is lossless"); }
    T w = T(irsym_bits("w", m)); T r2 = uf::change_bit_width<T>(w, m, n); CHECKM((v > w) | (r <= r2), "monotone"); COVER("done");
}
HARNESS(width8) { if (param("S", 0)) { int m = 1 + sym_choice("m", 7), n = 1 + sym_choice("n", 7); width<signed char>(m, n); } else { int m = 1 + sym_choice("m", 8), n = 1 + sym_choice("n", 8); width<unsigned char>(m, n); } }
HARNESS(width16) { int n = 1 + sym_choice("n", 16); width<std::uint16_t>(param("M", 1), n); }
HARNESS(width32) { int m = param("M", 1); if (param("S", 0)) { if (m < 32) width<int>(m, 1 + sym_choice("n", 31)); else COVER("done"); } else width<unsigned>(m, 1 + sym_choice("n", 32)); }
HARNESS(width64) { width<std::uint64_t>(param("M", 1), 1 + sym_choice("n", 64)); }
HARNESS(wide_few)
{
    static const int ws[] = { 1, 5, 8, 10, 12, 16, 24, 31, 32, 63, 64 };
    switch (param("K", 0)) { case 0: width<unsigned>(ws[sym_choice("m", 9)], ws[sym_choice("n", 9)]); break; case 1: width<int>(ws[sym_choice("m", 8)], ws[sym_choice("n", 8)]); break; case 2: width<std::uint64_t>(ws[sym_choice("m", 5)], ws[sym_choice("n", 11)]); break; case 3: width<std::uint64_t>(ws[5 + sym_choice("m", 6)], ws[sym_choice("n", 11)]); break; }
}
template<class I, class F> static void round_trip(int bits) { I max = mask_of<I>(bits); I v = I(irsym_bits("v", bits)); F f = uf::int_to_flt<F>(v, max); I a = uf::flt_to_int<I>(f, max), b = uf::flt_to_int_a<I>(f, max); CHECKM((f >= 0) & (f <= 1), "fraction"); if constexpr (sizeof(F) == 8 || sizeof(I) != 2) CHECKM(a == v, "round trip"); CHECKM(b == v, "round trip (centred)"); COVER("done"); }
HARNESS(round8) { if (param("F", 0)) round_trip<std::uint8_t, double>(8); else round_trip<std::uint8_t, float>(8); }
HARNESS(round16) { if (param("F", 0)) round_trip<std::uint16_t, double>(16); else round_trip<std::uint16_t, float>(16); }
HARNESS(round_part) { static const int b[] = { 1, 5, 6, 10 }; int k = b[param("K", 0)]; round_trip<int, float>(k); }
HARNESS(round_part_d) { static const int b[] = { 1, 5, 6, 10 }; round_trip<int, double>(b[param("K", 0)]); }
template<class I, class F> static void to_int(I max)
{
    // x = m * 2^-e, m of 12 bits, so that x * (max + 1) and x * max are exact
    unsigned m = unsigned(irsym_bits("m", 12)); int e = 12 + sym_choice("e", 5); F x = F(m); for (int i = 0; i < e; ++i) x /= 2; std::uint64_t one = std::uint64_t(1) << e;
    I r = uf::flt_to_int<I>(x, max), q = uf::flt_to_int_a<I>(x, max); std::uint64_t p = std::uint64_t(m) * (std::uint64_t(max) + 1), c = std::uint64_t(m) * max; COVER("inside"); if (m == 4095) COVER("clamped");
    CHECKM((std::uint64_t(r) * one <= p) & (p < (std::uint64_t(r) + 1) * one), "interval containing the fraction");
    // nearest level; a tie may go either way
    std::uint64_t t = 2 * std::uint64_t(q) * one, c2 = 2 * c; CHECKM((t <= c2 + one) & (c2 <= t + one), "nearest level");
}
template<class F> static void to_int_k(int k) { switch (k) { case 0: to_int<std::uint8_t, F>(1); break; case 1: to_int<std::uint8_t, F>(31); break; case 2: to_int<std::uint8_t, F>(255); break; default: to_int<std::uint16_t, F>(65535); } }
HARNESS(to_int) { to_int_k<float>(param("K", 0)); }
HARNESS(to_int_d) { to_int_k<double>(param("K", 0)); }
template<class F, class I> static void clamp()
{
    F x = sym<F>("x"); bool low = !(x > 0), high = x >= 1; irsym_assume(low | high); I max = std::numeric_limits<I>::max(); I a = uf::flt_to_int<I>(x), b = uf::flt_to_int_a<I>(x); CHECKM(a == (high ? max : I(0)), "clamped"); CHECKM(b == (high ? max : I(0)), "clamped (centred)"); COVER("done");
}
template<class F> static void clamp_t(int t) { switch (t) { case 0: clamp<F, std::uint8_t>(); break; case 1: clamp<F, std::uint16_t>(); break; case 2: clamp<F, int>(); break; default: clamp<F, std::uint64_t>(); } }
HARNESS(clamp) { if (param("F", 0)) clamp_t<double>(param("T", 0)); else clamp_t<float>(param("T", 0)); }
HARNESS(ints)
{
    static const int m1[] = { 255, 31, 63, 65535, 1, 255, 100, 65535 }, m2[] = { 65535, 63, 31, 255, 255, 1, 255, 65535 }; int k = param("K", 0); std::uint16_t a = std::uint16_t(m1[k]), b = std::uint16_t(m2[k]); std::uint16_t v = sym<std::uint16_t>("v"); irsym_assume(v <= a);
    std::uint16_t r = uf::int_to_int_a<16, 16>(v, a, b); std::int64_t d = 2 * (std::int64_t(r) * a - std::int64_t(v) * b); CHECKM((d <= a) & (d >= -std::int64_t(a)), "nearest level"); COVER("done");
}
template<class T, int N> static void pack() { unsigned v = unsigned(irsym_bits("v", N)); T p = image::pack_int<T, N>(v); auto u = image::unpack_int<N>(p); CHECKM(unsigned(u) == v, "packed and unpacked"); auto u2 = image::unpack_int_a<N, unsigned>(p); CHECKM(u2 == v, "packed and unpacked"); if constexpr (N <= 7) CHECKM(unsigned(p) == v, "value"); else CHECKM((unsigned(p) & ((1u << N) - 1)) == v, "bits"); }
HARNESS(pack)
{
    pack<std::uint8_t, 1>(); pack<std::uint8_t, 5>(); pack<std::uint8_t, 7>(); pack<std::uint8_t, 8>(); pack<signed char, 1>(); pack<signed char, 7>(); pack<signed char, 8>(); pack<char, 8>(); pack<std::uint16_t, 15>(); pack<std::uint16_t, 16>(); pack<short, 8>(); pack<short, 15>(); pack<short, 16>(); pack<bool, 1>(); COVER("done");
}
