//@ entry encode K=0..5 covers=ok,bad
//@ bound encode: every 32-bit code point value alone, two and three arbitrary code points in sequence; every output size; decoding gives the code points back
//@ entry decode N=5|8 covers=ok,bad,space
//@ bound decode: every string of 0..N UTF-16 code units (5 quick, 8 thorough), every output size up to N
//@ entry to16 K=0..5 covers=ok,bad,space
//@ bound to16: transcoding of every byte string of up to 5 bytes to UTF-16, every output size
//@ entry to16_deeper K=6..9 tier=thorough time=850
//@ bound to16_deeper: the same for 6 to 9 bytes with full output space (thorough tier)
//@ entry to8 N=4|6 covers=ok,bad,space
//@ bound to8: transcoding of every string of 0..N UTF-16 code units to UTF-8 (4 quick, 6 thorough), every output size
//@ entry buffers N=3|5 covers=ok
//@ bound buffers: growing-buffer, throwing and positional variants on every input of up to N units
#include "unicode_ref.hpp"

HARNESS(encode)
{
    int K = param("K", 0);
    std::size_t n = K < 3 ? 1 : K < 5 ? 2 : 3;
    char32_t s[3]; for (std::size_t i = 0; i < n; ++i) s[i] = char32_t(sym<u32>("cp"));
    judge_incr<U32to16>(s, n, n == 1 ? std::size_t(K) : std::size_t(sym_choice("cap", int(2 * n) + 1)));
    char16_t out[6]; std::size_t io = 0, oo = 0; bool ex = false, err = false;
    core::encode_utf16_incr<char32_t, char16_t>(core::Span<const char32_t>(s, n), core::Span<char16_t>(out, std::size_t(6)), io, oo, ex, err);
    if (ex) {
        char32_t back[4]; std::size_t i2 = 0, o2 = 0; bool ex2 = false, err2 = false;
        core::decode_utf16_incr<char16_t, char32_t>(core::Span<const char16_t>(out, oo), core::Span<char32_t>(back, std::size_t(4)), i2, o2, ex2, err2);
        CHECKM(ex2 && i2 == oo && o2 == n, "decodes completely");
        bool same = true; for (std::size_t i = 0; i < n; ++i) same = same & (back[i] == s[i]);
        CHECKM(same, "decodes to the same code points");
    }
    if (K < 2) { COVER("ok"); COVER("bad"); }
}

template<class C> static void fill(C* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) p[i] = C(sym<std::make_unsigned_t<C>>("unit")); }

HARNESS(decode)
{
    auto n = std::size_t(sym_choice("n", param("N", 5) + 1));
    char16_t in[8]; fill(in, n);
    judge_incr<U16to32>(in, n, std::size_t(sym_choice("cap", int(n) + 1)));
}

HARNESS(to16)
{
    auto n = std::size_t(param("K", 5));
    char in[8]; irsym_bytes(in, n, "in");
    judge_incr<U8to16>(in, n, std::size_t(sym_choice("cap", int(n) + 1)));
    if (n == 0) { COVER("bad"); COVER("space"); }
}

HARNESS(to16_deeper)
{
    auto n = std::size_t(param("K", 6));
    char in[12]; irsym_bytes(in, n, "in");
    judge_incr<U8to16>(in, n, n);
}

HARNESS(to8)
{
    auto n = std::size_t(sym_choice("n", param("N", 4) + 1));
    char16_t in[8]; fill(in, n);
    judge_incr<U16to8>(in, n, std::size_t(sym_choice("cap", int(3 * n) + 1)));
}

HARNESS(buffers)
{
    auto n = std::size_t(sym_choice("n", param("N", 3) + 1));
    char in8[8]; char16_t in16[8]; char32_t in32[8];
    switch (sym_choice("coder", 4)) {
        case 0: irsym_bytes(in8, n, "in"); judge_buffer<U8to16>(in8, n); break;
        case 1: fill(in16, n); judge_buffer<U16to8>(in16, n); break;
        case 2: fill(in16, n); judge_buffer<U16to32>(in16, n); break;
        default: for (std::size_t i = 0; i < n; ++i) in32[i] = char32_t(sym<u32>("cp")); judge_buffer<U32to16>(in32, n);
    }
}
