//@ entry encode K=0..5 covers=ok
//@ bound encode: every 32-bit code point value alone, and two arbitrary code points in sequence; every output size from 0 to what is needed
//@ entry decode K=0..7 covers=ok,bad,space
//@ bound decode: every byte string of 1 to 7 bytes; every output size from 0 to 7
//@ entry deeper K=8..11 tier=thorough time=850
//@ bound deeper: every byte string of 8 to 11 bytes with full output space (thorough tier)
//@ entry buffers N=5|7 covers=ok
//@ bound buffers: growing-buffer, throwing and positional variants on every byte string of 0..N bytes, and on every two code points
//@ entry narrow covers=ok
//@ bound narrow: decoding of every byte string of up to 4 bytes into 16-bit characters; encoding from 8-bit, 16-bit and wchar_t characters
#include "unicode_ref.hpp"

HARNESS(encode)
{
    int K = param("K", 0);
    char32_t s[2] = { char32_t(sym<u32>("a")), char32_t(sym<u32>("b")) };
    std::size_t n = K < 5 ? 1 : 2;
    judge_incr<U32to8>(s, n, n == 1 ? std::size_t(K) : std::size_t(sym_choice("cap", 9)));
    if (n == 1 && K == 4) {
        char out[4]; std::size_t io = 0, oo = 0; bool ex = false, err = false;
        core::encode_utf8_incr<char32_t, char>(core::Span<const char32_t>(s, 1), core::Span<char>(out, 4), io, oo, ex, err);
        if (ex) {
            char32_t back[4]; std::size_t i2 = 0, o2 = 0; bool ex2 = false, err2 = false;
            core::decode_utf8_incr<char, char32_t>(core::Span<const char>(out, oo), core::Span<char32_t>(back, 4), i2, o2, ex2, err2);
            CHECKM(ex2 && i2 == oo && o2 == 1 && back[0] == s[0], "decodes to the same code point");
        }
    }
    if (K == 0) COVER("ok");
}

HARNESS(decode)
{
    auto n = std::size_t(param("K", 0));
    char in[8]; irsym_bytes(in, n, "in");
    judge_incr<U8to32>(in, n, std::size_t(sym_choice("cap", int(n) + 1)));
    if (n == 0) { COVER("bad"); COVER("space"); }
    if (n == 1) COVER("bad");
}

HARNESS(deeper)
{
    auto n = std::size_t(param("K", 8));
    char in[12]; irsym_bytes(in, n, "in");
    judge_incr<U8to32>(in, n, n);
}

HARNESS(buffers)
{
    int N = param("N", 4);
    auto n = std::size_t(sym_choice("n", N + 2));
    if (int(n) == N + 1) {
        char32_t s[2] = { char32_t(sym<u32>("a")), char32_t(sym<u32>("b")) };
        judge_buffer<U32to8>(s, std::size_t(1 + sym_choice("two", 2)));
        return;
    }
    char in[8]; irsym_bytes(in, n, "in");
    judge_buffer<U8to32>(in, n);
}

HARNESS(narrow)
{
    int mode = sym_choice("mode", 4);
    std::size_t io = 0, oo = 0; bool ex = false, err = false;
    if (mode == 0) {
        auto n = std::size_t(1 + sym_choice("n", 4));
        char in[4]; irsym_bytes(in, n, "in");
        char16_t out[4];
        core::decode_utf8_incr<char, char16_t>(core::Span<const char>(in, n), core::Span<char16_t>(out, 4), io, oo, ex, err);
        std::size_t i = 0, o = 0; Kind end = k_ok;
        while (i < n) {
            Step s = ref_step8(reinterpret_cast<unsigned char*>(in) + i, n - i, 0xFFFF);
            end = s.kind; if (end != k_ok) break;
            CHECKM(o < oo && out[o] == s.cp, "decoded character"); ++o; i += s.len;
        }
        CHECKM(io == i && oo == o, "positions");
        if (end == k_ok || end == k_incomplete) CHECKM(ex, "input exhausted");
        else if (end == k_bad) CHECKM(!ex && err, "error");
        COVER("ok");
    }
    else if (mode == 1) {
        char in[1]; irsym_bytes(in, 1, "in"); char out[4], want[4];
        core::encode_utf8_incr<char, char>(core::Span<const char>(in, std::size_t(1)), core::Span<char>(out, 4), io, oo, ex, err);
        std::size_t n = ref_put(static_cast<unsigned char>(in[0]), want);
        CHECKM(ex && io == 1 && oo == n && out[0] == want[0] && (n == 1 || out[1] == want[1]), "8-bit characters");
    }
    else if (mode == 2) {
        wchar_t in[1] = { wchar_t(sym<i32>("in")) }; char out[4], want[4];
        core::encode_utf8_incr<wchar_t, char>(core::Span<const wchar_t>(in, 1), core::Span<char>(out, 4), io, oo, ex, err);
        if (!valid_cp(u32(in[0]))) { CHECKM(!ex && err && io == 0 && oo == 0, "invalid wide character"); return; }
        std::size_t n = ref_put(u32(in[0]), want); bool same = ex && io == 1 && oo == n;
        for (std::size_t i = 0; i < n && i < oo; ++i) same = same & (out[i] == want[i]);
        CHECKM(same, "wide characters");
    }
    else {
        char in[4]; irsym_bytes(in, 4, "in"); wchar_t out[1];
        core::decode_utf8_incr<char, wchar_t>(core::Span<const char>(in, 4), core::Span<wchar_t>(out, 1), io, oo, ex, err);
        Step s = ref_step(in, 4);
        if (s.kind == k_ok) { CHECKM(oo == 1 && io == s.len && u32(out[0]) == s.cp, "wide character"); if (s.len == 4) CHECKM(ex, "exhausted at the end"); }
        else CHECKM(err && !ex && oo == 0 && io == 0, "error");
    }
}
