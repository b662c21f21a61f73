#pragma once
// Reference for UTF-8 and UTF-16, written from the Unicode standard and the documentation in unicode.hpp
#include "types.hpp"
#include <string>
#include <archon/core/unicode.hpp>
using namespace archon;

static inline bool valid_cp(u32 v) { return v < 0x110000 && (v < 0xD800 || v >= 0xE000) && v != 0xFFFE && v != 0xFFFF; }

// What stands at the beginning of the units p[0..n)
enum Kind { k_ok, k_incomplete, k_short_bad, k_bad };
struct Step { Kind kind; std::size_t len; u32 cp; };

// k_short_bad: units are missing and no completion can make the sequence valid (may be reported as either incomplete or bad)
static inline Step ref_step8(const unsigned char* p, std::size_t n, u32 max)
{
    u32 a = p[0];
    if (a < 0x80) return { k_ok, 1, a };
    if (a < 0xC0 || a >= 0xF8) return { k_bad, 0, 0 };
    std::size_t len = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4;
    u32 v = len == 2 ? a & 0x1F : len == 3 ? a & 0x0F : a & 0x07;
    bool good = true;
    for (std::size_t i = 1; i < len && i < n; ++i) { good = good & ((p[i] & 0xC0) == 0x80); v = (v << 6) | (p[i] & 0x3Fu); }
    if (n < len) {
        std::size_t missing = len - n;
        u32 lo = v << (6 * missing), hi = lo | ((1u << (6 * missing)) - 1);
        u32 least = len == 2 ? 0x80 : len == 3 ? 0x800 : 0x10000;
        u32 lo2 = lo < least ? least : lo, hi2 = hi > max ? max : hi;
        good = good & (lo2 <= hi2) & !((lo2 >= 0xD800) & (hi2 < 0xE000)); // FFFE/FFFF never exhaust a whole range
        return { good ? k_incomplete : k_short_bad, 0, 0 };
    }
    good = good & (v >= (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u)) & (v <= max) & (v < 0x110000) & ((v < 0xD800) | (v >= 0xE000)) & (v != 0xFFFE) & (v != 0xFFFF);
    if (!good) return { k_bad, 0, 0 };
    return { k_ok, len, v };
}

static inline Step ref_step16(const char16_t* p, std::size_t n)
{
    u32 a = std::char_traits<char16_t>::to_int_type(p[0]);
    if (a < 0xD800 || a >= 0xE000) { if (a >= 0xFFFE) return { k_bad, 0, 0 }; return { k_ok, 1, a }; }
    if (a >= 0xDC00) return { k_bad, 0, 0 };
    if (n < 2) return { k_incomplete, 0, 0 };
    u32 b = std::char_traits<char16_t>::to_int_type(p[1]);
    if (b < 0xDC00 || b >= 0xE000) return { k_bad, 0, 0 };
    return { k_ok, 2, 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00) };
}

static inline Step ref_step(const char* p, std::size_t n) { return ref_step8(reinterpret_cast<const unsigned char*>(p), n, 0x10FFFF); }
static inline Step ref_step(const char16_t* p, std::size_t n) { return ref_step16(p, n); }
static inline Step ref_step(const char32_t* p, std::size_t) { u32 v = u32(*p); if (!valid_cp(v)) return { k_bad, 0, 0 }; return { k_ok, 1, v }; }

static inline std::size_t ref_put(u32 v, char* out)
{
    if (v < 0x80) { out[0] = char(v); return 1; }
    if (v < 0x800) { out[0] = char(0xC0 | (v >> 6)); out[1] = char(0x80 | (v & 63)); return 2; }
    if (v < 0x10000) { out[0] = char(0xE0 | (v >> 12)); out[1] = char(0x80 | ((v >> 6) & 63)); out[2] = char(0x80 | (v & 63)); return 3; }
    out[0] = char(0xF0 | (v >> 18)); out[1] = char(0x80 | ((v >> 12) & 63)); out[2] = char(0x80 | ((v >> 6) & 63)); out[3] = char(0x80 | (v & 63)); return 4;
}
static inline std::size_t ref_put(u32 v, char16_t* out)
{
    if (v < 0x10000) { out[0] = char16_t(v); return 1; }
    out[0] = char16_t(0xD800 + ((v - 0x10000) >> 10)); out[1] = char16_t(0xDC00 + ((v - 0x10000) & 0x3FF)); return 2;
}
static inline std::size_t ref_put(u32 v, char32_t* out) { out[0] = v; return 1; }

// The coders under test, by source and target unit type
struct U8to32 { using C = char; using D = char32_t;
    template<class... A> static void incr(A&&... a) { core::decode_utf8_incr<C, D>(a...); }
    template<class... A> static void a(A&&... x) { core::decode_utf8_a<C, D>(x...); }
    template<class... A> static void l(A&&... x) { core::decode_utf8_l<C, D>(x...); }
    template<class... A> static bool tr(A&&... x) { return core::try_decode_utf8<C, D>(x...); }
    template<class... A> static void th(A&&... x) { core::decode_utf8<C, D>(x...); } };
struct U32to8 { using C = char32_t; using D = char;
    template<class... A> static void incr(A&&... a) { core::encode_utf8_incr<C, D>(a...); }
    template<class... A> static void a(A&&... x) { core::encode_utf8_a<C, D>(x...); }
    template<class... A> static void l(A&&... x) { core::encode_utf8_l<C, D>(x...); }
    template<class... A> static bool tr(A&&... x) { return core::try_encode_utf8<C, D>(x...); }
    template<class... A> static void th(A&&... x) { core::encode_utf8<C, D>(x...); } };
struct U16to32 { using C = char16_t; using D = char32_t;
    template<class... A> static void incr(A&&... a) { core::decode_utf16_incr<C, D>(a...); }
    template<class... A> static void a(A&&... x) { core::decode_utf16_a<C, D>(x...); }
    template<class... A> static void l(A&&... x) { core::decode_utf16_l<C, D>(x...); }
    template<class... A> static bool tr(A&&... x) { return core::try_decode_utf16<C, D>(x...); }
    template<class... A> static void th(A&&... x) { core::decode_utf16<C, D>(x...); } };
struct U32to16 { using C = char32_t; using D = char16_t;
    template<class... A> static void incr(A&&... a) { core::encode_utf16_incr<C, D>(a...); }
    template<class... A> static void a(A&&... x) { core::encode_utf16_a<C, D>(x...); }
    template<class... A> static void l(A&&... x) { core::encode_utf16_l<C, D>(x...); }
    template<class... A> static bool tr(A&&... x) { return core::try_encode_utf16<C, D>(x...); }
    template<class... A> static void th(A&&... x) { core::encode_utf16<C, D>(x...); } };
struct U8to16 { using C = char; using D = char16_t;
    template<class... A> static void incr(A&&... a) { core::utf8_to_utf16_incr<C, D>(a...); }
    template<class... A> static void a(A&&... x) { core::utf8_to_utf16_a<C, D>(x...); }
    template<class... A> static void l(A&&... x) { core::utf8_to_utf16_l<C, D>(x...); }
    template<class... A> static bool tr(A&&... x) { return core::try_utf8_to_utf16<C, D>(x...); }
    template<class... A> static void th(A&&... x) { core::utf8_to_utf16<C, D>(x...); } };
struct U16to8 { using C = char16_t; using D = char;
    template<class... A> static void incr(A&&... a) { core::utf16_to_utf8_incr<C, D>(a...); }
    template<class... A> static void a(A&&... x) { core::utf16_to_utf8_a<C, D>(x...); }
    template<class... A> static void l(A&&... x) { core::utf16_to_utf8_l<C, D>(x...); }
    template<class... A> static bool tr(A&&... x) { return core::try_utf16_to_utf8<C, D>(x...); }
    template<class... A> static void th(A&&... x) { core::utf16_to_utf8<C, D>(x...); } };

// Reference for a whole input: units produced, positions after each sequence, and how it ends
template<class M> struct Ref {
    typename M::D out[40]; std::size_t n_out = 0; std::size_t seqs = 0;
    std::size_t in_pos[12], out_pos[12]; // position after the i-th sequence
    Kind end = k_ok; std::size_t pos = 0;
};

template<class M> static inline void ref_run(Ref<M>& r, const typename M::C* in, std::size_t n)
{
    r.in_pos[0] = r.out_pos[0] = 0;
    while (r.pos < n) {
        Step s = ref_step(in + r.pos, n - r.pos);
        r.end = s.kind;
        if (s.kind != k_ok) return;
        r.pos += s.len;
        r.n_out += ref_put(s.cp, r.out + r.n_out);
        ++r.seqs; r.in_pos[r.seqs] = r.pos; r.out_pos[r.seqs] = r.n_out;
    }
}

// One call of the incremental coder on exactly `n` units and `cap` output units in tight heap blocks
template<class M> static inline void judge_incr(const typename M::C* data, std::size_t n, std::size_t cap)
{
    using C = typename M::C; using D = typename M::D;
    Ref<M> r; ref_run<M>(r, data, n);
    C* in = new C[n ? n : 1]; for (std::size_t i = 0; i < n; ++i) in[i] = data[i];
    D* out = new D[cap ? cap : 1];
    std::size_t io = 0, oo = 0; bool ex = false, err = false;
    M::incr(core::Span<const C>(in, n), core::Span<D>(out, cap), io, oo, ex, err);
    // the last sequence whose output fits
    std::size_t k = 0;
    while (k < r.seqs && r.out_pos[k + 1] <= cap) ++k;
    CHECKM(io == r.in_pos[k], "consumed input");
    CHECKM(oo == r.out_pos[k], "produced output");
    bool same = true;
    for (std::size_t i = 0; i < r.out_pos[k]; ++i) same = same & (out[i] == r.out[i]);
    CHECKM(same, "output units");
    if (k < r.seqs) { CHECKM(!ex && !err, "stops for lack of output space"); COVER("space"); }
    else if (r.end == k_ok) { CHECKM(ex, "input exhausted"); COVER("ok"); }
    else if (r.end == k_incomplete) { CHECKM(ex, "incomplete sequence at the end is not an error"); }
    else if (r.end == k_bad) { CHECKM(!ex && err, "error at invalid sequence"); COVER("bad"); }
    else CHECKM(ex || err, "incomplete invalid sequence does not look like lack of space");
    delete[] in; delete[] out;
}

template<class M> static inline void judge_buffer(const typename M::C* data, std::size_t n)
{
    using C = typename M::C; using D = typename M::D;
    Ref<M> r; ref_run<M>(r, data, n);
    C* in = new C[n ? n : 1]; for (std::size_t i = 0; i < n; ++i) in[i] = data[i];
    std::basic_string_view<C> str(in, n);
    bool good = r.end == k_ok;
    auto start = std::size_t(sym_choice("start", 2));
    core::Buffer<D> buf(start + std::size_t(sym_choice("room", 2)));
    if (start) buf[0] = D(0x55);
    std::size_t off = start, pos = 0;
    int mode = sym_choice("mode", 3);
    if (mode == 0) {
        bool ok = M::tr(str, buf, off);
        CHECKM(ok == good, "succeeds exactly on valid input");
        if (!ok) CHECKM(off == start, "offset unchanged on failure");
    }
    else if (mode == 1) {
        bool threw = false;
        try { M::th(str, buf, off); } catch (std::runtime_error&) { threw = true; }
        CHECKM(threw == !good, "throws exactly on invalid input");
    }
    else {
        M::a(str, pos, buf, off);
        CHECKM(pos == r.pos, "stops at the first invalid sequence");
        good = true;
    }
    if (good) {
        CHECKM(off == start + r.n_out, "output size");
        CHECKM(buf.size() >= off, "buffer holds the output");
        bool same = true;
        for (std::size_t i = 0; i < r.n_out; ++i) same = same & (buf[start + i] == r.out[i]);
        CHECKM(same, "output units");
        COVER("ok");
    }
    if (start) CHECKM(buf[0] == D(0x55), "what precedes the offset is kept");
    delete[] in;
}
