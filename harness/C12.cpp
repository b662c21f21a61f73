//@ entry pieces8 K=0..1 N=5|7 covers=ok,bad time=100|850
//@ bound pieces8: every byte string of up to N bytes (5 quick, 7 thorough), every division of the input in two pieces (unconsumed rest carried over), output space in pieces of 1 or 2 sequences; decoding and transcoding
//@ entry pieces16 K=0..1 N=3|5 covers=ok,bad
//@ bound pieces16: the same for every string of up to N UTF-16 code units (3 quick, 5 thorough)
//@ entry pieces32 K=0..1 N=3|4 covers=ok,bad
//@ bound pieces32: the same for encoding every string of up to N code points (3 quick, 4 thorough)
//@ entry resync N=6|10
//@ bound resync: every byte or UTF-16 string of up to N units and every starting offset
//@ entry lenient K=0..5 N=4|6 covers=ok,replaced time=100|850
//@ bound lenient: all six lenient coders on every input of up to N bytes, N-1 UTF-16 units or N-2 code points, output appended after 0 or 1 existing units
#include "unicode_ref.hpp"

template<class C> static void fill(C* p, std::size_t n)
{
    if constexpr (sizeof(C) == 1) irsym_bytes(p, n, "in");
    else if constexpr (sizeof(C) == 2) for (std::size_t i = 0; i < n; ++i) p[i] = C(sym<u16>("unit"));
    else for (std::size_t i = 0; i < n; ++i) p[i] = C(sym<u32>("cp"));
}

template<class M> static void pieces(int N)
{
    using C = typename M::C; using D = typename M::D;
    auto n = std::size_t(sym_choice("n", N + 1));
    C data[12]; fill(data, n);
    Ref<M> r; ref_run<M>(r, data, n);
    auto split = std::size_t(sym_choice("split", int(n) + 1));
    std::size_t piece = sizeof(D) == 4 ? 1 : sizeof(D) == 2 ? 2 : 4; piece *= std::size_t(1 + sym_choice("piece", 2));
    D got[40]; std::size_t k = 0, base = 0; // base: position in data of the current piece
    std::size_t lim = split; bool err = false, done = false;
    for (int steps = 0; !err && !done; ++steps) {
        CHECKM(steps < 20, "makes progress");
        std::size_t len = lim - base;
        C* in = new C[len ? len : 1]; for (std::size_t i = 0; i < len; ++i) in[i] = data[base + i];
        D* out = new D[piece];
        std::size_t io = 0, oo = 0; bool ex = false;
        M::incr(core::Span<const C>(in, len), core::Span<D>(out, piece), io, oo, ex, err);
        CHECKM(io <= len && oo <= piece, "stays within input and output");
        for (std::size_t i = 0; i < oo; ++i) got[k++] = out[i];
        base += io;
        delete[] in; delete[] out;
        if (ex) { err = false; if (lim == n) done = true; lim = n; }
    }
    CHECKM(base == r.pos, "same consumed input as in one call");
    CHECKM(k == r.n_out, "same amount of output as in one call");
    bool same = true; for (std::size_t i = 0; i < k; ++i) same = same & (got[i] == r.out[i]);
    CHECKM(same, "same output as in one call");
    if (err) { CHECKM(r.end == k_bad || r.end == k_short_bad, "error only at invalid input"); COVER("bad"); }
    else { CHECKM(r.end != k_bad, "no invalid input passed over"); COVER("ok"); }
}

HARNESS(pieces8) { if (param("K", 0) == 0) pieces<U8to32>(param("N", 5)); else pieces<U8to16>(param("N", 5)); }
HARNESS(pieces16) { if (param("K", 0) == 0) pieces<U16to32>(param("N", 3)); else pieces<U16to8>(param("N", 3)); }
HARNESS(pieces32) { if (param("K", 0) == 0) pieces<U32to8>(param("N", 3)); else pieces<U32to16>(param("N", 3)); }

static bool starts(char c) { auto v = static_cast<unsigned char>(c); return v < 0x80 || (v >= 0xC0 && v < 0xF8); }
static bool starts(char16_t c) { return c < 0xDC00 || c >= 0xE000; }

HARNESS(resync)
{
    auto n = std::size_t(sym_choice("n", param("N", 6) + 1));
    auto off = std::size_t(sym_choice("off", int(n) + 1));
    auto judge = [&](auto* data, auto fn) {
        std::size_t want = off; while (want < n && !starts(data[want])) ++want;
        std::size_t got = off; fn(got);
        CHECKM(got == want, "stops at the first unit that can begin a sequence");
    };
    if (sym_choice("coder", 2)) { char in[12]; fill(in, n); judge(in, [&](std::size_t& o) { core::resync_utf8<char>(core::Span<const char>(in, n), o); }); }
    else { char16_t in[12]; fill(in, n); judge(in, [&](std::size_t& o) { core::resync_utf16<char16_t>(core::Span<const char16_t>(in, n), o); }); }
}

template<class M> static void lenient(int N)
{
    using C = typename M::C; using D = typename M::D;
    auto n = std::size_t(sym_choice("n", N + 1));
    C* data = new C[n ? n : 1]; fill(data, n);
    // reference: every invalid stretch (an offending unit and the following units that cannot begin a sequence) -> one replacement
    D want[40]; std::size_t k = 0, pos = 0; bool replaced = false;
    while (pos < n) {
        Step s = ref_step(data + pos, n - pos);
        if (s.kind == k_ok) { k += ref_put(s.cp, want + k); pos += s.len; continue; }
        ++pos; replaced = true;
        if constexpr (sizeof(C) != 4) while (pos < n && !starts(data[pos])) ++pos;
        k += ref_put(u32(0xFFFD), want + k);
    }
    auto start = std::size_t(sym_choice("start", 2));
    core::Buffer<D> buf(start);
    if (start) buf[0] = D(0x55);
    std::size_t off = start;
    M::l(std::basic_string_view<C>(data, n), buf, off);
    CHECKM(off == start + k, "size of output");
    bool same = true; for (std::size_t i = 0; i < k; ++i) same = same & (buf[start + i] == want[i]);
    CHECKM(same, "valid parts kept and invalid stretches replaced");
    if (start) CHECKM(buf[0] == D(0x55), "what precedes the offset is kept");
    if (replaced) COVER("replaced"); else COVER("ok");
    delete[] data;
}

HARNESS(lenient)
{
    int N = param("N", 4);
    switch (param("K", 0)) {
        case 0: return lenient<U8to32>(N);
        case 1: return lenient<U8to16>(N);
        case 2: return lenient<U16to32>(N - 1);
        case 3: return lenient<U16to8>(N - 1);
        case 4: return lenient<U32to8>(N - 2);
        default: return lenient<U32to16>(N - 2);
    }
}
