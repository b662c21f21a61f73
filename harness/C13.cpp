//@ link archon/core/newline_codec.cpp
//@ entry decode N=6|9 covers=space,all,held,tail time=100|850
//@ bound decode: every byte string of up to N bytes (6 quick, 9 thorough), every buffer size up to N, with 0 or 1 preceding bytes and buffer slots, end of data or not
//@ entry encode N=7|10 covers=space,all
//@ bound encode: every byte string of up to N bytes, every buffer size up to 2N
//@ entry roundtrip N=8|14
//@ bound roundtrip: encode then decode, every byte string of up to N bytes (8 quick, 14 thorough)
//@ entry pieces N=6|8 time=100|850
//@ bound pieces: decoding and encoding with every division of the data in two pieces (unconsumed rest carried over) and buffer space in pieces of 1, 2 or 3 (encoding: 2 or 3), every byte string of up to N bytes (6 quick, 8 thorough)
//@ entry simul N=7|10 covers=yes,no
//@ bound simul: every byte string of up to N bytes, every amount of buffer space up to N + 1
#include "types.hpp"
#include <archon/core/newline_codec.hpp>
using namespace archon;
namespace nc = core::newline_codec;

// Characters decoded from p[0..n) with the position after each and whether each is a decoded newline pair
struct Dec { char ch[32]; std::size_t pos[33]; bool nl[32]; std::size_t n = 0; bool held = false; };
static Dec ref_decode(const char* p, std::size_t n, bool end)
{
    Dec d; d.pos[0] = 0;
    for (std::size_t i = 0; i < n;) {
        if (p[i] == '\r' && i + 1 == n && !end) { d.held = true; break; }
        bool pair = p[i] == '\r' && i + 1 < n && p[i + 1] == '\n';
        d.ch[d.n] = pair ? '\n' : p[i]; d.nl[d.n] = pair; i += pair ? 2 : 1; d.pos[++d.n] = i;
    }
    return d;
}

HARNESS(decode)
{
    auto n = std::size_t(sym_choice("n", param("N", 7) + 1)), cap = std::size_t(sym_choice("cap", int(n) + 1));
    auto pre = std::size_t(sym_choice("pre", 2));
    bool end = sym_choice("end", 2);
    char* data = new char[pre + n + 1]; irsym_bytes(data + pre, n, "data"); if (pre) data[0] = '\r'; data[pre + n] = '\n';
    char* tight = new char[pre + n ? pre + n : 1]; for (std::size_t i = 0; i < pre + n; ++i) tight[i] = data[i];
    char* buf = new char[pre + cap ? pre + cap : 1]; if (pre) buf[0] = 'x';
    Dec d = ref_decode(data + pre, n, end);
    std::size_t io = pre, bo = pre, clear = 5, co = 1000;
    nc::decode(core::Span<const char>(tight, pre + n), io, end, core::Span<char>(buf, pre + cap), bo, co, clear);
    std::size_t k = d.n < cap ? d.n : cap, want_clear = 5;
    CHECKM(bo == pre + k, "number of characters");
    CHECKM(io == pre + d.pos[k], "consumed bytes");
    bool same = true; for (std::size_t i = 0; i < k; ++i) { same = same & (buf[pre + i] == d.ch[i]); if (d.nl[i]) want_clear = co + pre + i + 1; }
    CHECKM(same, "decoded characters");
    CHECKM(clear == want_clear, "position after the last decoded newline");
    if (pre) CHECKM(buf[0] == 'x', "earlier buffer contents kept");
    if (k < d.n) COVER("space"); else if (d.held) COVER("held"); else COVER("all");
    if (n > 0 && end && data[pre + n - 1] == '\r') COVER("tail");
    delete[] data; delete[] tight; delete[] buf;
}

HARNESS(encode)
{
    auto n = std::size_t(sym_choice("n", param("N", 7) + 1)), cap = std::size_t(sym_choice("cap", int(2 * n) + 1));
    char* data = new char[n ? n : 1]; irsym_bytes(data, n, "data");
    char* buf = new char[cap ? cap : 1];
    std::size_t io = 0, bo = 0, i = 0, j = 0; char want[32];
    nc::encode(core::Span<const char>(data, n), io, core::Span<char>(buf, cap), bo);
    for (; i < n; ++i) {
        if (data[i] == '\n') { if (cap - j < 2) break; want[j++] = '\r'; want[j++] = '\n'; }
        else { if (cap == j) break; want[j++] = data[i]; }
    }
    CHECKM(io == i, "consumed characters"); CHECKM(bo == j, "produced bytes");
    bool same = true; for (std::size_t k = 0; k < j; ++k) same = same & (buf[k] == want[k]);
    CHECKM(same, "encoded bytes");
    if (i < n) COVER("space"); else COVER("all");
    delete[] data; delete[] buf;
}

HARNESS(roundtrip)
{
    auto n = std::size_t(param("N", 8));
    char text[16], enc[32], dec[32]; irsym_bytes(text, n, "text");
    std::size_t io = 0, bo = 0; nc::encode(core::Span<const char>(text, n), io, core::Span<char>(enc, std::size_t(32)), bo);
    CHECKM(io == n, "encoded completely");
    std::size_t i2 = 0, b2 = 0, clear = 0; nc::decode(core::Span<const char>(enc, bo), i2, true, core::Span<char>(dec, std::size_t(32)), b2, 0, clear);
    CHECKM(i2 == bo && b2 == n, "decoded completely to the same size");
    bool same = true; for (std::size_t i = 0; i < n; ++i) same = same & (dec[i] == text[i]);
    CHECKM(same, "original text restored");
}

HARNESS(pieces)
{
    auto n = std::size_t(sym_choice("n", param("N", 6) + 1)), split = std::size_t(sym_choice("split", int(n) + 1));
    char data[16]; irsym_bytes(data, n, "data");
    bool enc = sym_choice("encode", 2);
    auto piece = std::size_t(enc ? 2 + sym_choice("piece", 2) : 1 + sym_choice("piece", 3));
    char want[32], got[40]; std::size_t m = 0, k = 0;
    if (enc) { for (std::size_t i = 0; i < n; ++i) { if (data[i] == '\n') want[m++] = '\r'; want[m++] = data[i]; } }
    else { Dec d = ref_decode(data, n, true); m = d.n; for (std::size_t i = 0; i < m; ++i) want[i] = d.ch[i]; }
    std::size_t base = 0, lim = split;
    for (int steps = 0; ; ++steps) {
        CHECKM(steps < 40, "makes progress");
        char tmp[4]; std::size_t io = 0, bo = 0, clear = 0;
        core::Span<const char> in(data + base, lim - base); core::Span<char> out(tmp, piece);
        if (enc) nc::encode(in, io, out, bo); else nc::decode(in, io, lim == n, out, bo, 0, clear);
        CHECKM(io <= lim - base && bo <= piece, "stays within data and buffer");
        for (std::size_t i = 0; i < bo; ++i) got[k++] = tmp[i];
        base += io;
        if (base == lim && lim == n) break;
        if (lim != n && (base == lim || io == 0)) lim = n;
    }
    CHECKM(k == m, "same size as in one piece");
    bool same = true; for (std::size_t i = 0; i < m && i < k; ++i) same = same & (got[i] == want[i]);
    CHECKM(same, "same result as in one piece");
}

HARNESS(simul)
{
    auto n = std::size_t(sym_choice("n", param("N", 7) + 1)), m = std::size_t(sym_choice("m", int(n) + 2));
    char* data = new char[n ? n : 1]; irsym_bytes(data, n, "data");
    Dec d = ref_decode(data, n, true);
    std::size_t off = 0;
    bool ok = nc::simul_decode(core::Span<const char>(data, n), off, m);
    CHECKM(ok == (m <= d.n), "whether enough data is available");
    CHECKM(off == (ok ? d.pos[m] : 0), "consumed bytes");
    if (ok) COVER("yes"); else COVER("no");
    delete[] data;
}
