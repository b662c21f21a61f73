//@ link archon/core/base64.cpp
//@ entry encode K=0..7 N=5|8 covers=fit,nofit
//@ bound encode: every byte string of 0..N bytes (5 quick, 8 thorough), both alphabets, padding on/off, line size 0,1,3,4,8; every output buffer size from 0 to the advertised size
//@ entry incremental K=0..3 N=4|6 covers=done time=100|600
//@ bound incremental: every byte string of 0..N bytes (4 quick, 6 thorough), every split of the input in two pieces, output space given in pieces of 1, 2 or 3 bytes or all at once, line size 0, 3, 4, padding on/off
//@ entry round N=7|10
//@ bound round: every byte string of 0..N bytes (7 quick, 10 thorough); encoding then decoding, both alphabets, padding on/off, line size 0 and 5
//@ entry size W=40 covers=exact
//@ bound size: data sizes in windows near 0 and near the representability limit (case split), line size 0, 1, 2, 3, 4, 60, 64, 72, 76: the advertised size is the exact size or a length_error when not representable
#include "types.hpp"
#include <vector>
#include <stdexcept>
#include <archon/core/base64.hpp>
using namespace archon;
namespace b64 = core::base64;

static std::size_t ref_encode(const unsigned char* p, std::size_t n, b64::EncodeConfig c, char* out)
{
    static const char std_chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    static const char url_chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    const char* tab = c.url_safe_variant ? url_chars : std_chars;
    std::size_t k = 0, line = 0;
    auto put = [&](char ch) { out[k++] = ch; if (c.line_size && ++line == c.line_size) { out[k++] = '\n'; line = 0; } };
    for (std::size_t i = 0; i < n; i += 3) {
        std::size_t m = n - i < 3 ? n - i : 3;
        unsigned b = unsigned(p[i]) << 16;
        if (m > 1) b |= unsigned(p[i + 1]) << 8;
        if (m > 2) b |= unsigned(p[i + 2]);
        for (std::size_t j = 0; j < 4; ++j) {
            if (j <= m) put(tab[(b >> (18 - 6 * j)) & 63]);
            else if (c.use_padding) put('=');
        }
    }
    if (line > 0) out[k++] = '\n';
    return k;
}

HARNESS(encode)
{
    int K = param("K", 0), N = param("N", 5);
    b64::EncodeConfig c;
    c.url_safe_variant = K & 1; c.use_padding = K & 2;
    static const int lines[] = { 0, 3, 1, 4, 8 };
    c.line_size = std::size_t(lines[(K & 4) ? 2 + sym_choice("line", 3) : sym_choice("line", 2)]);
    auto n = std::size_t(sym_choice("n", N + 1));
    unsigned char data[16]; char want[64];
    irsym_bytes(data, n, "data");
    std::size_t size = ref_encode(data, n, c, want);
    CHECKM(b64::encode_buffer_size(n, c) == size, "advertised size is the exact size");
    auto cap = std::size_t(sym_choice("cap", int(size) + 2));
    if (cap == size + 1 && size == 0) irsym_stop();
    char* buf = new char[cap ? cap : 1];
    std::size_t got = 777; bool insuf = false;
    bool ok = b64::encode({ reinterpret_cast<char*>(data), n }, { buf, cap }, got, insuf, c);
    CHECKM(ok == (cap >= size), "succeeds exactly when the buffer is large enough");
    if (ok) {
        CHECKM(got == size, "encoded size");
        bool same = true;
        for (std::size_t i = 0; i < size; ++i) same = same & (buf[i] == want[i]);
        CHECKM(same, "encoded text");
        CHECKM(!insuf, "no space failure reported on success");
        COVER("fit");
    }
    else { CHECKM(insuf, "lack of space reported"); CHECKM(got == 777, "size untouched on failure"); COVER("nofit"); }
    delete[] buf;
}

HARNESS(incremental)
{
    int K = param("K", 0), N = param("N", 4);
    b64::EncodeConfig c;
    c.use_padding = K & 1;
    static const int lines[] = { 0, 3, 4 };
    c.line_size = (K & 2) ? std::size_t(lines[1 + sym_choice("line", 2)]) : 0;
    auto n = std::size_t(sym_choice("n", N + 1));
    unsigned char data[16]; char want[64];
    irsym_bytes(data, n, "data");
    std::size_t size = ref_encode(data, n, c, want);
    auto split = std::size_t(sym_choice("split", int(n) + 1));
    auto piece = std::size_t(1 + sym_choice("piece", 4)); if (piece == 4) piece = 64;
    b64::IncrementalEncoder enc(c);
    const char* p = reinterpret_cast<const char*>(data);
    const char* i = p;
    char out[64]; std::size_t k = 0;
    bool done = false;
    for (int steps = 0; !done; ++steps) {
        CHECKM(steps < 64, "makes progress");
        bool first = i < p + split;
        const char* lim = first ? p + split : p + n;
        bool end = !first && steps > 0 ? true : !first;
        char* tmp = new char[piece]; char* b = tmp;
        const char* i0 = i;
        done = enc.encode(i, lim, end, b, tmp + piece);
        CHECKM(i >= i0 && i <= lim && b >= tmp && b <= tmp + piece, "stays within input and output");
        if (!done) CHECKM(b == tmp + piece || (i == lim && !end), "stops early only for lack of space or input");
        for (char* q = tmp; q != b; ++q) { CHECKM(k < 60, "bounded output"); out[k++] = *q; }
        delete[] tmp;
    }
    CHECKM(i == p + n, "all input consumed");
    CHECKM(k == size, "same size as in one piece");
    bool same = true;
    for (std::size_t j = 0; j < size && j < k; ++j) same = same & (out[j] == want[j]);
    CHECKM(same, "same text as in one piece");
    COVER("done");
}

HARNESS(round)
{
    int N = param("N", 7);
    b64::EncodeConfig c;
    c.url_safe_variant = sym_choice("url", 2); c.use_padding = sym_choice("pad", 2); c.line_size = sym_choice("line", 2) ? 5 : 0;
    auto n = std::size_t(sym_choice("n", N + 1));
    char data[16];
    irsym_bytes(data, n, "data");
    core::Buffer<char> buf, buf2;
    std::string_view text = b64::encode<char>({ data, n }, buf, c);
    b64::DecodeConfig d;
    d.url_safe_variant = c.url_safe_variant; d.allow_whitespace = c.line_size != 0;
    d.padding = c.use_padding ? b64::DecodeConfig::require : b64::DecodeConfig::reject;
    core::Span<const char> r = b64::decode<char>(text, buf2, d);
    CHECKM(r.size() == n, "round trip size");
    bool same = true;
    for (std::size_t i = 0; i < n; ++i) same = same & (r[i] == data[i]);
    CHECKM(same, "round trip");
}

HARNESS(size)
{
    // Data sizes near zero, and near each point where a step of the size computation stops being representable
    b64::EncodeConfig c; c.use_padding = sym_choice("pad", 2);
    static const int lines[] = { 0, 1, 2, 3, 4, 60, 64, 72, 76 };
    c.line_size = std::size_t(lines[sym_choice("line", 9)]);
    std::size_t lim = ~std::size_t(0), line = c.line_size;
    std::size_t max_text = line == 0 ? lim : lim - lim / (line + 1); // about the largest text that leaves room for line breaks
    std::size_t base = sym_choice("window", 2) ? max_text / 4 * 3 : 0;
    base = base / (12 * (line ? line : 1)) * (12 * (line ? line : 1));
    if (base != 0) base -= 12 * (line ? line : 1);
    int W = param("W", 8);
    auto q = std::size_t(sym_choice("q", W)); auto r = std::size_t(sym_choice("r", 3));
    if (base > lim - (q * 3 + r)) irsym_stop();
    std::size_t n = base + q * 3 + r;
    // text size = base/3*4 + q*4 + (r == 0 ? 0 : pad ? 4 : r + 1), computed in 128 bits
    u128 want = u128(base / 3) * 4 + q * 4 + (r == 0 ? 0 : c.use_padding ? 4 : r + 1);
    if (line != 0) want += want / line + (want % line != 0);
    std::size_t got = 0; bool threw = false;
    try { got = b64::encode_buffer_size(n, c); } catch (std::length_error&) { threw = true; }
    CHECKM(threw == (want > lim), "length_error exactly when the size is not representable");
    if (!threw) { CHECKM(got == std::size_t(want), "exact size"); COVER("exact"); } else COVER("error");
}
