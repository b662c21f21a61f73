//@ link archon/core/base64.cpp
//@ entry decode K=0..11 N=4|6 covers=ok,bad,nospace time=100|850
//@ bound decode: every text of 0..N bytes (4 quick, 6 thorough) over all byte values, both alphabets, all padding rules, whitespace allowed or not; every output buffer size up to the advertised one
//@ entry strict K=0..2 N=5|6 covers=ok,bad,nospace time=100|850
//@ bound strict: same as decode, N=5 quick, 6 thorough, standard alphabet, no whitespace
//@ entry incremental K=0..5 N=3|5 covers=ok,bad time=100|800
//@ bound incremental: every text of 0..N bytes (3 quick, 5 thorough), every split in two input pieces, output space in pieces of 1, 2 or all at once; standard alphabet
//@ entry longer K=0..2 N=12|20 covers=ok
//@ bound longer: every text of N-3..N alphabet characters (N=12 quick, 20 thorough), then 0 to 3 padding characters
//@ entry throwing N=4|5 covers=ok,bad
//@ bound throwing: the throwing variant on every text of 0..N bytes (4 quick, 5 thorough)
#include "types.hpp"
#include <archon/core/base64.hpp>
using namespace archon;
namespace b64 = core::base64;

static int char_val(unsigned char c, bool url)
{
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == (url ? '-' : '+')) return 62;
    if (c == (url ? '_' : '/')) return 63;
    return -1;
}

struct Ref { unsigned char out[16]; std::size_t n = 0; bool ok = false; std::size_t pos = 0; };

// RFC 4648 with the configured rules. `n` counts the bytes denoted by what precedes the error, `pos` is the error position.
static Ref ref_decode(const unsigned char* p, std::size_t n, b64::DecodeConfig c)
{
    Ref r;
    int group[4]; int g = 0, pads = 0; bool finished = false;
    auto flush = [&](int m) { // m characters -> m-1 bytes
        unsigned b = 0; for (int i = 0; i < 4; ++i) b = (b << 6) | unsigned(i < m ? group[i] : 0);
        for (int i = 0; i < m - 1; ++i) r.out[r.n++] = static_cast<unsigned char>(b >> (16 - 8 * i));
    };
    auto tail_ok = [&](int m) { return (m == 2 && (group[1] & 15) == 0) || (m == 3 && (group[2] & 3) == 0); };
    for (std::size_t i = 0; i < n; ++i) {
        r.pos = i;
        unsigned char ch = p[i];
        if (ch == ' ' || ch == '\t' || ch == '\n') { if (c.allow_whitespace) continue; return r; }
        if (ch == '=') {
            if (c.padding == b64::DecodeConfig::reject || finished || !tail_ok(g)) return r;
            if (g + ++pads == 4) { flush(g); g = 0; finished = true; }
            continue;
        }
        int v = char_val(ch, c.url_safe_variant);
        if (v < 0 || pads > 0) return r;
        group[g++] = v;
        if (g == 4) { flush(4); g = 0; }
    }
    r.pos = n;
    if (g == 0) { r.ok = true; return r; }
    if (pads > 0 || c.padding == b64::DecodeConfig::require || !tail_ok(g)) return r;
    flush(g); r.ok = true;
    return r;
}

static b64::DecodeConfig config(int K)
{
    b64::DecodeConfig c; c.url_safe_variant = K & 1; c.allow_whitespace = K & 2;
    c.padding = b64::DecodeConfig::Padding(K / 4); return c;
}

static void judge(const unsigned char* text, std::size_t n, b64::DecodeConfig c)
{
    Ref r = ref_decode(text, n, c);
    auto cap = std::size_t(sym_choice("cap", int(b64::decode_buffer_size(n)) + 1));
    char* buf = new char[cap ? cap : 1];
    std::size_t got = 777; bool insuf = false;
    bool ok = b64::decode({ reinterpret_cast<const char*>(text), n }, { buf, cap }, got, insuf, c);
    if (r.n > cap) {
        CHECKM(!ok, "fails when the output does not fit"); CHECKM(insuf, "lack of space reported"); COVER("nospace");
    }
    else if (r.ok) {
        CHECKM(ok, "well-formed text is accepted");
        CHECKM(got == r.n, "decoded size");
        bool same = true; for (std::size_t i = 0; i < r.n; ++i) same = same & (static_cast<unsigned char>(buf[i]) == r.out[i]);
        CHECKM(same, "decoded bytes"); COVER("ok");
    }
    else { CHECKM(!ok, "malformed text is rejected"); CHECKM(!insuf, "malformed text is not reported as lack of space"); COVER("bad"); }
    if (!ok) CHECKM(got == 777, "size untouched on failure");
    CHECKM(r.n <= b64::decode_buffer_size(n), "advertised buffer size suffices");
    delete[] buf;
}

HARNESS(decode)
{
    auto n = std::size_t(sym_choice("n", param("N", 5) + 1));
    unsigned char text[16]; irsym_bytes(text, n, "text");
    judge(text, n, config(param("K", 0)));
}

HARNESS(strict)
{
    auto n = std::size_t(sym_choice("n", param("N", 5) + 1));
    unsigned char text[16]; irsym_bytes(text, n, "text");
    judge(text, n, config(4 * param("K", 0)));
}

HARNESS(longer)
{
    // Well-formed but for the number of characters, padding, and the unused bits of the last group
    static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    int N = param("N", 8);
    auto n = std::size_t(N - sym_choice("n", 4));
    auto pads = std::size_t(sym_choice("pads", 4));
    unsigned char vals[24]; irsym_bytes(vals, n, "vals");
    char text[32];
    for (std::size_t i = 0; i < n; ++i) { vals[i] &= 63; text[i] = tab[vals[i]]; }
    for (std::size_t i = 0; i < pads; ++i) text[n + i] = '=';
    b64::DecodeConfig c; c.padding = b64::DecodeConfig::Padding(param("K", 0));
    std::size_t rest = n % 4;
    std::size_t want = n / 4 * 3 + (rest == 0 ? 0 : rest - 1);
    bool form = pads == 0 ? (rest == 0 || (rest > 1 && c.padding != b64::DecodeConfig::require)) :
        (c.padding != b64::DecodeConfig::reject && rest + pads == 4 && rest > 1);
    bool ok_bits = rest == 2 ? (vals[n - 1] & 15) == 0 : rest == 3 ? (vals[n - 1] & 3) == 0 : true;
    char* buf = new char[n]; std::size_t got = 777; bool insuf = false;
    bool ok = b64::decode({ text, n + pads }, { buf, n }, got, insuf, c);
    CHECKM(ok == (form & ok_bits), "accepted exactly when well-formed");
    CHECKM(!insuf, "no lack of space reported");
    if (ok) {
        CHECKM(got == want, "decoded size");
        bool same = true;
        for (std::size_t i = 0; i < want; ++i) {
            std::size_t g = i / 3 * 4; unsigned b = 0;
            for (std::size_t j = 0; j < 4; ++j) b = (b << 6) | (g + j < n ? vals[g + j] : 0u);
            same = same & (static_cast<unsigned char>(buf[i]) == static_cast<unsigned char>(b >> (16 - 8 * (i % 3))));
        }
        CHECKM(same, "decoded bytes"); COVER("ok");
    }
    delete[] buf;
}

HARNESS(incremental)
{
    auto n = std::size_t(sym_choice("n", param("N", 4) + 1));
    unsigned char text[16]; irsym_bytes(text, n, "text");
    b64::DecodeConfig c = config(2 * param("K", 0));
    Ref r = ref_decode(text, n, c);
    auto split = std::size_t(sym_choice("split", int(n) + 1));
    auto piece = std::size_t(1 + sym_choice("piece", 3)); if (piece == 3) piece = 32;
    b64::IncrementalDecoder dec(c);
    const char* p = reinterpret_cast<const char*>(text); const char* i = p;
    char out[32]; std::size_t k = 0; bool done = false, bad = false;
    for (int steps = 0; !done && !bad; ++steps) {
        CHECKM(steps < 32, "makes progress");
        bool first = i < p + split;
        const char* lim = first ? p + split : p + n;
        char* tmp = new char[piece]; char* b = tmp; const char* i0 = i;
        done = dec.decode(i, lim, !first, b, tmp + piece);
        CHECKM(i >= i0 && i <= lim && b >= tmp && b <= tmp + piece, "stays within input and output");
        bool full = b == tmp + piece;
        for (char* q = tmp; q != b; ++q) out[k++] = *q;
        delete[] tmp;
        if (!done && !full && !(first && i == lim)) bad = true; // neither input nor output space was lacking
    }
    CHECKM(done == r.ok, "accepted exactly when well-formed");
    CHECKM(k == r.n, "size of output");
    bool same = true; for (std::size_t j = 0; j < k && j < r.n; ++j) same = same & (static_cast<unsigned char>(out[j]) == r.out[j]);
    CHECKM(same, "same bytes as in one piece");
    CHECKM(std::size_t(i - p) == r.pos || (r.ok && i == p + n), "stops at the first offending character");
    if (done) COVER("ok"); else COVER("bad");
}

HARNESS(throwing)
{
    auto n = std::size_t(sym_choice("n", param("N", 4) + 1));
    unsigned char text[16]; irsym_bytes(text, n, "text");
    b64::DecodeConfig c; c.padding = b64::DecodeConfig::Padding(sym_choice("padding", 3));
    Ref r = ref_decode(text, n, c);
    core::Buffer<char> buf; bool threw = false; core::Span<const char> s(buf.data(), std::size_t(0));
    try { s = b64::decode<char>(std::string_view(reinterpret_cast<const char*>(text), n), buf, c); } catch (std::runtime_error&) { threw = true; }
    CHECKM(threw == !r.ok, "throws exactly on malformed text");
    if (!threw) {
        CHECKM(s.size() == r.n, "decoded size");
        bool same = true; for (std::size_t j = 0; j < r.n; ++j) same = same & (static_cast<unsigned char>(s[j]) == r.out[j]);
        CHECKM(same, "decoded bytes"); COVER("ok");
    }
    else COVER("bad");
}
