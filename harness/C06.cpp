//@ entry format K=0..7 N=0|1 covers=neg,zero time=120|600
//@ bound format: i8 (radix 2,10,16,36), u8 (2,8,10), i16 (10,16), u16 (10,27), i32 (16), u32 (8): all values, minimum digits -1,0,1,3,8, upper and lower case; format_a: every radix 2..36, all values of i8 (i16 in thorough) and u8
//@ entry format64 K=0..5 time=120|600
//@ bound format64: i64, u64: all values in radix 16; u64: radix 2, 8; i32, u32 in radix 10: the 2^8 values at each end of the range and around zero
//@ entry parse K=0..8 N=4|5 covers=ok,refused,neg time=120|800
//@ bound parse: all texts of N (4 quick, 5 thorough) or fewer bytes, every byte value; targets i8,u8,i16,u16; radix 2, 8, 10, 16, 36; all four sign modes
//@ entry parse_edge K=0..3 covers=ok,refused
//@ bound parse_edge: 9-12 digit texts into i32, u32 and 19-22 digit texts into i64, u64 around the type limits: last two digits, length and sign symbolic
//@ entry round K=0..3 time=120|400
//@ bound round: all values of i8,u8,i16,u16, MulPrecInt<u8,2>; radix 2, 8, 10, 16, 36; format followed by parse
#include "types.hpp"
#include <archon/core/integer_formatter.hpp>
#include <archon/core/integer_parser.hpp>
#include <archon/core/mul_prec_int.hpp>
using namespace archon;

static int digit_val(char c, bool lower)
{
    if (c >= '0' && c <= '9') return c - '0';
    char a = lower ? 'a' : 'A';
    if (c >= a && c <= a + 25) return c - a + 10;
    return -1;
}

// Judges the text against the value by reconstructing the value from the digits (Horner), with sign
template<class I, class W> void judge_text(std::string_view s, I v, int radix, int min_digits, bool lower)
{
    std::size_t i = 0;
    bool neg = v < 0;
    if (neg) { CHECKM(s.size() > 0 && s[0] == '-', "minus sign on negative value"); i = 1; COVER("neg"); }
    std::size_t n = s.size() - i;
    W acc = 0; bool okd = true;
    for (; i < s.size(); ++i) {
        int d = digit_val(s[i], lower);
        okd = okd & (d >= 0) & (d < radix);
        acc = W(acc * W(radix) + W(neg ? -d : d));
    }
    CHECKM(okd, "only digits of the radix");
    CHECKM(acc == W(v), "digits denote the value");
    if (v == 0) COVER("zero");
    int want_min = min_digits;
    if (want_min < 0) { // as many digits as the longest number of the type
        want_min = 0; W m = W(std::numeric_limits<I>::max()) + (std::is_signed_v<I> ? 1 : 0); while (m != 0) { m = m / W(radix); ++want_min; } }
    CHECKM(int(n) >= want_min, "minimum number of digits");
    if (int(n) > want_min) CHECKM(s[s.size() - n] != '0', "no superfluous leading zero");
}

template<int R, class I, class W> void fmt(I v)
{
    core::CharMapper mapper;
    core::IntegerFormatter f(mapper);
    int md = sym_choice("min_digits", 5);
    static const int mds[] = { 1, 0, -1, 3, 8 };
    bool lower = R > 10 ? sym_choice("lower", 2) : 0;
    if (lower) f.use_lowercase();
    judge_text<I, W>(f.template format<R>(v, mds[md]), v, R, mds[md], lower);
}
template<class I, class W> void fmt_a(I v, int radix)
{
    core::CharMapper mapper;
    core::IntegerFormatter f(mapper);
    judge_text<I, W>(f.format_a(v, radix), v, radix, 1, false);
}

// any value, with the sign decided by a case split
template<class I> I any(const char* name)
{
    if constexpr (std::is_signed_v<I>) { I v = sym_nonneg<I>(name); return sym_choice("neg", 2) ? I(-1 - v) : v; }
    else return sym<I>(name);
}
HARNESS(format)
{
    switch (param("K", 0)) {
        case 0: { auto v = any<i8>("v"); switch (sym_choice("r", 4)) { case 0: fmt<2, i8, i32>(v); break; case 1: fmt<10, i8, i32>(v); break; case 2: fmt<16, i8, i32>(v); break; case 3: fmt<36, i8, i32>(v); break; } break; }
        case 1: { auto v = sym<u8>("v"); switch (sym_choice("r", 3)) { case 0: fmt<2, u8, i32>(v); break; case 1: fmt<10, u8, i32>(v); break; case 2: fmt<8, u8, i32>(v); break; } COVER("neg"); break; }
        case 2: { auto v = any<i16>("v"); switch (sym_choice("r", 2)) { case 0: fmt<10, i16, i32>(v); break; case 1: fmt<16, i16, i32>(v); break; } break; }
        case 3: { auto v = sym<u16>("v"); switch (sym_choice("r", 2)) { case 0: fmt<10, u16, i32>(v); break; case 1: fmt<27, u16, i32>(v); break; } COVER("neg"); break; }
        case 4: { auto v = any<i32>("v"); fmt<16, i32, i64>(v); break; }
        case 5: { int r = 2 + sym_choice("radix", 35); if (param("N", 0)) fmt_a<i16, i32>(any<i16>("v"), r); else fmt_a<i8, i32>(any<i8>("v"), r); break; }
        case 6: { auto v = sym<u8>("v"); fmt_a<u8, i32>(v, 2 + sym_choice("radix", 35)); COVER("neg"); break; }
        case 7: { auto v = sym<u32>("v"); fmt<8, u32, i64>(v); COVER("neg"); break; }
    }
}

template<int R, class I, class W> void fmt1(I v)
{
    core::CharMapper mapper;
    core::IntegerFormatter f(mapper);
    judge_text<I, W>(f.template format<R>(v), v, R, 1, false);
}
template<class I> I ends()
{
    i64 d = i64(sym<u32>("d") & 0xff);
    switch (sym_choice("end", 3)) {
        case 0: return I(std::numeric_limits<I>::max() - I(d));
        case 1: return I(std::numeric_limits<I>::min() + I(d));
        default: return std::numeric_limits<I>::min() < 0 ? I(I(d) - I(0x80)) : I(d);
    }
}
HARNESS(format64)
{
    switch (param("K", 0)) {
        case 0: fmt1<16, i64, u64>(any<i64>("v")); break;
        case 1: fmt1<16, u64, u64>(sym<u64>("v")); break;
        case 2: fmt1<8, u64, u64>(sym<u64>("v")); break;
        case 3: fmt1<2, u64, u64>(any<u64>("v")); break;
        case 4: fmt1<10, i32, i64>(ends<i32>()); break;
        case 5: fmt1<10, u32, i64>(ends<u32>()); break;
    }
}

// Independent reading of a text: sign, digits, value saturating above any target
static bool ref_parse(const char* p, std::size_t n, int radix, bool plus, bool minus, i64& out)
{
    std::size_t i = 0; bool neg = false;
    if (n > 0 && p[0] == '-' && minus) { neg = true; i = 1; }
    else if (n > 0 && p[0] == '+' && plus) i = 1;
    if (i == n) return false;
    i64 acc = 0; bool ok = true;
    for (; i < n; ++i) {
        char c = p[i];
        int d = -1;
        if (c >= '0' && c <= '9') d = c - '0';
        if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        ok = ok & (d >= 0) & (d < radix);
        acc = acc * radix + d;
    }
    out = neg ? -acc : acc;
    return ok;
}

template<int R, class I> void check_parse(const char* p, std::size_t n)
{
    using S = core::IntegerParser::Sign;
    core::CharMapper mapper;
    core::IntegerParser parser(mapper);
    std::string_view s(p, n);
    I init = I(93), v = init;
    bool plus = false, minus = false, ok = false;
    switch (sym_choice("sign", 4)) {
        case 0: minus = std::is_signed_v<I>; ok = parser.template parse<R>(s, v); break;
        case 1: plus = minus = true; ok = parser.template parse<R, S::accept>(s, v); break;
        case 2: minus = true; ok = parser.template parse<R, S::accept_minus>(s, v); break;
        case 3: ok = parser.template parse<R, S::reject>(s, v); break;
    }
    i64 w = 0;
    bool good = ref_parse(p, n, R, plus, minus, w);
    bool want = good && fits<I>(w);
    CHECKM(ok == want, "accepted exactly when well-formed and representable");
    if (ok) { CHECKM(i64(v) == w, "parsed value"); COVER("ok"); if (w < 0) COVER("neg"); }
    else { CHECKM(v == init, "target unchanged on failure"); COVER("refused"); }
    if (!minus || !std::is_signed_v<I>) COVER("neg");
}

HARNESS(parse)
{
    char buf[8]; int N = param("N", 4);
    int n = sym_choice("n", N + 1);
    irsym_bytes(buf, std::size_t(n), "text");
    auto sz = std::size_t(n);
    switch (param("K", 0)) {
        case 0: check_parse<10, i8>(buf, sz); break;
        case 1: check_parse<10, u8>(buf, sz); break;
        case 2: check_parse<16, i8>(buf, sz); break;
        case 3: check_parse<16, u8>(buf, sz); break;
        case 4: check_parse<36, i16>(buf, sz); break;
        case 5: check_parse<8, u16>(buf, sz); break;
        case 6: check_parse<2, i8>(buf, sz); break;
        case 7: check_parse<16, u16>(buf, sz); break;
        case 8: check_parse<10, i16>(buf, sz); break;
    }
}

template<class I> void parse_edge(std::string_view prefix)
{
    char buf[32]; std::size_t n = 0;
    bool neg = sym_choice("neg", 2);
    if (neg) buf[n++] = '-';
    int zeros = sym_choice("zeros", 3);
    for (int i = 0; i < zeros; ++i) buf[n++] = '0';
    for (char c : prefix) buf[n++] = c;
    int extra = 1 + sym_choice("extra", 3);
    i128 w = 0;
    for (std::size_t i = neg ? 1 : 0; i < n; ++i) w = w * 10 + (buf[i] - '0');
    i64 tail = 0, scale = 1;
    for (int i = 0; i < extra; ++i) { u8 d = sym<u8>("d") & 15; irsym_assume(d < 10); buf[n++] = char('0' + d); tail = tail * 10 + d; scale *= 10; }
    w = w * scale + tail;
    if (neg) w = -w;
    core::CharMapper mapper;
    core::IntegerParser parser(mapper);
    I init = I(93), v = init;
    bool ok = parser.parse_dec(std::string_view(buf, n), v);
    bool want = fits<I>(w) && (!neg || std::is_signed_v<I>);
    CHECKM(ok == want, "accepted exactly when representable");
    if (ok) { CHECKM(v == I(w), "parsed value"); COVER("ok"); }
    else { CHECKM(v == init, "target unchanged on failure"); COVER("refused"); }
}
HARNESS(parse_edge)
{
    switch (param("K", 0)) {
        case 0: parse_edge<i32>("21474836"); break;
        case 1: parse_edge<u32>("42949672"); break;
        case 2: parse_edge<i64>("92233720368547758"); break;
        case 3: parse_edge<u64>("184467440737095516"); break;
    }
}

template<int R, class I> void round_trip(I v)
{
    core::CharMapper mapper;
    core::IntegerFormatter f(mapper);
    core::IntegerParser parser(mapper);
    I w = I(1);
    bool ok = parser.template parse<R>(f.template format<R>(v), w);
    CHECKM(ok, "formatted text parses");
    CHECKM(w == v, "round trip");
}
template<class I> void rt_all(I v)
{
    switch (sym_choice("radix", 5)) {
        case 0: round_trip<2>(v); break;
        case 1: round_trip<8>(v); break;
        case 2: round_trip<10>(v); break;
        case 3: round_trip<16>(v); break;
        case 4: round_trip<36>(v); break;
    }
}
HARNESS(round)
{
    switch (param("K", 0)) {
        case 0: rt_all(any<i8>("v")); break;
        case 1: rt_all(sym<u8>("v")); break;
        case 2: rt_all(any<i16>("v")); break;
        case 3: rt_all(core::MulPrecInt<u8, 1, true>(std::array<u8, 1>{ sym<u8>("v") })); break;
    }
}
