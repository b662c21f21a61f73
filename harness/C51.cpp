//@ link archon/core/file.cpp
//@ link archon/core/text_file_error.cpp
//@ rt ios.cpp
//@ entry add1 R=0..7 covers=under,over,bin time=60|300
//@ entry add2 R=0..7 covers=two,split time=100|600
//@ entry empty covers=empty
//@ entry dbl R=0..3 covers=under,over,bin time=60|300
//@ bound add1: one value, every single-precision value including infinities and not-a-numbers, in eight concrete ranges with 1 to 5 bins
//@ bound add2: any single-precision value before or after one of five concrete values (below, above, at a limit, in a bin)
//@ bound dbl: one double-precision value with 12 significant bits, any sign and exponent, four ranges
//@ assume in ranges that start below zero, values less than 2^-20 below a bin limit are left out (they can round to the limit)
//@ assume the counts are read from the printed histogram; what printed floating-point numbers look like is not modelled
#include "sym.hpp"
#include <archon/core/histogram.hpp>
using namespace archon;
struct Range { double from, to; int n; };
// bin limits are exact in the component type
static const Range ranges[8] = { { 0, 4, 4 }, { 1, 3, 4 }, { -2, 2, 2 }, { -1, 0, 1 }, { 0, 0.5, 2 }, { 256, 1280, 4 }, { -8, -4, 1 }, { 0, 5, 5 } };
static bool digit(char c) { return c >= '0' && c <= '9'; }
// counts in the order of printed rows
static int counts(std::string_view s, long* out, int max)
{
    int n = 0; std::size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] != ':') ++i; if (i == s.size()) break; ++i; while (i < s.size() && s[i] == ' ') ++i;
        long v = 0; CHECKM(i < s.size() && digit(s[i]), "a count is printed"); while (i < s.size() && digit(s[i])) v = v * 10 + (s[i++] - '0');
        CHECKM(n < max, "as many rows as bins"); out[n++] = v; while (i < s.size() && s[i] != '\n') ++i;
    }
    return n;
}
template<class T> static void run(const Range& r, const T* v, int num)
{
    core::Histogram<T> h(T(r.from), T(r.to), std::size_t(r.n)); long ref[8] = {}; T w = T((r.to - r.from) / r.n); bool spread = false; int last = -1;
    for (int k = 0; k < num; ++k) {
        T x = v[k]; int b = r.n + 1; // not-a-number and too small: first row; too large: last row
        if (!(x >= T(r.from))) { b = 0; COVER("under"); } else if (x >= T(r.to)) { COVER("over"); } else { COVER("bin"); for (int i = 0; i < r.n; ++i) if (x < T(r.from) + T(i + 1) * w) { b = i + 1; break; } if (r.from < 0) for (int i = 1; i <= r.n; ++i) { T lim = T(r.from) + T(i) * w; irsym_assume(!(x < lim && x > lim - T(1.0 / (1 << 20)))); } }
        ref[b] += 1; spread |= (last >= 0 && b != last); last = b;
        h.add(x);
    }
    if (num == 2) COVER("two"); if (spread) COVER("split");
    core::SeedMemoryOutputStream out; h.print(out, 40, true); long got[8]; int n = counts(out.view(), got, 8);
    CHECKM(n == r.n + 2, "one row per bin and two more"); for (int i = 0; i < n; ++i) CHECKM(got[i] == ref[i], "values counted in their bins");
}
HARNESS(add1) { float v = sym<float>("v"); run<float>(ranges[param("R", 0)], &v, 1); }
HARNESS(add2)
{
    const Range& r = ranges[param("R", 0)]; float w = float((r.to - r.from) / r.n), c[5] = { float(r.from) - 1, float(r.from), float(r.to) - w / 2, float(r.to), float(r.from) + w / 2 };
    int k = sym_choice("other", 5); float v[2]; bool first = sym_choice("first", 2); v[first] = sym<float>("v"); v[!first] = c[k]; run<float>(r, v, 2);
}
HARNESS(empty) { int k = sym_choice("r", 8); COVER("empty"); run<float>(ranges[k], nullptr, 0); run<double>(ranges[k], nullptr, 0); }
HARNESS(dbl) { std::uint64_t b = irsym_bits("hi", 24) << 40; double v; std::memcpy(&v, &b, 8); run<double>(ranges[param("R", 0)], &v, 1); }
