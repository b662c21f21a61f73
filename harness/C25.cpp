//@ link archon/core/word_wrap.cpp
//@ entry greedy n=0..3 B=2|4 covers=wrapped time=60|600
//@ entry greedy4 n=4 B=1|3 K=0..2 covers=wrapped time=60|900
//@ entry greedy_big n=2..2|1..3 covers=wrapped
//@ entry knuth n=2..3 W=2|4 covers=wrapped time=60|900
//@ entry knuth4 G=1..2 L=1..6 M=1|4 covers=wrapped time=60|900
//@ entry knuth6 L=0..7 n=6|7 M=1|4 covers=wrapped time=60|900
//@ entry reuse covers=wrapped
//@ bound greedy: 0 to 3 words, word, space and trailing space sizes up to 3 (15 thorough), line sizes up to 15 (63), 1 or 2 geometries, each starting geometry
//@ bound greedy4: 4 words, sizes up to 1 (7 thorough), line sizes up to 7 (31)
//@ bound greedy_big: 2 words (1 to 3 thorough), each size one of 0 to 3 and SIZE_MAX - 3 to SIZE_MAX (line sizes: at most SIZE_MAX - 1, as SIZE_MAX is what overflowing sums saturate to)
//@ bound knuth: 2 and 3 words, word, space and trailing space sizes up to 3 (15 thorough), line sizes up to 7 (31), 2 geometries
//@ bound knuth4: 4 words of every size from 0 to 3, spaces of 1, first line of 1 to 6, other lines (when there are two geometries) of 4 (2 to 5 thorough)
//@ bound knuth6: 6 words (7 thorough) of size 1 or 3, spaces of 1, line sizes from 1 to 8 (first line) alternating with one of 4 to 7 (just 5 in the quick tier)
//@ bound reuse: the reported badness after wrapping several words and then none, one or two
#include "sym.hpp"
#include <archon/core/word_wrap.hpp>
using namespace archon;
namespace ww = core::word_wrap;
typedef std::size_t sz; typedef unsigned __int128 wide;
struct In { int n; ww::Word w[8]; sz trail; ww::Geometry g[4]; int ng; int first; };
static wide used(const In& x, int a, int b) // space used by words a to b - 1 on one line
{
    wide t = 0; for (int i = a; i < b; ++i) { t += x.w[i].word_size; if (i > a || i == 0) t += x.w[i].space_size; } if (b == x.n) t += x.trail; return t;
}
static bool fits(const In& x, int a, int b, sz L) { return b - a == 1 || used(x, a, b) <= L; }
static void greedy_check(In& x, int geo)
{
    x.g[0].next_geometry_index = geo == 0 ? 0 : 1; x.g[1].next_geometry_index = geo == 2 ? 0 : 1; x.first = sym_choice("first", 2);
    std::vector<sz> bp = { 77 }; ww::greedy(core::Span<const ww::Word>(x.w, sz(x.n)), x.trail, core::Span<const ww::Geometry>(x.g, sz(2)), bp, sz(x.first));
    if (bp.size() > 0) COVER("wrapped"); else if (x.n < 2) COVER("wrapped");
    int a = 0, gi = x.first; for (sz k = 0; k <= bp.size(); ++k) { int b = k < bp.size() ? int(bp[k]) : x.n; if (x.n == 0) { CHECKM(bp.empty(), "no breakpoints"); break; } CHECKM(b > a && b <= x.n && (k == bp.size() || b < x.n), "strictly increasing word positions"); sz L = x.g[gi].line_size;
        CHECKM(fits(x, a, b, L), "each line fits unless it holds a single word"); if (b < x.n) CHECKM(!fits(x, a, b + 1, L), "each line is filled as far as possible"); a = b; gi = int(x.g[gi].next_geometry_index); }
}
HARNESS(greedy)
{
    In x; int B = param("B", 4); x.n = param("n", 3); x.ng = 2; for (int i = 0; i < x.n; ++i) { x.w[i].space_size = sz(irsym_bits("space", B)); x.w[i].word_size = sz(irsym_bits("word", B)); } x.trail = sz(irsym_bits("trail", B)); for (int i = 0; i < 2; ++i) x.g[i].line_size = sz(irsym_bits("line", B + 2));
    greedy_check(x, sym_choice("geo", 3));
}
HARNESS(greedy4)
{
    In x; int B = param("B", 4); x.n = param("n", 3); x.ng = 2; for (int i = 0; i < x.n; ++i) { x.w[i].space_size = sz(irsym_bits("space", B)); x.w[i].word_size = sz(irsym_bits("word", B)); } x.trail = sz(irsym_bits("trail", B)); for (int i = 0; i < 2; ++i) x.g[i].line_size = sz(irsym_bits("line", B + 2));
    greedy_check(x, param("K", 0));
}
// sizes near the top of the range: every sum that can overflow
static sz edge(const char* name) { sz v = sz(irsym_bits(name, 3)); return v < 4 ? v : ~sz(0) - (v - 4); }
HARNESS(greedy_big)
{
    In x; x.n = param("n", 3); x.ng = 2; for (int i = 0; i < x.n; ++i) { x.w[i].space_size = edge("space"); x.w[i].word_size = edge("word"); } x.trail = edge("trail"); for (int i = 0; i < 2; ++i) { x.g[i].line_size = edge("line"); irsym_assume(x.g[i].line_size != ~sz(0)); }
    greedy_check(x, sym_choice("geo", 3));
}
// minimum over all feasible sets of breakpoints; sets are bit masks
static std::uint64_t badness(const In& x, unsigned set, bool& feasible)
{
    std::uint64_t t = 0; int a = 0, gi = x.first; feasible = true;
    for (int b = 1; b <= x.n; ++b) if (b == x.n || (set >> b & 1)) { sz L = x.g[gi].line_size; sz u = sz(used(x, a, b)); bool over = u > L; feasible &= !over | (b - a == 1); sz gap = over ? 0 : L - u; if (b < x.n) t += std::uint32_t(gap) * std::uint32_t(gap); a = b; gi = int(x.g[gi].next_geometry_index); }
    return t;
}
static void check(const In& x, ww::KnuthWrapper& k, unsigned maxset)
{
    std::vector<sz> bp = { 77 }; k.wrap(core::Span<const ww::Word>(x.w, sz(x.n)), x.trail, core::Span<const ww::Geometry>(x.g, sz(x.ng)), bp, sz(x.first));
    unsigned set = 0; sz prev = 0; for (sz b : bp) { CHECKM(b > prev && b < sz(x.n), "strictly increasing word positions"); prev = b; set |= 1u << b; } if (set) COVER("wrapped");
    bool f; std::uint64_t mine = badness(x, set, f); CHECKM(f, "each line fits unless it holds a single word"); CHECKM(mine == k.get_badness(), "reported badness");
    for (unsigned s = 0; s < maxset; s += 2) { std::uint64_t other = badness(x, s, f); CHECKM(!f | (other >= mine), "no better set of breakpoints"); }
}
HARNESS(knuth)
{
    In x; x.n = param("n", 3); int W = param("W", 6); x.ng = 2; for (int i = 0; i < x.n; ++i) { x.w[i].space_size = sz(irsym_bits("space", W)); x.w[i].word_size = sz(irsym_bits("word", W)); } x.trail = sz(irsym_bits("trail", W)); for (int i = 0; i < 2; ++i) x.g[i] = { sz(irsym_bits("line", W + 1)), 1 }; x.first = sym_choice("first", 2);
    ww::KnuthWrapper k; check(x, k, 1u << x.n);
}
HARNESS(knuth4)
{
    In x; x.n = 4; x.ng = param("G", 2); for (int i = 0; i < 4; ++i) x.w[i] = { 1, sz(irsym_bits("word", 2)) }; x.w[0].space_size = 0; x.trail = 0; x.g[0] = { sz(param("L", 4)), sz(x.ng - 1) }; x.g[1] = { sz((param("M", 1) == 1 ? 4 : 2) + sym_choice("line", x.ng == 2 ? param("M", 1) : 1)), 1 }; x.first = 0;
    ww::KnuthWrapper k; check(x, k, 16);
}
HARNESS(knuth6)
{
    In x; x.n = param("n", 6); x.ng = 2; for (int i = 0; i < x.n; ++i) x.w[i] = { 1, sz(1 + 2 * irsym_bits("word", 1)) }; x.w[0].space_size = 0; x.trail = 0; x.g[0] = { sz(1 + param("L", 0)), 1 }; x.g[1] = { sz(5 - param("M", 2) / 4 + sym_choice("line", param("M", 2))), 0 }; x.first = 0;
    ww::KnuthWrapper k; check(x, k, 1u << x.n);
}
HARNESS(reuse)
{
    In x; x.n = 3; x.ng = 1; for (int i = 0; i < 3; ++i) x.w[i] = { 1, sz(irsym_bits("word", 2)) }; x.trail = 0; x.g[0] = { sz(irsym_bits("line", 4)), 0 }; x.first = 0; ww::KnuthWrapper k; check(x, k, 8);
    x.n = sym_choice("n", 3); check(x, k, 1u << x.n);
}
