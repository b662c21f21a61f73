//@ entry one covers=packed,failed
//@ entry two B=0..3 covers=packed,failed time=60|300
//@ entry large B=0..2 S=0..2 covers=packed,failed time=60|300
//@ entry pack3 B=0..2 S=0..2 M=0..1 covers=packed,failed time=90|600
//@ entry unsorted3 B=0..2 S=0..2 M=0..1 covers=packed,failed time=100|900 tier=thorough
//@ entry wide3 B=0..1 S=0..2 M=0..1 covers=packed,failed time=100|900 tier=thorough
//@ entry pack4 B=0..2 S=0..1 covers=packed,failed time=100|900 tier=thorough
//@ entry again K=0..3 covers=retried time=120|600
//@ entry suggest covers=limit,normal time=60|300
//@ bound one: one rectangle, every 31-bit side and bin size, every 8-bit spacing and margin, 0 to 2 bins
//@ bound two: two rectangles with sides of up to 4 bits, spacing and margin of up to 2 bits, bin sizes of up to 5 bits, 1 to 3 bins or no limit
//@ bound large: two rectangles with sides from 0 to 7 or from 2^31 - 8 to 2^31 - 1, bins from 2^31 - 8 to 2^31 - 1, spacing 0, 1 or 3, margin 0 or 3, 1 or 2 bins or no limit
//@ bound unsorted3: as pack3 without the order
//@ bound pack3: three rectangles added by descending height, then width, with sides of up to 3 bits, spacing 0, 1 or 3, margin 0 or 1, bin sizes of up to 4 bits, 1 or 2 bins or no limit
//@ bound wide3: as pack3 with sides of up to 6 bits and bin sizes of up to 7 bits
//@ bound pack4: four rectangles with sides of up to 3 bits, spacing 0 or 1, margin 0, bin sizes of up to 4 bits, 1 or 2 bins or no limit
//@ bound again: two rectangles of 3-bit sides packed, then packed again with other bin sizes and limits; rectangles removed in between
//@ bound suggest: 1 to 3 and 9 rectangles of one size among 0 to 3 and the ten largest values of a side, each dimension
#include "sym.hpp"
#include <archon/util/rectangle_packer.hpp>
using namespace archon;
typedef long long ll;
struct In { int n; ll w[4], h[4], s, m, bw, bh; std::size_t bins; };
static bool do_check(util::RectanglePacker<int>& p, const In& in)
{
    bool ok = p.pack(int(in.bw), int(in.bh), in.bins);
    // when any number of bins is allowed, only a rectangle that does not fit an empty bin makes packing fail
    if (in.bins >= std::size_t(in.n)) { bool fits = (in.bw >= 2 * in.m) & (in.bh >= 2 * in.m); for (int i = 0; i < in.n; ++i) fits &= (in.w[i] <= in.bw - 2 * in.m) & (in.h[i] <= in.bh - 2 * in.m); CHECKM(ok == fits, "succeeds exactly when each rectangle fits a bin"); }
    if (!ok) { COVER("failed"); return false; }
    COVER("packed"); CHECKM(p.get_num_bins() <= in.bins && p.get_num_bins() <= std::size_t(in.n), "limit of bins");
    std::size_t b[4]; ll x[4], y[4]; bool good = true; // one conjunction, hence one query per path
    for (int i = 0; i < in.n; ++i) {
        int xi, yi; p.get_rect_pos(std::size_t(i), b[i], xi, yi); x[i] = xi; y[i] = yi; CHECKM(b[i] < p.get_num_bins(), "bin exists"); ll uw = p.get_utilized_width(b[i]), uh = p.get_utilized_height(b[i]);
        good = good & (x[i] >= in.m) & (y[i] >= in.m) & (x[i] + in.w[i] + in.m <= uw) & (y[i] + in.h[i] + in.m <= uh) & (uw <= in.bw) & (uh <= in.bh);
    }
    for (int i = 0; i < in.n; ++i) for (int j = 0; j < i; ++j) if (b[i] == b[j]) good = good & ((x[i] + in.w[i] + in.s <= x[j]) | (x[j] + in.w[j] + in.s <= x[i]) | (y[i] + in.h[i] + in.s <= y[j]) | (y[j] + in.h[j] + in.s <= y[i]));
    CHECKM(good, "inside the bin and its utilized size with margins, and apart from each other by the spacing");
    return true;
}
static In input(int n, int rb, int sb, int mb, int bb)
{
    In in; in.n = n; for (int i = 0; i < n; ++i) { in.w[i] = ll(irsym_bits("w", rb)); in.h[i] = ll(irsym_bits("h", rb)); } in.s = ll(irsym_bits("s", sb)); in.m = ll(irsym_bits("m", mb)); in.bw = ll(irsym_bits("bw", bb)); in.bh = ll(irsym_bits("bh", bb)); return in;
}
static void run(const In& in) { util::RectanglePacker<int> p(int(in.s), int(in.m)); for (int i = 0; i < in.n; ++i) p.add_rect(int(in.w[i]), int(in.h[i])); do_check(p, in); }
static std::size_t limit() { int b = param("B", 0); return b == 0 ? std::size_t(-1) : std::size_t(b); }
HARNESS(one) { In in = input(sym_choice("n", 2), 31, 8, 8, 31); in.bins = std::size_t(sym_choice("bins", 3)); run(in); }
HARNESS(two) { In in = input(2, 4, 2, 2, 5); in.bins = limit(); run(in); }
HARNESS(large)
{
    In in; in.n = 2; in.bins = limit(); const ll top = std::numeric_limits<int>::max(); const ll sp[3] = { 0, 1, 3 }; in.s = sp[param("S", 0)]; in.m = sp[sym_choice("m", 2) * 2];
    auto side = [&](const char* nm) { bool big = sym_choice(nm, 2); ll v = ll(irsym_bits(nm, 3)); return big ? top - v : v; }; for (int i = 0; i < 2; ++i) { in.w[i] = side("w"); in.h[i] = side("h"); } in.bw = top - ll(irsym_bits("bw", 3)); in.bh = top - ll(irsym_bits("bh", 3)); run(in);
}
static void several(int n, int rb, int bb, bool sorted = false) { In in = input(n, rb, 1, 1, bb); if (sorted) { bool o = true; for (int i = 1; i < n; ++i) o = o & ((in.h[i - 1] > in.h[i]) | ((in.h[i - 1] == in.h[i]) & (in.w[i - 1] >= in.w[i]))); irsym_assume(o); } in.bins = limit(); const ll sp[3] = { 0, 1, 3 }; in.s = sp[param("S", 0)]; in.m = param("M", 0); run(in); }
HARNESS(pack3) { several(3, 3, 4, true); }
HARNESS(unsorted3) { several(3, 3, 4); }
HARNESS(wide3) { several(3, 6, 7); }
HARNESS(pack4) { several(4, 3, 4); }
HARNESS(again)
{
    In in = input(2, 3, 1, 1, 4); in.s = param("K", 0) & 1; in.m = in.s; bool removed = param("K", 0) >= 2; util::RectanglePacker<int> p(int(in.s), int(in.m)); for (int i = 0; i < 2; ++i) p.add_rect(int(in.w[i]), int(in.h[i])); in.bins = std::size_t(1 + sym_choice("bins", 2)); bool a = do_check(p, in);
    if (removed) { p.reset(); in.n = 1; p.add_rect(int(in.w[1]), int(in.h[1])); in.w[0] = in.w[1]; in.h[0] = in.h[1]; } else { in.bw = ll(irsym_bits("bw2", 4)); in.bins = std::size_t(1 + sym_choice("bins2", 2)); } bool b = do_check(p, in); if (!a && b) COVER("retried");
}
HARNESS(suggest)
{
    // concrete cases: the square root of a symbolic area is out of reach
    const int max = std::numeric_limits<int>::max(); int ns[4] = { 1, 2, 3, 9 }, n = ns[sym_choice("n", 4)], wi = sym_choice("w", 14), hi = sym_choice("h", 14), w = wi < 4 ? wi : max - (wi - 4), h = hi < 4 ? hi : max - (hi - 4), s = sym_choice("s", 2) * 3, m = sym_choice("m", 2) * 2;
    util::RectanglePacker<int> p(s, m); for (int i = 0; i < n; ++i) p.add_rect(w, h); int v = p.suggest_bin_width(); ll need = ll(w) + 2 * m; CHECKM(v >= need || v == max, "every rectangle fits a bin of the suggested width"); if (v == max) COVER("limit"); else COVER("normal");
}
