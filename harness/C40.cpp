//@ entry find n=0..3|0..6 k=1..2|1..3 W=2|3 M=0..1 covers=found time=100|900
//@ entry find5 n=4..5 k=2..2|1..2 Q=0..3 M=0..0|0..1 covers=found time=100|900
//@ entry sort n=5..7|5..9 covers=done time=100|900
//@ bound find: 0 to 3 points (6 thorough) in 1 or 2 dimensions (3 thorough), every arrangement of coordinates from 0 to 3 (7 thorough) and query, with every maximum distance up to 7 and without one
//@ bound find5: 4 and 5 points in 2 dimensions (1 too, thorough), coordinates 0 and 1, every query from -1 to 2, no maximum distance (also one of 2: thorough)
//@ bound sort: 5 to 7 points (9 thorough) on a line: sorting yields a permutation and the search still finds each point
//@ assume distances are computed in exact arithmetic (a number type without rounding, whose square root is the identity, so that the reported distance is the squared one)
#include <cmath>
struct Num { int v; constexpr Num(int v = 0) noexcept : v(v) {} };
constexpr Num operator*(Num a, Num b) noexcept { return Num(a.v * b.v); }
constexpr Num operator-(Num a, Num b) noexcept { return Num(a.v - b.v); }
constexpr Num operator+(Num a, Num b) noexcept { return Num(a.v + b.v); }
inline Num& operator+=(Num& a, Num b) noexcept { a.v += b.v; return a; }
constexpr bool operator<(Num a, Num b) noexcept { return a.v < b.v; }
constexpr bool operator<=(Num a, Num b) noexcept { return a.v <= b.v; }
constexpr bool operator>(Num a, Num b) noexcept { return a.v > b.v; }
constexpr bool operator>=(Num a, Num b) noexcept { return a.v >= b.v; }
constexpr bool operator==(Num a, Num b) noexcept { return a.v == b.v; }
namespace std { inline Num sqrt(Num a) { return a; } }
#include "sym.hpp"
#include <archon/util/kdtree.hpp>
using namespace archon;
struct P { int c[3]; int id; };
static int sqd(const P& p, const int* q, int k) { int s = 0; for (int i = 0; i < k; ++i) { int d = p.c[i] - q[i]; s += d * d; } return s; }
static void run(P* p, int n, int k, const int* q, bool lim, int maxd)
{
    auto comp = [](const P& a, int i) { return Num(a.c[i]); }; P orig[10]; for (int i = 0; i < n; ++i) orig[i] = p[i];
    util::kdtree_sort(k, p, p + n, comp);
    unsigned seen = 0; for (int i = 0; i < n; ++i) { int id = int(irsym_concretize(std::uint64_t(p[i].id))); CHECKM(id >= 0 && id < n && !(seen >> id & 1), "a permutation"); seen |= 1u << id; bool same = true; for (int j = 0; j < k; ++j) same &= p[i].c[j] == orig[id].c[j]; CHECKM(same, "points are unchanged"); }
    Num qs[3] = { q[0], q[1], q[2] }; P out; out.id = 77; Num dist(99); std::optional<Num> md; if (lim) md = Num(maxd);
    bool f = util::kdtree_find<P*>(k, p, p + n, comp, qs, md, out, dist); bool exists = false; for (int i = 0; i < n; ++i) exists |= !lim | (sqd(p[i], q, k) < maxd * maxd); CHECKM(f == exists, "found exactly when a point is near enough");
    if (f) { COVER("found"); int id = int(irsym_concretize(std::uint64_t(out.id))); CHECKM(id >= 0 && id < n, "one of the points"); int d = sqd(orig[id], q, k); CHECKM(dist.v == d, "reported distance"); bool best = true; for (int i = 0; i < n; ++i) best &= sqd(orig[i], q, k) >= d; CHECKM(best, "no point is closer"); }
    else { CHECKM(out.id == 77 && dist.v == 99, "unchanged when nothing is found"); if (n == 0) COVER("found"); }
}
HARNESS(find)
{
    int n = param("n", 3), k = param("k", 2), W = param("W", 2); bool lim = param("M", 0); P p[8]; for (int i = 0; i < n; ++i) { for (int j = 0; j < 3; ++j) p[i].c[j] = j < k ? int(irsym_bits("c", W)) : 0; p[i].id = i; }
    int q[3] = {}; for (int j = 0; j < k; ++j) q[j] = int(irsym_bits("q", W)); run(p, n, k, q, lim, lim ? int(irsym_bits("max", 3)) : 0);
}
HARNESS(find5)
{
    int k = param("k", 2); bool lim = param("M", 0); int n = param("n", 5); P p[5]; for (int i = 0; i < n; ++i) { for (int j = 0; j < 3; ++j) p[i].c[j] = j < k ? int(irsym_bits("c", 1)) : 0; p[i].id = i; }
    int q[3] = {}; for (int j = 0; j < k; ++j) q[j] = (j == 0 ? param("Q", 0) : int(irsym_bits("q", 2))) - 1; run(p, n, k, q, lim, lim ? 2 : 0);
}
HARNESS(sort)
{
    int n = param("n", 5); P p[10]; for (int i = 0; i < n; ++i) { p[i] = { { int(irsym_bits("c", 1)) * 2, 0, 0 }, i }; } int q[3] = { 1 - int(irsym_bits("q", 1)) * 2, 0, 0 }; run(p, n, 1, q, false, 0); COVER("done");
}
