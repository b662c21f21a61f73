//@ entry seq cap=1..3|1..4 L=6|9 covers=wrapped
//@ entry curve cap=2..4|2..5 n=5|6 covers=mid,before,after time=90|900
//@ entry interp covers=mid
//@ bound interp: two samples 2 to 9 apart at three offsets, every time between them
//@ bound seq: capacity 1 to 3 (4 thorough), every sequence of up to 6 (9) additions and clears with every content checked after each
//@ bound curve: 2 to 4 samples at most (5 thorough), period 1 to 8, 5 (6) additions at any times up to 8 apart, possibly after a clear, every query time up to 40
//@ assume interpolated values are tracked as weighted sums of samples (a value type that records which samples were combined and with what weights)
#include "sym.hpp"
#include <archon/render/impl/finite_sequence_memory.hpp>
#include <archon/render/impl/finite_curve_memory.hpp>
using namespace archon;
HARNESS(seq)
{
    int cap = param("cap", 3), len = param("L", 6); render::impl::FiniteSequenceMemory<int> m{std::size_t(cap)}; int ref[16]; int n = 0;
    for (int i = 0; i < len; ++i) {
        if (sym_choice("op", 2)) { m.clear(); n = 0; } else { int v = sym<int>("v"); m.push_back(v); if (n == cap) { for (int j = 1; j < n; ++j) ref[j - 1] = ref[j]; ref[n - 1] = v; COVER("wrapped"); } else ref[n++] = v; }
        CHECKM(m.size() == std::size_t(n) && m.empty() == (n == 0), "size"); for (int j = 0; j < n; ++j) CHECKM(m[std::size_t(j)] == ref[j], "most recent entries in order");
        int j = 0; for (const int& x : m) { CHECKM(j < n && x == ref[j], "iteration"); ++j; } CHECKM(j == n, "iteration ends");
    }
}
struct V { int a, b; double wa, wb; };
static V operator*(double w, V v) noexcept { v.wa *= w; v.wb *= w; return v; }
static V operator+(V x, V y) noexcept { return { x.a, y.a, x.wa, y.wa }; }
HARNESS(curve)
{
    int cap = param("cap", 3), n = param("n", 4); long back = 1 + sym_choice("back", 8); render::impl::FiniteCurveMemory<V> m(back, std::size_t(cap)); bool was_cleared = sym_choice("clear", 2); long per = (back + cap - 2) / (cap - 1);
    long now = 0; if (was_cleared) { now += long(irsym_bits("dt", 3)); m.add_value(V { 99, -1, 1, 0 }, now); m.clear(); V v = m.get_value(5); CHECKM(v.a == 0 && v.wa == 0, "nothing retained"); }
    long t[8]; int id[8]; int k = 0; for (int i = 0; i < n; ++i) { now += long(irsym_bits("dt", 3)); m.add_value(V { i + 1, -1, 1, 0 }, now); if (k == 0 || t[k - 1] / per < now / per) { if (k == cap) { for (int j = 1; j < k; ++j) { t[j - 1] = t[j]; id[j - 1] = id[j]; } --k; } t[k] = now; id[k] = i + 1; ++k; } }
    long q = long(irsym_bits("q", 5)) + long(irsym_bits("q2", 3)); V v = m.get_value(q);
    if (q > t[k - 1]) { COVER("after"); return; }
    int j = 0; while (t[j] < q) ++j;
    if (j == 0 || t[j] == q) { if (j == 0) COVER("before"); CHECKM(v.a == id[j] && v.b == -1, "the retained value"); return; }
    COVER("mid"); CHECKM(v.a == id[j - 1] && v.b == id[j], "between the neighbouring samples");
}

HARNESS(interp)
{
    // one pair of samples in a memory that keeps both; all times concrete after case split
    render::impl::FiniteCurveMemory<V> m(4, 4); long t0 = sym_choice("t0", 3) * 7, dt = 2 + sym_choice("dt", 8), q = 1 + sym_choice("q", int(dt) - 1); m.add_value(V { 1, -1, 1, 0 }, t0); m.add_value(V { 2, -1, 1, 0 }, t0 + dt); V v = m.get_value(t0 + q);
    COVER("mid"); CHECKM(v.a == 1 && v.b == 2, "between the samples"); double w = double(q) / double(dt), e = v.wb - w, e2 = v.wa - (1 - w); CHECKM(e < 1e-9 && e > -1e-9 && e2 < 1e-9 && e2 > -1e-9, "linear interpolation");
}
