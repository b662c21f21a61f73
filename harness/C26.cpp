//@ entry ops8 N=3 W=3|4 K=0..8 time=100|600 covers=assigned,unassigned
//@ entry win N=3 W=3 tier=thorough time=600
//@ entry opss N=2|3 W=0 K=0..8 time=100|600 covers=assigned,unassigned
//@ entry ops32 N=2|3 covers=assigned,unassigned
//@ entry opsu64 N=2|3 covers=assigned,unassigned
//@ entry defrag_eq N=2|3
//@ bound ops8: every sequence of 3 assignments, updates or defragmentations, every key range over the 8 lowest and over the 8 highest keys of an 8-bit unsigned key type (16 thorough), every value, and every looked-up key
//@ bound win (thorough only): two assignments and one further operation over the 8 lowest and 8 highest keys of a signed 32-bit key type
//@ bound opss: every sequence of 2 operations (3 thorough), every key range over a signed 8-bit key
//@ bound ops32: every sequence of 2 operations (3 thorough) over a signed 32-bit key
//@ bound opsu64: every sequence of 2 operations (3 thorough) over an unsigned 64-bit key
//@ bound defrag_eq: defragmentation under a user-supplied equivalence (values equal modulo 4), after 2 operations (3 thorough) over 8-bit keys
#include "sym.hpp"
#include <archon/core/range_map.hpp>
using namespace archon;
typedef unsigned char uc;
// keys: any value, or (when W > 0) any of the W-bit values next to the lower or the upper limit of the type
template<class K> static K key(const char* n, int W, bool top)
{
    if (W == 0) return sym<K>(n);
    K k = K(irsym_bits(n, W)); return top ? K(std::numeric_limits<K>::max() - k) : K(std::numeric_limits<K>::min() + k);
}
template<class K> static void ops(int N, int first = -1, bool eq4 = false, int W = 0)
{
  {
    bool top = W > 0 && sym_choice("top", 2);
    core::RangeMap<K, uc> m; K x = key<K>("x", W, top); bool has = false; uc val = 0; int n = 0; bool defragged = false;
    auto same = [&](uc a, uc b) { return eq4 ? (a & 3) == (b & 3) : a == b; };
    for (int i = 0; i < N; ++i) {
        int op = i < 2 && first >= 0 ? (i == 0 ? first / 3 : first % 3) : sym_choice("op", 3); K a = 0, b = 0; uc v = 0; bool point = false;
        if (op != 2) { a = key<K>("a", W, top); v = sym<uc>("v"); point = i == N - 1 && sym_choice("point", 2); if (point) b = a; else { b = key<K>("b", W, top); irsym_assume(a <= b); } }
        bool in = (x >= a) & (x <= b); defragged = false;
        switch (op) {
            case 0: if (point) m.assign(a, v); else m.assign({ a, b }, v); has |= in; val = uc(in * v + !in * val); break;
            case 1: { auto f = [&](uc& w) { w = uc(w * 2 + v); }; if (point) m.update(a, f); else m.update({ a, b }, f); val = uc(in * uc(has * val * 2 + v) + !in * val); has |= in; break; }
            default: if (eq4) m.defrag([&](uc p, uc q) { return same(p, q); }); else m.defrag(); defragged = true; break;
        }
        n += op != 2;
    }
    if (eq4) { m.defrag([&](uc p, uc q) { return same(p, q); }); defragged = true; }
    bool found = false, prev = false; K last = 0; uc pv = 0; int cnt = 0;
    for (auto e : m) { auto r = e.range(); uc v = e.value(); CHECKM(r.first <= r.last, "proper range"); if (prev) { CHECKM(last < r.first, "disjoint and ascending"); if (defragged) CHECKM(!(r.first == K(last + 1) && same(v, pv)), "maximal after defragmentation"); }
        bool in = (x >= r.first) & (x <= r.last); CHECKM(!(in & found), "one entry per key"); found |= in; CHECKM(!in | same(v, val), "value of the key"); prev = true; last = r.last; pv = v; if (++cnt > 2 * n + 1) irsym_fail("too many entries"); }
    CHECKM(found == has, "key is present exactly when assigned"); if (has) COVER("assigned"); else COVER("unassigned");
  }
  CHECKM(irsym_live_heap() == 0, "no leaked memory");
}
HARNESS(ops8) { ops<uc>(param("N", 3), param("K", -1), false, param("W", 3)); }
HARNESS(win) { ops<int>(param("N", 3), 0, false, param("W", 3)); }
HARNESS(opss) { ops<signed char>(param("N", 2), param("K", -1), false, param("W", 0)); }
HARNESS(ops32) { ops<int>(param("N", 2)); }
HARNESS(opsu64) { ops<std::uint64_t>(param("N", 2)); }
HARNESS(defrag_eq) { ops<uc>(param("N", 2), -1, true); }
