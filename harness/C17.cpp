//@ entry ops_tracked N=7|10 K=0..20
//@ entry ops_bytes N=7|11 K=0..20
//@ entry throwing N=5|7 K=0..5 covers=thrown,done
//@ entry compare N=2|3
//@ bound ops_tracked: every deque with up to N + 1 allocated slots (7 quick, 10 thorough), every start position of the contents in the allocated memory (contents wrapping around or not), every size, every element value; then one operation of each kind with every position and count up to N + 2, then one push at either end or a move; element type with identity
//@ bound ops_bytes: the same with elements of type unsigned char, N 7 quick, 11 thorough
//@ bound throwing: copies of elements that throw an exception at any point of an append, resize, copy or reallocation: no element is lost, leaked or destroyed twice, contents unchanged
//@ bound compare: comparison operators for every two sequences of up to N bytes
//@ assume arguments do not refer to elements of the deque itself (the implementation does not support it when memory is reallocated); element moves do not throw
#include "tracked.hpp"
#include <archon/core/deque.hpp>
#include <utility>
using namespace archon;
using core::Deque;

template<class T> static void verify(Deque<T>& d, const Seq& s, const char* what = "contents")
{
    CHECKM(int(d.size()) == s.n, "size");
    CHECKM(d.empty() == (s.n == 0), "empty()");
    if (s.n) CHECKM(d.capacity() >= d.size(), "capacity");
    bool ok = true; for (int i = 0; i < s.n; ++i) ok = ok & (value_of(d[std::size_t(i)]) == s.v[i]);
    CHECKM(ok, what);
    int i = 0; const Deque<T>& c = d;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) { CHECKM(i < s.n, "iteration"); ok = ok & (value_of(*it) == s.v[i]); CHECKM(it - c.begin() == i, "distance"); }
    CHECKM(i == s.n, "iteration");
    for (auto it = d.rbegin(); it != d.rend(); ++it) { CHECKM(i > 0, "reverse iteration"); ok = ok & (value_of(*it) == s.v[--i]); }
    CHECKM(i == 0, "reverse iteration");
    for (i = 0; i < s.n; ++i) { ok = ok & (value_of(*(c.begin() + i)) == s.v[i]) & (value_of(c.begin()[i]) == s.v[i]); ok = ok & (value_of(*(c.end() - (s.n - i))) == s.v[i]) & (value_of(c.at(std::size_t(i))) == s.v[i]); }
    if (s.n) ok = ok & (value_of(d.front()) == s.v[0]) & (value_of(d.back()) == s.v[s.n - 1]);
    CHECKM(ok, "iterated contents");
}
// A deque with `cap` slots requested, contents starting `off` slots into the memory
template<class T> static void make(Deque<T>& d, Seq& s, int N)
{
    int cap = sym_choice("cap", N + 1);
    if (cap == 0) return;
    d.reserve(std::size_t(cap));
    int off = sym_choice("off", cap + 1), n = sym_choice("n", cap + 1);
    for (int i = 0; i < off; ++i) { d.push_back(T(1)); d.pop_front(); }
    for (int i = 0; i < n; ++i) { auto v = sym<unsigned char>("elem"); d.push_back(T(v)); s.add(v); }
}
template<class T> static void more(Deque<T>& d, Seq& s)
{
    auto v = sym<unsigned char>("more"); T t(v);
    switch (sym_choice("then", 3)) {
        case 0: CHECKM(value_of(d.push_front(t)) == v, "returned element"); s.insert(0, v); break;
        case 1: CHECKM(value_of(d.push_back(std::move(t))) == v, "returned element"); s.add(v); break;
        default: { Deque<T> e(std::move(d)); verify(e, s); verify(d, Seq()); d = std::move(e); verify(e, Seq()); }
    }
}
template<class T> static void ops(int N)
{
  {
    Deque<T> d; Seq s; make(d, s, N);
    std::size_t cap0 = d.capacity();
    auto v = sym<unsigned char>("v"); T t(v);
    unsigned char src[16]; int room = N + 2;
    switch (param("K", 0)) {
        case 0: CHECKM(value_of(d.push_front(t)) == v, "returned element"); s.insert(0, v); break;
        case 1: CHECKM(value_of(d.push_back(t)) == v, "returned element"); s.add(v); break;
        case 2: if (s.n) { d.pop_front(); s.erase(0, 1); } break;
        case 3: if (s.n) { d.pop_back(); s.erase(s.n - 1, s.n); } break;
        case 4: { int k = sym_choice("count", room); d.append(std::size_t(k), t); while (k--) s.add(v); break; }
        case 5: { int k = sym_choice("count", room); irsym_bytes(src, std::size_t(k), "src"); d.append(src, src + k); for (int i = 0; i < k; ++i) s.add(src[i]); break; }
        case 6: { int k = sym_choice("count", room); irsym_bytes(src, std::size_t(k), "src"); d.append(InIter{src}, InIter{src + k}); for (int i = 0; i < k; ++i) s.add(src[i]); break; }
        case 7: if (s.n) { int i = sym_choice("pos", s.n); auto it = d.erase(d.begin() + i); s.erase(i, i + 1); CHECKM(it - d.begin() == i, "returned position"); } break;
        case 8: { int i = sym_choice("pos", s.n + 1), k = sym_choice("count", s.n - i + 1); auto it = d.erase(d.begin() + i, d.begin() + (i + k)); s.erase(i, i + k); CHECKM(it - d.begin() == i, "returned position"); break; }
        case 9: d.clear(); s.n = 0; break;
        case 10: { int k = sym_choice("size", room); d.resize(std::size_t(k)); while (s.n < k) s.add(0); s.n = k; break; }
        case 11: { int k = sym_choice("size", room); d.resize(std::size_t(k), t); while (s.n < k) s.add(v); s.n = k; break; }
        case 12: { int k = sym_choice("size", room); d.reserve(std::size_t(k)); CHECKM(int(d.capacity()) >= k && d.capacity() >= cap0, "reserved capacity"); break; }
        case 13: { int k = sym_choice("size", room); d.reserve_extra(std::size_t(k)); CHECKM(int(d.capacity()) >= s.n + k || k == 0, "reserved capacity"); T* p = s.n ? &d.front() : nullptr; int n = s.n; for (int i = 0; i < k; ++i) { d.push_back(t); s.add(v); } if (n) CHECKM(p == &d.front(), "no reallocation within the reserved capacity"); break; }
        case 14: d.shrink_to_fit(); CHECKM(d.capacity() <= cap0, "capacity after shrinking"); break;
        case 15: { Deque<T> e(d); verify(e, s); e.push_back(t); verify(d, s); Seq q = s; q.add(v); verify(e, q); break; }
        case 16: { Deque<T> e; Seq q; make(e, q, N > 3 ? 3 : N); e = d; verify(e, s, "assigned contents"); break; }
        case 17: { Deque<T>& r = d; d = r; break; }
        case 18: { Deque<T> e; Seq q; make(e, q, N > 3 ? 3 : N); if (sym_choice("move", 2)) { d = std::move(e); verify(e, Seq()); s = q; } else { swap(d, e); verify(e, s); s = q; } break; }
        case 19: { int k = sym_choice("count", room); d.assign(std::size_t(k), t); s.n = 0; while (k--) s.add(v); break; }
        case 20: { int k = sym_choice("count", room); irsym_bytes(src, std::size_t(k), "src"); d.assign(src, src + k); s.n = 0; for (int i = 0; i < k; ++i) s.add(src[i]); Deque<T> e(src, src + k); verify(e, s); break; }
    }
    verify(d, s);
    more(d, s);
    verify(d, s, "contents after one more operation");
    bool thrown = false; try { d.at(d.size()); } catch (const std::out_of_range&) { thrown = true; } CHECKM(thrown, "at() out of range");
    if (std::is_same_v<T, Tracked>) CHECKM(Tracked::live == s.n + 1, "number of existing elements");
  }
  CHECKM(Tracked::live == 0, "all elements destroyed");
  CHECKM(irsym_live_heap() == 0, "all memory released");
}
HARNESS(ops_tracked) { ops<Tracked>(param("N", 4)); }
HARNESS(ops_bytes) { ops<unsigned char>(param("N", 5)); }

HARNESS(throwing)
{
  {
    Deque<Tracked> d; Seq s; make(d, s, param("N", 3));
    auto v = sym<unsigned char>("v"); Tracked t(v); Tracked src[4] = { v, v, v, v };
    int k = sym_choice("count", 4), at = sym_choice("throw_at", 4);
    bool thrown = false; Seq s0 = s; Deque<Tracked> e; Seq se;
    Tracked::throw_in = at;
    try {
        switch (param("K", 0)) {
            case 0: d.append(std::size_t(k), t); for (int i = 0; i < k; ++i) s.add(v); break;
            case 1: d.append(src, src + k); for (int i = 0; i < k; ++i) s.add(v); break;
            case 2: d.push_back(t); s.add(v); break;
            case 3: d.push_front(t); s.insert(0, v); break;
            case 4: d.resize(d.size() + std::size_t(k)); for (int i = 0; i < k; ++i) s.add(0); break;
            case 5: e = d; se = s; break;
        }
    }
    catch (Tracked::Refused) { thrown = true; s = s0; }
    Tracked::throw_in = -1;
    if (thrown) COVER("thrown"); else COVER("done");
    verify(d, s); if (!thrown) verify(e, se);
    more(d, s); verify(d, s);
  }
  CHECKM(Tracked::live == 0, "all elements destroyed");
  CHECKM(irsym_live_heap() == 0, "all memory released");
}

HARNESS(compare)
{
    unsigned char a[4], b[4]; int N = param("N", 2), n = sym_choice("n", N + 1), m = sym_choice("m", N + 1);
    irsym_bytes(a, std::size_t(n), "a"); irsym_bytes(b, std::size_t(m), "b");
    Deque<unsigned char> x, y; x.reserve(std::size_t(N)); int off = sym_choice("off", N + 1); for (int i = 0; i < off; ++i) { x.push_back(1); x.pop_front(); }
    x.append(a, a + n); y.append(b, b + m);
    int c = 0; for (int i = 0; c == 0 && (i < n || i < m); ++i) c = i >= n ? -1 : i >= m ? 1 : a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
    CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0)); CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0));
}
