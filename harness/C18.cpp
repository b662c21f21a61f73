//@ entry ops_tracked2 N=5|8 K=0..21
//@ entry ops_tracked0 N=3|5 K=0..21
//@ entry ops_bytes N=4|6 K=0..21
//@ entry throwing N=3|5 K=0..6 covers=thrown,done
//@ entry compare N=2|3
//@ entry sizes covers=refused,granted time=60|300
//@ bound ops_tracked2: element type with identity, in-object capacity 2: every vector with capacity requests up to N (5 quick, 8 thorough), every size, every element value; one operation of each kind with every position and count up to N + 2, then one further operation (push, move, insertion)
//@ bound ops_tracked0: the same without in-object storage, N 3 quick, 5 thorough
//@ bound ops_bytes: the same with elements of type unsigned char, in-object capacity 3, N 4 quick, 6 thorough
//@ bound throwing: copies of elements that throw an exception at any point of an append, resize, insertion or reallocation: no element is lost, leaked or destroyed twice, contents unchanged
//@ bound compare: comparison operators for every two sequences of up to N bytes
//@ bound sizes: reserve() and reserve_extra() for every 64-bit count above the reach of memory (refused), and every count up to 8 (granted)
//@ assume arguments do not refer to elements of the vector itself (the implementation does not support it when memory is reallocated); element moves do not throw
#include "tracked.hpp"
#include <archon/core/vector.hpp>
#include <utility>
using namespace archon;
using core::Vector;

template<class T, std::size_t M> static void verify(Vector<T, M>& d, const Seq& s, const char* what = "contents")
{
    CHECKM(int(d.size()) == s.n, "size");
    CHECKM(d.empty() == (s.n == 0), "empty()");
    CHECKM(d.capacity() >= d.size(), "capacity");
    bool ok = true; for (int i = 0; i < s.n; ++i) ok = ok & (value_of(d[std::size_t(i)]) == s.v[i]) & (value_of(d.data()[i]) == s.v[i]) & (value_of(d.span()[std::size_t(i)]) == s.v[i]);
    CHECKM(ok, what);
    const Vector<T, M>& c = d; int i = 0;
    for (auto& e : c) { CHECKM(i < s.n, "iteration"); ok = ok & (value_of(e) == s.v[i]) & (value_of(c.at(std::size_t(i))) == s.v[i]); ++i; }
    CHECKM(i == s.n, "iteration");
    for (auto it = d.rbegin(); it != d.rend(); ++it) { CHECKM(i > 0, "reverse iteration"); ok = ok & (value_of(*it) == s.v[--i]); }
    CHECKM(i == 0, "reverse iteration");
    if (s.n) ok = ok & (value_of(d.front()) == s.v[0]) & (value_of(d.back()) == s.v[s.n - 1]);
    CHECKM(ok, "iterated contents");
}
template<class T, std::size_t M> static void make(Vector<T, M>& d, Seq& s, int N)
{
    int cap = sym_choice("cap", N + 1), n = sym_choice("n", cap + 1);
    if (cap > int(M)) d.reserve(std::size_t(cap));
    for (int i = 0; i < n; ++i) { auto v = sym<unsigned char>("elem"); d.push_back(T(v)); s.add(v); }
}
template<class T, std::size_t M> static void more(Vector<T, M>& d, Seq& s)
{
    auto v = sym<unsigned char>("more"); T t(v);
    switch (sym_choice("then", 3)) {
        case 0: { int i = s.n / 2; auto it = d.emplace(d.begin() + i, t); CHECKM(it - d.begin() == i, "returned position"); s.insert(i, v); break; }
        case 1: CHECKM(value_of(d.push_back(std::move(t))) == v, "returned element"); s.add(v); break;
        default: { Vector<T, M> e(std::move(d)); verify(e, s); verify(d, Seq()); d = std::move(e); verify(e, Seq()); e.push_back(t); Seq q; q.add(v); verify(e, q); }
    }
}
template<class T, std::size_t M> static void ops(int N)
{
  {
    Vector<T, M> d; Seq s; make(d, s, N);
    std::size_t cap0 = d.capacity();
    auto v = sym<unsigned char>("v"); T t(v);
    unsigned char src[16]; int room = N + 2;
    switch (param("K", 0)) {
        case 0: { int i = sym_choice("pos", s.n + 1); auto it = d.emplace(d.begin() + i, t); CHECKM(it - d.begin() == i, "returned position"); s.insert(i, v); break; }
        case 1: CHECKM(value_of(d.push_back(t)) == v, "returned element"); s.add(v); break;
        case 2: CHECKM(value_of(d.emplace_back(v)) == v, "returned element"); s.add(v); break;
        case 3: if (s.n) { d.pop_back(); s.erase(s.n - 1, s.n); } break;
        case 4: { int k = sym_choice("count", room); d.append(std::size_t(k), t); while (k--) s.add(v); break; }
        case 5: { int k = sym_choice("count", room); irsym_bytes(src, std::size_t(k), "src"); d.append(src, src + k); for (int i = 0; i < k; ++i) s.add(src[i]); break; }
        case 6: { int k = sym_choice("count", room); irsym_bytes(src, std::size_t(k), "src"); d.append(InIter{src}, InIter{src + k}); for (int i = 0; i < k; ++i) s.add(src[i]); break; }
        case 7: if (s.n) { int i = sym_choice("pos", s.n); auto it = d.erase(d.begin() + i); s.erase(i, i + 1); CHECKM(it - d.begin() == i, "returned position"); } break;
        case 8: { int i = sym_choice("pos", s.n + 1), k = sym_choice("count", s.n - i + 1); auto it = d.erase(d.begin() + i, d.begin() + (i + k)); s.erase(i, i + k); CHECKM(it - d.begin() == i, "returned position"); break; }
        case 9: d.clear(); s.n = 0; break;
        case 10: { int k = sym_choice("size", room); d.resize(std::size_t(k)); while (s.n < k) s.add(0); s.n = k; break; }
        case 11: { int k = sym_choice("size", room); d.resize(std::size_t(k), t); while (s.n < k) s.add(v); s.n = k; break; }
        case 12: { int k = sym_choice("size", room); d.reserve(std::size_t(k)); CHECKM(int(d.capacity()) >= k && d.capacity() >= cap0, "reserved capacity"); break; }
        case 13: { int k = sym_choice("size", room); d.reserve_extra(std::size_t(k)); CHECKM(int(d.capacity()) >= s.n + k, "reserved capacity"); T* p = d.data(); for (int i = 0; i < k; ++i) { d.push_back(t); s.add(v); } CHECKM(p == d.data(), "no reallocation within the reserved capacity"); break; }
        case 14: d.shrink_to_fit(); CHECKM(d.capacity() <= cap0, "capacity after shrinking"); break;
        case 15: { d.emplace(d.begin(), v); s.insert(0, v); d.emplace(d.end(), T(v)); s.add(v); break; }
        case 16: { Vector<T, M> e; Seq q; make(e, q, N > 4 ? 4 : N); d = std::move(e); verify(e, Seq()); s = q; break; }
        case 17: { Vector<T, M> e(std::move(d)); verify(e, s); verify(d, Seq()); d = std::move(e); verify(e, Seq()); break; }
        case 18: { Vector<T, M> e; Seq q; make(e, q, N > 4 ? 4 : N); std::swap(d, e); verify(e, s); s = q; break; }
        case 19: { int k = sym_choice("count", room); d.assign(std::size_t(k), t); s.n = 0; while (k--) s.add(v); Vector<T, M> e(std::size_t(s.n), t); verify(e, s); break; }
        case 20: { int k = sym_choice("count", room); irsym_bytes(src, std::size_t(k), "src"); d.assign(src, src + k); s.n = 0; for (int i = 0; i < k; ++i) s.add(src[i]); Vector<T, M> e(src, src + k); verify(e, s); break; }
        case 21: { int k = sym_choice("size", room); Vector<T, M> e((std::size_t(k))); Seq q; while (q.n < k) q.add(0); verify(e, q); CHECKM(e.capacity() >= M, "capacity of new vector"); break; }
    }
    verify(d, s);
    more(d, s);
    verify(d, s, "contents after one more operation");
    bool thrown = false; try { d.at(d.size()); } catch (const std::out_of_range&) { thrown = true; } CHECKM(thrown, "at() out of range");
    if (std::is_same_v<T, Tracked>) CHECKM(Tracked::live == s.n + 1, "number of existing elements");
  }
  CHECKM(Tracked::live == 0, "all elements destroyed");
  CHECKM(irsym_live_heap() == 0, "all memory released");
}
HARNESS(ops_tracked2) { ops<Tracked, 2>(param("N", 4)); }
HARNESS(ops_tracked0) { ops<Tracked, 0>(param("N", 3)); }
HARNESS(ops_bytes) { ops<unsigned char, 3>(param("N", 5)); }

HARNESS(throwing)
{
  {
    Vector<Tracked, 2> d; Seq s; make(d, s, param("N", 3));
    auto v = sym<unsigned char>("v"); Tracked t(v); Tracked src[4] = { v, v, v, v };
    int k = sym_choice("count", 4), at = sym_choice("throw_at", 4);
    bool thrown = false; Seq s0 = s;
    Tracked::throw_in = at;
    try {
        switch (param("K", 0)) {
            case 0: d.append(std::size_t(k), t); for (int i = 0; i < k; ++i) s.add(v); break;
            case 1: d.append(src, src + k); for (int i = 0; i < k; ++i) s.add(v); break;
            case 2: d.push_back(t); s.add(v); break;
            case 3: d.emplace(d.begin(), t); s.insert(0, v); break;
            case 4: d.resize(d.size() + std::size_t(k)); for (int i = 0; i < k; ++i) s.add(0); break;
            case 5: d.resize(d.size() + std::size_t(k), t); for (int i = 0; i < k; ++i) s.add(v); break;
            case 6: { Vector<Tracked, 2> e(src, src + k); Seq q; for (int i = 0; i < k; ++i) q.add(v); verify(e, q); break; }
        }
    }
    catch (Tracked::Refused) { thrown = true; s = s0; }
    Tracked::throw_in = -1;
    if (thrown) COVER("thrown"); else COVER("done");
    verify(d, s);
    more(d, s); verify(d, s);
  }
  CHECKM(Tracked::live == 0, "all elements destroyed");
  CHECKM(irsym_live_heap() == 0, "all memory released");
}

HARNESS(compare)
{
    unsigned char a[4], b[4]; int N = param("N", 2), n = sym_choice("n", N + 1), m = sym_choice("m", N + 1);
    irsym_bytes(a, std::size_t(n), "a"); irsym_bytes(b, std::size_t(m), "b");
    Vector<unsigned char, 1> x(a, a + n); Vector<unsigned char, 2> y(b, b + m);
    int c = 0; for (int i = 0; c == 0 && (i < n || i < m); ++i) c = i >= n ? -1 : i >= m ? 1 : a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
    CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0)); CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0));
}

HARNESS(sizes)
{
    Vector<std::uint32_t, 2> d; d.push_back(7); d.push_back(8);
    auto n = sym<std::uint64_t>("count"); bool extra = sym_choice("extra", 2);
    bool huge = n > d.max_size() - 2;
    irsym_assume(huge | (n <= 8));
    if (!huge) n = irsym_concretize(n);
    bool refused = false;
    try { if (extra) d.reserve_extra(n); else d.reserve(n); } catch (const std::length_error&) { refused = true; } catch (const std::bad_alloc&) { refused = true; }
    if (refused) COVER("refused"); else COVER("granted");
    if (!refused) CHECKM(d.capacity() >= n && (!extra || d.capacity() - 2 >= n), "capacity requested");
    if (n <= 8) CHECKM(!refused, "small request granted");
    CHECKM(d.size() == 2 && d[0] == 7 && d[1] == 8, "contents kept");
}
