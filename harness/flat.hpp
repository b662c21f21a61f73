#pragma once
#include "tracked.hpp"
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_multiset.hpp>
#include <utility>
using namespace archon;
typedef unsigned char uc;
inline uc val(const Tracked& t) { return t.get(); }
inline uc val(uc v) { return v; }
// Key of an entry, mapped value of an entry (sets: the key)
template<class K, class V> uc ekey(const core::Pair<K, V>& e) { return val(e.first); }
template<class K, class V> uc eval(const core::Pair<K, V>& e) { return val(e.second); }
inline uc ekey(const Tracked& e) { return e.get(); } inline uc eval(const Tracked& e) { return e.get(); }
inline uc ekey(uc e) { return e; } inline uc eval(uc e) { return e; }
struct Ref { // sorted reference association; equal keys in insertion order
    uc k[12], v[12]; int n = 0;
    // Whether i is the position of the first key not less than x, or greater than x
    bool is_lower(long i, uc x) const { return i >= 0 && i <= n && ((i == 0) | (k[i ? i - 1 : 0] < x)) & ((i == n) | (k[i < n ? i : 0] >= x)); }
    bool is_upper(long i, uc x) const { return i >= 0 && i <= n && ((i == 0) | (k[i ? i - 1 : 0] <= x)) & ((i == n) | (k[i < n ? i : 0] > x)); }
    int upper(uc x) const { for (int i = 0; i < n; ++i) if (k[i] > x) return i; return n; }
    int lower(uc x) const { for (int i = 0; i < n; ++i) if (k[i] >= x) return i; return n; }
    bool has(uc x) const { bool f = false; for (int i = 0; i < n; ++i) f = f | (k[i] == x); return f; }
    void put(long i, uc x, uc y) { for (int j = n; j > i; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[i] = x; v[i] = y; ++n; }
    void add(uc x, uc y) { put(upper(x), x, y); }
    void cut(int i, int j) { for (int m = j; m < n; ++m) { k[i + m - j] = k[m]; v[i + m - j] = v[m]; } n -= j - i; }
};
template<class C> void verify(C& c, const Ref& r, bool set)
{
    CHECKM(int(c.size()) == r.n, "size"); CHECKM(c.empty() == (r.n == 0), "empty()"); CHECKM(c.capacity() >= c.size(), "capacity");
    const C& cc = c; int i = 0; bool ok = true;
    for (const auto& e : cc) { CHECKM(i < r.n, "iteration"); ok = ok & (ekey(e) == r.k[i]); if (!set) ok = ok & (eval(e) == r.v[i]); ++i; }
    CHECKM(i == r.n, "iteration"); CHECKM(ok, "entries in order");
    for (auto it = c.rbegin(); it != c.rend(); ++it) { CHECKM(i > 0, "reverse iteration"); ok = ok & (ekey(*it) == r.k[--i]); }
    CHECKM(i == 0 && ok, "reverse iteration");
}
template<class C, class K> void lookups(C& c, const Ref& r, uc x, bool set)
{
    K key(x); const C& cc = c; long lo = c.lower_bound(key) - c.begin(), hi = c.upper_bound(key) - c.begin();
    CHECKM(r.is_lower(lo, x) && cc.lower_bound(key) - cc.begin() == lo, "lower_bound()");
    CHECKM(r.is_upper(hi, x) && cc.upper_bound(key) - cc.begin() == hi, "upper_bound()");
    CHECKM(cc.contains(key) == (hi > lo), "contains()");
    CHECKM(long(cc.count(key)) == hi - lo, "count()");
    auto p = c.equal_range(key); CHECKM(p.first - c.begin() == lo && p.second - c.begin() == hi, "equal_range()");
    auto q = cc.equal_range(key); CHECKM(q.first - cc.begin() == lo && q.second - cc.begin() == hi, "equal_range() const");
    auto f = c.find(key) - c.begin(), g = cc.find(key) - cc.begin();
    CHECKM(f == g, "find() const"); if (hi == lo) CHECKM(f == r.n, "find() of missing key"); else CHECKM(f >= lo && f < hi, "find()");
}
template<class C, bool Set, bool Multi, class K, class V = K> struct Ops {
    static auto entry(uc x, uc y) { if constexpr (Set) return K(x); else return typename C::value_type(K(x), V(y)); }
    static void ins(C& c, Ref& r, uc x, uc y, int how)
    {
        auto e = entry(x, y);
        auto done = [&](auto it, bool ins) {
            long i = it - c.begin();
            if (Multi) { CHECKM(ins && r.is_upper(i, x), "position of inserted entry"); r.put(i, x, y); }
            else { CHECKM(r.is_lower(i, x), "position of the key"); CHECKM(ins == !(i < r.n && r.k[i] == x), "inserted flag"); if (ins) r.put(i, x, y); }
        };
        auto act = [&](auto&& res) { if constexpr (Multi) done(res, true); else done(res.first, res.second); };
        if (how == 0) act(c.insert(e)); else if (how == 1) act(c.insert(std::move(e)));
        else if constexpr (Set) act(c.emplace(x)); else act(c.emplace(K(x), V(y)));
    }
    static void run(int N)
    {
      {
        if (param("K", 0) == 7) N = 2;
        C c; Ref r; int n = sym_choice("n", N + 1);
        if (sym_choice("reserve", 2)) c.reserve(std::size_t(N + 1));
        for (int i = 0; i < n; ++i) { uc x = sym<uc>("key"), y = sym<uc>("value"); ins(c, r, x, y, 0); }
        verify(c, r, Set);
        uc x = sym<uc>("k"), y = sym<uc>("v");
        switch (param("K", 0)) {
            case 0: ins(c, r, x, y, 1); break;
            case 1: ins(c, r, x, y, 2); break;
            case 2: { long m = long(c.erase(K(x))), cnt = 0, at = -1; for (int i = 0; i < r.n; ++i) if (r.k[i] == x) { if (at < 0) at = i; ++cnt; } CHECKM(m == cnt, "number of erased entries"); if (cnt) r.cut(int(at), int(at + cnt)); break; }
            case 3: lookups<C, K>(c, r, x, Set); break;
            case 4: { C d(std::move(c)); verify(d, r, Set); verify(c, Ref(), Set); c = std::move(d); verify(d, Ref(), Set); break; }
            case 5: c.clear(); r.n = 0; ins(c, r, x, y, 0); break;
            case 6: c.shrink_to_fit(); c.reserve_extra(3); CHECKM(int(c.capacity()) >= r.n + 3, "reserved capacity"); break;
            case 7: { typename C::value_type src[2] = { entry(x, y), entry(sym<uc>("k2"), y) }; bool empty = sym_choice("empty list", 2); C d(empty ? std::initializer_list<typename C::value_type>{} : std::initializer_list<typename C::value_type>{ src[0], src[1] }); c.insert(src, src + 2);
                Ref q; for (int i = 0; i < 2; ++i) { uc k = ekey(src[i]); if (Multi || !r.has(k)) r.add(k, y); if (!empty && (Multi || !q.has(k))) q.add(k, y); } verify(d, q, Set); break; }
            case 8: if constexpr (!Set && !Multi) {
                bool has = r.has(x); bool thrown = false;
                try { CHECKM(&c.at(K(x)) == &c.find(K(x))->second, "at()"); CHECKM(&static_cast<const C&>(c).at(K(x)) == &c.find(K(x))->second, "at()"); } catch (const std::out_of_range&) { thrown = true; }
                CHECKM(thrown == !has, "at() refuses missing keys"); break; } break;
            case 9: if constexpr (!Set && !Multi) { bool has = r.has(x); if (!has) r.add(x, 0); auto i = r.lower(x); CHECKM(val(c[K(x)]) == r.v[i], "operator[]"); c[K(x)] = V(y); r.v[i] = y; } break;
        }
        verify(c, r, Set);
        if constexpr (std::is_same_v<V, Tracked>) CHECKM(Tracked::live == r.n, "number of existing elements");
      }
      CHECKM(Tracked::live == 0, "all elements destroyed"); CHECKM(irsym_live_heap() == 0, "all memory released");
    }
};
