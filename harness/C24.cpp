//@ rt ios.cpp
//@ entry single P=0..3|0..4 N=3|3 covers=match,mismatch
//@ entry deep P=4..4|4..5 N=4|5 time=100|600 covers=match,mismatch
//@ entry deep2 P=2..3 N=3|4 A=2|3 time=100|600 covers=match,mismatch,ambiguous
//@ entry deep3 N=3|4 covers=match,mismatch
//@ entry two P=0..8 N=2|3 covers=match,mismatch,ambiguous
//@ entry order P=0..8 N=2|3 covers=match,mismatch
//@ entry wide N=2 covers=match,mismatch
//@ entry reuse covers=match,mismatch
//@ bound single: every pattern of 0 to 3 characters (4 thorough) against every string of 0 to 3 characters, all 256 character values
//@ bound deep: every pattern of 4 characters (and 5 thorough) over asterisk, a and b, against every string of 0 to 4 characters (5 thorough), all 256 character values
//@ bound deep2: every pair of patterns of 2 and 3 characters and of 3 and 3 characters over asterisk and a (and b in thorough), with and without ambiguity allowed, against every string of 0 to 3 characters (4 thorough)
//@ bound deep3: three patterns of 0 to 2 characters over asterisk and a, ambiguity allowed, against every string of 0 to 3 characters (4 thorough)
//@ bound two: every pair of patterns of 0 to 2 characters with ambiguity disallowed, every string of 0 to 2 characters (3 thorough)
//@ bound order: every pair of patterns of 0 to 2 characters with ambiguity allowed, every string of 0 to 2 characters (3 thorough)
//@ bound wide: every wide-character pattern and string of 0 to 2 characters
//@ bound reuse: a builder cleared and reused, an empty builder, patterns and strings of up to 2 characters
#include "sym.hpp"
#include <archon/core/string_matcher.hpp>
using namespace archon;
typedef std::size_t sz;
template<class C> static bool matches(const C* p, int m, const C* s, int n)
{
    if (m == 0) return n == 0;
    if (p[0] == C('*')) { for (int i = 0; i <= n; ++i) if (matches(p + 1, m - 1, s + i, n - i)) return true; return false; }
    return n > 0 && s[0] == p[0] && matches(p + 1, m - 1, s + 1, n - 1);
}
// do two patterns match a common string?
template<class C> static bool common(const C* p, int m, const C* q, int n)
{
    if (m == 0 && n == 0) return true;
    if (m > 0 && p[0] == C('*')) return common(p + 1, m - 1, q, n) || (n > 0 && common(p, m, q + 1, n - 1));
    if (n > 0 && q[0] == C('*')) return common(p, m, q + 1, n - 1) || (m > 0 && common(p + 1, m - 1, q, n));
    return m > 0 && n > 0 && p[0] == q[0] && common(p + 1, m - 1, q + 1, n - 1);
}
template<class C> static void one(int m, int N)
{
    C p[8], s[8]; for (int i = 0; i < m; ++i) p[i] = sym<C>("p"); int n = sym_choice("n", N + 1); for (int i = 0; i < n; ++i) s[i] = sym<C>("s");
    core::BasicStringMatcher<C> mt(core::StringMatcherBase::PatternType::wildcard, std::basic_string_view<C>(p, sz(m))); CHECKM(!mt.is_degenerate(), "degenerate");
    bool r = mt.match(std::basic_string_view<C>(s, sz(n))), e = matches(p, m, s, n); CHECKM(r == e, "match"); if (e) COVER("match"); else COVER("mismatch");
}
HARNESS(single) { one<char>(param("P", 2), param("N", 3)); }
HARNESS(wide) { one<wchar_t>(sym_choice("m", 3), param("N", 2)); }
static void two_(bool allow)
{
    int m1 = param("P", 0) / 3, m2 = param("P", 0) % 3; char p[4], q[4], s[4]; irsym_bytes(p, sz(m1), "p"); irsym_bytes(q, sz(m2), "q"); int n = sym_choice("n", param("N", 2) + 1); irsym_bytes(s, sz(n), "s");
    typedef core::StringMatcher M; M::Builder::Config cf; cf.allow_interpattern_ambiguity = allow; M::Builder b(std::move(cf)); sz i1 = sym<sz>("id"), i2 = sym<sz>("id"); b.add_pattern(M::PatternType::wildcard, std::string_view(p, sz(m1)), i1); b.add_pattern(M::PatternType::wildcard, std::string_view(q, sz(m2)), i2);
    bool amb = common(p, m1, q, m2); M mt; bool thrown = false; try { mt = b.build(); } catch (std::runtime_error&) { thrown = true; }
    CHECKM(thrown == (amb && !allow), "ambiguity is rejected exactly when a string matches both"); if (thrown) { COVER("ambiguous"); return; }
    sz id = 0; bool r = mt.match(std::string_view(s, sz(n)), id), e1 = matches(p, m1, s, n), e2 = matches(q, m2, s, n); CHECKM(r == (e1 || e2), "match"); if (r) CHECKM(id == (e1 ? i1 : i2), "pattern identifier"); if (r) COVER("match"); else COVER("mismatch");
}
HARNESS(two) { two_(false); }
HARNESS(order) { two_(true); }
HARNESS(reuse)
{
    typedef core::StringMatcher M; M::Builder::Config cf; M::Builder b(std::move(cf)); CHECKM(b.empty(), "empty"); char p[4], q[4], s[4]; int m = sym_choice("m", 3), k = sym_choice("k", 2), n = sym_choice("n", 3); irsym_bytes(p, sz(m), "p"); irsym_bytes(q, sz(k), "q"); irsym_bytes(s, sz(n), "s"); std::string_view sv(s, sz(n));
    if (sym_choice("build empty", 2)) { M mt; b.build(mt); CHECKM(mt.is_degenerate() && !mt.match(sv), "no pattern matches nothing"); }
    b.add_pattern(M::PatternType::wildcard, std::string_view(p, sz(m)), 7); CHECKM(!b.empty(), "not empty"); M mt; b.build(mt); sz id = 0; CHECKM(mt.match(sv, id) == matches(p, m, s, n), "match");
    b.clear(); CHECKM(b.empty(), "cleared"); b.add_pattern(M::PatternType::wildcard, std::string_view(q, sz(k)), 9); b.build(mt); bool e = matches(q, k, s, n); CHECKM(mt.match(sv, id) == e && (!e || id == 9), "match after reuse"); if (e) COVER("match"); else COVER("mismatch");
}

static void pick(char* p, int m, int k) { for (int i = 0; i < m; ++i) p[i] = "*ab"[sym_choice("p", k)]; }
HARNESS(deep)
{
    int m = param("P", 4), N = param("N", 5); char p[8], s[8]; pick(p, m, 3); core::StringMatcher mt(core::StringMatcherBase::PatternType::wildcard, std::string_view(p, sz(m)));
    int n = sym_choice("n", N + 1); irsym_bytes(s, sz(n), "s"); bool r = mt.match(std::string_view(s, sz(n))), e = matches(p, m, s, n); CHECKM(r == e, "match"); if (e) COVER("match"); else COVER("mismatch");
}
HARNESS(deep2)
{
    int m = 3, m2 = param("P", 2), N = param("N", 4); char p[8], q[8], s[8]; pick(p, m, param("A", 2)); pick(q, m2, param("A", 2)); bool allow = sym_choice("allow", 2), sw = sym_choice("swap", 2);
    typedef core::StringMatcher M; M::Builder::Config cf; cf.allow_interpattern_ambiguity = allow; M::Builder b(std::move(cf)); std::string_view v1(p, sz(m)), v2(q, sz(m2)); b.add_pattern(M::PatternType::wildcard, sw ? v2 : v1, sw ? 2 : 1); b.add_pattern(M::PatternType::wildcard, sw ? v1 : v2, sw ? 1 : 2);
    bool amb = common(p, m, q, m2), thrown = false; M mt; try { b.build(mt); } catch (std::runtime_error&) { thrown = true; } CHECKM(thrown == (amb && !allow), "ambiguity is rejected exactly when a string matches both"); if (thrown) { COVER("ambiguous"); return; }
    int n = sym_choice("n", N + 1); irsym_bytes(s, sz(n), "s"); sz id = 0; bool r = mt.match(std::string_view(s, sz(n)), id), e1 = matches(p, m, s, n), e2 = matches(q, m2, s, n); CHECKM(r == (e1 || e2), "match"); if (r) CHECKM(id == (e1 && e2 ? (sw ? 2 : 1) : e1 ? 1 : 2), "pattern identifier"); if (r) COVER("match"); else COVER("mismatch");
}
HARNESS(deep3)
{
    typedef core::StringMatcher M; M::Builder::Config cf; cf.allow_interpattern_ambiguity = true; M::Builder b(std::move(cf)); char p[3][4], s[8]; int m[3], N = param("N", 3); for (int i = 0; i < 3; ++i) { m[i] = sym_choice("m", 3); pick(p[i], m[i], 2); b.add_pattern(M::PatternType::wildcard, std::string_view(p[i], sz(m[i])), sz(10 + i)); }
    M mt = b.build(); int n = sym_choice("n", N + 1); irsym_bytes(s, sz(n), "s"); sz id = 0; bool r = mt.match(std::string_view(s, sz(n)), id); int e = -1; for (int i = 2; i >= 0; --i) if (matches(p[i], m[i], s, n)) e = i;
    CHECKM(r == (e >= 0), "match"); if (r) CHECKM(id == sz(10 + e), "earliest matching pattern"); if (r) COVER("match"); else COVER("mismatch");
}
