//@ entry box K=0..4 covers=checked time=200|600
//@ entry clip K=0..1 covers=meet,apart time=200|600
//@ entry order
//@ entry pos covers=can
//@ entry size
//@ bound box: every pair of boxes: all 32-bit positions, all non-negative 32-bit sizes
//@ bound clip: all 32-bit positions and non-negative 32-bit sizes on one axis, 4-bit ones on the other, for each axis
//@ bound order: all 32-bit positions and sizes, also negative sizes
//@ bound pos: all 32-bit positions and sizes (sums and differences: those that are representable)
//@ bound size: all 32-bit sizes (sums, differences: those that are representable; products: factors from -8 to 7 and sizes of 16 bits; quotients: divisors 1 to 8)
#include "sym.hpp"
#include <archon/util/pixel_box.hpp>
#include <archon/util/pixel_pos.hpp>
#include <archon/util/pixel_size.hpp>
using namespace archon;
namespace px = util::pixel;
typedef std::int64_t L;
static px::Box any() { return px::Box(px::Pos(sym<int>("x"), sym<int>("y")), px::Size(sym_nonneg<int>("w"), sym_nonneg<int>("h"))); }
struct R { L x0, y0, x1, y1; };
static R rect(const px::Box& b) { return { b.pos.x, b.pos.y, L(b.pos.x) + b.size.width, L(b.pos.y) + b.size.height }; }
static bool isect(const px::Box& a, const px::Box& b) { R r = rect(a), s = rect(b); return (a.size.width > 0) & (a.size.height > 0) & (b.size.width > 0) & (b.size.height > 0) & (s.x0 < r.x1) & (r.x0 < s.x1) & (s.y0 < r.y1) & (r.y0 < s.y1); }
static bool within(const px::Box& a, const px::Box& b) { R r = rect(a), s = rect(b); return (r.x0 <= s.x0) & (s.x1 <= r.x1) & (r.y0 <= s.y0) & (s.y1 <= r.y1); }
HARNESS(box)
{
    px::Box a = any(), b = any();
    switch (param("K", 0)) {
        case 0: { bool i = a.intersects(b); CHECKM(i == isect(a, b), "intersects"); COVER("checked"); break; }
        case 1: { bool c = a.contains(b); CHECKM(c == within(a, b), "contains"); COVER("checked"); break; }
        case 2: { bool c = a.contained_in(b); CHECKM(c == within(b, a), "contained in"); COVER("checked"); break; }
        case 3: { bool c = a.contains_pixel_at(b.pos); CHECKM(c == within(a, px::Box(b.pos, 1)), "contains pixel"); COVER("checked"); break; }
        case 4: { R r = rect(a); CHECKM(a.is_empty() == ((a.size.width == 0) | (a.size.height == 0)), "empty"); CHECKM(a.is_valid() == ((r.x1 <= std::numeric_limits<int>::max()) & (r.y1 <= std::numeric_limits<int>::max())), "valid"); COVER("checked"); break; }
    }
}
HARNESS(clip)
{
    // one axis at a time is arbitrary, the other one of two cases: overlapping or not
    px::Box a = any(), b; int K = param("K", 0); b = any(); int& p1 = K ? a.pos.y : a.pos.x; int& p2 = K ? b.pos.y : b.pos.x; int& n1 = K ? a.size.height : a.size.width; int& n2 = K ? b.size.height : b.size.width;
    { int& q1 = K ? a.pos.x : a.pos.y; int& q2 = K ? b.pos.x : b.pos.y; int& m1 = K ? a.size.width : a.size.height; int& m2 = K ? b.size.width : b.size.height; q1 &= 15; q2 &= 15; m1 &= 15; m2 &= 15; }
    px::Box o = b; bool meet = isect(a, b); bool res = a.clip(b); CHECKM(res == meet, "clips exactly when boxes intersect");
    if (res) { COVER("meet"); L e1 = L(p1) + n1, e2 = L(K ? o.pos.y : o.pos.x) + (K ? o.size.height : o.size.width), e = L(p2) + n2; int s1 = p1, s2 = K ? o.pos.y : o.pos.x; CHECKM((p2 >= s1) & (p2 >= s2) & ((p2 == s1) | (p2 == s2)), "position of intersection"); CHECKM((e <= e1) & (e <= e2) & ((e == e1) | (e == e2)), "extent of intersection");
        R r = rect(a), s = rect(o), t = rect(b); if (K) CHECKM((t.x0 == std::max(r.x0, s.x0)) & (t.x1 == std::min(r.x1, s.x1)), "other axis"); else CHECKM((t.y0 == std::max(r.y0, s.y0)) & (t.y1 == std::min(r.y1, s.y1)), "other axis"); }
    else { COVER("apart"); CHECKM((b.pos.x == o.pos.x) & (b.pos.y == o.pos.y) & (b.size.width == o.size.width) & (b.size.height == o.size.height), "unchanged when there is no intersection"); }
}
static bool lex(L a, L b, L c, L d) { return (a < c) | ((a == c) & (b < d)); }
HARNESS(order)
{
    px::Pos p(sym<int>("x"), sym<int>("y")), q(sym<int>("x2"), sym<int>("y2")); px::Size s(sym<int>("w"), sym<int>("h")), t(sym<int>("w2"), sym<int>("h2"));
    bool pe = (p.x == q.x) & (p.y == q.y), pl = lex(p.x, p.y, q.x, q.y), pg = lex(q.x, q.y, p.x, p.y), se = (s.width == t.width) & (s.height == t.height), sl = lex(s.width, s.height, t.width, t.height), sg = lex(t.width, t.height, s.width, s.height);
    auto six = [](const auto& a, const auto& b, bool e, bool l, bool g) { CHECKM(((a == b) == e) & ((a != b) == !e) & ((a < b) == l) & ((a <= b) == (l | e)) & ((a > b) == g) & ((a >= b) == (g | e)), "comparison"); };
    six(p, q, pe, pl, pg); six(s, t, se, sl, sg); six(px::Box(p, s), px::Box(q, t), pe & se, pl | (pe & sl), pg | (pe & sg));
    px::Box u = splice(px::Box(p, s), px::Box(q, t)); CHECKM((u.pos.x == p.x) & (u.pos.y == q.y) & (u.size.width == s.width) & (u.size.height == t.height), "splice");
    px::Size mn = min(s, t), mx = max(s, t); CHECKM((mn.width == std::min(s.width, t.width)) & (mn.height == std::min(s.height, t.height)) & (mx.width == std::max(s.width, t.width)) & (mx.height == std::max(s.height, t.height)), "min/max");
    CHECKM(s.contains(t) == ((s.width >= t.width) & (s.height >= t.height)) && s.contained_in(t) == ((s.width <= t.width) & (s.height <= t.height)), "containment of sizes");
    CHECKM(s.is_valid() == ((s.width >= 0) & (s.height >= 0)), "valid size"); CHECKM(s.is_zero() == ((s.width == 0) & (s.height == 0)) && p.is_zero() == ((p.x == 0) & (p.y == 0)), "zero");
    px::Box v(s); CHECKM((v.pos.x == 0) & (v.pos.y == 0) & (v.size.width == s.width) & (v.size.height == s.height), "box at the origin"); px::Size one(p.x); CHECKM((one.width == p.x) & (one.height == p.x), "square size");
}
static bool fit(L v) { return (v >= std::numeric_limits<int>::min()) & (v <= std::numeric_limits<int>::max()); }
HARNESS(pos)
{
    px::Pos p(sym<int>("x"), sym<int>("y")), q(sym<int>("x2"), sym<int>("y2")); px::Size s(sym<int>("w"), sym<int>("h")); bool ca = fit(L(p.x) + s.width) & fit(L(p.y) + s.height), cs = fit(L(p.x) - s.width) & fit(L(p.y) - s.height);
    CHECKM(p.can_add(s) == ca, "can add"); CHECKM(p.can_sub(s) == cs, "can subtract");
    px::Pos a = p.proj_x(), b = p.proj_y(), c = p.with_x(q.x), d = p.with_y(q.y); CHECKM((a.x == p.x) & (a.y == 0) & (b.x == 0) & (b.y == p.y) & (c.x == q.x) & (c.y == p.y) & (d.x == p.x) & (d.y == q.y), "projections");
    if (ca) { COVER("can"); px::Pos r = p + s, t = p; t += s; CHECKM((r.x == L(p.x) + s.width) & (r.y == L(p.y) + s.height) & (t.x == r.x) & (t.y == r.y), "sum"); }
    if (cs) { px::Pos r = p - s, t = p; t -= s; CHECKM((r.x == L(p.x) - s.width) & (r.y == L(p.y) - s.height) & (t.x == r.x) & (t.y == r.y), "difference"); }
    if (fit(L(p.x) - q.x) & fit(L(p.y) - q.y)) { px::Size r = p - q; CHECKM((r.width == L(p.x) - q.x) & (r.height == L(p.y) - q.y), "distance"); }
}
HARNESS(size)
{
    px::Size s(sym<int>("w"), sym<int>("h")), t(sym<int>("w2"), sym<int>("h2"));
    if (fit(L(s.width) + t.width) & fit(L(s.height) + t.height)) { px::Size r = s + t, u = s; u += t; CHECKM((r.width == L(s.width) + t.width) & (r.height == L(s.height) + t.height) & (u == r), "sum"); }
    if (fit(L(s.width) - t.width) & fit(L(s.height) - t.height)) { px::Size r = s - t, u = s; u -= t; CHECKM((r.width == L(s.width) - t.width) & (r.height == L(s.height) - t.height) & (u == r), "difference"); }
    px::Size a = s.proj_x(), b = s.proj_y(), c = s.with_width(t.width), d = s.with_height(t.height); CHECKM((a.width == s.width) & (a.height == 0) & (b.width == 0) & (b.height == s.height) & (c.width == t.width) & (c.height == s.height) & (d.width == s.width) & (d.height == t.height), "projections");
    px::Size n(sym<std::int16_t>("nw"), sym<std::int16_t>("nh")); int f = sym_choice("f", 16) - 8; px::Size m = n * f, m2 = f * n; CHECKM((m.width == L(n.width) * f) & (m.height == L(n.height) * f) & (m2 == m), "product");
    if (f > 0) { px::Size q = n / f; L rw = n.width - L(q.width) * f, rh = n.height - L(q.height) * f; CHECKM((rw > -f) & (rw < f) & (rh > -f) & (rh < f) & ((rw == 0) | ((rw < 0) == (n.width < 0))) & ((rh == 0) | ((rh < 0) == (n.height < 0))), "quotient"); }
}
