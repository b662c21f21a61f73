#include "expr.hpp"
std::vector<VarInfo> g_vars;
static std::vector<Expr*> g_tab; static size_t g_n = 0; static u32 g_id = 0;
static std::vector<Expr*> g_pool;
size_t exprCount() { return g_n; }

static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static u64 hashE(const Expr& e) {
    u64 h = (u64)e.k * 1000003 + e.w * 257 + e.aux; h = mix(h, e.lo);
    h = mix(h, e.a ? e.a->id + 1 : 0); h = mix(h, e.b ? e.b->id + 1 : 0); h = mix(h, e.c ? e.c->id + 1 : 0);
    if (e.k == K::Const) { h = mix(h, (u64)e.val); h = mix(h, (u64)(e.val >> 64)); }
    return h;
}
static bool sameE(const Expr& x, const Expr& y) {
    return x.k == y.k && x.aux == y.aux && x.w == y.w && x.lo == y.lo && x.a == y.a && x.b == y.b && x.c == y.c && x.val == y.val;
}
static void range(Expr& e);
static Expr* chunk = nullptr; static int chunkLeft = 0;
static Expr* cons(Expr& t) {
    if (t.w == 0 || t.w > 128) { fprintf(stderr, "irsym: unsupported expression width %d\n", t.w); exit(2); }
    if (g_tab.empty()) g_tab.assign(1 << 16, nullptr);
    if (g_n * 2 > g_tab.size()) {
        std::vector<Expr*> n(g_tab.size() * 2, nullptr);
        for (Expr* e : g_tab) if (e) { size_t i = hashE(*e) & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; }
        g_tab.swap(n);
    }
    size_t i = hashE(t) & (g_tab.size() - 1);
    while (g_tab[i]) { if (sameE(*g_tab[i], t)) return g_tab[i]; i = (i + 1) & (g_tab.size() - 1); }
    range(t);
    if (t.k != K::Const && t.w <= 64 && t.umin == t.umax) return mkConst(t.umin, t.w);
    if (!chunkLeft) { chunk = (Expr*)malloc(sizeof(Expr) * 1024); chunkLeft = 1024; }
    Expr* e = new (chunk++) Expr(t); --chunkLeft; e->id = g_id++; g_tab[i] = e; ++g_n; return e;
}
static Expr* mk(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u32 lo = 0, u8 aux = 0) {
    Expr t; t.k = k; t.aux = aux; t.w = w; t.lo = lo; t.a = a; t.b = b; t.c = c; t.val = 0; t.id = 0; return cons(t);
}
// cheap unsigned interval
static void range(Expr& e) {
    u64 M = mask64(e.w); e.umin = 0; e.umax = M;
    if (e.w > 64) return;
    switch (e.k) {
        case K::Const: e.umin = e.umax = (u64)e.val; break;
        case K::Add: {
            u128 lo = (u128)e.a->umin + e.b->umin, hi = (u128)e.a->umax + e.b->umax;
            if (hi <= M) { e.umin = (u64)lo; e.umax = (u64)hi; }
            else if (lo > M) { e.umin = (u64)(lo & M); e.umax = (u64)(hi & M); }
            break; }
        case K::Mul: { if (e.b->isC() && e.b->umin == M && e.w > 1) { if (e.a->umin > 0) { e.umin = (M - e.a->umax) + 1; e.umax = (M - e.a->umin) + 1; } break; } u128 hi = (u128)e.a->umax * e.b->umax; if (hi <= M) { e.umin = e.a->umin * e.b->umin; e.umax = (u64)hi; } break; }
        case K::UDiv: if (e.b->umin > 0) { e.umax = e.a->umax / e.b->umin; e.umin = e.a->umin / e.b->umax; } break;
        case K::URem: if (e.b->umin > 0) { e.umax = std::min(e.a->umax, e.b->umax - 1); if (e.a->umax < e.b->umin) e.umin = e.a->umin; } break;
        case K::And: e.umax = std::min(e.a->umax, e.b->umax); break;
        case K::Or: { e.umin = std::max(e.a->umin, e.b->umin); u64 m = e.a->umax | e.b->umax; int n = m ? 64 - __builtin_clzll(m) : 0; e.umax = mask64(n); if (!n) e.umax = 0; break; }
        case K::Xor: { if (e.b->isC() && e.b->umin == M) { e.umin = M - e.a->umax; e.umax = M - e.a->umin; break; } u64 m = e.a->umax | e.b->umax; int n = m ? 64 - __builtin_clzll(m) : 0; e.umax = n ? mask64(n) : 0; break; }
        case K::LShr: if (e.b->isC()) { u64 s = e.b->umin; e.umin = s < 64 ? e.a->umin >> s : 0; e.umax = s < 64 ? e.a->umax >> s : 0; } else e.umax = e.a->umax; break;
        case K::Ite: e.umin = std::min(e.b->umin, e.c->umin); e.umax = std::max(e.b->umax, e.c->umax); break;
        case K::ZExt: if (e.a->w <= 64) { e.umin = e.a->umin; e.umax = e.a->umax; } break;
        case K::SExt: { u64 sb = (u64)1 << (e.a->w - 1); u64 ext = M & ~mask64(e.a->w);
            if (e.a->umax < sb) { e.umin = e.a->umin; e.umax = e.a->umax; }
            else if (e.a->umin >= sb) { e.umin = e.a->umin | ext; e.umax = e.a->umax | ext; } break; }
        case K::Concat: e.umin = (e.a->umin << e.b->w) | e.b->umin; e.umax = (e.a->umax << e.b->w) | e.b->umax; break;
        case K::Extract: if (e.a->w <= 64) { if (e.lo + e.w == e.a->w) { e.umin = e.a->umin >> e.lo; e.umax = e.a->umax >> e.lo; }
            else { u64 lo = e.a->umin >> e.lo, hi = e.a->umax >> e.lo; if ((lo & ~M) == (hi & ~M)) { e.umin = lo & M; e.umax = hi & M; } } } break;
        default: break;
    }
}
Expr* mkConst(u128 v, unsigned w) { Expr t; t.k = K::Const; t.aux = 0; t.w = w; t.lo = 0; t.a = t.b = t.c = nullptr; t.val = v & maskw(w); t.id = 0; return cons(t); }
static std::unordered_map<std::string, Expr*> g_byname;
Expr* mkVar(const std::string& name, unsigned w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = g_byname.find(key); if (it != g_byname.end()) return it->second;
    Expr* e = mk(K::Var, w, nullptr, nullptr, nullptr, (u32)g_vars.size());
    g_vars.push_back({name, (int)w, e}); g_byname[key] = e; return e;
}
static inline bool isZero(Expr* e) { return e->isC() && e->val == 0; }
static inline bool isOnes(Expr* e) { return e->isC() && e->val == maskw(e->w); }
static inline bool constIte(Expr* e) { return e->k == K::Ite && e->b->isC() && e->c->isC(); }
static inline bool halfConstIte(Expr* e) { return e->k == K::Ite && (e->b->isC() || e->c->isC()); }

// ---- constant folding for a binary op
static u128 fold(K k, u128 a, u128 b, unsigned w) {
    u128 M = maskw(w);
    switch (k) {
        case K::Add: return (a + b) & M; case K::Mul: return (a * b) & M;
        case K::UDiv: return b ? a / b : M; case K::URem: return b ? a % b : a;
        case K::SDiv: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (-(u128)x) & M; return (u128)(x / y) & M; }
        case K::SRem: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
        case K::And: return a & b; case K::Or: return a | b; case K::Xor: return a ^ b;
        case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & M; case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
        case K::AShr: { i128 x = sgn(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
        case K::Eq: return a == b; case K::Ult: return a < b; case K::Ule: return a <= b;
        case K::Slt: return sgn(a, w) < sgn(b, w); case K::Sle: return sgn(a, w) <= sgn(b, w);
        default: abort();
    }
}
static bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }
static Expr* bin(K k, Expr* a, Expr* b);
// op over ite-with-constant arms: push inside
static Expr* pushIte(K k, Expr* a, Expr* b, Expr* (*f)(Expr*, Expr*)) {
    if (b->isC() && constIte(a)) return mkIte(a->a, f(a->b, b), f(a->c, b));
    if (a->isC() && constIte(b)) return mkIte(b->a, f(a, b->b), f(a, b->c));
    return nullptr;
}
static Expr* fin(K k, Expr* a, Expr* b) { return mk(k, isCmp(k) ? 1 : a->w, a, b); }
#define FOLD(k) if (a->isC() && b->isC()) return mkConst(fold(k, a->val, b->val, a->w), isCmp(k) ? 1 : a->w)
#define COMM() if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b)

Expr* mkNeg(Expr* a) { if (a->isC()) return mkConst(-a->val, a->w); return mkMul(a, mkConst(maskw(a->w), a->w)); }
static bool isNeg(Expr* e) { return e->k == K::Mul && isOnes(e->b); }
static unsigned bitlen(u128 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }
// a + (a / c) * -c is a % c
static Expr* remPattern(Expr* a, Expr* m) {
    if (m->k != K::Mul) return nullptr;
    auto strip = [](Expr* e) { return e->k == K::ZExt ? e->a : e; };
    auto stripS = [](Expr* e) { return e->k == K::SExt ? e->a : e; };
    if (m->b->isC()) {
        Expr* q = strip(m->a); Expr* nc = mkConst(-m->b->val, a->w);
        if (q->k == K::UDiv && q->b->isC() && q->b->val == nc->val && (mkZExt(q->a, std::max<unsigned>(a->w, q->w)) == a)) return mkZExt(mkURem(q->a, q->b), a->w);
        q = stripS(m->a);
        if (q->k == K::SDiv && q->b->isC() && (u128)sgn(q->b->val, q->w) == (u128)sgn(nc->val, nc->w) && (mkSExt(q->a, std::max<unsigned>(a->w, q->w)) == a)) return mkSExt(mkSRem(q->a, q->b), a->w);
        if (isOnes(m->b) && m->a->k == K::Mul && !m->a->b->isC()) {
            for (int t = 0; t < 2; ++t) { Expr* qq = t ? m->a->b : m->a->a; Expr* y = t ? m->a->a : m->a->b;
                Expr* d = strip(qq); if (d->k == K::UDiv && d->w <= a->w && mkZExt(d->b, a->w) == y && mkZExt(d->a, a->w) == a) return mkZExt(mkURem(d->a, d->b), a->w);
                d = stripS(qq); if (d->k == K::SDiv && d->w <= a->w && mkSExt(d->b, a->w) == y && mkSExt(d->a, a->w) == a) return mkSExt(mkSRem(d->a, d->b), a->w); }
        }
    }
    return nullptr;
}
Expr* mkAdd(Expr* a, Expr* b) {
    FOLD(K::Add); COMM();
    if (isZero(b)) return a;
    if (a->w == 1) return mkXor(a, b);
    if (b->isC()) {
        if (a->k == K::Add && a->b->isC()) return mkAdd(a->a, mkConst(a->b->val + b->val, a->w));
        if (a->k == K::Xor && isOnes(a->b) && b->val == 1) return mkNeg(a->a);
        if (Expr* r = pushIte(K::Add, a, b, mkAdd)) return r;
        if (a->w > 64 && a->k == K::ZExt && a->a->w < 64 && b->val < ((u128)1 << 63)) { unsigned k = std::max((unsigned)a->a->w, bitlen(a->a->umax + b->val)); return mkZExt(mkAdd(mkZExt(a->a, k), mkConst(b->val, k)), a->w); }
        // zext(x)+c that cannot carry out of the narrower type is left as is
    } else {
        if (a->k == K::Add && a->b->isC()) return mkAdd(mkAdd(a->a, b), a->b);
        if (b->k == K::Add && b->b->isC()) return mkAdd(mkAdd(a, b->a), b->b);
        if (Expr* r = remPattern(a, b)) return r;
        if (Expr* r = remPattern(b, a)) return r;
        if (a->w > 64) { auto ok = [](Expr* e) { return e->k == K::ZExt && e->a->w < 64; };
            if (ok(a) && ok(b)) { unsigned k = std::max((unsigned)std::max(a->a->w, b->a->w), bitlen((u128)a->a->umax + b->a->umax)); return mkZExt(mkAdd(mkZExt(a->a, k), mkZExt(b->a, k)), a->w); } }
        // x + (-x)
        if (isNeg(b) && b->a == a) return mkConst(0, a->w);
        if (isNeg(a) && a->a == b) return mkConst(0, a->w);
        // (x + y) + -x
        if (isNeg(b) && a->k == K::Add) { if (a->a == b->a) return a->b; if (a->b == b->a) return a->a; }
        if (isNeg(a) && b->k == K::Add) { if (b->a == a->a) return b->b; if (b->b == a->a) return b->a; }
        // -(x+y) + x
        if (isNeg(a) && a->a->k == K::Add) { if (a->a->a == b) return mkNeg(a->a->b); if (a->a->b == b) return mkNeg(a->a->a); }
        if (isNeg(b) && b->a->k == K::Add) { if (b->a->a == a) return mkNeg(b->a->b); if (b->a->b == a) return mkNeg(b->a->a); }
        if (a == b) return mkShl(a, mkConst(1, a->w));
    }
    return fin(K::Add, a, b);
}
Expr* mkSub(Expr* a, Expr* b) {
    if (a == b) return mkConst(0, a->w);
    return mkAdd(a, mkNeg(b));
}
static unsigned ubits(Expr* e); static unsigned sbits(Expr* e);
Expr* mkMul(Expr* a, Expr* b) {
    FOLD(K::Mul); COMM();
    if (b->isC()) {
        if (b->val == 0) return b; if (b->val == 1) return a;
        if (a->w == 1) return mkAnd(a, b);
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) ++s; return mkShl(a, mkConst(s, a->w)); }
        if (a->k == K::Mul && a->b->isC()) return mkMul(a->a, mkConst(a->b->val * b->val, a->w));
        if (isOnes(b) && a->k == K::Add) return mkAdd(mkNeg(a->a), mkNeg(a->b));
        if (a->k == K::Add && a->b->isC()) return mkAdd(mkMul(a->a, b), mkConst(a->b->val * b->val, a->w));
        if (Expr* r = pushIte(K::Mul, a, b, mkMul)) return r;
    }
    else { // a product that cannot wrap is computed in the narrowest width
        unsigned k = ubits(a) + ubits(b); if (k && k < a->w) return mkZExt(mkMul(mkTrunc(a, k), mkTrunc(b, k)), a->w);
        k = sbits(a) + sbits(b); if (k < a->w) return mkSExt(mkMul(mkTrunc(a, k), mkTrunc(b, k)), a->w);
    }
    return fin(K::Mul, a, b);
}
// number of low bits that can be nonzero
static unsigned ubits(Expr* e) { if (e->isC()) return bitlen(e->val); if (e->w <= 64) return bitlen(e->umax); if (e->k == K::ZExt) return ubits(e->a); return e->w; }
// width of a two's complement representation that holds the value
static unsigned sbits(Expr* e) { if (e->isC()) { i128 v = sgn(e->val, e->w); return 1 + bitlen(v < 0 ? (u128)~v : (u128)v); }
    if (e->k == K::SExt) return sbits(e->a);
    if (e->k == K::SRem) return std::min(sbits(e->a), sbits(e->b)); if (e->k == K::SDiv) return std::min((unsigned)e->w, sbits(e->a) + 1);
    if (e->k == K::Ite && (e->b->k == K::SExt || e->c->k == K::SExt)) return std::max(sbits(e->b), sbits(e->c));
    unsigned u = ubits(e); return u < e->w ? u + 1 : e->w; }
// (x * c + k) / d, where c is a multiple of d and the dividend cannot wrap
static Expr* mulDiv(Expr* a, Expr* b, unsigned bits) {
    if (!b->isC() || b->val < 2 || a->w > 64) return nullptr;
    u128 k = 0; Expr* m = a; if (m->k == K::Add && m->b->isC()) { k = m->b->val; m = m->a; }
    if (m->k != K::Mul || !m->b->isC() || m->b->val == 0 || m->b->val % b->val) return nullptr;
    if ((u128)m->a->umax * m->b->val + k > maskw(bits)) return nullptr;
    return mkAdd(mkMul(m->a, mkConst(m->b->val / b->val, a->w)), mkConst(k / b->val, a->w));
}
Expr* mkUDiv(Expr* a, Expr* b) {
    FOLD(K::UDiv);
    if (Expr* r = mulDiv(a, b, a->w)) return r;
    { unsigned k = std::max(1u, std::max(ubits(a), ubits(b))); if (k < a->w) return mkZExt(mkUDiv(mkTrunc(a, k), mkTrunc(b, k)), a->w); }
    if (b->isC() && b->val) {
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) ++s; return mkLShr(a, mkConst(s, a->w)); }
        if (a->w <= 64 && a->umax < b->umin) return mkConst(0, a->w);
        if (Expr* r = pushIte(K::UDiv, a, b, mkUDiv)) return r;
        if (a->k == K::UDiv && a->b->isC() && a->b->val) { u128 p; if (__builtin_mul_overflow(a->b->val, b->val, &p) || p > maskw(a->w)) return mkConst(0, a->w); return mkUDiv(a->a, mkConst(p, a->w)); }
        if (a->k == K::ZExt && b->val <= maskw(a->a->w)) return mkZExt(mkUDiv(a->a, mkTrunc(b, a->a->w)), a->w);
    }
    return fin(K::UDiv, a, b);
}
Expr* mkURem(Expr* a, Expr* b) {
    FOLD(K::URem);
    { unsigned k = std::max(1u, std::max(ubits(a), ubits(b))); if (k < a->w) return mkZExt(mkURem(mkTrunc(a, k), mkTrunc(b, k)), a->w); }
    if (b->isC() && b->val) {
        if (b->val == 1) return mkConst(0, a->w);
        if ((b->val & (b->val - 1)) == 0) return mkAnd(a, mkConst(b->val - 1, a->w));
        if (a->w <= 64 && a->umax < b->umin) return a;
        if (Expr* r = pushIte(K::URem, a, b, mkURem)) return r;
        if (a->k == K::ZExt && b->val <= maskw(a->a->w)) return mkZExt(mkURem(a->a, mkTrunc(b, a->a->w)), a->w);
    }
    return fin(K::URem, a, b);
}
static bool nonneg(Expr* e);
// division of a value known to be negative, by a positive constant: on the magnitudes
static Expr* negDiv(Expr* a, Expr* b, bool rem) {
    if (!b->isC() || a->w > 64 || a->w < 2 || (i128)sgn(b->val, b->w) <= 0) return nullptr;
    Expr* m;
    if (a->umin >= (u64)1 << (a->w - 1)) m = mkNeg(a);
    else if (isNeg(a) && nonneg(a->a)) m = a->a;
    else return nullptr;
    return mkNeg(rem ? mkURem(m, b) : mkUDiv(m, b));
}
static bool nonneg(Expr* e) { return e->w <= 64 ? e->umax <= (mask64(e->w) >> 1) : (e->k == K::ZExt); }
Expr* mkSDiv(Expr* a, Expr* b) {
    FOLD(K::SDiv);
    if (b->isC() && !(b->val >> (b->w - 1) & 1)) if (Expr* r = mulDiv(a, b, a->w - 1)) return r;
    { unsigned k = std::max(sbits(a), sbits(b)) + !(b->isC() && sgn(b->val, b->w) != -1); if (k < a->w) return mkSExt(mkSDiv(mkTrunc(a, k), mkTrunc(b, k)), a->w); }
    if (nonneg(a) && nonneg(b) && b->w <= 64 && b->umin > 0) return mkUDiv(a, b);
    if (b->isC() && b->val == 1) return a;
    if (Expr* r = negDiv(a, b, false)) return r;
    if (b->isC() && a->k == K::SDiv && a->b->isC()) { i128 c1 = sgn(a->b->val, a->w), c2 = sgn(b->val, b->w), p; // truncating divisions compose
        if (c1 > 1 && c2 > 1 && !__builtin_mul_overflow(c1, c2, &p) && p <= (i128)(maskw(a->w) >> 1)) return mkSDiv(a->a, mkConst((u128)p, a->w)); }
    return fin(K::SDiv, a, b);
}
Expr* mkSRem(Expr* a, Expr* b) {
    FOLD(K::SRem);
    { unsigned k = std::max(sbits(a), sbits(b)); if (k < a->w) return mkSExt(mkSRem(mkTrunc(a, k), mkTrunc(b, k)), a->w); }
    if (nonneg(a) && nonneg(b) && b->w <= 64 && b->umin > 0) return mkURem(a, b);
    if (Expr* r = negDiv(a, b, true)) return r;
    return fin(K::SRem, a, b);
}
// split into pieces (low to high)
struct Piece { Expr* e; unsigned w; };
static void pieces(Expr* e, std::vector<Piece>& out) {
    if (e->k == K::Concat) { pieces(e->b, out); pieces(e->a, out); }
    else if (e->k == K::ZExt) { pieces(e->a, out); out.push_back({mkConst(0, e->w - e->a->w), (unsigned)(e->w - e->a->w)}); }
    else out.push_back({e, e->w});
}
static bool piecey(Expr* e) { return e->k == K::Concat || e->k == K::ZExt; }
static Expr* piecewise(K k, Expr* a, Expr* b) {
    // And/Or/Xor where, for every aligned piece, one side is all-zeros/all-ones constant (or both constant)
    std::vector<Piece> pa, pb;
    if (!piecey(a) || !(piecey(b) || b->isC())) return nullptr;
    pieces(a, pa);
    if (b->isC()) { unsigned p = 0; for (auto& x : pa) { pb.push_back({mkExtract(b, p, x.w), x.w}); p += x.w; } }
    else pieces(b, pb);
    if (pa.size() + pb.size() > 64) return nullptr;
    std::vector<Expr*> res; size_t i = 0, j = 0; unsigned oa = 0, ob = 0;
    while (i < pa.size() && j < pb.size()) {
        unsigned n = std::min(pa[i].w - oa, pb[j].w - ob);
        Expr* x = pa[i].e; Expr* y = pb[j].e;
        bool xc = x->isC(), yc = y->isC();
        Expr* xe = (oa == 0 && n == pa[i].w) ? x : nullptr; Expr* ye = (ob == 0 && n == pb[j].w) ? y : nullptr;
        if (xc && !xe) xe = mkExtract(x, oa, n);
        if (yc && !ye) ye = mkExtract(y, ob, n);
        Expr* r = nullptr;
        auto X = [&] { return xe ? xe : mkExtract(x, oa, n); }; auto Y = [&] { return ye ? ye : mkExtract(y, ob, n); };
        if (xc && yc) r = mkConst(fold(k, xe->val, ye->val, n), n);
        else if (xc && isZero(xe)) r = k == K::And ? xe : Y();
        else if (yc && isZero(ye)) r = k == K::And ? ye : X();
        else if (xc && isOnes(xe) && k != K::Xor) r = k == K::And ? Y() : xe;
        else if (yc && isOnes(ye) && k != K::Xor) r = k == K::And ? X() : ye;
        else if (x == y && oa == ob && k != K::Xor) r = X();
        else return nullptr;
        res.push_back(r);
        oa += n; ob += n; if (oa == pa[i].w) { ++i; oa = 0; } if (ob == pb[j].w) { ++j; ob = 0; }
    }
    Expr* r = res[0]; for (size_t q = 1; q < res.size(); ++q) r = mkConcat(res[q], r);
    return r;
}
static bool isNot(Expr* e) { return e->k == K::Xor && isOnes(e->b); }
Expr* mkAnd(Expr* a, Expr* b) {
    FOLD(K::And); COMM();
    if (a == b) return a; if (isZero(b)) return b; if (isOnes(b)) return a;
    if (isNot(a) && a->a == b) return mkConst(0, a->w);
    if (isNot(b) && b->a == a) return mkConst(0, a->w);
    if (b->isC()) {
        u128 v = b->val;
        if (a->k == K::And && a->b->isC()) return mkAnd(a->a, mkConst(a->b->val & v, a->w));
        // contiguous mask -> extract
        unsigned lo = 0; while (!((v >> lo) & 1)) ++lo; u128 s = v >> lo;
        if ((s & (s + 1)) == 0) {
            unsigned n = 0; while (n < a->w && ((s >> n) & 1)) ++n;
            Expr* r = mkExtract(a, lo, n);
            if (lo) r = mkConcat(r, mkConst(0, lo));
            return mkZExt(r, a->w);
        }
        if (Expr* r = pushIte(K::And, a, b, mkAnd)) return r;
    }
    if (a->w == 1) { // absorption
        if (b->k == K::And && (b->a == a || b->b == a)) return b;
        if (a->k == K::And && (a->a == b || a->b == b)) return a;
        if (b->k == K::Or && (b->a == a || b->b == a)) return a;
        if (a->k == K::Or && (a->a == b || a->b == b)) return b;
    }
    if (Expr* r = piecewise(K::And, a, b)) return r;
    if (Expr* r = piecewise(K::And, b, a)) return r;
    return fin(K::And, a, b);
}
Expr* mkOr(Expr* a, Expr* b) {
    FOLD(K::Or); COMM();
    if (a == b) return a; if (isZero(b)) return a; if (isOnes(b)) return b;
    if (isNot(a) && a->a == b) return mkConst(maskw(a->w), a->w);
    if (isNot(b) && b->a == a) return mkConst(maskw(a->w), a->w);
    if (b->isC()) {
        if (a->k == K::Or && a->b->isC()) return mkOr(a->a, mkConst(a->b->val | b->val, a->w));
        if (Expr* r = pushIte(K::Or, a, b, mkOr)) return r;
    }
    if (a->w == 1) {
        if (b->k == K::Or && (b->a == a || b->b == a)) return b;
        if (a->k == K::Or && (a->a == b || a->b == b)) return a;
        if (b->k == K::And && (b->a == a || b->b == a)) return a;
        if (a->k == K::And && (a->a == b || a->b == b)) return b;
    }
    if (Expr* r = piecewise(K::Or, a, b)) return r;
    if (Expr* r = piecewise(K::Or, b, a)) return r;
    return fin(K::Or, a, b);
}
Expr* mkXor(Expr* a, Expr* b) {
    FOLD(K::Xor); COMM();
    if (a == b) return mkConst(0, a->w); if (isZero(b)) return a;
    if (b->isC()) {
        if (a->k == K::Xor && a->b->isC()) return mkXor(a->a, mkConst(a->b->val ^ b->val, a->w));
        if (isOnes(b)) {
            if (a->k == K::Ite && a->w == 1) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
            if (a->k == K::Ult) return mkUle(a->b, a->a); if (a->k == K::Ule) return mkUlt(a->b, a->a);
            if (a->k == K::Slt) return mkSle(a->b, a->a); if (a->k == K::Sle) return mkSlt(a->b, a->a);
        }
        if (Expr* r = pushIte(K::Xor, a, b, mkXor)) return r;
    }
    if (a->w == 1 && isNot(a) && isNot(b)) return mkXor(a->a, b->a);
    if (Expr* r = piecewise(K::Xor, a, b)) return r;
    if (Expr* r = piecewise(K::Xor, b, a)) return r;
    return fin(K::Xor, a, b);
}
Expr* mkNot(Expr* a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }
Expr* mkShl(Expr* a, Expr* b) {
    FOLD(K::Shl);
    if (isZero(a)) return a;
    if (b->isC()) {
        if (b->val == 0) return a; if (b->val >= a->w) return mkConst(0, a->w);
        unsigned s = (unsigned)b->val;
        if (Expr* r = pushIte(K::Shl, a, b, mkShl)) return r;
        return mkConcat(mkExtract(a, 0, a->w - s), mkConst(0, s));
    }
    if (b->k == K::ZExt && b->a->w == 1) return mkIte(b->a, mkShl(a, mkConst(1, a->w)), a);
    if (constIte(b)) return mkIte(b->a, mkShl(a, b->b), mkShl(a, b->c));
    return fin(K::Shl, a, b);
}
Expr* mkLShr(Expr* a, Expr* b) {
    FOLD(K::LShr);
    if (isZero(a)) return a;
    if (b->isC()) {
        if (b->val == 0) return a; if (b->val >= a->w) return mkConst(0, a->w);
        unsigned s = (unsigned)b->val;
        return mkZExt(mkExtract(a, s, a->w - s), a->w);
    }
    if (constIte(b)) return mkIte(b->a, mkLShr(a, b->b), mkLShr(a, b->c));
    return fin(K::LShr, a, b);
}
Expr* mkAShr(Expr* a, Expr* b) {
    FOLD(K::AShr);
    if (isZero(a)) return a;
    if (b->isC()) {
        if (b->val == 0) return a;
        unsigned s = b->val >= a->w ? a->w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, s, a->w - s), a->w);
    }
    if (nonneg(a)) return mkLShr(a, b);
    return fin(K::AShr, a, b);
}
std::unordered_map<Expr*, Expr*> g_popOf; // population count expressions, to what they count
static Expr* popOf(Expr* e) { if (g_popOf.empty()) return nullptr; auto it = g_popOf.find(e); return it == g_popOf.end() ? nullptr : it->second; }
static Expr* atMostOneBit(Expr* x) { return mkEq(mkAnd(x, mkSub(x, mkConst(1, x->w))), mkConst(0, x->w)); }
Expr* mkEq(Expr* a, Expr* b) {
    if (a->w != b->w) { fprintf(stderr, "irsym: mkEq width mismatch\n"); abort(); }
    FOLD(K::Eq); COMM();
    if (a == b) return mkConst(1, 1);
    if (b->isC() && b->val == 1) if (Expr* x = popOf(a)) return mkAnd(mkNot(mkEq(x, mkConst(0, x->w))), atMostOneBit(x));
    if (a->w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkConst(0, 1);
    if (a->w == 1) { if (b->isC()) return b->val ? a : mkNot(a); return mkNot(mkXor(a, b)); }
    if (b->isC()) {
        if (a->k == K::ZExt) { if (b->val >> a->a->w) return mkConst(0, 1); return mkEq(a->a, mkConst(b->val, a->a->w)); }
        if (a->k == K::SExt) { Expr* t = mkConst(b->val, a->a->w); if ((u128)sgn(t->val, t->w) != (u128)sgn(b->val, b->w)) return mkConst(0, 1); return mkEq(a->a, t); }
        if (a->k == K::Add && a->b->isC()) return mkEq(a->a, mkConst(b->val - a->b->val, a->w));
        if (a->k == K::Xor && a->b->isC()) return mkEq(a->a, mkConst(b->val ^ a->b->val, a->w));
        if (isNeg(a)) return mkEq(a->a, mkNeg(b));
        if (isZero(b) && a->k == K::UDiv && a->b->isC() && a->b->val) return mkUlt(a->a, a->b);
        if (isZero(b) && a->k == K::SDiv && a->b->isC()) { i128 c = sgn(a->b->val, a->w); if (c > 1) return mkAnd(mkSlt(a->a, a->b), mkSlt(mkNeg(a->b), a->a)); }
        if (a->k == K::Concat) { Expr* lo = mkEq(a->b, mkExtract(b, 0, a->b->w)); if (isZero(lo)) return lo; return mkAnd(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), lo); }
        if (a->k == K::Ite) {
            if (a->b->isC() || a->c->isC()) {
                Expr* t = mkEq(a->b, b); Expr* f = mkEq(a->c, b);
                return mkIte(a->a, t, f);
            }
        }
    } else {
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned w = std::max(a->a->w, b->a->w); return mkEq(mkZExt(a->a, w), mkZExt(b->a, w)); }
        if (a->k == K::SExt && b->k == K::SExt) {
            unsigned w = std::max(a->a->w, b->a->w); return mkEq(mkSExt(a->a, w), mkSExt(b->a, w)); }
        if (a->k == K::Concat && b->k == K::Concat && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->k == K::Add && b->k == K::Add && a->b->isC() && b->b->isC()) return mkEq(a->a, mkAdd(b->a, mkConst(b->b->val - a->b->val, a->w)));
        if (a->k == K::Add && !a->b->isC() && (a->a == b || a->b == b)) return mkEq(a->a == b ? a->b : a->a, mkConst(0, a->w));
        if (b->k == K::Add && (b->a == a || b->b == a)) return mkEq(b->a == a ? b->b : b->a, mkConst(0, a->w));
        if (a->k == K::Add && b->k == K::Add) {
            if (a->a == b->a) return mkEq(a->b, b->b); if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->b) return mkEq(a->b, b->a); if (a->b == b->a) return mkEq(a->a, b->b);
        }
    }
    return fin(K::Eq, a, b);
}
Expr* mkUlt(Expr* a, Expr* b) {
    FOLD(K::Ult);
    if (b->isC() && b->val == 2) if (Expr* x = popOf(a)) return atMostOneBit(x);
    if (a->isC() && a->val == 1) if (Expr* x = popOf(b)) return mkNot(atMostOneBit(x));
    if (a == b) return mkConst(0, 1);
    if (a->w <= 64) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(0, 1); }
    if (isZero(b)) return mkConst(0, 1);
    if (isZero(a)) return mkNot(mkEq(b, a));
    if (b->isC() && b->val == 1) return mkEq(a, mkConst(0, a->w));
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (a->k == K::ZExt && b->k == K::ZExt) { unsigned w = std::max(a->a->w, b->a->w); return mkUlt(mkZExt(a->a, w), mkZExt(b->a, w)); }
    if (a->k == K::ZExt && b->isC()) { if (b->val >> a->a->w) return mkConst(1, 1); return mkUlt(a->a, mkConst(b->val, a->a->w)); }
    if (b->k == K::ZExt && a->isC()) { if (a->val >> b->a->w) return mkConst(0, 1); return mkUlt(mkConst(a->val, b->a->w), b->a); }
    if (a->k == K::SExt && b->k == K::SExt) { unsigned w = std::max(a->a->w, b->a->w); return mkUlt(mkSExt(a->a, w), mkSExt(b->a, w)); }
    if (b->isC() && halfConstIte(a)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (a->isC() && halfConstIte(b)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    if (b->k == K::Concat && a->k == K::Concat && a->b->w == b->b->w && a->b == b->b) return mkUlt(a->a, b->a);
    return fin(K::Ult, a, b);
}
Expr* mkUle(Expr* a, Expr* b) {
    FOLD(K::Ule);
    if (a == b) return mkConst(1, 1);
    if (b->isC()) { if (isOnes(b)) return mkConst(1, 1); return mkUlt(a, mkConst(b->val + 1, b->w)); }
    if (a->isC()) { if (a->val == 0) return mkConst(1, 1); return mkUlt(mkConst(a->val - 1, a->w), b); }
    if (a->w <= 64) { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(0, 1); }
    if (a->w == 1) return mkOr(mkNot(a), b);
    if (a->k == K::ZExt && b->k == K::ZExt) { unsigned w = std::max(a->a->w, b->a->w); return mkUle(mkZExt(a->a, w), mkZExt(b->a, w)); }
    return fin(K::Ule, a, b);
}
static bool srange(Expr* e, i64& lo, i64& hi) { // signed interval from unsigned interval
    if (e->w > 64) return false;
    u64 sb = (u64)1 << (e->w - 1);
    if (e->k == K::SExt && e->a->w < e->w) { u64 s2 = (u64)1 << (e->a->w - 1); lo = -(i64)s2; hi = (i64)(s2 - 1);
        i64 l2, h2; if (srange(e->a, l2, h2)) { lo = l2; hi = h2; } return true; }
    if (e->umax < sb) { lo = (i64)e->umin; hi = (i64)e->umax; return true; }
    if (e->umin >= sb) { u64 x = ~mask64(e->w); lo = (i64)(e->umin | x); hi = (i64)(e->umax | x); return true; }
    if (e->k == K::Ite) { i64 l1, h1, l2, h2; if (e->b->isC() && e->c->isC() && srange(e->b, l1, h1) && srange(e->c, l2, h2)) { lo = std::min(l1, l2); hi = std::max(h1, h2); return true; } }
    return false;
}
Expr* mkSlt(Expr* a, Expr* b) {
    FOLD(K::Slt);
    if (a == b) return mkConst(0, 1);
    i64 al, ah, bl, bh; bool ra = srange(a, al, ah), rb = srange(b, bl, bh);
    if (ra && rb) { if (ah < bl) return mkConst(1, 1); if (al >= bh) return mkConst(0, 1); }
    if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
    if (a->w == 1) return mkAnd(a, mkNot(b));
    if (b->isC()) {
        if (b->val == (u128)1 << (b->w - 1)) return mkConst(0, 1);
        if (b->val == 0) return mkExtract(a, a->w - 1, 1);
        if (halfConstIte(a)) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
        if (a->k == K::SExt) { i128 v = sgn(b->val, b->w); unsigned w = a->a->w; i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
            if (v > mx) return mkConst(1, 1); if (v <= mn) return mkConst(0, 1); return mkSlt(a->a, mkConst((u128)v, w)); }
    }
    if (a->isC()) {
        if (a->val == maskw(a->w) >> 1) return mkConst(0, 1);
        if (isOnes(a)) return mkNot(mkExtract(b, b->w - 1, 1));
        if (halfConstIte(b)) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
        if (b->k == K::SExt) { i128 v = sgn(a->val, a->w); unsigned w = b->a->w; i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
            if (v >= mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return mkSlt(mkConst((u128)v, w), b->a); }
    }
    if (a->k == K::SExt && b->k == K::SExt) { unsigned w = std::max(a->a->w, b->a->w); return mkSlt(mkSExt(a->a, w), mkSExt(b->a, w)); }
    return fin(K::Slt, a, b);
}
Expr* mkSle(Expr* a, Expr* b) {
    FOLD(K::Sle);
    if (a == b) return mkConst(1, 1);
    if (b->isC()) { if (b->val == maskw(b->w) >> 1) return mkConst(1, 1); return mkSlt(a, mkConst(b->val + 1, b->w)); }
    if (a->isC()) { if (a->val == (u128)1 << (a->w - 1)) return mkConst(1, 1); return mkSlt(mkConst(a->val - 1, a->w), b); }
    if (nonneg(a) && nonneg(b)) return mkUle(a, b);
    if (a->w == 1) return mkOr(a, mkNot(b));
    if (a->k == K::SExt && b->k == K::SExt) { unsigned w = std::max(a->a->w, b->a->w); return mkSle(mkSExt(a->a, w), mkSExt(b->a, w)); }
    return fin(K::Sle, a, b);
}
Expr* mkIte(Expr* c, Expr* t, Expr* f) {
    if (c->isC()) return c->val ? t : f;
    if (t == f) return t;
    if (isNot(c)) return mkIte(c->a, f, t);
    if (t->w == 1) {
        if (t->isC() && f->isC()) return t->val ? c : mkNot(c);
        if (t->isC()) return t->val ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (f->isC()) return f->val ? mkOr(mkNot(c), t) : mkAnd(c, t);
    }
    if (t->k == K::Ite && t->a == c) return mkIte(c, t->b, f);
    if (f->k == K::Ite && f->a == c) return mkIte(c, t, f->c);
    if (f->k == K::Ite && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
    if (t->k == K::Ite && t->c == f) return mkIte(mkAnd(c, t->a), t->b, f);
    if (c == t && t->w == 1) return mkOr(c, f);
    return mk(K::Ite, t->w, c, t, f);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isC() && lo->isC()) return mkConst((hi->val << lo->w) | lo->val, w);
    if (isZero(hi)) return mkZExt(lo, w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, lo->lo, w);
    // hi:(hi2:lo2) with adjacent extracts
    if (lo->k == K::Concat && hi->k == K::Extract && lo->a->k == K::Extract && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
    if (lo->k == K::Concat && hi->isC() && lo->a->isC()) return mkConcat(mkConcat(hi, lo->a), lo->b);
    if (lo->k == K::ZExt && hi->isC()) return mkConcat(mkConcat(hi, mkConst(0, lo->w - lo->a->w)), lo->a);
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-leaning (high first)
    // top piece is sign extension: SExt(x) extract pieces
    if (lo->k == K::Extract && hi->k == K::SExt && lo->a == hi->a) ;
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a && (constIte(hi) || constIte(lo) || true)) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->isC() && constIte(lo)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    if (lo->isC() && constIte(hi)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    return mk(K::Concat, w, hi, lo);
}
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    if (lo + w > e->w) { fprintf(stderr, "irsym: bad extract\n"); abort(); }
    switch (e->k) {
        case K::Const: return mkConst(e->val >> lo, w);
        case K::Extract: return mkExtract(e->a, e->lo + lo, w);
        case K::Concat:
            if (lo >= e->b->w) return mkExtract(e->a, lo - e->b->w, w);
            if (lo + w <= e->b->w) return mkExtract(e->b, lo, w);
            return mkConcat(mkExtract(e->a, 0, lo + w - e->b->w), mkExtract(e->b, lo, e->b->w - lo));
        case K::ZExt:
            if (lo >= e->a->w) return mkConst(0, w);
            if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
            return mkZExt(mkExtract(e->a, lo, e->a->w - lo), w);
        case K::SExt:
            if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
            if (lo >= e->a->w) return mkSExt(mkExtract(e->a, e->a->w - 1, 1), w);
            return mkSExt(mkExtract(e->a, lo, e->a->w - lo), w);
        case K::Ite: if (e->b->isC() || e->c->isC() || e->b->k == K::Ite || e->c->k == K::Ite || e->b->k == K::ZExt || e->c->k == K::ZExt) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w)); break;
        case K::And: if (true) return mkAnd(mkExtract(e->a, lo, w), mkExtract(e->b, lo, w)); break;
        case K::Or: return mkOr(mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
        case K::Xor: return mkXor(mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
        case K::Add: if (lo == 0) return mkAdd(mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
        case K::Mul: if (lo == 0) return mkMul(mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
        default: break;
    }
    if (e->w <= 64 && lo > 0 && (e->umax >> lo) == 0) return mkConst(0, w);
    return mk(K::Extract, w, e, nullptr, nullptr, lo);
}
Expr* mkZExt(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (e->isC()) return mkConst(e->val, w);
    if (e->k == K::ZExt) return mkZExt(e->a, w);
    if (constIte(e)) return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
    if (w > 64 && e->k == K::Add && e->w <= 64) { // an addition that cannot wrap: bring to the canonical (narrowest) width
        u128 sum = (u128)e->a->umax + e->b->umax; auto iw = [](Expr* x) { return x->isC() ? bitlen(x->val) : x->k == K::ZExt ? (unsigned)x->a->w : (unsigned)x->w; };
        if (sum <= maskw(e->w) && std::max({bitlen(sum), iw(e->a), iw(e->b)}) < e->w) return mkAdd(mkZExt(e->a, w), mkZExt(e->b, w)); }
    return mk(K::ZExt, w, e);
}
Expr* mkSExt(Expr* e, unsigned w) {
    if (w == e->w) return e;
    if (e->isC()) return mkConst((u128)sgn(e->val, e->w), w);
    if (e->k == K::SExt) return mkSExt(e->a, w);
    if (e->k == K::ZExt && e->a->w < e->w) return mkZExt(e->a, w);
    if (nonneg(e)) return mkZExt(e, w);
    if (e->k == K::Extract && e->lo == 0 && sbits(e->a) <= e->w) return w >= e->a->w ? mkSExt(e->a, w) : mkExtract(e->a, 0, w);
    if (constIte(e)) return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    return mk(K::SExt, w, e);
}
// ---------------- floating point
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
static long double asL(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 fromL(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v; }
template<class T> static T rnd(T x, u8 m) { switch (m) { case R_NE: { return std::nearbyint(x); } case R_NA: return std::round(x); case R_TP: return std::ceil(x); case R_TN: return std::floor(x); default: return std::trunc(x); } }
template<class T> static T arith(K k, u8 aux, T a, T b, T c) {
    switch (k) { case K::FAdd: return a + b; case K::FSub: return a - b; case K::FMul: return a * b; case K::FDiv: return a / b;
        case K::FSqrt: return std::sqrt(a); case K::FMA: return std::fma(a, b, c); case K::FRound: return rnd(a, aux); default: abort(); }
}
static long double toL(u128 v, unsigned w) { return w == 32 ? (long double)asF(v) : w == 64 ? (long double)asD(v) : asL(v); }
static u128 foldF(K k, u8 aux, unsigned w, unsigned aw, u128 a, u128 b, u128 c) {
    switch (k) {
        case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FSqrt: case K::FMA: case K::FRound:
            if (w == 32) return fromF(arith<float>(k, aux, asF(a), asF(b), asF(c)));
            if (w == 64) return fromD(arith<double>(k, aux, asD(a), asD(b), asD(c)));
            return fromL(arith<long double>(k, aux, asL(a), asL(b), asL(c)));
        case K::FCmp: { long double x = toL(a, aw), y = toL(b, aw);
            switch (aux) { case F_OEQ: return x == y; case F_OLT: return x < y; case F_OLE: return x <= y; default: return std::isnan(x) || std::isnan(y); } }
        case K::FToS: case K::FToU: { long double x = toL(a, aw); if (std::isnan(x)) return 0; x = std::trunc(x);
            if (k == K::FToU) { if (x < 0 || x >= std::ldexp((long double)1, w)) return 0;
                if (w > 64) { long double h = std::floor(std::ldexp(x, -64)); return ((u128)(u64)h << 64) | (u64)(x - std::ldexp(h, 64)); } return (u128)(u64)x & maskw(w); }
            long double lim = std::ldexp((long double)1, w - 1); if (x < -lim || x >= lim) return (u128)1 << (w - 1);
            return (u128)(i128)(w > 64 ? (i128)x : (i128)(i64)x) & maskw(w); }
        case K::SToF: { i128 x = sgn(a, aw); return w == 32 ? fromF((float)x) : w == 64 ? fromD((double)x) : fromL((long double)x); }
        case K::UToF: { return w == 32 ? fromF((float)a) : w == 64 ? fromD((double)a) : fromL((long double)a); }
        case K::FTrunc: case K::FExt:
            if (w == 32) return aw == 64 ? fromF((float)asD(a)) : fromF((float)asL(a));
            if (w == 64) return aw == 32 ? fromD((double)asF(a)) : fromD((double)asL(a));
            return fromL(toL(a, aw));
        default: abort();
    }
}
Expr* mkF(K k, unsigned w, Expr* a, Expr* b, Expr* c, u8 aux) {
    if (a->isC() && (!b || b->isC()) && (!c || c->isC())) return mkConst(foldF(k, aux, w, a->w, a->val, b ? b->val : 0, c ? c->val : 0), w);
    // ite with const arms
    if (constIte(a) && (!b || b->isC()) && (!c || c->isC())) return mkIte(a->a, mkF(k, w, a->b, b, c, aux), mkF(k, w, a->c, b, c, aux));
    if (k == K::FTrunc && a->k == K::FExt && a->a->w == w) return a->a; // exact (modulo NaN payload)
    return mk(k, w, a, b, c, 0, aux);
}
// ---------------- evaluation
static u32 g_stamp = 0; static const Model* g_m;
static u128 ev(Expr* e) {
    if (e->k == K::Const) return e->val;
    if (e->stamp == g_stamp) return e->ev;
    u128 r;
    switch (e->k) {
        case K::Var: r = g_m->get(e->lo) & maskw(e->w); break;
        case K::Ite: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
        case K::Concat: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        case K::Extract: r = (ev(e->a) >> e->lo) & maskw(e->w); break;
        case K::ZExt: r = ev(e->a); break;
        case K::SExt: r = (u128)sgn(ev(e->a), e->a->w) & maskw(e->w); break;
        case K::And: { u128 x = ev(e->a); r = x ? x & ev(e->b) : 0; break; }
        default:
            if (e->k >= K::FAdd) r = foldF(e->k, e->aux, e->w, e->a->w, ev(e->a), e->b ? ev(e->b) : 0, e->c ? ev(e->c) : 0);
            else { u128 x = ev(e->a); u128 y = ev(e->b); r = fold(e->k, x, y, e->a->w); }
    }
    e->stamp = g_stamp; e->ev = r; return r;
}
u128 evalE(Expr* e, const Model& m) { if (e->isC()) return e->val; ++g_stamp; g_m = &m; return ev(e); }
static u32 g_vstamp = 0;
static void cv(Expr* e, std::vector<u32>& out) {
    if (e->k == K::Const || e->vstamp == g_vstamp) return;
    e->vstamp = g_vstamp;
    if (e->k == K::Var) { out.push_back(e->lo); return; }
    cv(e->a, out); if (e->b) cv(e->b, out); if (e->c) cv(e->c, out);
}
void collectVars(Expr* e, std::vector<u32>& out) { ++g_vstamp; cv(e, out); std::sort(out.begin(), out.end()); }
std::string exprStr(Expr* e, int d) {
    static const char* nm[] = {"Const","Var","Add","Mul","UDiv","SDiv","URem","SRem","And","Or","Xor","Shl","LShr","AShr","Eq","Ult","Ule","Slt","Sle","Ite","Concat","Extract","ZExt","SExt","FAdd","FSub","FMul","FDiv","FSqrt","FMA","FCmp","FToS","FToU","SToF","UToF","FTrunc","FExt","FRound"};
    if (e->isC()) { char b[64]; snprintf(b, 64, "%llx:%d", (unsigned long long)e->val, e->w); return b; }
    if (e->k == K::Var) return g_vars[e->lo].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + nm[(int)e->k] + ":" + std::to_string(e->w); if (e->k == K::Extract) s += "@" + std::to_string(e->lo);
    for (Expr* x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}
