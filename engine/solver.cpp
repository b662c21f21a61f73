#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <unordered_map>
SolverStats g_ss;
static Z3_context C; static double g_to = 60;
static Z3_solver INC = nullptr; static int incCount = 0;
static Z3_sort fpSort(unsigned w) { auto kp = [](Z3_sort s) { Z3_inc_ref(C, Z3_sort_to_ast(C, s)); return s; }; static Z3_sort s32 = kp(Z3_mk_fpa_sort_32(C)), s64 = kp(Z3_mk_fpa_sort_64(C)), s80 = kp(Z3_mk_fpa_sort(C, 15, 64)), s16 = kp(Z3_mk_fpa_sort_16(C));
    return w == 16 ? s16 : w == 32 ? s32 : w == 64 ? s64 : s80; }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "irsym: z3 error: %s\n", Z3_get_error_msg(c, e)); }
void solverInit(double t) {
    g_to = t; Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(C, errh);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast bv(Expr* e); static Z3_ast bo(Expr* e);
static Z3_ast rm(u8 m) { static Z3_ast t[5] = {}; if (!t[m]) t[m] = keep(m == R_NE ? Z3_mk_fpa_rne(C) : m == R_NA ? Z3_mk_fpa_rna(C) : m == R_TP ? Z3_mk_fpa_rtp(C) : m == R_TN ? Z3_mk_fpa_rtn(C) : Z3_mk_fpa_rtz(C)); return t[m]; }
static Z3_ast num(u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(C, w);
    if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, s);
    Z3_ast hi = keep(Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64))), lo = keep(Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64)));
    return Z3_mk_concat(C, hi, lo);
}
static Z3_ast fp(Expr* e) { // bit pattern -> FP term
    if (e->zbv && false) return nullptr;
    // avoid round trip through bits
    if (e->k >= K::FAdd && e->k <= K::FSqrt) {}
    if (e->w == 80) { // x87: sign:1 exp:15 int:1 frac:63 -> drop the explicit integer bit
        Expr* packed = mkConcat(mkExtract(e, 64, 16), mkExtract(e, 0, 63));
        return Z3_mk_fpa_to_fp_bv(C, bv(packed), fpSort(80));
    }
    return Z3_mk_fpa_to_fp_bv(C, bv(e), fpSort(e->w));
}
static std::unordered_map<Expr*, Z3_ast> fpMemo;
static Z3_ast fpTerm(Expr* e) {
    auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
    Z3_ast r;
    switch (e->k) {
        case K::FAdd: r = Z3_mk_fpa_add(C, rm(R_NE), fpTerm(e->a), fpTerm(e->b)); break;
        case K::FSub: r = Z3_mk_fpa_sub(C, rm(R_NE), fpTerm(e->a), fpTerm(e->b)); break;
        case K::FMul: r = Z3_mk_fpa_mul(C, rm(R_NE), fpTerm(e->a), fpTerm(e->b)); break;
        case K::FDiv: r = Z3_mk_fpa_div(C, rm(R_NE), fpTerm(e->a), fpTerm(e->b)); break;
        case K::FSqrt: r = Z3_mk_fpa_sqrt(C, rm(R_NE), fpTerm(e->a)); break;
        case K::FMA: r = Z3_mk_fpa_fma(C, rm(R_NE), fpTerm(e->a), fpTerm(e->b), fpTerm(e->c)); break;
        case K::FRound: r = Z3_mk_fpa_round_to_integral(C, rm(e->aux), fpTerm(e->a)); break;
        case K::SToF: r = Z3_mk_fpa_to_fp_signed(C, rm(R_NE), bv(e->a), fpSort(e->w)); break;
        case K::UToF: r = Z3_mk_fpa_to_fp_unsigned(C, rm(R_NE), bv(e->a), fpSort(e->w)); break;
        case K::FTrunc: case K::FExt: r = Z3_mk_fpa_to_fp_float(C, rm(R_NE), fpTerm(e->a), fpSort(e->w)); break;
        case K::Ite: r = Z3_mk_ite(C, bo(e->a), fpTerm(e->b), fpTerm(e->c)); break;
        default: r = fp(e);
    }
    return fpMemo[e] = keep(r);
}
// x udiv c for a constant c: a fresh quotient q defined by q*c <= x < q*c + c (no wrap-around); much cheaper than a divider circuit
static std::unordered_map<Expr*, std::pair<Z3_ast, std::vector<Z3_ast>>> divDef; // keyed by UDiv(x, c)
static Z3_ast quot(Expr* x, Expr* c) {
    Expr* d = mkUDiv(x, c);
    if (d->k != K::UDiv || d->w < 12 || !d->b->isC()) { if (d->k == K::UDiv) return Z3_mk_bvudiv(C, bv(d->a), bv(d->b)); return bv(d); }
    auto it = divDef.find(d); if (it != divDef.end()) return it->second.first;
    Z3_ast q = keep(Z3_mk_fresh_const(C, "q", Z3_mk_bv_sort(C, d->w)));
    Z3_ast qc = keep(Z3_mk_bvmul(C, q, bv(d->b)));
    std::vector<Z3_ast> defs{keep(Z3_mk_bvule(C, q, num(maskw(d->w) / d->b->val, d->w))), keep(Z3_mk_bvule(C, qc, bv(d->a))), keep(Z3_mk_bvult(C, Z3_mk_bvsub(C, bv(d->a), qc), bv(d->b)))};
    divDef[d] = {q, defs}; return q;
}
static Expr* absE(Expr* x) { return mkIte(mkSlt(x, mkConst(0, x->w)), mkNeg(x), x); }
static u128 absC(Expr* c) { i128 v = sgn(c->val, c->w); return (v < 0 ? -(u128)v : (u128)v) & maskw(c->w); }
static void collectDivs(Expr* e, std::unordered_map<Expr*, int>& seen, std::vector<Expr*>& out) {
    if (!e || e->k == K::Const || e->k == K::Var || seen.count(e)) return; seen[e] = 1;
    if (e->k >= K::UDiv && e->k <= K::SRem && e->b->isC()) {
        Expr* x = e->a; Expr* c = e->b; if (e->k == K::SDiv || e->k == K::SRem) { x = absE(x); c = mkConst(absC(c), c->w); }
        Expr* d = mkUDiv(x, c); if (divDef.count(d)) out.push_back(d); collectDivs(x, seen, out); collectDivs(d, seen, out); }
    collectDivs(e->a, seen, out); collectDivs(e->b, seen, out); collectDivs(e->c, seen, out);
}
static Z3_ast bv(Expr* e) {
    if (e->zbv) return (Z3_ast)e->zbv;
    Z3_ast r;
    if (e->w == 1 && (e->k == K::Eq || (e->k >= K::Ult && e->k <= K::Sle) || e->k == K::FCmp || e->k == K::And || e->k == K::Or || e->k == K::Xor || e->k == K::Ite))
        r = Z3_mk_ite(C, bo(e), num(1, 1), num(0, 1));
    else switch (e->k) {
        case K::Const: r = num(e->val, e->w); break;
        case K::Var: r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->lo), Z3_mk_bv_sort(C, e->w)); break;
        case K::Add: if (e->b->k == K::Mul && e->b->b->isC() && e->b->b->val == maskw(e->w)) r = Z3_mk_bvsub(C, bv(e->a), bv(e->b->a)); 
                     else if (e->a->k == K::Mul && e->a->b->isC() && e->a->b->val == maskw(e->w)) r = Z3_mk_bvsub(C, bv(e->b), bv(e->a->a));
                     else r = Z3_mk_bvadd(C, bv(e->a), bv(e->b)); break;
        case K::Mul: if (e->b->isC() && e->b->val == maskw(e->w)) r = Z3_mk_bvneg(C, bv(e->a)); else r = Z3_mk_bvmul(C, bv(e->a), bv(e->b)); break;
        case K::UDiv: if (e->b->isC() && e->w >= 12 && e->b->val) { r = quot(e->a, e->b); break; } r = Z3_mk_bvudiv(C, bv(e->a), bv(e->b)); break;
        case K::SDiv: if (e->b->isC() && e->w >= 12 && e->b->val) { Expr* ax = absE(e->a); Expr* ac = mkConst(absC(e->b), e->w); Z3_ast q = keep(quot(ax, ac)); bool cn = sgn(e->b->val, e->w) < 0; Expr* neg = mkSlt(e->a, mkConst(0, e->w)); Z3_ast nq = keep(Z3_mk_bvneg(C, q)); r = Z3_mk_ite(C, bo(neg), cn ? q : nq, cn ? nq : q); break; } r = Z3_mk_bvsdiv(C, bv(e->a), bv(e->b)); break;
        case K::URem: if (e->b->isC() && e->w >= 12 && e->b->val) { r = Z3_mk_bvsub(C, bv(e->a), Z3_mk_bvmul(C, quot(e->a, e->b), bv(e->b))); break; } r = Z3_mk_bvurem(C, bv(e->a), bv(e->b)); break;
        case K::SRem: if (e->b->isC() && e->w >= 12 && e->b->val) { Expr* ax = absE(e->a); Expr* ac = mkConst(absC(e->b), e->w); Z3_ast q = keep(quot(ax, ac)); Z3_ast m = keep(Z3_mk_bvsub(C, bv(ax), Z3_mk_bvmul(C, q, bv(ac)))); Expr* neg = mkSlt(e->a, mkConst(0, e->w)); r = Z3_mk_ite(C, bo(neg), Z3_mk_bvneg(C, m), m); break; } r = Z3_mk_bvsrem(C, bv(e->a), bv(e->b)); break;
        case K::And: r = Z3_mk_bvand(C, bv(e->a), bv(e->b)); break;
        case K::Or: r = Z3_mk_bvor(C, bv(e->a), bv(e->b)); break;
        case K::Xor: r = (e->b->isC() && e->b->val == maskw(e->w)) ? Z3_mk_bvnot(C, bv(e->a)) : Z3_mk_bvxor(C, bv(e->a), bv(e->b)); break;
        case K::Shl: r = Z3_mk_bvshl(C, bv(e->a), bv(e->b)); break;
        case K::LShr: r = Z3_mk_bvlshr(C, bv(e->a), bv(e->b)); break;
        case K::AShr: r = Z3_mk_bvashr(C, bv(e->a), bv(e->b)); break;
        case K::Ite: r = Z3_mk_ite(C, bo(e->a), bv(e->b), bv(e->c)); break;
        case K::Concat: r = Z3_mk_concat(C, bv(e->a), bv(e->b)); break;
        case K::Extract: r = Z3_mk_extract(C, e->lo + e->w - 1, e->lo, bv(e->a)); break;
        case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a)); break;
        case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a)); break;
        case K::FToS: r = Z3_mk_fpa_to_sbv(C, rm(R_TZ), fpTerm(e->a), e->w); break;
        case K::FToU: r = Z3_mk_fpa_to_ubv(C, rm(R_TZ), fpTerm(e->a), e->w); break;
        default: { // FP-valued
            Z3_ast t = keep(Z3_mk_fpa_to_ieee_bv(C, fpTerm(e)));
            if (e->w == 80) { // insert integer bit: 1 iff exponent != 0
                Z3_ast se = keep(Z3_mk_extract(C, 78, 63, t)), fr = keep(Z3_mk_extract(C, 62, 0, t)), ex = keep(Z3_mk_extract(C, 77, 63, t));
                Z3_ast ib = keep(Z3_mk_ite(C, Z3_mk_eq(C, ex, num(0, 15)), num(0, 1), num(1, 1)));
                t = keep(Z3_mk_concat(C, se, Z3_mk_concat(C, ib, fr)));
            }
            r = t; }
    }
    e->zbv = keep(r); return r;
}
static Z3_ast bo(Expr* e) {
    if (e->zbool) return (Z3_ast)e->zbool;
    Z3_ast r;
    switch (e->k) {
        case K::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
        case K::Eq: r = Z3_mk_eq(C, bv(e->a), bv(e->b)); break;
        case K::Ult: r = Z3_mk_bvult(C, bv(e->a), bv(e->b)); break;
        case K::Ule: r = Z3_mk_bvule(C, bv(e->a), bv(e->b)); break;
        case K::Slt: r = Z3_mk_bvslt(C, bv(e->a), bv(e->b)); break;
        case K::Sle: r = Z3_mk_bvsle(C, bv(e->a), bv(e->b)); break;
        case K::And: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_and(C, 2, x); break; }
        case K::Or: { Z3_ast x[2] = {bo(e->a), bo(e->b)}; r = Z3_mk_or(C, 2, x); break; }
        case K::Xor: r = (e->b->isC() && e->b->val) ? Z3_mk_not(C, bo(e->a)) : Z3_mk_xor(C, bo(e->a), bo(e->b)); break;
        case K::Ite: r = Z3_mk_ite(C, bo(e->a), bo(e->b), bo(e->c)); break;
        case K::FCmp: { Z3_ast x = fpTerm(e->a), y = fpTerm(e->b);
            if (e->aux == F_OEQ) r = Z3_mk_fpa_eq(C, x, y); else if (e->aux == F_OLT) r = Z3_mk_fpa_lt(C, x, y); else if (e->aux == F_OLE) r = Z3_mk_fpa_leq(C, x, y);
            else { Z3_ast o[2] = {keep(Z3_mk_fpa_is_nan(C, x)), keep(Z3_mk_fpa_is_nan(C, y))}; r = Z3_mk_or(C, 2, o); } break; }
        default: r = Z3_mk_eq(C, bv(e), num(1, 1));
    }
    e->zbool = keep(r); return r;
}
static bool hasFP(Expr* e, std::unordered_map<Expr*, bool>& memo) {
    if (e->k == K::Const || e->k == K::Var) return false;
    if (e->k >= K::FAdd) return true;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = hasFP(e->a, memo) || (e->b && hasFP(e->b, memo)) || (e->c && hasFP(e->c, memo));
    return memo[e] = r;
}
static std::unordered_map<Expr*, bool> fpm;
static void setTO(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
static void getModel(Z3_solver s, const std::vector<Expr*>& cs, Model& out) {
    Z3_model m = Z3_solver_get_model(C, s); if (!m) return; Z3_model_inc_ref(C, m);
    std::vector<u32> vs; for (Expr* e : cs) { std::vector<u32> t; collectVars(e, t); vs.insert(vs.end(), t.begin(), t.end()); }
    std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    for (u32 v : vs) { Z3_ast r = nullptr; if (Z3_model_eval(C, m, bv(g_vars[v].e), true, &r)) { uint64_t x = 0; if (Z3_get_numeral_uint64(C, r, &x)) out.set(v, x); } }
    Z3_model_dec_ref(C, m);
}
struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct Cached { Res r; Model m; };
static std::unordered_map<std::vector<u32>, Cached, VecHash> cache;
Res solverCheck(const std::vector<Expr*>& cs, Model& out) {
    std::vector<u32> key; for (Expr* e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { ++g_ss.cacheHits; if (it->second.r == Res::Sat) { const Model& m = it->second.m;
            std::vector<u32> vs; for (Expr* e : cs) collectVars(e, vs); for (u32 v : vs) out.set(v, m.get(v)); } return it->second.r; }
    ++g_ss.queries;
    auto t0 = std::chrono::steady_clock::now();
    bool isfp = false; for (Expr* e : cs) if (hasFP(e, fpm)) isfp = true;
    Z3_lbool r = Z3_L_UNDEF; Model m;
    std::vector<Z3_ast> as; for (Expr* e : cs) as.push_back(bo(e));
    { std::unordered_map<Expr*, int> seen; std::vector<Expr*> ds; for (Expr* e : cs) collectDivs(e, seen, ds);
      for (Expr* d : ds) for (Z3_ast a : divDef[d].second) as.push_back(a); }
    if (!isfp) {
        if (!INC || incCount > 400) { if (INC) Z3_solver_dec_ref(C, INC); INC = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, INC); setTO(INC, 1000); incCount = 0; }
        ++incCount;
        Z3_solver_push(C, INC); for (Z3_ast a : as) Z3_solver_assert(C, INC, a);
        r = Z3_solver_check(C, INC);
        if (r == Z3_L_TRUE) getModel(INC, cs, m);
        Z3_solver_pop(C, INC, 1);
    }
    if (r == Z3_L_UNDEF) {
        ++g_ss.slow;
        if (getenv("IRSYM_DUMP")) { static int n = 0; std::string fn = std::string(getenv("IRSYM_DUMP")) + "/q" + std::to_string(n++) + ".smt2"; Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s); for (Z3_ast a : as) Z3_solver_assert(C, s, a); FILE* f = fopen(fn.c_str(), "w"); fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); Z3_solver_dec_ref(C, s); }
        Z3_tactic t = Z3_mk_tactic(C, isfp ? "qffpbv" : "qfbv"); Z3_tactic_inc_ref(C, t);
        Z3_solver s = Z3_mk_solver_from_tactic(C, t); Z3_solver_inc_ref(C, s); setTO(s, (unsigned)(g_to * 1000));
        for (Z3_ast a : as) Z3_solver_assert(C, s, a);
        r = Z3_solver_check(C, s);
        if (r == Z3_L_TRUE) getModel(s, cs, m);
        Z3_solver_dec_ref(C, s); Z3_tactic_dec_ref(C, t);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
    if (getenv("IRSYM_SLOW") && dt > atof(getenv("IRSYM_SLOW"))) { fprintf(stderr, "[slow %.2fs r=%d n=%zu] %s\n", dt, (int)r, cs.size(), exprStr(cs[0], 8).substr(0, 1500).c_str()); }
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    if (res == Res::Sat) { // a model must satisfy what it is a model of
        bool ok = true; for (Expr* e : cs) if (!evalE(e, m)) { ok = false; break; }
        if (!ok) { if (!isfp) { fprintf(stderr, "irsym: model does not satisfy constraints (encoding error)\n"); exit(3); } res = Res::Unknown; ++g_ss.unknown; return res; }
        std::vector<u32> vs; for (Expr* e : cs) collectVars(e, vs); for (u32 v : vs) out.set(v, m.get(v));
    }
    if (res == Res::Sat) ++g_ss.sat; else if (res == Res::Unsat) ++g_ss.unsat; else ++g_ss.unknown;
    cache[key] = {res, m}; return res;
}
