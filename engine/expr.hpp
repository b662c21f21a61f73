// Hash-consed bit-vector / floating-point expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
typedef __int128 i128; typedef int64_t i64; typedef int32_t i32;

enum class K : u8 {
    Const, Var, Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FSqrt, FMA, FCmp, FToS, FToU, SToF, UToF, FTrunc, FExt, FRound,
};
enum FP : u8 { F_OEQ, F_OLT, F_OLE, F_UNO };
enum RM : u8 { R_NE, R_NA, R_TP, R_TN, R_TZ };

struct Expr {
    K k; u8 aux; u16 w; u32 id; u32 lo;
    Expr *a, *b, *c;
    u128 val;
    u64 umin, umax; // valid if w <= 64
    u32 stamp = 0; u32 vstamp = 0; u128 ev = 0;
    void *zbv = nullptr, *zbool = nullptr;
    bool isC() const { return k == K::Const; }
};

struct VarInfo { std::string name; int w; Expr* e; };
extern std::vector<VarInfo> g_vars;

struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
    void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i+1, 0); v[i] = x; } };

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
static inline i128 sgn(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w-1); return (i128)((v ^ s) - s); }

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w);
Expr* mkAdd(Expr*, Expr*); Expr* mkSub(Expr*, Expr*); Expr* mkMul(Expr*, Expr*);
Expr* mkNeg(Expr*);
Expr* mkUDiv(Expr*, Expr*); Expr* mkSDiv(Expr*, Expr*); Expr* mkURem(Expr*, Expr*); Expr* mkSRem(Expr*, Expr*);
Expr* mkAnd(Expr*, Expr*); Expr* mkOr(Expr*, Expr*); Expr* mkXor(Expr*, Expr*); Expr* mkNot(Expr*);
Expr* mkShl(Expr*, Expr*); Expr* mkLShr(Expr*, Expr*); Expr* mkAShr(Expr*, Expr*);
Expr* mkEq(Expr*, Expr*); Expr* mkUlt(Expr*, Expr*); Expr* mkUle(Expr*, Expr*); Expr* mkSlt(Expr*, Expr*); Expr* mkSle(Expr*, Expr*);
Expr* mkIte(Expr*, Expr*, Expr*);
Expr* mkConcat(Expr* hi, Expr* lo); Expr* mkExtract(Expr*, unsigned lo, unsigned w);
Expr* mkZExt(Expr*, unsigned w); Expr* mkSExt(Expr*, unsigned w);
static inline Expr* mkTrunc(Expr* e, unsigned w) { return mkExtract(e, 0, w); }
Expr* mkF(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u8 aux = 0);

u128 evalE(Expr* e, const Model& m); // begins a new evaluation
void collectVars(Expr* e, std::vector<u32>& out); // sorted unique var ids
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();

extern std::unordered_map<Expr*, Expr*> g_popOf;
