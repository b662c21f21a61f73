//@ entry addsub covers=ok,refused,neg time=100|600
//@ bound addsub: all values of all 64 ordered pairs of {i8,u8,i16,u16,i32,u32,i64,u64}
//@ entry mul_small covers=ok,refused time=200|600 qto=120
//@ bound mul_small: all values of all ordered pairs of {i8,u8} (quick), plus {i16,u16} pairs (thorough)
//@ entry mul_const L=0..7 covers=ok,refused time=200|900 qto=120
//@ bound mul_const: left operand any value of any of the eight types; right operand any of a set of boundary constants of any of the eight types
//@ entry pow covers=ok,refused,negexp time=200|600 qto=120
//@ bound pow: symbolic base: any i8/u8 value for exponents 0..3 and negative ones, any 3-bit value for exponents 4..8 of type i8/u8; constant bases -10..16 in all eight types with exponents -4..69 of all eight types
//@ entry shift covers=ok,refused,big time=100|600
//@ bound shift: all non-negative values of all eight types, shift amounts 0..140
#include "types.hpp"
#include <archon/core/integer.hpp>
#include <stdexcept>
using namespace archon;

template<class L, class R> void judge(L l, R r, i128 want, int op)
{
    (void)r;
    bool rep = fits<L>(want);
    auto tryop = [&](L& x) { return op == 0 ? core::try_int_add(x, r) : op == 1 ? core::try_int_sub(x, r) : core::try_int_mul(x, r); };
    L x = l;
    bool ok = tryop(x);
    CHECKM(ok == rep, "succeeds exactly when the result is representable");
    if (ok) { CHECKM(i128(x) == want, "result is exact"); }
    else { CHECKM(x == l, "left operand unchanged on failure"); }
    bool can = op == 0 ? core::can_int_add(l, r) : op == 1 ? core::can_int_sub(l, r) : core::can_int_mul(l, r);
    CHECKM(can == rep, "can_* predicate");
    L y = l; bool threw = false;
    try { if (op == 0) core::int_add(y, r); else if (op == 1) core::int_sub(y, r); else core::int_mul(y, r); }
    catch (std::overflow_error&) { threw = true; }
    CHECKM(threw == !rep, "throwing variant");
    if (threw) { CHECKM(y == l, "left operand unchanged by throw"); }
    else { CHECKM(i128(y) == want, "throwing variant result"); }
    if (rep) COVER("ok"); else COVER("refused");
}

HARNESS(addsub)
{
    int op = sym_choice("op", 2);
    int k = sym_choice("pair", 64);
    with_pair<AllInts>(k, [&]<class L, class R>() {
        L l = sym<L>("l"); R r = sym<R>("r");
        judge(l, r, op == 0 ? i128(l) + i128(r) : i128(l) - i128(r), op);
        if constexpr (std::is_signed_v<R>) if (r < 0) COVER("neg");
    });
}

HARNESS(mul_small)
{
    int k = sym_choice("pair", 4);
    with_pair<std::tuple<i8, u8>>(k, [&]<class L, class R>() {
        L l = sym<L>("l"); R r = sym<R>("r");
        judge(l, r, i128(int(l) * int(r)), 2);
    });
}

HARNESS(mul_const)
{
    int k = 8 * param("L", 0) + sym_choice("pair", 8);
    int c = sym_choice("const", 14);
    with_pair<AllInts>(k, [&]<class L, class R>() {
        using lim = std::numeric_limits<R>;
        R tab[14] = { R(0), R(1), R(2), R(3), R(7), R(10), R(-1), R(-2), R(-10), lim::max(), R(lim::max() - 1), R(lim::max() / 2 + 1), lim::min(), R(lim::min() / 2) };
        L l = sym<L>("l"); R r = tab[c];
        if constexpr (std::is_same_v<L, u64> && std::is_same_v<R, u64>) {
            // the product may exceed 127 bits
            u128 p = u128(l) * u128(r);
            if (p >> 127) { L x = l; CHECKM(!core::try_int_mul(x, r) && x == l, "huge product refused"); return; }
        }
        judge(l, r, i128(l) * i128(r), 2);
    });
}

// reference: base^exp limited to 127 bits; returns false if the magnitude exceeds 2^80
static bool ref_pow(i128 base, unsigned exp, i128& out)
{
    i128 r = 1;
    if (base == 0 || base == 1) { out = exp == 0 ? 1 : base; return true; }
    if (base == -1) { out = exp % 2 ? -1 : 1; return true; }
    for (unsigned i = 0; i < exp; ++i) {
        r *= base;
        if (r > (i128(1) << 70) || r < -(i128(1) << 70)) return false;
    }
    out = r; return true;
}

template<class L, class R> void judge_pow(L b, R e)
{
    i128 want = 0; bool rep;
    if (i128(e) >= 0) { rep = ref_pow(i128(b), unsigned(e), want) && fits<L>(want); }
    else {
        COVER("negexp");
        rep = b != 0;
        want = i128(b) == 1 ? 1 : i128(b) == -1 ? (unsigned(-i128(e)) % 2 ? -1 : 1) : 0;
    }
    L x = b;
    bool ok = core::try_int_pow(x, e);
    CHECKM(ok == rep, "pow succeeds exactly when representable");
    CHECKM(ok ? i128(x) == want : x == b, "pow result");
    L y = b; bool threw = false;
    try { core::int_pow(y, e); } catch (std::overflow_error&) { threw = true; }
    CHECKM(threw == !rep && (threw ? y == b : i128(y) == want), "throwing pow");
    if (rep) COVER("ok"); else COVER("refused");
}

// symbolic base of at most 16 bits, known exponent
template<class L, class R> void judge_pow_sym(L b, R e)
{
    bool unit = (b >= L(0) && b <= L(1)) || i64(b) == -1;
    i64 want = 0; bool rep;
    int n = int(e);
    if (n < 0) {
        COVER("negexp");
        rep = b != 0; want = i64(b) == 1 ? 1 : i64(b) == -1 ? (n & 1 ? -1 : 1) : 0;
    }
    else if (n >= int(8 * sizeof(L))) { rep = unit; want = i64(b) == -1 ? (n & 1 ? -1 : 1) : i64(b); } // |b| >= 2 gives at least 2^n
    else {
        want = 1;
        for (int i = 0; i < n; ++i) want *= i64(b);
        rep = want >= i64(std::numeric_limits<L>::min()) && want <= i64(std::numeric_limits<L>::max());
    }
    L x = b;
    bool ok = core::try_int_pow(x, e);
    CHECKM(ok == rep, "pow succeeds exactly when representable");
    if (ok) { CHECKM(i64(x) == want, "pow result"); } else { CHECKM(x == b, "pow leaves base"); }
    if (rep) COVER("ok"); else COVER("refused");
}

HARNESS(pow)
{
    int mode = sym_choice("mode", 2);
    if (mode == 0) {
        int k = sym_choice("pair", 4);
        int e = sym_choice("e", 24);
        with_pair<std::tuple<i8, u8>>(k, [&]<class L, class R>() {
            const R es[24] = { R(0), R(1), R(2), R(3), R(4), R(5), R(6), R(7), R(8), R(9), R(10), R(11), R(12), R(13), R(14), R(15), R(16), R(17), R(31), R(32), R(127), R(-1), R(-2), R(-128) };
            L b = sym<L>("b");
            if ((e > 8 && e < 21) || (e >= 21 && !std::is_signed_v<R>)) return;
            if (e > 3 && e < 21) b = std::is_signed_v<L> ? L(L(b << 5) >> 5) : L(b & 7);
            judge_pow_sym(b, es[e]);
        });
    }
    else {
        int k = sym_choice("pair", 64);
        int bi = sym_choice("base", 12);
        int ei = sym_choice("exp", 74);
        with_pair<AllInts>(k, [&]<class L, class R>() {
            const int bases[12] = { 0, 1, 2, 3, 4, 7, 10, 16, -1, -2, -3, -10 };
            if (!std::is_signed_v<L> && bases[bi] < 0) return;
            if (!std::is_signed_v<R> && ei < 4) return;
            judge_pow(L(bases[bi]), R(ei - 4));
        });
    }
}

HARNESS(shift)
{
    int k = sym_choice("type", 8);
    with_type<AllInts>(k, [&]<class T>() {
        T v = sym<T>("v"); irsym_assume(v >= 0);
        int i = sym_range<int>("i", 0, 140);
        bool rep = v == 0 || (i < 64 && (u128(v) << i) <= u128(std::numeric_limits<T>::max()));
        T x = v;
        bool ok = core::try_int_arith_shift_left(x, i);
        CHECKM(ok == rep, "shift succeeds exactly when representable");
        if (ok) { CHECKM(v == 0 ? x == 0 : u128(x) == u128(v) << i, "shift result"); }
        else { CHECKM(x == v, "shift leaves operand"); }
        T y = v; bool threw = false;
        try { core::int_arith_shift_left(y, i); } catch (std::overflow_error&) { threw = true; }
        CHECKM(threw == !rep && (threw ? y == v : y == x), "throwing shift");
        if (rep) COVER("ok"); else COVER("refused");
        if (i >= 64) COVER("big");
    });
}
