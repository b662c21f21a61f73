//@ entry flt K=0..7 covers=in,out,nan time=150|600
//@ bound flt: every float value against every value of each of the 8 built-in integer types
//@ entry dbl K=0..7 covers=in,out,nan time=150|600
//@ bound dbl: every double value against every value of each of the 8 built-in integer types
//@ assume the float to integer conversion instruction and comparison instructions are IEEE 754; long double is outside
#include "types.hpp"
#include <archon/core/float.hpp>
#include <stdexcept>
using namespace archon;

// The mathematical value of a float, as floor and whether there is a fractional part; values whose
// magnitude exceeds every integer type are clamped to +-2^66.
struct Val { i128 fl; bool frac; };

template<class F, class U, int EB, int MB> struct Fl {
    F f; Val v; bool nan;
};

// exponent class: 0: magnitude below one half or zero; 1: huge or inf or nan; 2+k: exponent -1+k, up to 2^65
template<class F, class U, int MB> Fl<F, U, 0, MB> make_float()
{
    constexpr int BIAS = sizeof(F) == 4 ? 127 : 1023, EMAX = sizeof(F) == 4 ? 255 : 2047;
    U m = sym<U>("mant") & ((U(1) << MB) - 1);
    bool neg = sym_choice("neg", 2);
    int c = sym_choice("exp", 2 + 67);
    U e;
    Fl<F, U, 0, MB> r = {};
    if (c == 0) {
        e = sym<U>("e") & U(EMAX); irsym_assume(e < U(BIAS - 1));
        bool zero = e == 0 && m == 0;
        r.v = { neg && !zero ? -1 : 0, !zero };
    }
    else if (c == 1) {
        e = sym<U>("e") & U(EMAX); irsym_assume(e > U(BIAS + 65));
        r.nan = e == U(EMAX) && m != 0;
        r.v = { neg ? -(i128(1) << 66) : i128(1) << 66, false };
    }
    else {
        int x = c - 3; // value = (2^MB + m) * 2^(x - MB)
        e = U(BIAS + x);
        u128 s = u128(m | (U(1) << MB)); i128 mag; bool frac = false;
        if (x >= MB) mag = i128(s << (x - MB));
        else { int sh = MB - x; mag = i128(s >> sh); frac = (s & ((u128(1) << sh) - 1)) != 0; }
        r.v = { neg ? -mag - (frac ? 1 : 0) : mag, frac };
    }
    U bits = (U(neg) << (8 * sizeof(U) - 1)) | (e << MB) | m;
    std::memcpy(&r.f, &bits, sizeof r.f);
    return r;
}

template<class F, class I, class FL> void judge(FL x)
{
    I i = sym<I>("i"); i128 n = i;
    bool lt = x.v.fl < n, eq = x.v.fl == n && !x.v.frac;
    bool ok = !x.nan;
    CHECKM(core::float_equal_int(x.f, i) == (ok && eq), "float_equal_int");
    CHECKM(core::float_less_int(x.f, i) == (ok && lt), "float_less_int");
    CHECKM(core::float_less_equal_int(x.f, i) == (ok && (lt || eq)), "float_less_equal_int");
    CHECKM(core::float_greater_int(x.f, i) == (ok && !(lt || eq)), "float_greater_int");
    CHECKM(core::float_greater_equal_int(x.f, i) == (ok && !lt), "float_greater_equal_int");
    i128 lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    bool below = x.v.fl < lo, above = x.v.fl > hi || (x.v.fl == hi && x.v.frac);
    i128 tr = x.v.fl < 0 && x.v.frac ? x.v.fl + 1 : x.v.fl;
    I init = sym<I>("init"), v = init;
    bool got = core::try_float_to_int(x.f, v);
    bool in = ok && !below && !above;
    CHECKM(got == in, "try_float_to_int succeeds exactly within the range of the integer type");
    CHECKM(v == (in ? I(tr) : init), "try_float_to_int result");
    CHECKM(core::clamped_float_to_int<I>(x.f) == (!ok ? I(0) : below ? I(lo) : above ? I(hi) : I(tr)), "clamped_float_to_int");
    bool threw = false; I w = 0;
    try { w = core::float_to_int<I>(x.f); } catch (std::overflow_error&) { threw = true; }
    CHECKM(threw == !in && (threw || w == I(tr)), "float_to_int");
    if (x.nan) COVER("nan"); else if (in) COVER("in"); else COVER("out");
}

HARNESS(flt) { auto x = make_float<float, u32, 23>(); with_type<AllInts>(param("K", 0), [&]<class I>() { judge<float, I>(x); }); }
HARNESS(dbl) { auto x = make_float<double, u64, 52>(); with_type<AllInts>(param("K", 0), [&]<class I>() { judge<double, I>(x); }); }
