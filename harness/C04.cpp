//@ entry bits covers=pow2,notpow2,zero,neg
//@ bound bits: all values of the eight built-in types 8 to 64 bits; shift amounts and mask sizes 0..140
//@ entry digits covers=zero,neg,pos time=150|600 qto=60
//@ bound digits: all values of i8,u8,i16,u16 in bases 2..36; all values of 32/64-bit types in bases 2,8,16
//@ entry division covers=exact,inexact,half time=200|800 qto=120
//@ bound division: all values of all ordered pairs of {i8,u8,i16,u16}; divisors from a set of boundary constants for all 64 ordered pairs of the eight types
//@ entry periodic A=0..8 covers=negneg,negpos,posneg,pospos all16=0|1 time=200|800 qto=120
//@ bound periodic: all values of the ordered pairs of {i8,u8} (thorough: all pairs of {i8,u8,i16,u16}); divisors from a set of boundary constants for all 64 ordered pairs of the eight types, with 64-bit signed dividends in three windows of 2^10 values (around zero, at both limits), likewise 32-bit ones when the divisor is not close to a power of two
//@ entry sqrt time=200|800 qto=120 covers=zero,large
//@ bound sqrt: all non-negative values of i8, u8, i16, u16; 32- and 64-bit values within 1 of a square of, or equal to, a boundary value
#include "types.hpp"
#include <archon/core/integer.hpp>
using namespace archon;

HARNESS(bits)
{
    with_type<AllInts>(sym_choice("type", 8), []<class T>() {
        T v = sym<T>("v");
        using U = std::make_unsigned_t<T>;
        int W = int(sizeof(T) * 8), D = std::numeric_limits<T>::digits;
        int what = sym_choice("what", 6);
        if (what == 0) {
            int i = sym_choice("msb", 65); // case split on the highest set bit; 64: not positive
            bool p2 = false;
            if (i == 64) irsym_assume(v <= 0);
            else { if (i >= D) return; irsym_assume((v >> i) == 1); p2 = (v == T(T(1) << i)); }
            CHECKM(core::int_is_power_of_two(v) == p2, "int_is_power_of_two");
            if (p2) COVER("pow2"); else COVER("notpow2");
        }
        else if (what == 1) {
            int msb = -1;
            for (int i = 0; i < W; ++i) msb = ((U(v) >> i) & 1) ? i : msb;
            CHECKM(core::int_find_msb_pos(v) == msb, "int_find_msb_pos");
            if (v == 0) COVER("zero");
            if (v < 0) COVER("neg");
        }
        else if (what == 2) {
            CHECKM(core::int_is_even(v) == ((U(v) & 1) == 0), "int_is_even");
            CHECKM(core::int_is_odd(v) == ((U(v) & 1) == 1), "int_is_odd");
            CHECKM(core::is_zero(v) == (i128(v) == 0), "is_zero");
            CHECKM(core::is_negative(v) == (i128(v) < 0), "is_negative");
            CHECKM(core::int_is_min(v) == (v == std::numeric_limits<T>::min()), "int_is_min");
            CHECKM(core::int_is_max(v) == (v == std::numeric_limits<T>::max()), "int_is_max");
            if (sizeof(T) >= 4 || true) {
                if (!(std::is_signed_v<T> && sizeof(T) >= 4 && v == std::numeric_limits<T>::min()))
                    CHECKM(T(core::int_neg(v)) == T(-i128(v)), "int_neg");
            }
            CHECKM(i128(core::to_unsigned(v)) == i128(U(v)), "to_unsigned");
            CHECKM(i128(core::promote(v)) == i128(v) && i128(core::promote_strongly(v)) == i128(v), "promote");
            static_assert(core::int_width<T>() == int(sizeof(T) * 8) && core::num_value_bits<T>() == std::numeric_limits<T>::digits && core::is_signed<T>() == std::is_signed_v<T>);
        }
        else if (what == 3) {
            int n = sym_range<int>("n", -3, 140);
            u128 want = n <= 0 ? 0 : n >= D ? u128(std::numeric_limits<T>::max()) : (u128(1) << n) - 1;
            CHECKM(u128(core::int_mask<T>(n)) == want, "int_mask");
        }
        else if (what == 4) {
            irsym_assume(v >= 0);
            int n = sym_range<int>("n", 0, 140);
            T x = v;
            core::int_logic_shift_right(x, n);
            CHECKM(u128(x) == (n >= 64 ? u128(0) : u128(v) >> n), "int_logic_shift_right");
        }
        else {
            if constexpr (!std::is_signed_v<T>) {
                int n = sym_range<int>("n", 0, 140);
                T x = v;
                core::int_logic_shift_left(x, n);
                CHECKM(x == T(n >= 64 ? u64(0) : u64(v) << n), "int_logic_shift_left");
            }
        }
    });
}

template<class T> void judge_digits(T v, int base)
{
    using U = std::make_unsigned_t<T>;
    U mag = v < 0 ? U(0) - U(v) : U(v);
    int got = core::int_num_digits(v, base);
    int pos = core::int_find_msd_pos(v, base);
    CHECKM(got == pos + 1, "num_digits is msd_pos plus one");
    // base^(n-1) <= mag < base^n
    if (mag == 0) { CHECKM(got == 0, "zero has no digits"); COVER("zero"); return; }
    got = int(irsym_concretize(u64(got)));
    CHECKM(got >= 1 && got <= 64, "digit count range");
    u128 p = 1;
    for (int i = 1; i < got; ++i) p *= unsigned(base);
    CHECKM(u128(mag) >= p && u128(mag) < p * unsigned(base), "digit count");
    CHECKM(got <= core::int_max_digits<T>(base), "max digits");
    if (v < 0) COVER("neg"); else COVER("pos");
}

HARNESS(digits)
{
    if (sym_choice("mode", 2) == 0) {
        int base = sym_choice("base", 35) + 2;
        with_type<SmallInts>(sym_choice("type", 4), [&]<class T>() { judge_digits(sym<T>("v"), base); });
    }
    else {
        const int bases[3] = { 2, 8, 16 };
        int base = bases[sym_choice("base", 3)];
        with_type<AllInts>(4 + sym_choice("type", 4), [&]<class T>() { judge_digits(sym<T>("v"), base); });
    }
}

template<class A, class B> void judge_div(A a, B b)
{
    i128 x = a, y = b;
    i128 up = i128(core::int_div_round_up(a, b));
    i128 hd = i128(core::int_div_round_half_down(a, b));
    i128 q = x / y, r = x % y;
    CHECKM(up == q + (r != 0), "int_div_round_up");
    CHECKM(hd == q + (2 * r > y), "int_div_round_half_down");
    if (r == 0) COVER("exact"); else COVER("inexact");
    if (2 * r == y) COVER("half");
}

template<class R> R boundary(int c)
{
    using lim = std::numeric_limits<R>;
    R tab[12] = { R(1), R(2), R(3), R(10), R(7), R(-1), R(-2), R(-10), lim::max(), R(lim::max() - 1), R(lim::max() / 2 + 1), lim::min() };
    return tab[c];
}

HARNESS(division)
{
    if (sym_choice("mode", 2) == 0) {
        with_pair<SmallInts>(sym_choice("pair", 16), []<class A, class B>() {
            A a = sym_nonneg<A>("a"); B b = sym_nonneg<B>("b");
            irsym_assume(b > 0);
            int x = a, y = b;
            int up = core::int_div_round_up(a, b), hd = core::int_div_round_half_down(a, b);
            int q = x / y, r = x % y;
            CHECKM(up == q + (r != 0), "int_div_round_up");
            CHECKM(hd == q + (2 * r > y), "int_div_round_half_down");
            auto dm = core::int_divmod(x, y);
            CHECKM(dm.quot == q && dm.rem == r, "int_divmod");
            if (r == 0) COVER("exact"); else COVER("inexact");
            if (2 * r == y) COVER("half");
        });
    }
    else {
        int c = sym_choice("const", 12);
        with_pair<AllInts>(sym_choice("pair", 64), [&]<class A, class B>() {
            B b = boundary<B>(c);
            if (b <= 0) return;
            A a = sym_nonneg<A>("a");
            judge_div(a, b);
        });
    }
}

template<class I, class A, class B> void judge_mod(A a, B b)
{
    B r = core::int_periodic_mod(a, b);
    I x = I(a), y = I(b), m = x % y;
    if (m != 0 && ((m < 0) != (y < 0))) m += y;
    CHECKM(I(r) == m, "int_periodic_mod");
    if (a < 0 && b < 0) COVER("negneg"); else if (a < 0) COVER("negpos"); else if (b < 0) COVER("posneg"); else COVER("pospos");
}

static int small_pair()
{
    if (param("all16", 0)) return sym_choice("pair", 16);
    const int p[4] = { 0, 1, 4, 5 }; // the 8-bit pairs
    return p[sym_choice("pair", 4)];
}

HARNESS(periodic)
{
    if (param("A", 0) == 8) {
        with_pair<SmallInts>(small_pair(), []<class A, class B>() {
            A a = sym<A>("a"); B b = sym<B>("b");
            irsym_assume(b != 0);
            judge_mod<int>(a, b);
        });
    }
    else {
        int c = sym_choice("const", 12);
        with_pair<AllInts>(8 * param("A", 0) + sym_choice("pair", 8), [&]<class A, class B>() {
            B b = boundary<B>(c);
            if (b == 0) return;
            A a = sym<A>("a");
            bool awkward = std::is_signed_v<A> && sizeof(A) == 8 ? true : std::is_signed_v<A> && sizeof(A) == 4 && (b == B(3) || b == B(7) || b == B(10) || b == B(-10) || sizeof(B) == 1 || i128(b) == 32767 || i128(b) == 32766 || i128(b) == 65535 || i128(b) == 65534);
            if (awkward) { // signed dividends by such divisors: windows of 2^10 values around zero and at both ends of the type
                using U = std::make_unsigned_t<A>;
                int win = sym_choice("window", 3);
                U d = U(a) & 1023;
                a = win == 0 ? A(A(d) - 512) : win == 1 ? A(U(std::numeric_limits<A>::min()) + d) : A(std::numeric_limits<A>::max() - A(d));
            }
            judge_mod<i128>(a, b);
        });
    }
}

template<class T> void judge_sqrt(T v)
{
    T r = core::int_sqrt(v);
    CHECKM(r >= 0, "non-negative");
    u128 R = u128(r);
    CHECKM(R * R <= u128(v) && (R + 1) * (R + 1) > u128(v), "int_sqrt");
    if (v == 0) COVER("zero");
    if (v > 100) COVER("large");
}

HARNESS(sqrt)
{
    if (sym_choice("mode", 2) == 0)
        with_type<std::tuple<i8, u8, i16, u16>>(sym_choice("type", 4), []<class T>() { T v = sym_nonneg<T>("v"); judge_sqrt(v); });
    else {
        int k = sym_choice("k", 64); int d = sym_choice("d", 4);
        with_type<std::tuple<i32, u32, i64, u64>>(sym_choice("type", 4), [&]<class T>() {
            constexpr int D = std::numeric_limits<T>::digits;
            if (k / 2 > (D - 1) / 2) return;
            u128 root = (u128(1) << (k / 2)) + (k % 2 ? (u128(1) << (k / 2)) / 3 : 0);
            u128 v = d == 0 ? root * root : d == 1 ? root * root - 1 : d == 2 ? root * root + 2 * root : u128(std::numeric_limits<T>::max()) - unsigned(k);
            if (v > u128(std::numeric_limits<T>::max())) return;
            judge_sqrt(T(v));
        });
    }
}
