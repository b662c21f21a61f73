//@ assume built-in integer types of 8 to 64 bits (bool and character types via their promoted equivalents only where listed)
//@ entry compare covers=lt,eq,gt,mixed time=100|600
//@ bound compare: all values of all 64 ordered pairs of {i8,u8,i16,u16,i32,u32,i64,u64}
//@ entry cast covers=fits,overflow time=100|600
//@ bound cast: all values of all 64 ordered pairs of the eight types, plus bool, char, wchar_t, char8_t, char16_t, char32_t as targets and sources
//@ entry clamp covers=below,above,inside time=100|600
//@ bound clamp: all values and all limits min<=max for all 64 ordered pairs
#include "types.hpp"
#include <archon/core/integer.hpp>
#include <stdexcept>
using namespace archon;

HARNESS(compare)
{
    int k = sym_choice("pair", 64);
    with_pair<AllInts>(k, []<class A, class B>() {
        A a = sym<A>("a"); B b = sym<B>("b");
        i128 x = a, y = b;
        CHECKM(core::int_equal(a, b) == (x == y), "int_equal");
        CHECKM(core::int_not_equal(a, b) == (x != y), "int_not_equal");
        CHECKM(core::int_less(a, b) == (x < y), "int_less");
        CHECKM(core::int_less_equal(a, b) == (x <= y), "int_less_equal");
        CHECKM(core::int_greater(a, b) == (x > y), "int_greater");
        CHECKM(core::int_greater_equal(a, b) == (x >= y), "int_greater_equal");
        if (x < y) COVER("lt"); else if (x == y) COVER("eq"); else COVER("gt");
        if constexpr (std::is_signed_v<A> != std::is_signed_v<B>) COVER("mixed");
    });
}

using Chars = std::tuple<bool, char, wchar_t, char8_t, char16_t, char32_t, i8, u8, i16, u16, i32, u32, i64, u64, long long, unsigned long long>;

HARNESS(cast)
{
    int k = sym_choice("pair", 256);
    with_pair<Chars>(k, []<class F, class T>() {
        F from = sym<F>("from");
        T init = sym<T>("init");
        bool want = fits<T>(i128(from));
        CHECKM(core::can_int_cast<T>(from) == want, "can_int_cast");
        T to = init;
        bool ok = core::try_int_cast(from, to);
        CHECKM(ok == want, "try_int_cast result");
        if (ok) { CHECKM(i128(to) == i128(from), "value preserved"); }
        else { CHECKM(to == init, "target untouched"); }
        bool threw = false; T r = init;
        try { r = core::int_cast<T>(from); } catch (std::overflow_error&) { threw = true; }
        CHECKM(threw == !want, "int_cast throws exactly on overflow");
        if (!threw) CHECKM(i128(r) == i128(from), "int_cast value");
        T r2 = init; threw = false;
        try { core::int_cast(from, r2); } catch (std::overflow_error&) { threw = true; }
        CHECKM(threw == !want, "int_cast (2) throws exactly on overflow");
        CHECKM(threw ? r2 == init : i128(r2) == i128(from), "int_cast (2) value");
        if constexpr (!std::is_signed_v<T>) {
            u128 mod = u128(i128(from)) & u128(std::numeric_limits<T>::max());
            CHECKM(u128(core::int_cast_a<T>(from)) == mod, "int_cast_a is congruent");
        }
        else if (want) CHECKM(i128(core::int_cast_a<T>(from)) == i128(from), "int_cast_a preserves");
        if (want) COVER("fits"); else COVER("overflow");
    });
}

HARNESS(clamp)
{
    int k = sym_choice("pair", 64);
    with_pair<AllInts>(k, []<class F, class T>() {
        F v = sym<F>("v"); T lo = sym<T>("lo"); T hi = sym<T>("hi");
        irsym_assume(lo <= hi);
        i128 want = i128(v) < i128(lo) ? i128(lo) : i128(v) > i128(hi) ? i128(hi) : i128(v);
        CHECKM(i128(core::int_cast_clamp<T>(v, lo, hi)) == want, "int_cast_clamp");
        T to = 0;
        core::int_cast_clamp(v, to, lo, hi);
        CHECKM(i128(to) == want, "int_cast_clamp (2)");
        core::int_cast_clamp(v, to);
        i128 mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
        i128 want2 = i128(v) < mn ? mn : i128(v) > mx ? mx : i128(v);
        CHECKM(i128(to) == want2, "int_cast_clamp (3)");
        if (i128(v) < i128(lo)) COVER("below"); else if (i128(v) > i128(hi)) COVER("above"); else COVER("inside");
    });
}
