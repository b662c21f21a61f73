//@ entry to covers=ok,refused,neg
//@ bound to: all values of all 64 ordered pairs of {i8,u8,i16,u16,i32,u32,i64,u64}
//@ entry from covers=ok,refused,neg
//@ bound from: as above
//@ entry between covers=ok,refused,neg
//@ bound between: as above
//@ entry extend covers=ext,same
//@ bound extend: all values of the four unsigned types, all widths 1..70
#include "types.hpp"
#include <archon/core/integer.hpp>
#include <stdexcept>
using namespace archon;

// the value represented by v when unsigned types hold two's complement
template<class T> i128 rep_value(T v)
{
    return i128(std::make_signed_t<T>(v));
}
template<class T> bool fits_rep(i128 v) { return fits<std::make_signed_t<T>>(v); }

template<class T, class F, class Can, class Try, class Cast, class CastA, class Val, class Rep>
void judge(F from, T init, bool rep, i128 want, Can can, Try tr, Cast cast, CastA casta, Val val, Rep)
{
    CHECKM(can(from) == rep, "can_*");
    T to = init;
    bool ok = tr(from, to);
    CHECKM(ok == rep, "try_* result");
    if (ok) { CHECKM(val(to) == want, "try_* preserves value"); }
    else { CHECKM(to == init, "try_* leaves target"); }
    bool threw = false; T r = init;
    try { r = cast(from); } catch (std::overflow_error&) { threw = true; }
    CHECKM(threw == !rep, "cast throws exactly on overflow");
    if (!threw) CHECKM(val(r) == want, "cast preserves value");
    if (rep) { CHECKM(val(casta(from)) == want, "unchecked cast agrees"); }
    if (rep) COVER("ok"); else COVER("refused");
    if (want < 0 && rep) COVER("neg");
}

HARNESS(to)
{
    with_pair<AllInts>(sym_choice("pair", 64), []<class F, class T>() {
        F f = sym<F>("f"); T init = sym<T>("init");
        i128 want = f;
        judge<T>(f, init, fits_rep<T>(want), want, [](F x) { return core::can_cast_to_twos_compl<T>(x); }, [](F x, T& y) { return core::try_cast_to_twos_compl(x, y); },
                 [](F x) { return core::cast_to_twos_compl<T>(x); }, [](F x) { return core::cast_to_twos_compl_a<T>(x); }, [](T x) { return rep_value(x); }, 0);
    });
}

HARNESS(from)
{
    with_pair<AllInts>(sym_choice("pair", 64), []<class F, class T>() {
        F f = sym<F>("f"); T init = sym<T>("init");
        i128 want = rep_value(f);
        judge<T>(f, init, fits<T>(want), want, [](F x) { return core::can_cast_from_twos_compl<T>(x); }, [](F x, T& y) { return core::try_cast_from_twos_compl(x, y); },
                 [](F x) { return core::cast_from_twos_compl<T>(x); }, [](F x) { return core::cast_from_twos_compl_a<T>(x); }, [](T x) { return i128(x); }, 0);
    });
}

HARNESS(between)
{
    with_pair<AllInts>(sym_choice("pair", 64), []<class F, class T>() {
        F f = sym<F>("f"); T init = sym<T>("init");
        i128 want = rep_value(f);
        judge<T>(f, init, fits_rep<T>(want), want, [](F x) { return core::can_twos_compl_cast<T>(x); }, [](F x, T& y) { return core::try_twos_compl_cast(x, y); },
                 [](F x) { return core::twos_compl_cast<T>(x); }, [](F x) { return core::twos_compl_cast_a<T>(x); }, [](T x) { return rep_value(x); }, 0);
    });
}

HARNESS(extend)
{
    with_type<std::tuple<u8, u16, u32, u64>>(sym_choice("type", 4), []<class T>() {
        T v = sym<T>("v");
        int w = sym_range<int>("w", 1, 70);
        T r = core::twos_compl_sign_extend(v, w);
        int W = int(sizeof(T) * 8);
        if (w >= W) { CHECKM(r == v, "unchanged"); COVER("same"); return; }
        u64 x = v;
        bool neg = (x >> (w - 1)) & 1;
        u64 want = neg ? (x | (~u64(0) << w)) : x;
        CHECKM(r == T(want), "sign extension");
        if (neg) COVER("ext");
    });
}
