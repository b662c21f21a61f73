//@ entry linear K=0..5 N=0 time=120
//@ bound linear: all pairs of values; part types u8 x2, u8 x3, u16 x2, u32 x2, u64 x1, u64 x2, both signednesses; + - unary- ~ & | ^ comparisons, min/max, msb position, compound forms
//@ entry shift K=0..4
//@ bound shift: all values, all shift amounts 0..width-1 (u64x2: every 1st of the amounts too); same types
//@ entry mul K=0..5 N=0|1 time=120|600
//@ bound mul: all pairs of values for u8x1; u8x2 (both signednesses): one operand arbitrary, the other any value with two adjacent 4-bit digits (digits 1,7,9,15; all 16 in thorough); u16x1: one operand arbitrary, u8x3, u16x2: one operand arbitrary within a 10-bit window at one of three positions, the other from a list of 12-22 values
//@ entry div K=0..5 N=0|1 time=120|800
//@ bound div: u8x1: all pairs of values, divisor non-zero; u8x2, u16x1: dividend arbitrary, divisor from a list of 20 (32 in thorough) values
//@ entry div_wide K=0..3 N=0|1 time=200|1500 tier=thorough
//@ bound div_wide: u8x3, u16x2: dividend arbitrary, divisor from a list of 42
//@ entry conv K=0..3
//@ bound conv: all values of the 8 built-in types to and from u8x2, u8x3, u16x3, u32x3 (both signednesses), values representable in the target
#include "types.hpp"
#include <archon/core/mul_prec_int.hpp>
using namespace archon;

template<class T, int N, bool S> using MP = core::MulPrecInt<T, N, S>;

// the reference: the W-bit two's complement or modular integer held in a 128-bit container
template<class M> struct Ref {
    static constexpr int W = M::width;
    using T = typename M::part_type;
    static u128 bits(M m) // zero-extended
    {
        u128 v = 0;
        auto parts = m.get_parts();
        for (int i = 0; i < M::num_parts; ++i) v |= u128(parts[std::size_t(i)]) << (i * int(sizeof(T) * 8));
        return v;
    }
    static u128 mask() { return W == 128 ? ~u128(0) : (u128(1) << (W % 128)) - 1; }
    static i128 sval(u128 b) { return i128(b << (128 - W)) >> (128 - W); } // sign-extended
    static M make(u128 b)
    {
        typename M::parts_type parts = {};
        for (int i = 0; i < M::num_parts; ++i) parts[std::size_t(i)] = T(b >> (i * int(sizeof(T) * 8)));
        return M(parts);
    }
};

template<class M> u128 sym_bits()
{
    using T = typename M::part_type; u128 v = 0;
    for (int i = 0; i < M::num_parts; ++i) v |= u128(sym<T>("part")) << (i * int(sizeof(T) * 8));
    return v;
}

template<class M> void check_linear()
{
    using R = Ref<M>;
    u128 a = sym_bits<M>(), b = sym_bits<M>();
    M x = R::make(a), y = R::make(b);
    u128 m = R::mask();
    CHECKM(R::bits(x + y) == ((a + b) & m), "+");
    CHECKM(R::bits(x - y) == ((a - b) & m), "-");
    CHECKM(R::bits(-x) == ((u128(0) - a) & m), "unary -");
    CHECKM(R::bits(+x) == a, "unary +");
    CHECKM(R::bits(~x) == (~a & m), "~");
    CHECKM(R::bits(x & y) == (a & b), "&");
    CHECKM(R::bits(x | y) == (a | b), "|");
    CHECKM(R::bits(x ^ y) == (a ^ b), "^");
    bool lt = M::is_signed ? R::sval(a) < R::sval(b) : a < b;
    bool eq = a == b;
    CHECKM((x == y) == eq, "==");
    CHECKM((x != y) == !eq, "!=");
    CHECKM((x < y) == lt, "<");
    CHECKM((x <= y) == (lt || eq), "<=");
    CHECKM((x > y) == !(lt || eq), ">");
    CHECKM((x >= y) == !lt, ">=");
    CHECKM(x.is_nonneg() == (!M::is_signed || R::sval(a) >= 0), "is_nonneg");
    M z = x; z += y; CHECKM(z == x + y, "+=");
    z = x; z -= y; CHECKM(z == x - y, "-=");
    z = x; z &= y; CHECKM(z == (x & y), "&=");
    z = x; z |= y; CHECKM(z == (x | y), "|=");
    z = x; z ^= y; CHECKM(z == (x ^ y), "^=");
    u128 lo = M::is_signed ? u128(1) << (R::W - 1) : 0;
    CHECKM(R::bits(M::min()) == lo, "min");
    CHECKM(R::bits(M::max()) == ((lo - 1) & m), "max");
    CHECKM(R::bits(M()) == 0, "default value");
    int p = x.find_msb_pos();
    CHECKM(a == 0 ? p == -1 : (p >= 0 && p < R::W && (a >> p) == 1), "find_msb_pos");
}

template<class F> void with_mp(int k, F f) { int s = sym_choice("signed", 2);
    switch (k) {
        case 0: s ? f.template operator()<MP<u8, 2, true>>() : f.template operator()<MP<u8, 2, false>>(); break;
        case 1: s ? f.template operator()<MP<u8, 3, true>>() : f.template operator()<MP<u8, 3, false>>(); break;
        case 2: s ? f.template operator()<MP<u16, 2, true>>() : f.template operator()<MP<u16, 2, false>>(); break;
        case 3: s ? f.template operator()<MP<u32, 2, true>>() : f.template operator()<MP<u32, 2, false>>(); break;
        case 4: s ? f.template operator()<MP<u64, 1, true>>() : f.template operator()<MP<u64, 1, false>>(); break;
        case 5: s ? f.template operator()<MP<u64, 2, true>>() : f.template operator()<MP<u64, 2, false>>(); break;
    }
}

HARNESS(linear)
{
    with_mp(param("K", 0), []<class M>() { check_linear<M>(); });
}

HARNESS(shift)
{
    with_mp(param("K", 0) == 4 ? 5 : param("K", 0), []<class M>() {
        using R = Ref<M>;
        u128 a = sym_bits<M>();
        int n = sym_choice("n", R::W);
        M x = R::make(a);
        CHECKM(R::bits(x << n) == ((a << n) & R::mask()), "<<");
        CHECKM(R::bits(x >> n) == (a >> n), ">>");
        M z = x; z <<= n; CHECKM(z == (x << n), "<<=");
        z = x; z >>= n; CHECKM(z == (x >> n), ">>=");
    });
}

template<class M> void judge_mul(u128 a, u128 b)
{
    using R = Ref<M>;
    M x = R::make(a), y = R::make(b);
    u128 want = (a * b) & R::mask();
    CHECKM(R::bits(x * y) == want, "*");
    CHECKM(R::bits(y * x) == want, "* commuted");
    M w = x; w *= y; CHECKM(R::bits(w) == want, "*=");
}
HARNESS(mul)
{
    static const u64 ops[] = { 0xffff, 0x8001, 0x7fff, 0x8000, 0xff00, 0x00ff, 0x1234, 0xfedc, 0x0101, 0xf0f0, 0x0f0f, 0xabcd,
        0xffffff, 0x800001, 0x123456, 0xfedcba, 0xffffffff, 0x80000001, 0x12345678, 0xffff0000, 0xdeadbeef, 0x7fffffff, 0x100000000, 0xfffffffff };
    auto two = [](int w) { // two non-zero digits, every pair of positions
        static const int ds[] = { 1, 7, 9, 15, 0, 2, 3, 4, 5, 6, 8, 10, 11, 12, 13, 14 };
        int nd = param("N", 0) ? 16 : 4;
        u128 d1 = u128(ds[sym_choice("d1", nd)]), d2 = u128(ds[sym_choice("d2", nd)]);
        int n = w / 4, p = sym_choice("p", n); return (d1 << 4 * p) | (d2 << 4 * ((p + 1) % n)); };
    switch (param("K", 0)) {
        case 0: judge_mul<MP<u8, 1, true>>(sym<u8>("a"), sym<u8>("b")); break;
        case 1: judge_mul<MP<u8, 2, false>>(sym<u16>("a"), two(16)); break;
        case 2: judge_mul<MP<u8, 2, true>>(sym<u16>("a"), two(16)); break;
        case 3: judge_mul<MP<u16, 1, true>>(sym<u16>("a"), ops[sym_choice("b", 12)]); break;
        case 4: judge_mul<MP<u8, 3, true>>((sym_bits<MP<u8, 2, true>>() & 0x3ff) << (7 * sym_choice("s", 3)), ops[sym_choice("b", 16)] & 0xffffff); break;
        case 5: judge_mul<MP<u16, 2, false>>(u128(sym<u16>("a") & 0x3ff) << (11 * sym_choice("s", 3)), ops[sym_choice("b", 22)]); break;
    }
}

template<class M> void judge_div(u128 a, u128 b)
{
    using R = Ref<M>;
    M x = R::make(a), y = R::make(b);
    auto r = x.divmod(y);
    M q2 = x / y, r2 = x % y;
    CHECKM(q2 == r.quot && r2 == r.rem, "/ and % agree with divmod");
    u128 q = R::bits(r.quot), m = R::bits(r.rem);
    auto mag = [](u128 v) { return M::is_signed && R::sval(v) < 0 ? u128(0) - u128(R::sval(v)) : v; };
    // truncating division
    CHECKM(((q * b + m) & R::mask()) == a, "quotient * divisor + remainder is the dividend");
    CHECKM(mag(m) < mag(b), "remainder is smaller than the divisor");
    CHECKM(!M::is_signed || m == 0 || (R::sval(m) < 0) == (R::sval(a) < 0), "remainder has the sign of the dividend");
    if (M::is_signed) {
        bool ov = a == (u128(1) << (R::W - 1)) && b == R::mask();
        if (!ov) { CHECKM(q == 0 || (R::sval(q) < 0) == ((R::sval(a) < 0) != (R::sval(b) < 0)), "sign of quotient"); }
    }
    CHECKM(mag(q) <= mag(a), "quotient is no larger than the dividend");
}
template<class M> void check_div_full()
{
    u128 a = sym_bits<M>(), b = sym_bits<M>();
    irsym_assume(b != 0);
    judge_div<M>(a, b);
}
template<class M> void check_div_by()
{
    static const u32 divisors[] = { 0xff, 0x80, 0x8f, 0x88f, 0x8ff, 0x800f, 0x7fff, 0x8000, 0x8001, 0xffff, 0xfff, 0x111, 0x1ff, 0x10, 0x1f, 0x21,
        1, 2, 3, 7, 10, 15, 17, 100, 0x100, 0x101, 0x123, 0x180, 0x1000, 0x1234, 0x7f0, 0x7f,
        0x10000, 0x10001, 0x7fffff, 0x800000, 0x80001f, 0xfffffe, 0xffffff, 0x8ffff, 0x880ff, 0x10ff };
    bool wide = sizeof(typename M::part_type) * M::num_parts > 2;
    int n = param("N", 0);
    u128 b = divisors[sym_choice("b", wide ? n ? 42 : 8 : n ? 32 : 20)];
    u128 a = sym_bits<M>();
    judge_div<M>(a, b);
}
HARNESS(div)
{
    switch (param("K", 0)) {
        case 0: check_div_full<MP<u8, 1, true>>(); break;
        case 1: check_div_full<MP<u8, 1, false>>(); break;
        case 2: check_div_by<MP<u16, 1, true>>(); break;
        case 3: check_div_by<MP<u16, 1, false>>(); break;
        case 4: check_div_by<MP<u8, 2, true>>(); break;
        case 5: check_div_by<MP<u8, 2, false>>(); break;
    }
}
HARNESS(div_wide)
{
    switch (param("K", 0)) {
        case 0: check_div_by<MP<u8, 3, false>>(); break;
        case 1: check_div_by<MP<u8, 3, true>>(); break;
        case 2: check_div_by<MP<u16, 2, false>>(); break;
        case 3: check_div_by<MP<u16, 2, true>>(); break;
    }
}

template<class M> void check_conv()
{
    using R = Ref<M>;
    with_type<AllInts>(sym_choice("type", 8), []<class I>() {
        I v = sym<I>("v");
        i128 w = v;
        bool fit = M::is_signed ? (w >= -(i128(1) << (R::W - 1)) && w < (i128(1) << (R::W - 1))) : (w >= 0 && w < (i128(1) << R::W));
        CHECKM(core::can_int_cast<M>(v) == fit, "can_int_cast from built-in");
        if (fit) {
            M m(v);
            CHECKM((M::is_signed ? R::sval(R::bits(m)) : i128(R::bits(m))) == w, "conversion from built-in");
            CHECKM(I(m) == v, "conversion back");
            COVER("from");
        }
        u128 b = sym_bits<M>();
        M m = R::make(b);
        i128 bv = M::is_signed ? R::sval(b) : i128(b);
        bool fit2 = fits<I>(bv);
        CHECKM(core::can_int_cast<I>(m) == fit2, "can_int_cast to built-in");
        if (fit2) { CHECKM(i128(I(m)) == bv, "conversion to built-in"); COVER("to"); }
        I c = 0; core::int_cast_clamp(m, c);
        CHECKM(i128(c) == (fit2 ? bv : bv < 0 || bv < i128(std::numeric_limits<I>::min()) ? i128(std::numeric_limits<I>::min()) : i128(std::numeric_limits<I>::max())), "clamping conversion");
        CHECKM(core::int_less(v, m) == (w < bv), "mixed comparison");
        CHECKM(core::int_equal(v, m) == (w == bv), "mixed equality");
    });
}
HARNESS(conv)
{
    int s = sym_choice("signed", 2);
    switch (param("K", 0)) {
        case 0: s ? check_conv<MP<u8, 2, true>>() : check_conv<MP<u8, 2, false>>(); break;
        case 1: s ? check_conv<MP<u8, 3, true>>() : check_conv<MP<u8, 3, false>>(); break;
        case 2: s ? check_conv<MP<u16, 3, true>>() : check_conv<MP<u16, 3, false>>(); break;
        case 3: s ? check_conv<MP<u32, 3, true>>() : check_conv<MP<u32, 3, false>>(); break;
    }
}
