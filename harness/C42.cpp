//@ entry narrow K=0..2 covers=wrapped,straight
//@ entry wide K=0..1 covers=wrapped,straight time=90|600
//@ entry jitter covers=done time=90|600
//@ entry full covers=done
//@ bound narrow: 8-bit timestamps in an 8-bit and a 16-bit type, 5-bit timestamps in an 8-bit type: start, and two later events of any age up to 4095 ms, secondary clock off by anything less than half a period
//@ bound wide: 32-bit timestamps in 32-bit and 64-bit types: any start, an event any time up to 2^34 ms later, secondary clock off by anything less than half a period
//@ bound jitter: 8-bit timestamps, secondary clock with nanosecond resolution, events of age up to 1023 ms
//@ bound full: 63 and 64-bit types whose values all are representable as they are
//@ assume both clocks are monotonic, and differences between them are less than half of the wrap period
#include "sym.hpp"
#include <archon/display/noinst/timestamp_unwrapper.hpp>
using namespace archon;
typedef std::int64_t L;
template<class T, int N> using U = display::impl::TimestampUnwrapper<T, N>;
typedef std::chrono::steady_clock::time_point TP;
static TP at(L ms, L ns = 0) { return TP(std::chrono::steady_clock::duration(ms * 1000000 + ns)); }
template<class T, int N> static void stream(int bits, int steps)
{
    constexpr L period = L(1) << N, mask = period - 1; typedef typename U<T, N>::Session Sess; U<T, N> u; L base = 0; L s = L(irsym_bits("start", N));
    { Sess se(u, at(base)); auto r = se.unwrap_next_timestamp(T(s)); CHECKM(r.count() == s, "first timestamp as is"); }
    L d = 0;
    for (int i = 0; i < steps; ++i) {
        d += L(irsym_bits("age", bits)); L m = L(irsym_bits("age2", bits + 1)); irsym_assume((d - m < period / 2) & (m - d < period / 2)); // primary and secondary age of the event
        Sess se(u, at(0)); se.reset_now(at(base + m)); L t = s + d; auto r = se.unwrap_next_timestamp(T(t & mask)); CHECKM(r.count() == t, "original timestamp recovered"); if (t > mask) COVER("wrapped"); else COVER("straight");
    }
}
HARNESS(narrow) { switch (param("K", 0)) { case 0: stream<std::uint8_t, 8>(11, 2); break; case 1: stream<std::uint16_t, 8>(11, 2); break; case 2: stream<std::uint8_t, 5>(8, 2); break; } }
HARNESS(wide) { if (param("K", 0)) stream<std::uint64_t, 32>(34, 1); else stream<std::uint32_t, 32>(34, 1); }
HARNESS(jitter)
{
    U<std::uint8_t, 8> u; L s = L(irsym_bits("start", 8)); { U<std::uint8_t, 8>::Session se(u, at(3, 250000)); CHECK(se.unwrap_next_timestamp(std::uint8_t(s)).count() == s); }
    L d = L(irsym_bits("age", 10)), m = L(irsym_bits("age2", 11)); irsym_assume((d - m < 127) & (m - d < 127)); L j = L(irsym_bits("jitter", 19)); U<std::uint8_t, 8>::Session se(u, at(3 + m, 250000 + (sym<bool>("early") ? -j : j))); irsym_assume(m > 0);
    CHECKM(se.unwrap_next_timestamp(std::uint8_t(s + d)).count() == s + d, "original timestamp recovered"); COVER("done");
}
HARNESS(full)
{
    U<std::uint64_t, 63> u; for (int i = 0; i < 2; ++i) { L t = L(irsym_bits("t", 63)); U<std::uint64_t, 63>::Session se(u, at(0)); CHECKM(se.unwrap_next_timestamp(std::uint64_t(t)).count() == t, "as is"); } COVER("done");
}
