//@ link archon/image/buffer_format.cpp
//@ entry valid_integer covers=valid,invalid
//@ entry valid_packed covers=valid,invalid
//@ entry valid_subword covers=valid,invalid
//@ entry valid_indexed covers=valid,invalid time=100|600
//@ entry integer T=0..5 covers=as_integer,refused time=60|300
//@ entry packed T=0..5 D=1..4 covers=as_integer,refused time=60|300
//@ entry subword T=0..5 covers=as_integer,as_subword,refused time=60|300
//@ entry other covers=refused
//@ entry row covers=ok,overflow
//@ entry map covers=mapped,unmapped
//@ entry to_packed covers=source
//@ bound valid_integer: every word type, bits per word and words per channel (all 32-bit values)
//@ bound valid_packed: 1 to 9 channels, first two bit fields with small, negative and huge widths and gaps and the others concrete, every word type, words per pixel up to 247 or near the limit, 0, 1, 8 or too many bits per word
//@ bound valid_subword: 1 to 4 channels, every word type and pixels per word, bits per channel up to 70 and the values near 2^31
//@ bound valid_indexed: every word type, words and pixels per compound up to 247 or near the limits, bits per word 1, as many as available, and out of range, bits per pixel 0, 1, 2, 4, 8 and near 2^31
//@ bound integer: every pair of word types, every number of bits per word, 1 to 3 words per channel, both word orders, 1 to 3 colour channels and any alpha and reversal; the location of every bit of every channel of pixels 0 to 255
//@ bound packed: every pair of word types, 1 to 9 bits per word and every multiple of 8, and all but one, 1 to 4 words per pixel, both word orders, 1 to 3 channels in total with any field widths and gaps up to 127; the location of every bit of every channel of pixels 0 to 255
//@ bound subword: every pair of word types, 1 to 32 bits per channel, 1, 2, 4 or 8 pixels per word, 1 to 3 channels, both bit orders, rows aligned or not with a row length of 3 or 4 pixels; the location of every bit of every channel of pixels 0 to 7
//@ bound row: every image width and words per channel up to 2^31 - 1 with 1 to 4 channels, one of the two factors below 16
//@ assume little-endian machine with 8-bit bytes
#include "sym.hpp"
#include <archon/image/buffer_format.hpp>
using namespace archon;
using BF = image::BufferFormat; using IT = BF::IntegerType; using core::Endianness; typedef long long ll;
struct Space : image::ColorSpace { constexpr Space(int n) noexcept : image::ColorSpace(n) {} void from_rgb(const comp_type*, comp_type*, comp_type) const override {} void to_rgb(const comp_type*, comp_type*, comp_type) const override {} };
static const Space spaces[10] = { 1, 1, 2, 3, 4, 5, 6, 7, 8, 9 };
static const int bytes_of[6] = { 1, 1, 2, 4, 8, 8 };
static IT type_of(int i) { return IT(i); }
static Endianness order(const char* n) { return sym_choice(n, 2) ? Endianness::little : Endianness::big; }
// Position of a channel, given by its canonical index, in the stored order
static int stored(const BF::ChannelConf& c, int ch) { int n = c.color_space->get_num_channels() + c.has_alpha; if (c.has_alpha && c.alpha_channel_first) ch = (ch + 1) % n; return c.reverse_order ? n - 1 - ch : ch; }
static int chans(const BF::ChannelConf& c) { return c.color_space->get_num_channels() + c.has_alpha; }
// Absolute bit position in memory of bit k (0 is least significant) of a channel of a pixel
static ll in_words(ll compound, int words, Endianness o, int bits, int bytes, ll bit) { ll chunk = bit / bits; return (compound * words + (o == Endianness::big ? words - 1 - chunk : chunk)) * bytes * 8 + bit % bits; }
static ll loc(const BF::IntegerFormat& f, ll px, int ch, ll k) { return in_words(px * chans(f.channel_conf) + stored(f.channel_conf, ch), f.words_per_channel, f.word_order, f.bits_per_word, bytes_of[int(f.word_type)], k); }
static ll width(const BF::IntegerFormat& f, int) { return ll(f.bits_per_word) * f.words_per_channel; }
static ll loc(const BF::PackedFormat& f, ll px, int ch, ll k) { int i = stored(f.channel_conf, ch); ll s = k; for (int j = chans(f.channel_conf) - 1; j >= i; --j) { s += f.bit_fields[j].gap; if (j > i) s += f.bit_fields[j].width; } return in_words(px, f.words_per_pixel, f.word_order, f.bits_per_word, bytes_of[int(f.word_type)], s); }
static ll width(const BF::PackedFormat& f, int ch) { return f.bit_fields[stored(f.channel_conf, ch)].width; }
static ll row_length; // in pixels
static ll loc(const BF::SubwordFormat& f, ll px, int ch, ll k)
{
    int n = chans(f.channel_conf), p = f.pixels_per_word; ll word = px / p, slot = px % p; if (f.word_aligned_rows) { ll y = px / row_length, x = px % row_length; word = y * ((row_length + p - 1) / p) + x / p; slot = x % p; }
    ll s = f.bit_order == Endianness::little ? slot : p - 1 - slot; return word * bytes_of[int(f.word_type)] * 8 + (s * n + (n - 1 - stored(f.channel_conf, ch))) * f.bits_per_channel + k;
}
static ll width(const BF::SubwordFormat& f, int) { return f.bits_per_channel; }
// The two formats describe the same memory
template<class A, class B> static void same(const A& a, const B& b, ll px)
{
    CHECKM(b.is_valid(), "the new format is valid"); int n = chans(a.channel_conf); CHECKM(chans(b.channel_conf) == n && b.channel_conf.color_space == a.channel_conf.color_space && b.channel_conf.has_alpha == a.channel_conf.has_alpha, "same channels");
    ll k = ll(irsym_bits("bit", 8)); for (int ch = 0; ch < n; ++ch) { CHECKM(width(a, ch) == width(b, ch), "same number of bits in every channel"); ll k2 = k < width(a, ch) ? k : 0; CHECKM(loc(a, px, ch, k2) == loc(b, px, ch, k2), "every bit of every channel is where it was"); }
}
static BF::ChannelConf conf(int max) { int n = 1 + sym_choice("channels", max); bool a = n > 1 && sym_choice("alpha", 2), f = a && sym_choice("first", 2), r = sym_choice("reverse", 2); return { &spaces[n - a], a, f, r }; }
template<class F> static void unchanged(const BF& f, IT t) { F g = {}; g.word_type = type_of(3); g.channel_conf.color_space = &spaces[7]; if (!f.try_cast_to(g, t)) { COVER("refused"); CHECKM(g.word_type == type_of(3) && g.channel_conf.color_space == &spaces[7], "unchanged on failure"); } }
HARNESS(integer)
{
    int w = sym_choice("type", 6); IT t = type_of(param("T", 0)); BF f; auto c = conf(3); int b = int(irsym_bits("bits", 7)); irsym_assume((b > 0) & (b <= 8 * bytes_of[w])); f.set_integer_format(type_of(w), b, 1 + sym_choice("words", 3), order("order"), *c.color_space, c.has_alpha, c.alpha_channel_first, c.reverse_order);
    BF::IntegerFormat i = {}; bool ok = f.try_cast_to(i, t); if (w == param("T", 0)) CHECKM(ok, "same kind and word type"); if (ok) { COVER("as_integer"); CHECKM(i.word_type == t, "word type"); f.integer.bits_per_word = int(irsym_concretize(std::uint64_t(b))); i.bits_per_word = int(irsym_concretize(std::uint64_t(i.bits_per_word))); same(f.integer, i, ll(irsym_bits("px", 8))); } else unchanged<BF::IntegerFormat>(f, t);
    BF::SubwordFormat s = {}; if (f.try_cast_to(s, t)) { row_length = 3; CHECKM(s.word_type == t, "word type"); f.integer.bits_per_word = int(irsym_concretize(std::uint64_t(b))); same(f.integer, s, ll(irsym_bits("px", 8))); }
}
HARNESS(packed)
{
    int w = sym_choice("type", 6); IT t = type_of(param("T", 0)); BF f; auto c = conf(3); int n = chans(c); int b = int(irsym_bits("bits", 7)); irsym_assume((b > 0) & (b <= 8 * bytes_of[w]) & ((b < 10) | ((b & 7) == 0) | (b == 8 * bytes_of[w] - 1))); image::BitField bf[3]; for (int i = 0; i < n; ++i) bf[i] = { int(irsym_bits("width", 7)), int(irsym_bits("gap", 7)) };
    f.set_packed_format(type_of(w), b, param("D", 1), order("order"), core::Span<const image::BitField>(bf, std::size_t(n)), *c.color_space, c.has_alpha, c.alpha_channel_first, c.reverse_order); irsym_assume(f.is_valid());
    auto fix = [&] { f.packed.bits_per_word = int(irsym_concretize(std::uint64_t(b))); };
    BF::IntegerFormat i = {}; if (f.try_cast_to(i, t)) { COVER("as_integer"); CHECKM(i.word_type == t, "word type"); fix(); i.bits_per_word = int(irsym_concretize(std::uint64_t(i.bits_per_word))); same(f.packed, i, ll(irsym_bits("px", 8))); } else unchanged<BF::IntegerFormat>(f, t);
    BF::SubwordFormat s = {}; if (f.try_cast_to(s, t)) { row_length = 3; CHECKM(s.word_type == t, "word type"); fix(); s.bits_per_channel = int(irsym_concretize(std::uint64_t(s.bits_per_channel))); same(f.packed, s, ll(irsym_bits("px", 8))); }
}
HARNESS(subword)
{
    int w = sym_choice("type", 6); IT t = type_of(param("T", 0)); BF f; auto c = conf(3); int b = 1 + int(irsym_bits("bits", 5)), p = 1 << sym_choice("pixels", 4); irsym_assume(b * p * chans(c) <= 8 * bytes_of[w]);
    f.set_subword_format(type_of(w), b, p, order("order"), sym_choice("aligned", 2), *c.color_space, c.has_alpha, c.alpha_channel_first, c.reverse_order); row_length = 3 + sym_choice("row", 2); auto fix = [&] { f.subword.bits_per_channel = int(irsym_concretize(std::uint64_t(b))); };
    BF::IntegerFormat i = {}; if (f.try_cast_to(i, t)) { COVER("as_integer"); CHECKM(i.word_type == t, "word type"); fix(); i.words_per_channel = int(irsym_concretize(std::uint64_t(i.words_per_channel))); i.bits_per_word = int(irsym_concretize(std::uint64_t(i.bits_per_word))); same(f.subword, i, sym_choice("px", 8)); } else unchanged<BF::IntegerFormat>(f, t);
    BF::SubwordFormat s = {}; bool ok = f.try_cast_to(s, t); if (w == param("T", 0)) CHECKM(ok, "same kind and word type"); if (ok) { COVER("as_subword"); CHECKM(s.word_type == t, "word type"); fix(); s.bits_per_channel = int(irsym_concretize(std::uint64_t(s.bits_per_channel))); same(f.subword, s, sym_choice("px", 8)); } else unchanged<BF::SubwordFormat>(f, t);
}
HARNESS(other)
{
    BF f; f.set_indexed_format(type_of(sym_choice("type", 6)), 1, 8, 8, 1, order("order"), order("order2"), true); if (sym_choice("float", 2)) { f.type = BF::Type::float_; f.float_ = { BF::FloatType::float_, { &spaces[1], false, false, false } }; CHECK(f.is_valid()); }
    IT t = type_of(sym_choice("to", 6)); BF::IntegerFormat i; BF::SubwordFormat s; BF::PackedFormat p; CHECKM(!f.try_cast_to(i, t) && !f.try_cast_to(s, t) && !f.try_cast_to(p, t), "no such cast"); COVER("refused");
}
HARNESS(to_packed)
{
    BF f; int k = sym_choice("kind", 3); image::BitField bf[1] = { { 8, 0 } }; if (k == 0) f.set_integer_format(IT::byte, 8, 1, Endianness::big, spaces[1], false, false, false); else if (k == 1) f.set_packed_format(IT::byte, 8, 1, Endianness::big, core::Span<const image::BitField>(bf, std::size_t(1)), spaces[1], false, false, false); else f.set_subword_format(IT::byte, 8, 1, Endianness::big, false, spaces[1], false, false, false);
    COVER("source"); BF::PackedFormat p = {}; if (f.try_cast_to(p, IT::byte)) CHECKM(p.is_valid() && chans(p.channel_conf) == 1 && p.bit_fields[0].width == 8 && p.bit_fields[0].gap == 0, "same location");
}
static void verdict(const BF& f, bool want) { if (want) COVER("valid"); else COVER("invalid"); CHECKM(f.is_valid() == want, "valid exactly when the documented requirements are met"); }
const ll imax = std::numeric_limits<int>::max();
// the documented requirements on words and bits; the bits are made concrete when they are in range
static int some_bits(int avail) { int b = sym<int>("bits"); if (b > 0 && b <= avail) b = int(irsym_concretize(std::uint64_t(b))); return b; }
// small (also negative) numbers, or those next to a limit
static int near(const char* name, int limit) { int v = int(irsym_bits(name, 8)) - 8; return sym_choice(name, 2) ? limit - (v & 15) + 8 * (limit < imax) : v; }
HARNESS(valid_integer) { int w = sym_choice("type", 6), avail = 8 * bytes_of[w], b = some_bits(avail), n = sym<int>("words"); BF f; f.set_integer_format(type_of(w), b, n, Endianness::big, spaces[3], false, false, false); bool r = b > 0 && b <= avail; verdict(f, r && (n > 0) & (ll(n) * b <= imax)); }
HARNESS(valid_packed)
{
    int nc = 1 + sym_choice("channels", 8); bool nine = nc == 8 && sym_choice("nine", 2); int w = sym_choice("type", 6), avail = 8 * bytes_of[w], b = sym_choice("bits", 4), n = near("words", int(imax / 8)); b = b == 2 ? 8 : b == 3 ? avail + 1 : b; image::BitField bf[8]; for (int i = 0; i < nc; ++i) bf[i] = i < 1 ? image::BitField { near("width", int(imax)), near("gap", int(imax)) } : i < 2 ? image::BitField { near("width", int(imax)), int(irsym_bits("gap", 4)) } : image::BitField { i, 1 };
    BF f; f.set_packed_format(type_of(w), b, n, Endianness::big, core::Span<const image::BitField>(bf, std::size_t(nc)), spaces[nc], false, false, false); if (nine) f.packed.channel_conf.color_space = &spaces[9]; 
    bool r = b > 0 && b <= avail && n > 0 && ll(n) * b <= imax && !nine; ll sum = 0; for (int i = 0; i < nc; ++i) { r = r && bf[i].width >= 1 && bf[i].gap >= 0; sum += ll(bf[i].width) + bf[i].gap; } verdict(f, r && sum <= ll(n) * b);
}
HARNESS(valid_subword)
{
    int nc = 1 + sym_choice("channels", 4), w = sym_choice("type", 6), avail = 8 * bytes_of[w], k = sym_choice("bits", 90), b = k < 72 ? k - 1 : k < 80 ? int(imax - (k - 72)) : k < 85 ? int(imax / (k - 78)) + 1 : int(imax / (k - 83)), p = sym<int>("pixels"); BF f; f.set_subword_format(type_of(w), b, p, Endianness::big, false, spaces[nc], false, false, false); bool r = b > 0 && p > 0; verdict(f, r && ll(nc) * b <= avail && ll(p) * (nc * b) <= avail);
}
HARNESS(valid_indexed)
{
    int w = sym_choice("type", 6), avail = 8 * bytes_of[w], b = sym_choice("bits", 4), n = near("words", int(imax / avail)), k = sym_choice("ppx", 7), bp = k < 2 ? k : k < 5 ? 1 << (k - 1) : int(imax - (k - 5)), p = near("pixels", int(imax / 8)); b = b == 0 ? some_bits(0) : b == 1 ? avail : b == 2 ? 1 : avail + 1; BF f; f.set_indexed_format(type_of(w), bp, p, b, n, Endianness::big, Endianness::big, false);
    bool r = bp > 0 && p > 0 && b > 0 && n > 0 && b <= avail; if (r) { ll total = ll(n) * b; r = total <= imax; if (r) r = ll(p) * bp <= total; } verdict(f, r);
}
HARNESS(row)
{
    int nc = 1 + sym_choice("channels", 4); bool which = sym_choice("small", 2); int s = sym_choice("factor", 16), big = sym_nonneg<int>("big"); BF f; f.set_integer_format(IT::byte, 1, which ? s : big, Endianness::big, spaces[nc], false, false, false); std::size_t r = f.integer.get_words_per_row(which ? big : s); CHECKM(r == std::size_t(s * nc) * std::size_t(big), "product"); COVER("ok");
    bool thrown = false; BF g; g.set_integer_format(IT::byte, 1, int(imax), Endianness::big, spaces[5], false, false, false); try { std::size_t q = g.integer.get_words_per_row(int(imax)); CHECKM(false, "no silent overflow"); (void)q; } catch (std::overflow_error&) { thrown = true; COVER("overflow"); } CHECK(thrown || sizeof(std::size_t) > 8);
}
template<class W> static void mapped(bool want, IT it) { IT t = IT::byte; bool r = BF::try_map_integer_type<W>(t); CHECKM(r == want && (!want || t == it), "mapping of word types"); }
HARNESS(map)
{
    mapped<std::byte>(true, IT::byte); mapped<char>(true, IT::char_); mapped<signed char>(true, IT::char_); mapped<unsigned char>(true, IT::char_); mapped<short>(true, IT::short_); mapped<unsigned short>(true, IT::short_); mapped<int>(true, IT::int_); mapped<unsigned>(true, IT::int_); mapped<long>(true, IT::long_); mapped<unsigned long>(true, IT::long_); mapped<long long>(true, IT::llong); mapped<unsigned long long>(true, IT::llong); COVER("mapped");
    mapped<bool>(false, IT::byte); mapped<char16_t>(false, IT::byte); mapped<wchar_t>(false, IT::byte); mapped<__int128>(false, IT::byte); COVER("unmapped"); BF::FloatType t; CHECK(BF::try_map_float_type<float>(t) && t == BF::FloatType::float_ && BF::try_map_float_type<double>(t) && t == BF::FloatType::double_ && BF::try_map_float_type<long double>(t) && t == BF::FloatType::ldouble && !BF::try_map_float_type<int>(t));
    for (int i = 0; i < 6; ++i) { CHECK(BF::get_bytes_per_word(type_of(i)) == bytes_of[i]); CHECK(BF::get_bits_per_word(type_of(i)) == 8 * bytes_of[i]); }
}
