//@ rt ios.cpp
//@ entry out N=3|5 K=0..4 covers=fits,full,seek,refused
//@ entry out_seek covers=ok,bad
//@ entry in N=3|5 K=0..3 covers=seek,refused,eof
//@ entry in_seek covers=ok,bad
//@ entry grow N=3|4 K=0..4 covers=realloc
//@ entry streams N=4|5 covers=fail,good
//@ bound out: memory of 0 to N characters (3 quick, 5 thorough), every initial size and contents, one seek to every position, then one operation of each kind with every count up to N + 1, then another seek by any of the three directions with every offset from -N-1 to N+1 and a write
//@ bound out_seek: memory of 0 to 4 characters at every write position, all three directions, every 64-bit offset, both seek functions, every combination of direction flags
//@ bound in: memory of 0 to N characters, a seek to every position, then one read operation of each kind with every count up to N + 1, then another seek by every direction and offset from -N-1 to N+1
//@ bound in_seek: memory of 0 to 4 characters at every position, all three directions, every 64-bit offset, both seek functions
//@ bound grow: seed memory of 0 to N characters, a write of every length up to N + 1, one operation of each kind with every count up to N + 1, then further writes; char and wide character
//@ bound streams: formatted output (strings, padding, integers of 8 bits) and error states of the stream classes over memory of 0 to N characters
#include "sym.hpp"
#include <archon/core/memory_output_stream.hpp>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/seed_memory_output_stream.hpp>
using namespace archon;
typedef std::size_t sz; typedef std::ios_base ib;
static const ib::seekdir dirs[3] = { ib::beg, ib::cur, ib::end };

namespace {
struct Ref { // an array with a write position
    char mem[16]; int cap, size, pos;
    void reach() { if (pos > size) size = pos; }
    bool put(char c) { if (pos == cap) return false; mem[pos++] = c; reach(); return true; }
    int write(const char* p, int n) { int i = 0; while (i < n && put(p[i])) ++i; return i; }
    bool seek(long long p) { if (p < 0 || p > cap) return false; for (int i = size; i < p; ++i) mem[i] = 0; pos = int(p); reach(); return true; }
    long long base(int d) const { return d == 0 ? 0 : d == 1 ? pos : size; }
};
template<class B> void same(B& b, const char* mem, const Ref& r, const char* guard)
{
    CHECKM(int(b.get_capacity()) == r.cap && int(b.get_size()) == r.size, "size and capacity");
    auto v = b.view(); CHECKM(int(v.size()) == r.size && v.data() == mem, "view"); CHECKM(b.get_base() == mem, "base");
    for (int i = 0; i < r.size; ++i) CHECKM(mem[i] == r.mem[i], "contents");
    for (int i = r.size; i < r.cap; ++i) CHECKM(mem[i] == r.mem[i], "memory beyond the size untouched");
    (void)guard;
}
}

HARNESS(out)
{
    int N = param("N", 3); Ref r; r.cap = sym_choice("cap", N + 1); r.size = sym_choice("size", r.cap + 1); r.pos = 0;
    char* mem = new char[r.cap]; irsym_bytes(mem, sz(r.cap), "mem"); for (int i = 0; i < r.cap; ++i) r.mem[i] = mem[i];
    core::BasicMemoryOutputStreambuf<char> b(core::Span<char>(mem, sz(r.cap)), sz(r.size)); same(b, mem, r, 0);
    { int p = sym_choice("pos", r.cap + 1); CHECKM(std::streamoff(b.pubseekpos(p, ib::out)) == p, "seek position"); r.seek(p); same(b, mem, r, 0); }
    int k = sym_choice("count", N + 2); char src[16]; irsym_bytes(src, sz(k), "src");
    switch (param("K", 0)) {
        case 0: { long n = b.sputn(src, k); int m = r.write(src, k); CHECKM(n == m, "number of written characters"); if (m == k) COVER("fits"); else COVER("full"); break; }
        case 1: { for (int i = 0; i < k; ++i) { int c = b.sputc(src[i]); bool ok = r.put(src[i]); CHECKM((c == std::char_traits<char>::eof()) == !ok, "refused exactly when full"); if (ok) COVER("fits"); else COVER("full"); } break; }
        case 2: { b.reset(core::Span<char>(mem, sz(r.cap)), sz(k <= r.cap ? k : r.cap)); r.size = k <= r.cap ? k : r.cap; r.pos = 0; COVER("fits"); COVER("full"); break; }
        case 3: { CHECKM(b.pubsync() == 0 && b.sgetc() == std::char_traits<char>::eof(), "not readable"); COVER("fits"); COVER("full"); break; }
        default: { core::BasicMemoryOutputStream<char> s(core::Span<char>(mem, sz(r.cap)), sz(r.size)); Ref q = r; q.pos = 0; s.write(src, k); int m = q.write(src, k); CHECKM(s.good() == (m == k) && s.bad() == (m != k), "stream state"); same(s, mem, q, 0);
            s.reset(core::Span<char>(mem, sz(r.cap)), sz(q.size)); CHECKM(s.good() && int(s.tellp()) == 0, "state after reset"); q.pos = 0; same(s, mem, q, 0);
            if (m == k) COVER("fits"); else COVER("full"); COVER("seek"); COVER("refused"); delete[] mem; return; }
    }
    same(b, mem, r, 0);
    { int d = sym_choice("dir", 3), off = sym_choice("off", 2 * N + 3) - N - 1; long long e = r.base(d) + off; bool ok = r.seek(e);
      long long p = std::streamoff(b.pubseekoff(off, dirs[d], ib::out)); CHECKM(p == (ok ? e : -1), "seek result"); if (ok) COVER("seek"); else COVER("refused"); same(b, mem, r, 0); }
    { long n = b.sputn(src, k); CHECKM(n == r.write(src, k), "number of written characters"); same(b, mem, r, 0); }
    delete[] mem;
}

HARNESS(out_seek)
{
    Ref r; r.cap = sym_choice("cap", 5); r.size = sym_choice("size", r.cap + 1); r.pos = 0; char* mem = new char[r.cap]; irsym_bytes(mem, sz(r.cap), "mem"); for (int i = 0; i < r.cap; ++i) r.mem[i] = mem[i];
    core::BasicMemoryOutputStreambuf<char> b(core::Span<char>(mem, sz(r.cap)), sz(r.size));
    int p = sym_choice("pos", r.cap + 1); b.pubseekpos(p, ib::out); r.seek(p);
    int d = sym_choice("dir", 4), w = sym_choice("which", 3); ib::openmode m = w == 0 ? ib::out : w == 1 ? ib::in : ib::in | ib::out; long long off = sym<long long>("off"), res;
    if (d == 3) res = std::streamoff(b.pubseekpos(off, m)); else res = std::streamoff(b.pubseekoff(off, dirs[d], m));
    long long base = d == 3 ? 0 : r.base(d); bool ok = w == 0 && off >= -base && off <= r.cap - base;
    if (ok) { int e = int(irsym_concretize(base + off)); r.seek(e); CHECKM(res == e, "position"); COVER("ok"); } else { CHECKM(res == -1, "invalid position refused"); COVER("bad"); }
    same(b, mem, r, 0);
    CHECKM(b.sputc('x') == std::char_traits<char>::eof() ? !r.put('x') : r.put('x'), "write after seek"); same(b, mem, r, 0);
    delete[] mem;
}

HARNESS(in)
{
    int N = param("N", 3), n = sym_choice("size", N + 1); char* mem = new char[n]; irsym_bytes(mem, sz(n), "mem");
    core::BasicMemoryInputStreambuf<char> b(core::StringSpan<char>(mem, sz(n))); const int eof = std::char_traits<char>::eof();
    int pos = sym_choice("pos", n + 1); CHECKM(std::streamoff(b.pubseekpos(pos, ib::in)) == pos, "seek position");
    int k = sym_choice("count", N + 2); char dst[16];
    switch (param("K", 0)) {
        case 0: { long m = b.sgetn(dst, k); int e = k < n - pos ? k : n - pos; CHECKM(m == e, "number of read characters"); for (int i = 0; i < e; ++i) CHECKM(dst[i] == mem[pos + i], "read characters"); pos += e; break; }
        case 1: for (int i = 0; i < k; ++i) { int c = b.sbumpc(); if (pos < n) { CHECKM(c == (unsigned char)mem[pos], "read character"); ++pos; } else { CHECKM(c == eof, "end of input"); COVER("eof"); } } break;
        case 2: for (int i = 0; i < k; ++i) { int c = b.snextc(); if (pos < n) ++pos; CHECKM(c == (pos < n ? int((unsigned char)mem[pos]) : eof), "next character"); if (pos >= n) COVER("eof"); } break;
        default: { core::BasicMemoryInputStream<char> s(core::StringSpan<char>(mem, sz(n))); s.read(dst, k); int e = k < n ? k : n; CHECKM(s.gcount() == e && s.good() == (k <= n) && s.eof() == (k > n), "stream state"); for (int i = 0; i < e; ++i) CHECKM(dst[i] == mem[i], "read characters"); s.reset(core::StringSpan<char>(mem, sz(n))); CHECKM(s.good() && s.tellg() == 0 && s.view().size() == sz(n) && s.view().data() == mem, "reset"); }
    }
    if (param("K", 0) != 1 && param("K", 0) != 2) COVER("eof");
    { int d = sym_choice("dir", 3), off = sym_choice("off", 2 * N + 3) - N - 1; int e = (d == 0 ? 0 : d == 1 ? pos : n) + off; bool ok = e >= 0 && e <= n;
      long long p = std::streamoff(b.pubseekoff(off, dirs[d], ib::in)); CHECKM(p == (ok ? e : -1), "seek result"); if (ok) { pos = e; COVER("seek"); } else COVER("refused"); }
    CHECKM(b.sgetc() == (pos < n ? int((unsigned char)mem[pos]) : eof), "character at the position"); auto v = b.view(); CHECKM(v.data() == mem && int(v.size()) == n, "view");
    if (pos > 0) { CHECKM(b.sungetc() == (unsigned char)mem[pos - 1], "one back"); } else CHECKM(b.sungetc() == eof, "nothing before the start");
    delete[] mem;
}

HARNESS(in_seek)
{
    int n = sym_choice("size", 5); char* mem = new char[n]; irsym_bytes(mem, sz(n), "mem"); core::BasicMemoryInputStreambuf<char> b(core::StringSpan<char>(mem, sz(n))); const int eof = std::char_traits<char>::eof();
    int pos = sym_choice("pos", n + 1); b.pubseekpos(pos, ib::in);
    int d = sym_choice("dir", 4), w = sym_choice("which", 3); ib::openmode m = w == 0 ? ib::in : w == 1 ? ib::out : ib::in | ib::out; long long off = sym<long long>("off"), res;
    if (d == 3) res = std::streamoff(b.pubseekpos(off, m)); else res = std::streamoff(b.pubseekoff(off, dirs[d], m));
    long long base = d == 3 || d == 0 ? 0 : d == 1 ? pos : n; bool ok = w == 0 && off >= -base && off <= n - base;
    if (ok) { pos = int(irsym_concretize(base + off)); CHECKM(res == pos, "position"); COVER("ok"); } else { CHECKM(res == -1, "invalid position refused"); COVER("bad"); }
    CHECKM(b.sgetc() == (pos < n ? int((unsigned char)mem[pos]) : eof), "character at the position");
    delete[] mem;
}

template<class C> static void grow_t()
{
    const C mask = C(sizeof(C) > 1 ? 0x7FFFFFFF : -1); // the value of WEOF is not a character
    int N = param("N", 3), s = sym_choice("seed size", N + 1); C* seed = new C[s]; C ref[32]; int n = 0;
    {
        core::BasicSeedMemoryOutputStream<C> st(core::Span<C>(seed, sz(s))); auto& b = st.streambuf();
        auto same = [&] { CHECKM(int(b.size()) == n && int(st.view().size()) == n && st.view().data() == b.data(), "size"); for (int i = 0; i < n; ++i) CHECKM(b.data()[i] == ref[i], "contents"); };
        int k = sym_choice("first", N + 2), k2 = sym_choice("count", N + 2); C src[16]; for (int i = 0; i < 16; ++i) src[i] = C(sym<C>("src") & mask); C v = C(sym<C>("v") & mask);
        auto add = [&](int m) { for (int i = 0; i < m; ++i) ref[n++] = src[i]; };
        st.write(src, k); add(k); same(); if (n > s) COVER("realloc");
        switch (param("K", 0)) {
            case 0: CHECKM(b.sputn(src, k2) == k2, "all accepted"); add(k2); break;
            case 1: for (int i = 0; i < k2; ++i) { CHECKM(!std::char_traits<C>::eq_int_type(b.sputc(src[i]), std::char_traits<C>::eof()), "accepted"); ref[n++] = src[i]; } break;
            case 2: b.append(sz(k2), v); for (int i = 0; i < k2; ++i) ref[n++] = v; break;
            case 3: b.append(src, sz(k2)); add(k2); b.reserve_extra(sz(k2)); same(); break;
            default: if (k2 & 1) b.clear_contents(); else { st.setstate(ib::failbit); st.full_clear(); } n = 0; CHECKM(st.good(), "state"); break;
        }
        same(); st.put(v); ref[n++] = v; same(); st.write(src, k); add(k); same(); CHECKM(st.good(), "state");
    }
    delete[] seed;
    CHECKM(irsym_live_heap() == 0, "no leaked memory");
}
HARNESS(grow) { if (sym_choice("wide", 2)) grow_t<wchar_t>(); else grow_t<char>(); }

HARNESS(streams)
{
    int N = param("N", 4), cap = sym_choice("cap", N + 1), len = sym_choice("len", N), width = sym_choice("width", N + 1); char mem[8], src[8]; irsym_bytes(src, sz(len), "src");
    core::BasicMemoryOutputStream<char> s(core::Span<char>(mem, sz(cap)), sz(0)); bool left = sym_choice("left", 2);
    s.width(width); s.fill('*'); if (left) s << std::left; s << std::string_view(src, sz(len));
    char ref[16]; int n = 0; int pad = width > len ? width - len : 0; if (!left) for (int i = 0; i < pad; ++i) ref[n++] = '*'; for (int i = 0; i < len; ++i) ref[n++] = src[i]; if (left) for (int i = 0; i < pad; ++i) ref[n++] = '*';
    unsigned x = sym_choice("x", 3); x = x == 0 ? 7 : x == 1 ? 10 : 255; char d[8]; int dn = 0; { unsigned y = x; do { d[dn++] = char('0' + y % 10); y /= 10; } while (y); }
    bool ok1 = n <= cap; CHECKM(s.good() == ok1, "stream state"); if (ok1) { s << int(x); for (int i = dn - 1; i >= 0; --i) ref[n++] = d[i]; CHECKM(s.good() == (n <= cap), "stream state"); }
    if (n <= cap) COVER("good"); else COVER("fail");
    int m = n < cap ? n : cap; if (ok1 || n <= cap) { CHECKM(int(s.get_size()) == m, "size"); } else CHECKM(int(s.get_size()) <= cap, "size");
    for (int i = 0; i < int(s.get_size()); ++i) CHECKM(mem[i] == ref[i], "contents");
}
