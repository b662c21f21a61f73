//@ link archon/core/file.cpp
//@ link archon/core/file_sink.cpp
//@ link archon/core/file_source.cpp
//@ link archon/core/source.cpp
//@ link archon/core/rewindable_source.cpp
//@ rt ios.cpp
//@ rt fs.cpp
//@ entry sink N=3|4 B=1..3|1..4 covers=flushed,failed,retried,passed
//@ entry plain N=4|5 covers=ok,error
//@ entry source N=3|4 B=1..3|1..4 covers=data,eof,error
//@ entry rewind N=3|4 K=0..3 covers=again,rest,error,released
//@ entry reads N=3|4 covers=full,eof,error
//@ bound sink: buffers of 1 to 3 bytes (4 thorough), three writes of 0 to N bytes each, with symbolic contents, schedules with up to 2 short transfers, 1 interruption and 2 failures, rejected rest and flush retried
//@ bound plain: unbuffered sink, writes of 0 to N bytes, every schedule with 2 short transfers, 1 interruption and 1 failure
//@ bound source: buffered and unbuffered sources, buffers of 1 to 3 bytes, three reads of 0 to N bytes, inputs of 0 to N + 2 bytes, schedules with up to 2 short transfers, 1 interruption and 1 failure
//@ bound rewind: inputs of 0 to N + 1 bytes delivered in pieces of any size, a read, a rewind, further reads with an optional rewind or release in between, one failure at any point, initial buffer of 0 to 2 bytes
//@ bound reads: Source::try_read() and read() for requests of 0 to N bytes over every schedule of pieces and one failure
//@ assume the operating system is modelled by harness/os.hpp
#include "os.hpp"
#include <archon/core/file.hpp>
#include <archon/core/file_sink.hpp>
#include <archon/core/file_source.hpp>
#include <archon/core/rewindable_source.hpp>
using namespace archon;
using core::File;
typedef std::size_t sz;
static void rw(File& f) { std::error_code ec; bool ok = f.try_open(std::filesystem::path("x"), File::Mode::update, ec); CHECKM(ok, "open"); }
static const std::error_code eio() { return std::error_code(EIO, std::system_category()); }

HARNESS(sink)
{
    os::begin(); os::st.fail = 2; int N = param("N", 3), B = param("B", 2); File f; rw(f); char* buf = new char[sz(B)];
    core::BufferedFileSink s(f, core::Span<char>(buf, sz(B))); char all[64]; int n = 0; // accepted bytes
    for (int i = 0; i < 3; ++i) {
        int k = sym_choice("size", N + 1); char* d = new char[sz(k)]; irsym_bytes(d, sz(k), "data"); int off = 0, tries = 0;
        for (;;) { sz m = 99; std::error_code ec; os::st.failed = false; bool ok = s.try_write(core::StringSpan<char>(d + off, sz(k - off)), m, ec); CHECKM(m <= sz(k - off), "accepted part"); for (sz j = 0; j < m; ++j) all[n++] = d[sz(off) + j];
            if (ok) { CHECKM(int(m) == k - off && !ec, "everything accepted"); break; } CHECKM(int(m) < k - off && ec == eio() && os::st.failed, "failure reported"); COVER("failed"); off += int(m); if (++tries > 3) irsym_fail("fails without cause"); COVER("retried"); }
        delete[] d; CHECKM(os::st.out_n <= n && n - os::st.out_n <= B, "bytes not yet delivered are in the buffer"); for (int j = 0; j < os::st.out_n; ++j) CHECKM(os::st.out[j] == all[j], "delivered bytes in order");
        if (os::st.out_n > 0) COVER("passed");
        if (i == 0 && sym_choice("flush early", 2)) { std::error_code ec; os::st.failed = false; bool ok = s.try_flush(ec); CHECKM(ok == !os::st.failed && (ok || ec == eio()), "result of flush"); if (ok) CHECKM(os::st.out_n == n, "flushed"); }
    }
    for (int t = 0;; ++t) { std::error_code ec; os::st.failed = false; if (s.try_flush(ec)) { COVER("flushed"); break; } CHECKM(os::st.failed && ec == eio(), "failure reported"); if (t > 2) irsym_fail("fails without cause"); }
    CHECKM(os::st.out_n == n, "everything delivered once"); for (int j = 0; j < n; ++j) CHECKM(os::st.out[j] == all[j], "delivered bytes in order"); delete[] buf;
}
HARNESS(plain)
{
    os::begin(); int N = param("N", 4), k = sym_choice("size", N + 1); File f; rw(f); core::FileSink s(f); char d[16]; irsym_bytes(d, sz(k), "data"); sz m = 99; std::error_code ec; bool ok, thr = sym_choice("throwing", 2);
    if (thr) { try { s.write(core::StringSpan<char>(d, sz(k))); ok = true; m = sz(k); } catch (std::system_error& e) { ok = false; ec = e.code(); m = sz(os::st.out_n); } } else ok = s.try_write(core::StringSpan<char>(d, sz(k)), m, ec);
    CHECKM(ok == !os::st.failed && int(m) == os::st.out_n && ok == (int(m) == k) && (ok ? !ec : ec == eio()), "result"); for (int i = 0; i < os::st.out_n; ++i) CHECKM(os::st.out[i] == d[i], "bytes in order"); if (ok) COVER("ok"); else COVER("error");
}
HARNESS(source)
{
    os::begin(); int N = param("N", 3), B = param("B", 2); File f; rw(f); char* buf = new char[sz(B)]; os::st.in_size = sym_choice("size", N + 3); irsym_bytes(os::st.in, sz(os::st.in_size), "in");
    core::BufferedFileSource bs(f, core::Span<char>(buf, sz(B))); core::FileSource us(f); core::Source& s = sym_choice("buffered", 2) ? static_cast<core::Source&>(bs) : us; int pos = 0;
    for (int i = 0; i < 3; ++i) {
        int k = sym_choice("request", N + 1); char* d = new char[sz(k)]; sz m = 99; std::error_code ec; os::st.failed = false; bool ok = s.try_read_some(core::Span<char>(d, sz(k)), m, ec);
        if (ok) { CHECKM(m <= sz(k) && !ec && !os::st.failed, "result"); if (m == 0 && k > 0) { CHECKM(pos == os::st.in_size, "end only after everything"); COVER("eof"); } for (sz j = 0; j < m; ++j) CHECKM(d[j] == os::st.in[pos + int(j)], "bytes in order"); pos += int(m); if (m > 0) COVER("data"); }
        else { CHECKM(os::st.failed && ec == eio(), "failure reported"); COVER("error"); }
        CHECKM(os::st.in_pos >= pos, "position"); delete[] d;
    }
    delete[] buf;
}
namespace {
struct Pieces : core::Source { // delivers in pieces of any size, with at most one failure
    char in[16]; int size = 0, pos = 0, fails = 1; bool failed = false;
    bool do_try_read_some(core::Span<char> b, sz& n, std::error_code& ec) override { int left = size - pos, m = b.size() < sz(left) ? int(b.size()) : left; if (fails && sym_choice("fail", 2)) { --fails; failed = true; ec = eio(); return false; } if (b.size()) { char keep = b[b.size() - 1]; b[b.size() - 1] = keep; }
        int k = m > 1 ? 1 + sym_choice("piece", m < 4 ? m : 4) : m; if (m >= 4 && k == 4) k = m; for (int i = 0; i < k; ++i) b[sz(i)] = in[pos + i]; pos += k; n = sz(k); return true; }
};
}
HARNESS(rewind)
{
  {
    int N = param("N", 3), K = param("K", 0); Pieces p; p.size = sym_choice("size", N + 2); irsym_bytes(p.in, sz(p.size), "in"); core::Buffer<char> buf(sz(sym_choice("initial", 3))); core::RewindableSource s(p, buf); int pos = 0; bool rel = false;
    auto rd = [&] { int k = sym_choice("request", N + 1); char* d = new char[sz(k)]; sz m = 99; std::error_code ec; p.failed = false; int before = p.pos; bool ok = s.try_read_some(core::Span<char>(d, sz(k)), m, ec);
        if (ok) { CHECKM(m <= sz(k) && !ec && !p.failed, "result"); if (m == 0 && k > 0) CHECKM(pos == p.size, "end only after everything"); for (sz j = 0; j < m; ++j) CHECKM(d[j] == p.in[pos + int(j)], "the same bytes in order"); if (pos < before && m) COVER("again"); if (p.pos > before) COVER("rest"); pos += int(m); } else { CHECKM(p.failed && ec == eio(), "failure reported"); COVER("error"); }
        CHECKM(pos <= p.pos, "nothing lost"); if (rel) CHECKM(p.pos == pos || before == p.pos, "no read ahead once released"); delete[] d; };
    rd(); s.rewind(); pos = 0; rd(); if (K == 1) { s.rewind(); pos = 0; } if (K == 2) { s.release(); rel = true; } if (K == 3) { s.rewind(); pos = 0; s.release(); rel = true; } if (rel) COVER("released"); rd();
    if (!rel) COVER("released");
  }
  CHECKM(irsym_live_heap() == 0, "no leaked memory");
}
HARNESS(reads)
{
    int N = param("N", 3); Pieces p; p.size = sym_choice("size", N + 2); irsym_bytes(p.in, sz(p.size), "in"); int k = sym_choice("request", N + 1); char* d = new char[sz(k)]; sz m = 99; std::error_code ec; bool ok, thr = sym_choice("throwing", 2);
    if (thr) { try { m = p.read(core::Span<char>(d, sz(k))); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); m = sz(p.pos); } } else ok = p.try_read(core::Span<char>(d, sz(k)), m, ec);
    CHECKM(int(m) == p.pos && ok == !p.failed, "number of bytes"); if (ok) { CHECKM(int(m) == (k < p.size ? k : p.size) && !ec, "up to the request or the end"); if (int(m) == k) COVER("full"); else COVER("eof"); } else { CHECKM(ec == eio(), "failure reported"); COVER("error"); }
    for (sz i = 0; i < m; ++i) CHECKM(d[i] == p.in[i], "bytes in order"); delete[] d;
}
