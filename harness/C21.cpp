//@ link archon/core/file.cpp
//@ rt ios.cpp
//@ rt fs.cpp
//@ entry read N=3|5 covers=full,eof,error,short
//@ entry write N=3|5 covers=done,error,short
//@ entry some N=4|6 K=0..5 covers=ok,error
//@ entry load covers=ok,error,grow
//@ entry save N=3|4 covers=ok,error
//@ entry opening covers=ok,error,dir
//@ entry handles K=0..5
//@ entry seeking covers=ok,error
//@ entry locking covers=got,busy,error
//@ bound read: requests of 0 to N bytes (3 quick, 5 thorough) on inputs of 0 to N + 1 bytes, every byte value, every schedule with up to 2 short transfers, 1 interruption and 1 failure, every error code
//@ bound write: 0 to N bytes, every byte value, every schedule with up to 2 short transfers, 1 interruption and 1 failure
//@ bound some: single transfers of 0 to N bytes, try_ and throwing functions, every outcome
//@ bound load: files of 0, 1, 255, 511, 512, 513, 767, 768 and 1200 symbolic bytes, schedules with 1 short transfer (to 1 or all but one byte), 1 interruption and 1 failure
//@ bound save: 0 to N bytes, every schedule with up to 2 short transfers, 1 interruption and 1 failure, failure to open, directories
//@ bound opening: every documented combination of modes, every outcome of open() and fstat()
//@ bound handles: every documented way to close, move and reopen a file
//@ bound seeking: every 64-bit offset, direction and outcome
//@ bound locking: blocking, non-blocking, shared, exclusive, with interruption, contention and failure
//@ assume the operating system is modelled by harness/os.hpp: a transfer of n > 0 bytes is interrupted, fails, or moves 1 to n bytes (0 only at end of input)
#include "os.hpp"
#include <archon/core/file.hpp>
using namespace archon;
using core::File;
typedef std::size_t sz;
static void rw(File& f) { std::error_code ec; bool ok = f.try_open(std::filesystem::path("x"), File::Mode::update, ec); CHECKM(ok && !ec && f.is_open(), "open"); }

HARNESS(read)
{
    os::begin(); int N = param("N", 3); int n = sym_choice("request", N + 1); os::st.in_size = sym_choice("available", N + 2); irsym_bytes(os::st.in, sz(os::st.in_size), "in"); os::st.err = int(sym<unsigned char>("err")) + 1000;
    File f; rw(f); char* buf = new char[sz(n)]; sz m = 99; std::error_code ec; bool thr = sym_choice("throwing", 2), ok;
    if (!thr) ok = f.try_read(core::Span<char>(buf, sz(n)), m, ec); else { try { m = f.read(core::Span<char>(buf, sz(n))); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); } }
    int e = n < os::st.in_size ? n : os::st.in_size;
    if (ok) { CHECKM(!os::st.failed && int(m) == e && !ec, "everything read, up to the request or the end"); if (e == n) COVER("full"); else COVER("eof"); }
    else { COVER("error"); CHECKM(os::st.failed && ec == std::error_code(os::st.err, std::system_category()), "reported error"); if (!thr) CHECKM(int(m) == os::st.in_pos && int(m) < n, "number of bytes read before the failure"); }
    CHECKM(os::st.in_pos <= n, "no byte lost"); for (int i = 0; i < os::st.in_pos; ++i) CHECKM(buf[i] == os::st.in[i], "bytes in order"); if (os::st.shorts < 2) COVER("short");
    delete[] buf; f.close(); CHECKM(os::st.n_close == 1, "closed");
}
HARNESS(write)
{
    os::begin(); int N = param("N", 3); int n = sym_choice("n", N + 1); char* buf = new char[sz(n)]; irsym_bytes(buf, sz(n), "data"); os::st.err = int(sym<unsigned char>("err")) + 1000;
    File f; rw(f); sz m = 99; std::error_code ec; bool thr = sym_choice("throwing", 2), ok;
    if (!thr) ok = f.try_write(core::StringSpan<char>(buf, sz(n)), m, ec); else { try { f.write(core::StringSpan<char>(buf, sz(n))); ok = true; m = sz(n); } catch (std::system_error& e) { ok = false; ec = e.code(); } }
    if (ok) { COVER("done"); CHECKM(!os::st.failed && int(m) == n && os::st.out_n == n && !ec, "everything written"); }
    else { COVER("error"); CHECKM(os::st.failed && ec == std::error_code(os::st.err, std::system_category()), "reported error"); if (!thr) CHECKM(int(m) == os::st.out_n && int(m) < n, "number of bytes written before the failure"); }
    for (int i = 0; i < os::st.out_n; ++i) CHECKM(buf[i] == os::st.out[i], "bytes in order"); if (os::st.shorts < 2) COVER("short");
    delete[] buf;
}
HARNESS(some)
{
    os::begin(); int N = param("N", 4), n = sym_choice("n", N + 1), K = param("K", 0); char* buf = new char[sz(n)]; irsym_bytes(buf, sz(n), "data"); bool rd = K < 3;
    os::st.in_size = sym_choice("available", N + 1); irsym_bytes(os::st.in, sz(os::st.in_size), "in"); os::st.err = int(sym<unsigned char>("err")) + 1000;
    File f; rw(f); sz m = 99; std::error_code ec; bool ok = false, intr = false; core::Span<char> s(buf, sz(n)); core::StringSpan<char> d(buf, sz(n));
    switch (K) {
        case 0: ok = f.try_read_some_a(s, m, intr, ec); break;
        case 1: ok = f.try_read_some(s, m, ec); break;
        case 2: try { m = f.read_some(s); ok = true; } catch (std::system_error& e) { ec = e.code(); } break;
        case 3: ok = f.try_write_some_a(d, m, intr, ec); break;
        case 4: ok = f.try_write_some(d, m, ec); break;
        default: try { m = f.write_some(d); ok = true; } catch (std::system_error& e) { ec = e.code(); } break;
    }
    int moved = rd ? os::st.in_pos : os::st.out_n;
    if (ok) { COVER("ok"); CHECKM(int(m) == moved && !ec && !os::st.failed, "number of bytes"); if (m == 0) CHECKM(n == 0 || (rd && os::st.in_size == 0), "something is transferred unless at the end"); if (K % 3 == 0) CHECKM(os::st.calls <= 1, "one transfer"); }
    else { CHECKM(m == 99 && moved == 0, "nothing transferred on failure"); if (intr) CHECKM(K % 3 == 0 && os::st.intr == 0 && !ec, "interruption reported"); else { COVER("error"); CHECKM(os::st.failed && ec == std::error_code(os::st.err, std::system_category()), "reported error"); } }
    for (int i = 0; i < moved; ++i) CHECKM(buf[i] == (rd ? os::st.in[i] : os::st.out[i]), "bytes in order");
    delete[] buf;
}
HARNESS(load)
{
  {
    os::begin(); static const int sizes[9] = { 0, 1, 255, 511, 512, 513, 767, 768, 1200 }; os::st.in_size = sizes[sym_choice("size", 9)]; irsym_bytes(os::st.in, sz(os::st.in_size), "in"); os::st.shorts = 1;
    os::st.open_fails = sym_choice("open fails", 2);
    std::string s = "old"; std::error_code ec; bool thr = sym_choice("throwing", 2), ok;
    if (!thr) ok = File::try_load(std::filesystem::path("x"), s, ec); else { os::st.fail = 0; if (os::st.open_fails) return; s = File::load(std::filesystem::path("x")); ok = true; }
    if (ok) { CHECKM(int(s.size()) == os::st.in_size && !ec, "whole file"); for (int i = 0; i < os::st.in_size; ++i) CHECKM(s[sz(i)] == os::st.in[i], "bytes in order"); COVER("ok"); if (s.size() > 512) COVER("grow"); }
    else { COVER("error"); CHECKM((os::st.failed || os::st.open_fails) && ec == std::error_code(os::st.err, std::system_category()), "reported error"); }
    CHECKM(os::st.open_fails || (os::st.flags & O_ACCMODE) == O_RDONLY, "opened for reading"); CHECKM(os::st.n_open == os::st.n_close, "closed");
  }
  CHECKM(irsym_live_heap() == 0, "no leaked memory");
}
HARNESS(save)
{
    os::begin(); int N = param("N", 3), n = sym_choice("n", N + 1); char* buf = new char[sz(n)]; irsym_bytes(buf, sz(n), "data"); int o = sym_choice("open", 4); os::st.open_fails = o == 1; os::st.stat_fails = o == 2; os::st.dir = o == 3;
    std::error_code ec; bool ok = File::try_save(std::filesystem::path("x"), core::StringSpan<char>(buf, sz(n)), ec);
    if (ok) { COVER("ok"); CHECKM(o == 0 && !os::st.failed && os::st.out_n == n && !ec, "everything written"); CHECKM((os::st.flags & (O_CREAT | O_TRUNC | O_EXCL | O_APPEND)) == (O_CREAT | O_TRUNC) && (os::st.flags & O_ACCMODE) != O_RDONLY, "contents replaced"); }
    else { COVER("error"); CHECKM(o != 0 || os::st.failed, "error only on failure"); CHECKM(ec == (o == 3 ? std::make_error_code(std::errc::is_a_directory) : std::error_code(os::st.err, std::system_category())), "reported error"); }
    for (int i = 0; i < os::st.out_n; ++i) CHECKM(buf[i] == os::st.out[i], "bytes in order"); CHECKM(os::st.n_open == os::st.n_close, "closed"); delete[] buf;
}
HARNESS(opening)
{
    os::begin(); int o = sym_choice("outcome", 4); os::st.open_fails = o == 1; os::st.stat_fails = o == 2; os::st.dir = o == 3; os::st.err = int(sym<unsigned char>("err")) + 1000; int form = sym_choice("form", 2), fl; std::error_code ec; bool ok;
    {
        File f;
        if (form == 0) { int m = sym_choice("mode", 4); static const File::Mode modes[4] = { File::Mode::read, File::Mode::update, File::Mode::write, File::Mode::append }; static const int fls[4] = { O_RDONLY, O_RDWR, O_RDWR | O_CREAT | O_TRUNC, O_RDWR | O_CREAT | O_APPEND }; fl = fls[m]; ok = f.try_open(std::filesystem::path("p/q"), modes[m], ec); }
        else { int c = sym_choice("create", 3), w = sym_choice("write", 3), a = sym_choice("access", 2); if ((a == 0 && (c || w)) || (c == 2 && w == 1)) return;
            static const File::CreateMode cs[3] = { File::CreateMode::never, File::CreateMode::allow, File::CreateMode::must }; static const File::WriteMode ws[3] = { File::WriteMode::normal, File::WriteMode::trunc, File::WriteMode::append };
            fl = (a ? O_RDWR : O_RDONLY) | (c == 0 ? 0 : c == 1 ? O_CREAT : O_CREAT | O_EXCL) | (w == 0 ? 0 : w == 1 ? O_TRUNC : O_APPEND); ok = f.try_open(std::filesystem::path("p/q"), a ? File::AccessMode::read_write : File::AccessMode::read_only, cs[c], ws[w], ec); }
        const int mask = O_ACCMODE | O_CREAT | O_EXCL | O_TRUNC | O_APPEND; CHECKM((os::st.flags & mask) == fl, "open flags"); if (fl & O_CREAT) CHECKM((os::st.mode & 0600) == 0600 && (os::st.mode & 022) == 0, "permissions of created file");
        CHECKM(ok == (o == 0), "result"); if (ok) { COVER("ok"); CHECKM(f.is_open() && bool(f) && !ec, "open"); } else { if (o == 3) COVER("dir"); else COVER("error"); CHECKM(ec == (o == 3 ? std::make_error_code(std::errc::is_a_directory) : std::error_code(os::st.err, std::system_category())), "reported error"); }
    }
    CHECKM(os::st.n_open == os::st.n_close, "closed exactly once");
}
HARNESS(handles)
{
    os::begin();
    {
        File a, b; CHECKM(!a.is_open() && !a, "empty"); rw(a); int fa = os::st.open_fd; bool two = sym_choice("two", 2); if (two) rw(b); int fb = two ? os::st.open_fd : -1;
        switch (param("K", 0)) {
            case 0: a.close(); CHECKM(!a.is_open() && !os::is_open(fa), "closed"); a.close(); CHECKM(os::st.n_close == 1, "idempotent"); break;
            case 1: b = std::move(a); CHECKM(!a.is_open() && b.is_open() && os::is_open(fa) && (!two || !os::is_open(fb)), "move assignment"); break;
            case 2: { File c(std::move(a)); CHECKM(!a.is_open() && c.is_open() && os::is_open(fa), "move construction"); c.seek(0); } CHECKM(!os::is_open(fa), "closed by destruction"); break;
            case 3: rw(a); CHECKM(!os::is_open(fa) && a.is_open(), "reopened"); break;
            case 4: { os::st.open_fails = true; std::error_code ec; bool ok = b.try_open(std::filesystem::path("y"), File::Mode::read, ec); CHECKM(!ok && b.is_open() == two && (!two || os::is_open(fb)), "failed open leaves the file as it was"); os::st.open_fails = false; break; }
            default: { File& c = File::get_cout(); CHECKM(c.is_open() && File::get_cin().is_open() && File::get_cerr().is_open(), "standard streams"); break; }
        }
        if (two && param("K", 0) != 1) CHECKM(os::is_open(fb), "other file unaffected");
    }
    CHECKM(os::st.n_open == os::st.n_close, "closed exactly once");
}
HARNESS(seeking)
{
    os::begin(); File f; rw(f); long long off = sym<long long>("off"); os::st.seek_res = sym_nonneg<long long>("res"); os::st.seek_fails = sym_choice("fails", 2); int w = sym_choice("whence", 4); std::error_code ec;
    static const File::Whence ws[3] = { File::Whence::set, File::Whence::cur, File::Whence::end }; static const int wx[3] = { SEEK_SET, SEEK_CUR, SEEK_END }; File::offset_type r = -7; bool ok;
    if (w == 3) { try { r = f.tell(); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); } CHECKM(os::st.seek_off == 0 && os::st.seek_whence == SEEK_CUR, "position query"); }
    else { ok = f.try_seek(off, ws[w], r, ec); CHECKM(os::st.seek_off == off && os::st.seek_whence == wx[w], "seek request"); }
    CHECKM(ok == !os::st.seek_fails, "result"); if (ok) { COVER("ok"); CHECKM(r == os::st.seek_res && !ec, "position"); } else { COVER("error"); CHECKM(ec == std::error_code(os::st.err, std::system_category()), "reported error"); }
}
HARNESS(locking)
{
    os::begin(); File f; rw(f); int k = sym_choice("kind", 4), o = sym_choice("outcome", 3); os::st.lock_fail = o == 1 ? EWOULDBLOCK : o == 2 ? ENOLCK : 0; bool nb = k & 1, ex = k & 2; if (o == 1 && !nb) return; bool got = false, err = false;
    try { if (k == 0) { f.lock_shared(); got = true; } else if (k == 1) got = f.nb_lock_shared(); else if (k == 2) { f.lock_exclusive(); got = true; } else got = f.nb_lock_exclusive(); } catch (std::system_error& e) { err = true; CHECKM(e.code() == std::error_code(ENOLCK, std::system_category()), "error code"); }
    CHECKM(got == (o == 0) && err == (o == 2), "result"); CHECKM(os::st.locks[os::st.n_locks - 1] == ((ex ? LOCK_EX : LOCK_SH) | (nb ? LOCK_NB : 0)), "lock request"); if (got) COVER("got"); else if (err) COVER("error"); else COVER("busy");
    if (got) { f.unlock(); CHECKM(os::st.locks[os::st.n_locks - 1] == LOCK_UN, "unlocked"); }
}
