// A model of the operating system's file interface. Every call consults the (symbolic) environment: it may be
// interrupted, fail, or transfer any nonzero part of what is asked for. The functions below replace the
// system's own in the symbolic build and, while `os.on` is set, in the native build used for replay.
#pragma once
#include "sym.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <climits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <new>
namespace os {
enum { cap = 2048 };
struct State {
    bool on = false;
    int next_fd = 5, open_fd = -1, n_open = 0, n_close = 0, flags = -1, mode = 0; // one file open at a time
    int fds_open[4] = {-1, -1, -1, -1};
    bool dir = false, open_fails = false, stat_fails = false;
    int intr = 1, fail = 1, shorts = 2; // budgets: interruptions, failures, short transfers
    bool whole = true;              // a transfer of everything requested is the default
    int err = EIO;                  // error code of failures
    char in[cap]; int in_size = 0, in_pos = 0;
    char out[cap]; int out_n = 0;
    long long seek_off = 0, seek_res = 0; int seek_whence = -1; bool seek_fails = false;
    int locks[8]; int n_locks = 0, lock_fail = 0; // lock_fail: 0 none, else error code
    bool failed = false; int calls = 0;
};
inline State st;
inline void begin() { st.~State(); new (&st) State(); st.on = true; }
inline bool is_open(int fd) { for (int f : st.fds_open) if (f == fd) return fd >= 0; return false; }
// outcome of a transfer request of n > 0 bytes: -1 failure (errno set), else number of bytes
inline int outcome(int n, const char* what)
{
    ++st.calls; CHECKM(!st.failed, "no further transfer after a failure");
    int opts = 1 + (st.intr > 0) + (st.fail > 0);
    int c = opts > 1 ? sym_choice(what, opts) : 0;
    if (c == 1 && st.intr > 0) { --st.intr; errno = EINTR; return -1; }
    if (c >= 1) { --st.fail; st.failed = true; errno = st.err; return -1; }
    if (n > 1 && st.shorts > 0) { int k; if (n <= 8) k = 1 + sym_choice("transferred", n); else { int j = sym_choice("transferred", 3); k = j == 0 ? n : j == 1 ? 1 : n - 1; } if (k < n) --st.shorts; return k; }
    return n;
}
}
extern "C" {
#ifdef IRSYM_NATIVE
int irsym_va_open(const char* path, int flags, int mode);
int open(const char* path, int flags, ...) { va_list va; va_start(va, flags); int mode = flags & O_CREAT ? va_arg(va, int) : 0; va_end(va); return irsym_va_open(path, flags, mode); }
#endif
__attribute__((used, noinline)) int irsym_va_open(const char* path, int flags, int mode) // the engine calls this in place of open()
{
    if (!os::st.on) return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
    os::st.flags = flags; os::st.mode = mode;
    if (os::st.open_fails) { errno = os::st.err; return -1; }
    int fd = os::st.next_fd++; for (int& f : os::st.fds_open) if (f < 0) { f = fd; ++os::st.n_open; os::st.open_fd = fd; return fd; }
    irsym_fail("too many open files");
}
int close(int fd)
{
    if (!os::st.on) return int(syscall(SYS_close, fd));
    for (int& f : os::st.fds_open) if (f == fd && fd >= 0) { f = -1; ++os::st.n_close; return 0; }
    irsym_fail("close of a file that is not open");
}
ssize_t read(int fd, void* p, size_t n)
{
    if (!os::st.on) return syscall(SYS_read, fd, p, n);
    CHECKM(os::is_open(fd), "read from an open file"); CHECKM(n <= size_t(SSIZE_MAX), "size of read request");
    if (n == 0) return 0; char* q = static_cast<char*>(p); char keep = q[n - 1]; q[n - 1] = keep; // the whole range is writable
    int left = os::st.in_size - os::st.in_pos;
    if (left == 0) { int k = os::outcome(1, "read at end"); return k < 0 ? -1 : 0; }
    int m = n < size_t(left) ? int(n) : left; int k = os::outcome(m, "read"); if (k < 0) return -1;
    std::memcpy(p, os::st.in + os::st.in_pos, size_t(k)); os::st.in_pos += k; return k;
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (!os::st.on) return syscall(SYS_write, fd, p, n);
    CHECKM(os::is_open(fd), "write to an open file"); CHECKM(n <= size_t(SSIZE_MAX), "size of write request");
    if (n == 0) return 0; CHECKM(n <= size_t(os::cap - os::st.out_n), "more written than given"); int k = os::outcome(int(n), "write"); if (k < 0) return -1;
    std::memcpy(os::st.out + os::st.out_n, p, size_t(k)); os::st.out_n += k; return k;
}
off_t lseek(int fd, off_t off, int whence) noexcept
{
    if (!os::st.on) return syscall(SYS_lseek, fd, off, whence);
    CHECKM(os::is_open(fd), "seek in an open file"); os::st.seek_off = off; os::st.seek_whence = whence;
    if (os::st.seek_fails) { errno = os::st.err; return -1; }
    return os::st.seek_res;
}
int fstat(int fd, struct stat* s) noexcept
{
    if (!os::st.on) return int(syscall(SYS_fstat, fd, s));
    CHECKM(os::is_open(fd), "stat of an open file"); if (os::st.stat_fails) { errno = os::st.err; return -1; }
    std::memset(s, 0, sizeof *s); s->st_mode = os::st.dir ? S_IFDIR : S_IFREG; return 0;
}
int flock(int fd, int op) noexcept
{
    if (!os::st.on) return int(syscall(SYS_flock, fd, op));
    CHECKM(os::is_open(fd), "lock of an open file"); if (os::st.n_locks < 8) os::st.locks[os::st.n_locks++] = op;
    if (os::st.intr > 0 && sym_choice("lock interrupted", 2)) { --os::st.intr; errno = EINTR; return -1; }
    if (os::st.lock_fail && !(op & LOCK_UN)) { errno = os::st.lock_fail; return -1; }
    return 0;
}
}
