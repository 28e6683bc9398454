// Stand-in for the operating system's random source: every request the library
// makes goes through here. A request can be made to fail in several ways, and
// the bytes can be prescribed. Include in exactly one source file.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <sys/random.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace osr
{
    enum Mode { OK, OPEN_FAILS, READ_ERROR, READ_EINTR, READ_ZERO, READ_SHORT1, READ_HALF, READ_ONE, NMODES };
    inline const char *name(int m)
    {
        static const char *n[] = {"ok", "open fails", "read error", "read interrupted", "read returns nothing", "read one byte short", "read half", "read one byte"};
        return n[m];
    }
    struct State {
        bool on = false;              // count and control requests
        std::vector<std::pair<int, int>> plan; // (request index, mode)
        bool all = false;             // every request fails by allMode
        int allMode = OK;
        int requests = 0;
        uint64_t bytes = 0;
        int fd = -1;
        int mode = OK;
        bool prescribed = false;      // bytes from a counter-mode stream
        uint64_t seed = 0, ctr = 0;
        int failed = 0;
        int64_t flip = -1;            // this bit of the prescribed stream is inverted
    };
    inline State &st()
    {
        static State s;
        return s;
    }
    inline void reset() { st() = State(); }
    inline int modeOf(int idx)
    {
        if (st().all)
            return st().allMode;
        for (auto &p : st().plan)
            if (p.first == idx)
                return p.second;
        return OK;
    }
    inline void fill(void *buf, size_t n)
    {
        auto *b = (uint8_t *)buf;
        if (st().prescribed) {
            for (size_t i = 0; i < n; i++) {
                uint64_t x = (st().seed + 1) * 0x9E3779B97F4A7C15ull + st().ctr++ * 0xBF58476D1CE4E5B9ull;
                x ^= x >> 31;
                x *= 0x94D049BB133111EBull;
                x ^= x >> 29;
                b[i] = (uint8_t)(x >> 24);
                if (st().flip >= 0 && st().ctr - 1 == (uint64_t)st().flip / 8)
                    b[i] ^= (uint8_t)(1 << (st().flip % 8));
            }
        } else {
            size_t got = 0;
            while (got < n) {
                long r = syscall(SYS_getrandom, b + got, n - got, 0x1000000 /* marker, see syscall */);
                if (r > 0)
                    got += r;
            }
        }
    }
    inline bool isRandom(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
    inline ssize_t serve(void *buf, size_t n, int mode)
    {
        st().bytes += n;
        if (mode != OK)
            st().failed++;
        switch (mode) {
            case READ_ERROR: errno = EIO; return -1;
            case READ_EINTR: errno = EINTR; return -1;
            case READ_ZERO: return 0;
            case READ_SHORT1: fill(buf, n ? n - 1 : 0); return (ssize_t)n - 1;
            case READ_HALF: fill(buf, n / 2); return (ssize_t)(n / 2);
            case READ_ONE: fill(buf, 1); return 1;
            case OPEN_FAILS: errno = EMFILE; return -1;
        }
        fill(buf, n);
        return (ssize_t)n;
    }
} // namespace osr

static long rawsys(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}
static int openHook(int dirfd, const char *path, int flags, int mode)
{
    auto &s = osr::st();
    if (s.on && osr::isRandom(path)) {
        int m = osr::modeOf(s.requests++);
        if (m == osr::OPEN_FAILS) {
            s.failed++;
            errno = EMFILE;
            return -1;
        }
        int fd = (int)rawsys(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
        s.fd = fd;
        s.mode = m;
        return fd;
    }
    return (int)rawsys(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
}
extern "C" {
int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return openHook(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return openHook(AT_FDCWD, path, flags, mode);
}
int openat(int dirfd, const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return openHook(dirfd, path, flags, mode);
}
ssize_t read(int fd, void *buf, size_t n)
{
    auto &s = osr::st();
    if (s.on && fd >= 0 && fd == s.fd)
        return osr::serve(buf, n, s.mode);
    return rawsys(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
}
int close(int fd)
{
    auto &s = osr::st();
    if (s.on && fd >= 0 && fd == s.fd)
        s.fd = -1;
    return (int)rawsys(SYS_close, fd, 0, 0, 0, 0, 0);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    auto &s = osr::st();
    if (s.on)
        return osr::serve(buf, n, osr::modeOf(s.requests++));
    return rawsys(SYS_getrandom, (long)buf, (long)n, flags, 0, 0, 0);
}
int getentropy(void *buf, size_t n)
{
    auto &s = osr::st();
    if (s.on)
        return osr::serve(buf, n, osr::modeOf(s.requests++)) == (ssize_t)n ? 0 : -1;
    return rawsys(SYS_getrandom, (long)buf, (long)n, 0, 0, 0, 0) == (long)n ? 0 : -1;
}
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) {
        if ((c & 0xffffffff) == 0x1000000)
            return rawsys(n, a, b, 0, 0, 0, 0);
        return getrandom((void *)a, (size_t)b, (unsigned)c);
    }
    return rawsys(n, a, b, c, d, e, f);
}
}
