// Stand-ins for the calls vis makes on its state files and the clock (include once).
#pragma once
#include "vismodel.hh"
#include <dlfcn.h>
#include <time.h>
#include <map>
namespace vm
{
Crash crash;
int calls = 0;
bool armed = false;
static bool state_path(const char *p)
{
    size_t n = p ? strlen(p) : 0;
    return n > 4 && (!strcmp(p + n - 4, ".vis") || !strcmp(p + n - 4, ".vi0"));
}
static bool state_fd(int fd)
{
    char l[64], b[512];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0)
        return false;
    b[n] = 0;
    return state_path(b);
}
static bool due() { return calls++ == crash.at; }
template<class F>
static F real(const char *n)
{
    return (F)dlsym(RTLD_NEXT, n);
}
} // namespace vm
extern "C" {
ssize_t write(int fd, const void *b, size_t n)
{
    static auto r = vm::real<ssize_t (*)(int, const void *, size_t)>("write");
    if (vm::armed && vm::state_fd(fd) && vm::due()) {
        size_t k = (size_t)(vm::crash.part * n);
        if (k)
            (void)!r(fd, b, k);
        _exit(77);
    }
    return r(fd, b, n);
}
#include <sys/uio.h>
ssize_t writev(int fd, const struct iovec *v, int c)
{
    static auto r = vm::real<ssize_t (*)(int, const struct iovec *, int)>("writev");
    static auto w = vm::real<ssize_t (*)(int, const void *, size_t)>("write");
    if (vm::armed && vm::state_fd(fd) && vm::due()) {
        for (int i = 0; i < c; ++i) {
            size_t k = (size_t)(vm::crash.part * v[i].iov_len);
            if (k)
                (void)!w(fd, v[i].iov_base, k);
            if (k < v[i].iov_len)
                break;
        }
        _exit(77);
    }
    return r(fd, v, c);
}
int rename(const char *a, const char *b) noexcept
{
    static auto r = vm::real<int (*)(const char *, const char *)>("rename");
    if (vm::armed && vm::state_path(b) && vm::due())
        _exit(77);
    return r(a, b);
}
int remove(const char *a) noexcept
{
    static auto r = vm::real<int (*)(const char *)>("remove");
    if (vm::armed && vm::state_path(a) && vm::due())
        _exit(77);
    return r(a);
}
int clock_gettime(clockid_t id, struct timespec *t) noexcept
{
    static auto r = vm::real<int (*)(clockid_t, struct timespec *)>("clock_gettime");
    static long skew;
    int x = r(id, t);
    if (vm::armed && vm::crash.jump)
        t->tv_sec += (skew += 400);
    return x;
}
}
