// Preloaded into a program under test: its clock runs WARP times as fast.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <time.h>
static long warp(void) {
    static long w;
    if (!w) {
        const char *s = getenv("WARP");
        w = s ? atol(s) : 1;
        if (w < 1) w = 1;
    }
    return w;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    static long long base;
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (r == 0 && c == CLOCK_MONOTONIC) {
        long long n = t->tv_sec * 1000000000LL + t->tv_nsec, b = __atomic_load_n(&base, __ATOMIC_SEQ_CST);
        if (!b) {
            long long z = 0;
            __atomic_compare_exchange_n(&base, &z, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
            b = __atomic_load_n(&base, __ATOMIC_SEQ_CST);
        }
        n = b + (n - b) * warp();
        t->tv_sec = n / 1000000000LL;
        t->tv_nsec = n % 1000000000LL;
    }
    return r;
}
int epoll_wait(int e, struct epoll_event *ev, int n, int ms) {
    static int (*real)(int, struct epoll_event *, int, int);
    if (!real) real = dlsym(RTLD_NEXT, "epoll_wait");
    if (ms > 0) ms = (ms + warp() - 1) / warp();
    return real(e, ev, n, ms);
}
