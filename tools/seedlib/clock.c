#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <dlfcn.h>
/* real-time clock: fixed at DEMO_NOW; sleeping only moves the clock (kept in this process) */
static long long slept;
static long long now(void) { const char *s = getenv("DEMO_NOW"); return (s ? atoll(s) : 0) + slept; }
int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { t->tv_sec = now(); t->tv_nsec = 0; return 0; }
    return real(c, t);
}
int gettimeofday(struct timeval *t, void *z) { if (t) { t->tv_sec = now(); t->tv_usec = 0; } return 0; }
time_t time(time_t *t) { if (t) *t = now(); return now(); }
int nanosleep(const struct timespec *a, struct timespec *b) { slept += a->tv_sec; return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (!f) slept += a->tv_sec; return 0; }
