#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
/* sleeping takes no time; the seconds are appended to the file DEMO_SLEPT */
static int note(const struct timespec *a) {
    const char *s = getenv("DEMO_SLEPT");
    FILE *f = s && a->tv_sec ? fopen(s, "a") : 0;
    if (f) { fprintf(f, "%lld\n", (long long)a->tv_sec); fclose(f); }
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) { return note(a); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return f ? 0 : note(a); }
