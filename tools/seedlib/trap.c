#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
/* DEMO_TRAP="ACTION OP SUFFIX": at the first OP (rename, write, unlink, symlink, utime) on a path with
   this suffix (rename, symlink: the new name) kill the process (kill), write half and kill (half), write
   half and fail with ENOSPC (full) or not (short), fail with EACCES (fail; each time: never) or EXDEV (each time: xdev); "after" kills after the operation. */
static int hit(const char *op, const char *path, char *act) {
    static int done;
    const char *s = getenv("DEMO_TRAP");
    char o[32], x[256];
    if (!s || done || !path || sscanf(s, "%31s %31s %255s", act, o, x) != 3 || strcmp(o, op)) return 0;
    size_t a = strlen(path), b = strlen(x);
    if (a < b || strcmp(path + a - b, x)) return 0;
    if (strcmp(act, "xdev") && strcmp(act, "never")) done = 1;
    return 1;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define COMMON(call) { if (!strcmp(a, "kill")) die(); if (!strcmp(a, "fail") || !strcmp(a, "never")) { errno = EACCES; return -1; } \
    if (!strcmp(a, "xdev")) { errno = EXDEV; return -1; } if (!strcmp(a, "after")) { call; die(); } }
int rename(const char *x, const char *y) {
    static int (*real)(const char *, const char *);
    char a[32];
    if (!real) real = dlsym(RTLD_NEXT, "rename");
    if (hit("rename", y, a)) COMMON(real(x, y))
    return real(x, y);
}
int unlink(const char *x) {
    static int (*real)(const char *);
    char a[32];
    if (!real) real = dlsym(RTLD_NEXT, "unlink");
    if (hit("unlink", x, a)) COMMON(real(x))
    return real(x);
}
int symlink(const char *x, const char *y) {
    static int (*real)(const char *, const char *);
    char a[32];
    if (!real) real = dlsym(RTLD_NEXT, "symlink");
    if (hit("symlink", y, a)) COMMON(real(x, y))
    return real(x, y);
}
ssize_t write(int fd, const void *p, size_t n) {
    static ssize_t (*real)(int, const void *, size_t);
    char a[32], l[64], t[4096];
    if (!real) real = dlsym(RTLD_NEXT, "write");
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = fd > 2 ? readlink(l, t, sizeof t - 1) : -1;
    if (k > 0) {
        t[k] = 0;
        if (hit("write", t, a)) {
            if (!strcmp(a, "half")) { real(fd, p, n / 2); die(); }
            if (!strcmp(a, "short")) return real(fd, p, n / 2);
            if (!strcmp(a, "full")) { real(fd, p, n / 2); errno = ENOSPC; return -1; }
            COMMON(real(fd, p, n))
        }
    }
    return real(fd, p, n);
}
