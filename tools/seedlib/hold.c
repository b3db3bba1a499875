#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
/* DEMO_HOLD=FILE: before a file is locked create FILE.at, and wait for FILE.go */
static void hold(void) {
    const char *f = getenv("DEMO_HOLD");
    char p[4096];
    if (!f) return;
    snprintf(p, sizeof p, "%s.at", f);
    close(open(p, O_CREAT | O_WRONLY, 0644));
    snprintf(p, sizeof p, "%s.go", f);
    while (access(p, F_OK)) usleep(20000);
}
int flock(int fd, int op) { static int (*r)(int, int); if (!r) r = dlsym(RTLD_NEXT, "flock"); hold(); return r(fd, op); }
int lockf(int fd, int cmd, off_t n) { static int (*r)(int, int, off_t); if (!r) r = dlsym(RTLD_NEXT, "lockf"); hold(); return r(fd, cmd, n); }
int lockf64(int fd, int cmd, off64_t n) { static int (*r)(int, int, off64_t); if (!r) r = dlsym(RTLD_NEXT, "lockf64"); hold(); return r(fd, cmd, n); }
