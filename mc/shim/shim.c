// LD_PRELOAD shim: turns every file system mutation (optionally reads, locks, sleeps, connects and
// process starts) of krill-sync into a synchronous question to the explorer, which answers
// "go on", "fail with errno", "do only n bytes", or kills the process. It also owns the wall clock and
// the random numbers, and refuses every mutation outside the scratch root.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <spawn.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

enum { OP_OPENW = 1, OP_OPENR, OP_WRITE, OP_RENAME, OP_UNLINK, OP_RMDIR, OP_MKDIR, OP_SYMLINK, OP_LINK,
       OP_UTIMES, OP_TRUNC, OP_COPY, OP_FSYNC, OP_FLOCK, OP_SLEEP, OP_CONNECT, OP_CHMOD, OP_ESCAPE, OP_READ,
       OP_SPAWN, OP_RESOLVE, OP_CLOSE };
enum { FL_READS = 1, FL_RDDATA = 2, FL_LOCKS = 4, FL_CLOSES = 8 };
enum { ACT_GO = 0, ACT_FAIL = 1, ACT_SHORT = 2 };

struct req { uint32_t magic, op; int64_t a, b; uint32_t l1, l2; };
struct rep { int32_t action, err; int64_t n; };

static int g_fd = -1;
static pid_t g_pid;
static char g_root[PATH_MAX];
static size_t g_rootlen;
static unsigned g_flags;
static volatile int64_t *g_clock;
static int g_port; // all connections to the loopback interface go to this port
static pthread_mutex_t g_mx = PTHREAD_MUTEX_INITIALIZER;
static __thread int g_in;

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = (__typeof__(&name))realsym(#name)
static void *realsym(const char *n) {
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "shim: no symbol %s\n", n); _exit(98); }
    return p;
}

static int active(void) { return g_fd >= 0 && !g_in && getpid() == g_pid; }

static void die(void) { syscall(SYS_exit_group, 97); }

static ssize_t raw_write(int fd, const void *b, size_t n) {
    long r; __asm__ volatile("syscall" : "=a"(r) : "0"(SYS_write), "D"(fd), "S"(b), "d"(n) : "rcx", "r11", "memory"); return r;
}
static ssize_t raw_read(int fd, void *b, size_t n) {
    long r; __asm__ volatile("syscall" : "=a"(r) : "0"(SYS_read), "D"(fd), "S"(b), "d"(n) : "rcx", "r11", "memory"); return r;
}

// A file that is written in many small pieces: after some of them only the 32nd, 64th, ... is a step. The explorer
// looks at the file again when the next step comes, which is why nothing else may happen in between.
enum { PIECES = 16 };
static char g_wpath[PATH_MAX];
static long g_wn;
static int same_file(const char *p) {
    pthread_mutex_lock(&g_mx);
    int skip = 0;
    if (!strcmp(p, g_wpath)) { g_wn++; skip = g_wn > PIECES && (g_wn & (g_wn - 1)); }
    else { strncpy(g_wpath, p, sizeof g_wpath - 1); g_wn = 1; }
    pthread_mutex_unlock(&g_mx);
    return skip;
}
static struct rep ask(int op, int64_t a, int64_t b, const char *p1, const char *p2) {
    char buf[sizeof(struct req) + 2 * PATH_MAX];
    struct req *q = (struct req *)buf;
    struct rep r;
    q->magic = 0x4d435348; q->op = op; q->a = a; q->b = b;
    q->l1 = p1 ? strlen(p1) : 0; q->l2 = p2 ? strlen(p2) : 0;
    if (q->l1 > PATH_MAX - 1) q->l1 = PATH_MAX - 1;
    if (q->l2 > PATH_MAX - 1) q->l2 = PATH_MAX - 1;
    memcpy(buf + sizeof *q, p1 ? p1 : "", q->l1);
    memcpy(buf + sizeof *q + q->l1, p2 ? p2 : "", q->l2);
    size_t n = sizeof *q + q->l1 + q->l2;
    pthread_mutex_lock(&g_mx);
    ssize_t w;
    do { w = raw_write(g_fd, buf, n); } while (w == -EINTR);
    if (w != (ssize_t)n) die();
    size_t got = 0;
    while (got < sizeof r) {
        ssize_t k = raw_read(g_fd, (char *)&r + got, sizeof r - got);
        if (k == -EINTR) continue;
        if (k <= 0) die();
        got += k;
    }
    if (op != OP_WRITE || r.action != ACT_GO) g_wpath[0] = 0;
    pthread_mutex_unlock(&g_mx);
    return r;
}

// ---- path resolution --------------------------------------------------------------------------
static int fdpath(int fd, char *out) {
    char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, p, out, PATH_MAX - 1);
    if (n < 0) { out[0] = 0; return -1; }
    out[n] = 0;
    return 0;
}
static void lexnorm(char *p) { // remove ., .., // lexically
    char *comps[512], *sv = NULL; int n = 0; char tmp[PATH_MAX * 2]; strncpy(tmp, p, sizeof tmp - 1); tmp[sizeof tmp - 1] = 0;
    for (char *s = strtok_r(tmp, "/", &sv); s; s = strtok_r(NULL, "/", &sv)) {
        if (!strcmp(s, ".")) continue;
        if (!strcmp(s, "..")) { if (n) n--; continue; }
        if (n < 511) comps[n++] = s;
    }
    char out[PATH_MAX * 2]; size_t o = 0; out[0] = 0;
    for (int i = 0; i < n; i++) { int k = snprintf(out + o, sizeof out - o, "/%s", comps[i]); o += k; if (o >= PATH_MAX) break; }
    if (!n) strcpy(out, "/");
    out[PATH_MAX - 1] = 0;
    strcpy(p, out);
}
// resolve path to an absolute one; follow: follow a final symlink
static void resolve(int dirfd, const char *path, int follow, char *out) {
    char abs[PATH_MAX * 2];
    if (!path) path = "";
    if (path[0] == '/') snprintf(abs, sizeof abs, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) strcpy(base, "/"); }
        else if (fdpath(dirfd, base)) strcpy(base, "/?badfd");
        if (path[0]) snprintf(abs, sizeof abs, "%s/%s", base, path); else snprintf(abs, sizeof abs, "%s", base);
    }
    abs[PATH_MAX - 1] = 0;
    size_t n = strlen(abs);
    while (n > 1 && abs[n - 1] == '/') abs[--n] = 0;
    g_in++;
    char *last = strrchr(abs, '/');
    const char *name = last ? last + 1 : abs;
    if (follow || !strcmp(name, ".") || !strcmp(name, "..")) {
        char r[PATH_MAX];
        if (realpath(abs, r)) { strcpy(out, r); g_in--; return; }
    }
    // parent resolved, name kept
    char parent[PATH_MAX * 2]; strcpy(parent, abs);
    char rest[PATH_MAX * 2] = "";
    for (;;) {
        char *sl = strrchr(parent, '/');
        if (!sl) break;
        char t[PATH_MAX * 2]; snprintf(t, sizeof t, "%s%.*s", sl, PATH_MAX, rest);
        strncpy(rest, t, sizeof rest - 1);
        *sl = 0;
        char r[PATH_MAX];
        if (realpath(parent[0] ? parent : "/", r)) {
            char t2[PATH_MAX * 2]; snprintf(t2, sizeof t2, "%s%.*s", strcmp(r, "/") ? r : "", PATH_MAX, rest);
            t2[PATH_MAX - 1] = 0;
            lexnorm(t2);
            strcpy(out, t2); g_in--; return;
        }
        if (!parent[0]) break;
    }
    lexnorm(abs); strcpy(out, abs);
    g_in--;
}
static int inside(const char *p) { return !strncmp(p, g_root, g_rootlen) && (p[g_rootlen] == '/' || !p[g_rootlen]); }

// asks; returns 0 to go on, otherwise errno. *n gets the short count or -1
static int gate(int op, int64_t a, int64_t b, const char *p1, const char *p2, int64_t *n) {
    int saved = errno;
    if (n) *n = -1;
    struct rep r = ask(op, a, b, p1, p2);
    errno = saved;
    if (r.action == ACT_FAIL) return r.err ? r.err : EIO;
    if (r.action == ACT_SHORT && n) *n = r.n;
    return 0;
}
static int gate_path(int op, int64_t a, int64_t b, const char *p1, const char *p2) {
    if (!inside(p1)) { ask(OP_ESCAPE, op, b, p1, p2); return EACCES; }
    return gate(op, a, b, p1, p2, NULL);
}

__attribute__((constructor)) static void init(void) {
    const char *fd = getenv("MC_FD"), *root = getenv("MC_ROOT"), *clk = getenv("MC_CLOCK"), *fl = getenv("MC_FLAGS"), *pt = getenv("MC_PORT");
    if (pt) { g_port = atoi(pt); unsetenv("MC_PORT"); }
    if (!fd || !root) return;
    strncpy(g_root, root, sizeof g_root - 1);
    g_rootlen = strlen(g_root);
    g_flags = fl ? atoi(fl) : 0;
    if (clk) {
        int c = syscall(SYS_openat, AT_FDCWD, clk, O_RDWR | O_CLOEXEC, 0);
        if (c >= 0) {
            void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, c, 0);
            if (m != MAP_FAILED) g_clock = m;
            syscall(SYS_close, c);
        }
    }
    g_pid = getpid();
    int f = atoi(fd);
    unsetenv("MC_FD"); unsetenv("MC_ROOT"); unsetenv("MC_CLOCK"); unsetenv("MC_FLAGS"); unsetenv("LD_PRELOAD");
    fcntl(f, F_SETFD, FD_CLOEXEC);
    g_fd = f;
}

// ---- open --------------------------------------------------------------------------------------
static int open_gate(int dirfd, const char *path, int flags) {
    char r[PATH_MAX * 2];
    if (flags & O_PATH) return 0;
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!wr && !(g_flags & FL_READS)) return 0;
    if (!wr && (flags & O_DIRECTORY)) return 0;
    resolve(dirfd, path, !(flags & O_NOFOLLOW), r);
    if (!strncmp(r, "/dev/", 5) && strncmp(r, "/dev/shm", 8)) return 0;
    if (!strncmp(r, "/proc/", 6) || !strncmp(r, "/sys/", 5)) return wr ? (ask(OP_ESCAPE, OP_OPENW, 0, r, NULL), EACCES) : 0;
    if (wr) return gate_path(OP_OPENW, flags, 0, r, NULL);
    return gate(OP_OPENR, flags, 0, r, NULL, NULL);
}
#define OPEN_BODY(dirfd, callreal) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (active()) { int e = open_gate(dirfd, path, flags); if (e) { errno = e; return -1; } } \
    return callreal;
int open(const char *path, int flags, ...) { REAL(open); OPEN_BODY(AT_FDCWD, real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPEN_BODY(AT_FDCWD, real_open64(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); OPEN_BODY(d, real_openat(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); OPEN_BODY(d, real_openat64(d, path, flags, mode)) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

// ---- data --------------------------------------------------------------------------------------
// path of a regular file inside the root for this fd?
static int fd_inside(int fd, char *p) {
    if (fd <= 2) return 0;
    if (fdpath(fd, p)) return 0;
    return p[0] == '/' && inside(p);
}
static int data_gate(int op, int fd, int64_t len, int64_t *n) {
    char p[PATH_MAX];
    *n = -1;
    if (!active() || !fd_inside(fd, p)) return 0;
    if (op == OP_WRITE && same_file(p)) return 0;
    return gate(op, len, fd, p, NULL, n);
}
ssize_t write(int fd, const void *b, size_t c) {
    REAL(write); int64_t n; int e = data_gate(OP_WRITE, fd, c, &n); if (e) { errno = e; return -1; }
    return real_write(fd, b, n >= 0 && (size_t)n < c ? (size_t)n : c);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) {
    REAL(pwrite); int64_t n; int e = data_gate(OP_WRITE, fd, c, &n); if (e) { errno = e; return -1; }
    return real_pwrite(fd, b, n >= 0 && (size_t)n < c ? (size_t)n : c, o);
}
ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(pwrite64); int64_t n; int e = data_gate(OP_WRITE, fd, c, &n); if (e) { errno = e; return -1; }
    return real_pwrite64(fd, b, n >= 0 && (size_t)n < c ? (size_t)n : c, o);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(writev); int64_t n, tot = 0; for (int i = 0; i < k; i++) tot += v[i].iov_len;
    int e = data_gate(OP_WRITE, fd, tot, &n); if (e) { errno = e; return -1; }
    if (n >= 0 && n < tot && k > 0) { // short: first part only
        size_t l = v[0].iov_len; if ((size_t)n < l) l = n;
        if (!l) { for (int i = 0; i < k; i++) if (v[i].iov_len) { REAL(write); size_t m = v[i].iov_len; if ((size_t)n < m) m = n; return real_write(fd, v[i].iov_base, m); } }
        REAL(write); return real_write(fd, v[0].iov_base, l);
    }
    return real_writev(fd, v, k);
}
ssize_t read(int fd, void *b, size_t c) {
    REAL(read); int64_t n = -1;
    if (g_flags & FL_RDDATA) { int e = data_gate(OP_READ, fd, c, &n); if (e) { errno = e; return -1; } }
    return real_read(fd, b, n >= 0 && (size_t)n < c ? (size_t)n : c);
}
static int copy_gate(int in, int out, int64_t len, int64_t *n) {
    char p[PATH_MAX], q[PATH_MAX]; *n = -1;
    if (!active() || !fd_inside(out, p)) return 0;
    fdpath(in, q);
    return gate(OP_COPY, len, out, p, q, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t c, unsigned f) {
    REAL(copy_file_range); int64_t n; int e = copy_gate(i, o, c, &n); if (e) { errno = e; return -1; }
    return real_copy_file_range(i, io, o, oo, n >= 0 && (size_t)n < c ? (size_t)n : c, f);
}
ssize_t sendfile(int o, int i, off_t *of, size_t c) {
    REAL(sendfile); int64_t n; int e = copy_gate(i, o, c, &n); if (e) { errno = e; return -1; }
    return real_sendfile(o, i, of, n >= 0 && (size_t)n < c ? (size_t)n : c);
}
ssize_t sendfile64(int o, int i, off64_t *of, size_t c) {
    REAL(sendfile64); int64_t n; int e = copy_gate(i, o, c, &n); if (e) { errno = e; return -1; }
    return real_sendfile64(o, i, of, n >= 0 && (size_t)n < c ? (size_t)n : c);
}
ssize_t splice(int i, off64_t *io, int o, off64_t *oo, size_t c, unsigned f) {
    REAL(splice); int64_t n; int e = copy_gate(i, o, c, &n); if (e) { errno = e; return -1; }
    return real_splice(i, io, o, oo, n >= 0 && (size_t)n < c ? (size_t)n : c, f);
}
int ftruncate(int fd, off_t l) { REAL(ftruncate); int64_t n; int e = data_gate(OP_TRUNC, fd, l, &n); if (e) { errno = e; return -1; } return real_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); int64_t n; int e = data_gate(OP_TRUNC, fd, l, &n); if (e) { errno = e; return -1; } return real_ftruncate64(fd, l); }
int fallocate(int fd, int m, off_t o, off_t l) { REAL(fallocate); int64_t n; int e = data_gate(OP_TRUNC, fd, o + l, &n); if (e) { errno = e; return -1; } return real_fallocate(fd, m, o, l); }
int fsync(int fd) { REAL(fsync); int64_t n; int e = data_gate(OP_FSYNC, fd, 0, &n); if (e) { errno = e; return -1; } return real_fsync(fd); }
int fdatasync(int fd) { REAL(fdatasync); int64_t n; int e = data_gate(OP_FSYNC, fd, 0, &n); if (e) { errno = e; return -1; } return real_fdatasync(fd); }
int fchmod(int fd, mode_t m) { REAL(fchmod); int64_t n; int e = data_gate(OP_CHMOD, fd, m, &n); if (e) { errno = e; return -1; } return real_fchmod(fd, m); }
int futimens(int fd, const struct timespec t[2]) { REAL(futimens); int64_t n; int e = data_gate(OP_UTIMES, fd, 0, &n); if (e) { errno = e; return -1; } return real_futimens(fd, t); }
int futimes(int fd, const struct timeval t[2]) { REAL(futimes); int64_t n; int e = data_gate(OP_UTIMES, fd, 0, &n); if (e) { errno = e; return -1; } return real_futimes(fd, t); }

// ---- names -------------------------------------------------------------------------------------
#define ONE(op, a, d, path, follow) \
    if (active()) { char r_[PATH_MAX * 2]; resolve(d, path, follow, r_); int e_ = gate_path(op, a, 0, r_, NULL); if (e_) { errno = e_; return -1; } }
static int two(int op, int d1, const char *p1, int d2, const char *p2) {
    char a[PATH_MAX * 2], b[PATH_MAX * 2]; resolve(d1, p1, 0, a); resolve(d2, p2, 0, b);
    if (!inside(a)) { ask(OP_ESCAPE, op, 0, a, NULL); return EACCES; }
    if (!inside(b)) { ask(OP_ESCAPE, op, 0, b, NULL); return EACCES; }
    return gate(op, 0, 0, a, b, NULL);
}
int rename(const char *a, const char *b) { REAL(rename); if (active()) { int e = two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b); if (e) { errno = e; return -1; } } return real_rename(a, b); }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(renameat); if (active()) { int e = two(OP_RENAME, d1, a, d2, b); if (e) { errno = e; return -1; } } return real_renameat(d1, a, d2, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { REAL(renameat2); if (active()) { int e = two(OP_RENAME, d1, a, d2, b); if (e) { errno = e; return -1; } } return real_renameat2(d1, a, d2, b, f); }
int link(const char *a, const char *b) { REAL(link); if (active()) { int e = two(OP_LINK, AT_FDCWD, b, AT_FDCWD, a); if (e) { errno = e; return -1; } } return real_link(a, b); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(linkat); if (active()) { int e = two(OP_LINK, d2, b, d1, a); if (e) { errno = e; return -1; } } return real_linkat(d1, a, d2, b, f); }
static int sym_gate(const char *t, int d, const char *l) {
    char r[PATH_MAX * 2]; resolve(d, l, 0, r);
    if (!inside(r)) { ask(OP_ESCAPE, OP_SYMLINK, 0, r, t); return EACCES; }
    return gate(OP_SYMLINK, 0, 0, r, t, NULL);
}
int symlink(const char *t, const char *l) { REAL(symlink); if (active()) { int e = sym_gate(t, AT_FDCWD, l); if (e) { errno = e; return -1; } } return real_symlink(t, l); }
int symlinkat(const char *t, int d, const char *l) { REAL(symlinkat); if (active()) { int e = sym_gate(t, d, l); if (e) { errno = e; return -1; } } return real_symlinkat(t, d, l); }
int unlink(const char *p) { REAL(unlink); ONE(OP_UNLINK, 0, AT_FDCWD, p, 0) return real_unlink(p); }
int remove(const char *p) { struct stat s; if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) return rmdir(p); return unlink(p); }
int unlinkat(int d, const char *p, int f) { REAL(unlinkat); ONE(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, 0, d, p, 0) return real_unlinkat(d, p, f); }
int rmdir(const char *p) { REAL(rmdir); ONE(OP_RMDIR, 0, AT_FDCWD, p, 0) return real_rmdir(p); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); ONE(OP_MKDIR, m, AT_FDCWD, p, 0) return real_mkdir(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(mkdirat); ONE(OP_MKDIR, m, d, p, 0) return real_mkdirat(d, p, m); }
int truncate(const char *p, off_t l) { REAL(truncate); ONE(OP_TRUNC, l, AT_FDCWD, p, 1) return real_truncate(p, l); }
int truncate64(const char *p, off64_t l) { REAL(truncate64); ONE(OP_TRUNC, l, AT_FDCWD, p, 1) return real_truncate64(p, l); }
int chmod(const char *p, mode_t m) { REAL(chmod); ONE(OP_CHMOD, m, AT_FDCWD, p, 1) return real_chmod(p, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(fchmodat); ONE(OP_CHMOD, m, d, p, 1) return real_fchmodat(d, p, m, f); }
int chown(const char *p, uid_t u, gid_t g) { REAL(chown); ONE(OP_CHMOD, 0, AT_FDCWD, p, 1) return real_chown(p, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { REAL(lchown); ONE(OP_CHMOD, 0, AT_FDCWD, p, 0) return real_lchown(p, u, g); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    REAL(utimensat);
    const char *volatile pv = p;
    if (pv) { ONE(OP_UTIMES, t ? t[1].tv_sec : 0, d, p, !(f & AT_SYMLINK_NOFOLLOW)) }
    else { int64_t n; int e = data_gate(OP_UTIMES, d, t ? t[1].tv_sec : 0, &n); if (e) { errno = e; return -1; } REAL(futimens); return real_futimens(d, t); }
    return real_utimensat(d, p, t, f);
}
int utimes(const char *p, const struct timeval t[2]) { REAL(utimes); ONE(OP_UTIMES, t ? t[1].tv_sec : 0, AT_FDCWD, p, 1) return real_utimes(p, t); }
int lutimes(const char *p, const struct timeval t[2]) { REAL(lutimes); ONE(OP_UTIMES, t ? t[1].tv_sec : 0, AT_FDCWD, p, 0) return real_lutimes(p, t); }
int utime(const char *p, const struct utimbuf *t) { REAL(utime); ONE(OP_UTIMES, t ? t->modtime : 0, AT_FDCWD, p, 1) return real_utime(p, t); }
int mknod(const char *p, mode_t m, dev_t v) { REAL(mknod); ONE(OP_OPENW, 0, AT_FDCWD, p, 0) return real_mknod(p, m, v); }
int mkfifo(const char *p, mode_t m) { REAL(mkfifo); ONE(OP_OPENW, 0, AT_FDCWD, p, 0) return real_mkfifo(p, m); }

// ---- locks, time, network, processes --------------------------------------------------------------
int flock(int fd, int op) {
    REAL(flock);
    if (active()) { char p[PATH_MAX]; fdpath(fd, p); int64_t n; int e = gate(OP_FLOCK, op, fd, p, NULL, &n); if (e) { errno = e; return -1; } }
    return real_flock(fd, op);
}
int close(int fd) {
    REAL(close);
    if ((g_flags & FL_CLOSES) && active()) { char p[PATH_MAX]; if (fd_inside(fd, p)) { int s = errno; gate(OP_CLOSE, fd, 0, p, NULL, NULL); errno = s; } }
    return real_close(fd);
}
static int do_sleep(const struct timespec *t, int abs, clockid_t c) {
    int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec;
    if (abs && c == CLOCK_REALTIME && g_clock) { ns -= *g_clock; if (ns < 0) ns = 0; }
    else if (abs) { struct timespec now; clock_gettime(c, &now); ns -= now.tv_sec * 1000000000LL + now.tv_nsec; if (ns < 0) ns = 0; }
    return gate(OP_SLEEP, ns, 0, NULL, NULL, NULL);
}
int nanosleep(const struct timespec *t, struct timespec *r) { REAL(nanosleep); if (active()) { int e = do_sleep(t, 0, CLOCK_REALTIME); if (e) { errno = e; return -1; } return 0; } return real_nanosleep(t, r); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { REAL(clock_nanosleep); if (active()) return do_sleep(t, f & TIMER_ABSTIME, c); return real_clock_nanosleep(c, f, t, r); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, NULL); return 0; }
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return nanosleep(&t, NULL); }
// The monotonic clock can be made to run faster, so that time-outs are over sooner.
static int g_fast = 1;
static int64_t g_mono; // where the two clocks agree
static int64_t real_mono(void) { struct timespec t; REAL(clock_gettime); real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
__attribute__((constructor)) static void init_fast(void) { const char *f = getenv("MC_FAST"); if (f && atoi(f) > 1) { g_mono = real_mono(); g_fast = atoi(f); } }
#include <sys/epoll.h>
#include <linux/futex.h>
int epoll_wait(int e, struct epoll_event *v, int n, int ms) { REAL(epoll_wait); return real_epoll_wait(e, v, n, ms > 0 ? (ms + g_fast - 1) / g_fast : ms); }
#include <poll.h>
int poll(struct pollfd *v, nfds_t n, int ms) { REAL(poll); return real_poll(v, n, ms > 0 ? (ms + g_fast - 1) / g_fast : ms); }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (g_fast > 1 && c == CLOCK_MONOTONIC) { int64_t v = g_mono + (real_mono() - g_mono) * g_fast; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
    if (g_clock && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { int64_t v = *g_clock; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
    REAL(clock_gettime); return real_clock_gettime(c, t);
}
int gettimeofday(struct timeval *t, void *z) {
    if (g_clock) { int64_t v = *g_clock; struct timeval *volatile tv = t; if (tv) { t->tv_sec = v / 1000000000; t->tv_usec = (v % 1000000000) / 1000; } return 0; }
    REAL(gettimeofday); return real_gettimeofday(t, z);
}
time_t time(time_t *t) {
    time_t v; if (g_clock) v = *g_clock / 1000000000; else { REAL(time); return real_time(t); }
    if (t) *t = v;
    return v;
}
static uint64_t g_rng = 0x9e3779b97f4a7c15ULL;
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (g_fd < 0) { REAL(getrandom); return real_getrandom(b, n, f); }
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; p[i] = g_rng >> 24; }
    return n;
}
int connect(int fd, const struct sockaddr *sa, socklen_t l) {
    REAL(connect);
    if (active()) {
        char p[128] = "other"; int ok = 0;
        if (sa->sa_family == AF_INET) {
            const struct sockaddr_in *s = (const void *)sa; char ip[64]; inet_ntop(AF_INET, &s->sin_addr, ip, sizeof ip);
            snprintf(p, sizeof p, "%s:%d", ip, ntohs(s->sin_port)); ok = !strncmp(ip, "127.", 4);
        } else if (sa->sa_family == AF_INET6) {
            const struct sockaddr_in6 *s = (const void *)sa; char ip[64]; inet_ntop(AF_INET6, &s->sin6_addr, ip, sizeof ip);
            snprintf(p, sizeof p, "[%s]:%d", ip, ntohs(s->sin6_port)); ok = !strcmp(ip, "::1");
        }
        int e = gate(OP_CONNECT, ok, 0, p, NULL, NULL);
        if (!e && !ok) e = ECONNREFUSED;
        if (e) { errno = e; return -1; }
        if (ok && g_port && sa->sa_family == AF_INET) {
            struct sockaddr_in s = *(const struct sockaddr_in *)sa;
            s.sin_port = htons(g_port);
            return real_connect(fd, (void *)&s, sizeof s);
        }
    }
    return real_connect(fd, sa, l);
}
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
    REAL(getaddrinfo);
    if (active() && node) {
        int e = gate(OP_RESOLVE, 0, 0, node, NULL, NULL);
        if (e) return EAI_NONAME;
        return real_getaddrinfo("127.0.0.1", svc, h, res);
    }
    return real_getaddrinfo(node, svc, h, res);
}
static int spawn_gate(const char *path) {
    char r[PATH_MAX * 2]; resolve(AT_FDCWD, path, 0, r);
    return gate(OP_SPAWN, 0, 0, r, NULL, NULL);
}
int posix_spawn(pid_t *p, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    REAL(posix_spawn); if (active()) { int e = spawn_gate(path); if (e) return e; } return real_posix_spawn(p, path, fa, at, av, ev);
}
int posix_spawnp(pid_t *p, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    REAL(posix_spawnp); if (active()) { int e = spawn_gate(path); if (e) return e; } return real_posix_spawnp(p, path, fa, at, av, ev);
}
#if !__GLIBC_PREREQ(2, 39)
int pidfd_spawnp(int *p, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]);
#endif
int pidfd_spawnp(int *p, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const av[], char *const ev[]) {
    REAL(pidfd_spawnp); if (active()) { int e = spawn_gate(path); if (e) return e; } return real_pidfd_spawnp(p, path, fa, at, av, ev);
}

long syscall(long nr, ...) {
    va_list ap; va_start(ap, nr);
    long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (active()) {
        switch (nr) {
        case SYS_copy_file_range: return copy_file_range(a[0], (off64_t *)a[1], a[2], (off64_t *)a[3], a[4], a[5]);
        case SYS_renameat2: return renameat2(a[0], (char *)a[1], a[2], (char *)a[3], a[4]);
        case SYS_getrandom: return getrandom((void *)a[0], a[1], a[2]);
        case SYS_openat: return openat(a[0], (char *)a[1], a[2], a[3]);
        case SYS_unlinkat: return unlinkat(a[0], (char *)a[1], a[2]);
        case SYS_utimensat: return utimensat(a[0], (char *)a[1], (void *)a[2], a[3]);
        case SYS_linkat: return linkat(a[0], (char *)a[1], a[2], (char *)a[3], a[4]);
        case SYS_mkdirat: return mkdirat(a[0], (char *)a[1], a[2]);
        case SYS_symlinkat: return symlinkat((char *)a[0], a[1], (char *)a[2]);
        case SYS_write: return write(a[0], (void *)a[1], a[2]);
        case SYS_fchmodat2: return fchmodat(a[0], (char *)a[1], a[2], a[3]);
        default: break;
        }
    }
    struct timespec slow;
    if (g_fast > 1 && nr == SYS_futex && a[3] && (a[1] & FUTEX_CMD_MASK) == FUTEX_WAIT_BITSET && !(a[1] & FUTEX_CLOCK_REALTIME)) {
        struct timespec *t = (void *)a[3];
        int64_t v = g_mono + (t->tv_sec * 1000000000LL + t->tv_nsec - g_mono) / g_fast;
        slow.tv_sec = v / 1000000000; slow.tv_nsec = v % 1000000000;
        a[3] = (long)&slow;
    }
    long r;
    register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "0"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
