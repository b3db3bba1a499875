#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <netdb.h>
#include <errno.h>
#include <dlfcn.h>
#include <arpa/inet.h>
#include <sys/socket.h>
/* every host is here, and https is at port DEMO_PORT */
int getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    return real(n && getenv("DEMO_PORT") ? "127.0.0.1" : n, s, h, r);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "connect");
    const char *p = getenv("DEMO_PORT");
    if (p && a->sa_family == AF_INET) {
        struct sockaddr_in s = *(const struct sockaddr_in *)a;
        if (ntohl(s.sin_addr.s_addr) >> 24 != 127) { errno = ECONNREFUSED; return -1; }
        if (ntohs(s.sin_port) == 443) s.sin_port = htons(atoi(p));
        return real(fd, (void *)&s, sizeof s);
    }
    return real(fd, a, l);
}
