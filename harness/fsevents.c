/* LD_PRELOAD monitor: calls back at every change of a file below one armed
 * directory: before it, half way through a write, and after it.  The code
 * under test runs unmodified. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

typedef void (*cb_t)(int phase, const char *op, const char *path);
static cb_t cb;
static char root[PATH_MAX];
static size_t root_len;
static __thread int busy;

void fsev_arm(const char *dir, cb_t f) {
    snprintf(root, sizeof root, "%s", dir);
    root_len = strlen(root);
    cb = f;
}
void fsev_disarm(void) { cb = 0; }
int fsev_present(void) { return 1; }

static int below(const char *p) {
    return cb && !busy && p && !strncmp(p, root, root_len) && (p[root_len] == '/' || !p[root_len]);
}
static const char *absolute(int dfd, const char *p, char *buf) {
    if (!p) return 0;
    if (p[0] == '/') return p;
    char base[PATH_MAX];
    if (dfd == AT_FDCWD) {
        if (!getcwd(base, sizeof base)) return 0;
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        ssize_t n = readlink(l, base, sizeof base - 1);
        if (n < 0) return 0;
        base[n] = 0;
    }
    if (snprintf(buf, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) return 0;
    return buf;
}
static const char *of_fd(int fd, char *buf) {
    char l[64];
    int e = errno;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, buf, PATH_MAX - 1);
    errno = e;
    if (n < 0) return 0;
    buf[n] = 0;
    return buf;
}
static void say(int phase, const char *op, const char *p) {
    int e = errno;
    busy = 1;
    cb(phase, op, p);
    busy = 0;
    errno = e;
}
#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

ssize_t write(int fd, const void *b, size_t n) {
    __typeof__(&write) f = REAL(write);
    char buf[PATH_MAX];
    if (!cb || busy || fd < 3 || !below(of_fd(fd, buf))) return f(fd, b, n);
    say(0, "write", buf);
    size_t done = 0, half = n / 2;
    while (done < half) {
        ssize_t k = f(fd, (const char *)b + done, half - done);
        if (k < 0) return done ? (ssize_t)done : k;
        done += k;
    }
    if (half) say(1, "write", buf);
    while (done < n) {
        ssize_t k = f(fd, (const char *)b + done, n - done);
        if (k < 0) return done ? (ssize_t)done : k;
        done += k;
    }
    say(2, "write", buf);
    return (ssize_t)n;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    __typeof__(&pwrite) f = REAL(pwrite);
    char buf[PATH_MAX];
    int w = cb && !busy && below(of_fd(fd, buf));
    if (w) say(0, "write", buf);
    ssize_t r = f(fd, b, n, o);
    if (w) say(2, "write", buf);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    __typeof__(&writev) f = REAL(writev);
    char buf[PATH_MAX];
    int w = cb && !busy && below(of_fd(fd, buf));
    if (w) say(0, "write", buf);
    ssize_t r = f(fd, v, n);
    if (w) say(2, "write", buf);
    return r;
}
static int is_change(int fl) { return (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)); }
#define OPENER(name)                                                              \
    int name(const char *p, int fl, ...) {                                        \
        mode_t m = 0;                                                             \
        if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
        int (*f)(const char *, int, ...) = REAL(name);                            \
        char buf[PATH_MAX];                                                       \
        const char *q = (cb && !busy && is_change(fl)) ? absolute(AT_FDCWD, p, buf) : 0; \
        int w = below(q);                                                         \
        if (w) say(0, "open", q);                                                 \
        int r = f(p, fl, m);                                                      \
        if (w) say(2, "open", q);                                                 \
        return r;                                                                 \
    }
OPENER(open)
OPENER(open64)
#define OPENERAT(name)                                                            \
    int name(int d, const char *p, int fl, ...) {                                 \
        mode_t m = 0;                                                             \
        if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
        int (*f)(int, const char *, int, ...) = REAL(name);                       \
        char buf[PATH_MAX];                                                       \
        const char *q = (cb && !busy && is_change(fl)) ? absolute(d, p, buf) : 0; \
        int w = below(q);                                                         \
        if (w) say(0, "open", q);                                                 \
        int r = f(d, p, fl, m);                                                   \
        if (w) say(2, "open", q);                                                 \
        return r;                                                                 \
    }
OPENERAT(openat)
OPENERAT(openat64)
FILE *fopen(const char *p, const char *mode) {
    FILE *(*f)(const char *, const char *) = REAL(fopen);
    char buf[PATH_MAX];
    const char *q = (cb && !busy && (mode[0] != 'r' || strchr(mode, '+'))) ? absolute(AT_FDCWD, p, buf) : 0;
    int w = below(q);
    if (w) say(0, "open", q);
    FILE *r = f(p, mode);
    if (w) say(2, "open", q);
    return r;
}
#define TWO(name, sig, call, d1, p1, d2, p2)                                      \
    int name sig {                                                                \
        __typeof__(&name) f = REAL(name);                                         \
        char b1[PATH_MAX], b2[PATH_MAX];                                          \
        const char *q = (cb && !busy) ? absolute(d2, p2, b2) : 0;                 \
        if (!below(q)) q = (cb && !busy) ? absolute(d1, p1, b1) : 0;              \
        int w = below(q);                                                         \
        if (w) say(0, #name, q);                                                  \
        int r = f call;                                                           \
        if (w) say(2, #name, q);                                                  \
        return r;                                                                 \
    }
TWO(rename, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)
TWO(renameat, (int x, const char *a, int y, const char *b), (x, a, y, b), x, a, y, b)
TWO(renameat2, (int x, const char *a, int y, const char *b, unsigned g), (x, a, y, b, g), x, a, y, b)
TWO(link, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)
TWO(linkat, (int x, const char *a, int y, const char *b, int g), (x, a, y, b, g), x, a, y, b)
#define ONE(name, sig, call, d, p)                                                \
    int name sig {                                                                \
        __typeof__(&name) f = REAL(name);                                         \
        char b1[PATH_MAX];                                                        \
        const char *q = (cb && !busy) ? absolute(d, p, b1) : 0;                   \
        int w = below(q);                                                         \
        if (w) say(0, #name, q);                                                  \
        int r = f call;                                                           \
        if (w) say(2, #name, q);                                                  \
        return r;                                                                 \
    }
ONE(unlink, (const char *p), (p), AT_FDCWD, p)
ONE(unlinkat, (int d, const char *p, int g), (d, p, g), d, p)
ONE(rmdir, (const char *p), (p), AT_FDCWD, p)
ONE(mkdir, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
ONE(mkdirat, (int d, const char *p, mode_t m), (d, p, m), d, p)
#define FD(name, T)                                                               \
    int name(int fd, T n) {                                                       \
        int (*f)(int, T) = REAL(name);                                            \
        char buf[PATH_MAX];                                                       \
        int w = cb && !busy && below(of_fd(fd, buf));                             \
        if (w) say(0, #name, buf);                                                \
        int r = f(fd, n);                                                         \
        if (w) say(2, #name, buf);                                                \
        return r;                                                                 \
    }
FD(ftruncate, off_t)
FD(ftruncate64, off64_t)
int truncate(const char *p, off_t n) {
    __typeof__(&truncate) f = REAL(truncate);
    char b1[PATH_MAX];
    const char *q = (cb && !busy) ? absolute(AT_FDCWD, p, b1) : 0;
    int w = below(q);
    if (w) say(0, "truncate", q);
    int r = f(p, n);
    if (w) say(2, "truncate", q);
    return r;
}
/* sendfile / copy_file_range (shutil.copy): reported as errors so that the
 * caller falls back to read and write, which are observed. */
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    char buf[PATH_MAX];
    ssize_t (*f)(int, int, off_t *, size_t) = dlsym(RTLD_NEXT, "sendfile");
    if (cb && !busy && below(of_fd(o, buf))) { errno = ENOTSOCK; return -1; }
    return f(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    char buf[PATH_MAX];
    ssize_t (*f)(int, int, off64_t *, size_t) = dlsym(RTLD_NEXT, "sendfile64");
    if (cb && !busy && below(of_fd(o, buf))) { errno = ENOTSOCK; return -1; }
    return f(o, i, off, n);
}
