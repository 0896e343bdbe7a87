/* Counts the file operations on paths under one prefix (and with one of some suffixes) and fails, tears,
   interrupts or kills at the k-th of them.  Inert until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN, WRITE, CLOSE, MKDIR, TRUNC, RENAME, UNLINK, SYNC };
enum { NONE, ERROR, SHORT_ERR, SHORT, INTR, KILL_BEFORE, KILL_AFTER, TORN };
#define NFD 4096
#define NLOG 4000
static char prefix[1024], suffixes[256];
static int armed, target, fault, err, opmask, count, fired, failing;
static char *fdpath[NFD];
static int logop[NLOG];
static char *logpath[NLOG];

int vf_loaded(void) { const char *p = getenv("VERIF_SHIM"); (void)p; Dl_info a; void *s = dlsym(RTLD_DEFAULT, "open64"); return s && dladdr(s, &a) && strstr(a.dli_fname, "shim-") != NULL; }
void vf_disarm(void) { armed = 0; }
int vf_count(void) { return count; }
int vf_fired(void) { return fired; }
int vf_op(int i) { return logop[i]; }
const char *vf_path(int i) { return logpath[i]; }
void vf_arm(const char *p, const char *s, int k, int f, int e, int m)
{
    snprintf(prefix, sizeof prefix, "%s", p);
    snprintf(suffixes, sizeof suffixes, "%s", s);
    target = k; fault = f; err = e; opmask = m; count = fired = failing = 0;
    for (int i = 0; i < NLOG; i++) { free(logpath[i]); logpath[i] = NULL; }
    armed = 1;
}
static int match(const char *p, int op)
{
    if (!armed || !p || strncmp(p, prefix, strlen(prefix))) return 0;
    if (!suffixes[0]) return 1;
    if (op == MKDIR) return strstr(suffixes, "mkdir") != NULL;
    char tmp[256]; snprintf(tmp, sizeof tmp, "%s", suffixes);
    for (char *q = strtok(tmp, ","); q; q = strtok(NULL, ",")) {
        size_t n = strlen(p), m = strlen(q);
        if (n >= m && !strcmp(p + n - m, q)) return 1;
    }
    return 0;
}
/* 0: proceed, 1: this one is hit */
static int event(int op, const char *path)
{
    if (!((opmask >> op) & 1)) return 0;
    int k = count++;
    if (k < NLOG) { logop[k] = op; free(logpath[k]); logpath[k] = strdup(path); }
    return k == target && fault != NONE;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static void note(int fd, const char *path)
{
    if (fd < 0 || fd >= NFD) return;
    free(fdpath[fd]); fdpath[fd] = path ? strdup(path) : NULL;
}
static int pre(int op, const char *path, int *after)
{
    *after = 0;
    if (!match(path, op)) return 0;
    if (!event(op, path)) return 0;
    fired++;
    switch (fault) {
    case KILL_BEFORE: case TORN: die();
    case KILL_AFTER: *after = 1; return 0;
    case INTR: errno = EINTR; return -1;
    case SHORT: return 0;
    default: errno = err; return -1;
    }
}
#define WR(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & O_CREAT))
#define OPENBODY(call) \
    int after = 0; \
    if (armed && WR(flags)) { if (pre(OPEN, path, &after)) return -1; } \
    int fd = call; \
    int e = errno; \
    if (fd >= 0) note(fd, (armed && WR(flags) && match(path, OPEN)) ? path : NULL); \
    if (after) die(); \
    errno = e; return fd;
int open(const char *path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); REAL(int, "open", const char *, int, ...); OPENBODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); REAL(int, "open64", const char *, int, ...); OPENBODY(real(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); REAL(int, "openat", int, const char *, int, ...); OPENBODY(real(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...)
{ va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); REAL(int, "openat64", int, const char *, int, ...); OPENBODY(real(d, path, flags, mode)) }

static const char *pathof(int fd) { return (armed && fd >= 0 && fd < NFD) ? fdpath[fd] : NULL; }
/* how many bytes to write: n itself, fewer, or -1 for an error */
static ssize_t wsize(int fd, size_t n, int *after)
{
    const char *p = pathof(fd);
    *after = 0;
    if (!p || !match(p, WRITE)) return n;
    if (failing && fired) { errno = err; return -1; }
    if (!event(WRITE, p)) return n;
    fired++;
    switch (fault) {
    case KILL_BEFORE: die();
    case KILL_AFTER: *after = 1; return n;
    case TORN: *after = 1; return n / 2;
    case INTR: errno = EINTR; return -1;
    case SHORT: return n > 1 ? n / 2 : n;
    case SHORT_ERR: failing = 1; if (n > 1) return n / 2; errno = err; return -1;
    default: errno = err; return -1;
    }
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t); int after; ssize_t m = wsize(fd, n, &after);
    if (m < 0) return -1; ssize_t r = real(fd, b, m); if (after) die(); return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(ssize_t, "pwrite", int, const void *, size_t, off_t); int after; ssize_t m = wsize(fd, n, &after);
    if (m < 0) return -1; ssize_t r = real(fd, b, m, o); if (after) die(); return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); int after; ssize_t m = wsize(fd, n, &after);
    if (m < 0) return -1; ssize_t r = real(fd, b, m, o); if (after) die(); return r;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int); const char *p = pathof(fd);
    if (p && match(p, WRITE)) { int after; ssize_t m = wsize(fd, 2, &after); if (m < 0) return -1; ssize_t r = real(fd, v, c); if (after) die(); return r; }
    return real(fd, v, c);
}
int close(int fd)
{
    REAL(int, "close", int); const char *p = pathof(fd);
    if (p && match(p, CLOSE)) {
        int hit = event(CLOSE, p), f = fault;
        if (hit) { fired++; if (f == KILL_BEFORE || f == TORN) die(); }
        int r = real(fd); int e = errno; note(fd, NULL);
        if (hit && f == KILL_AFTER) die();
        if (hit && (f == ERROR || f == SHORT_ERR)) { errno = err; return -1; }
        errno = e; return r;
    }
    if (fd >= 0 && fd < NFD && fdpath[fd]) note(fd, NULL);
    return real(fd);
}
int mkdir(const char *path, mode_t m)
{ REAL(int, "mkdir", const char *, mode_t); int after = 0; if (armed && pre(MKDIR, path, &after)) return -1; int r = real(path, m); if (after) die(); return r; }
int ftruncate(int fd, off_t n)
{ REAL(int, "ftruncate", int, off_t); int after = 0; const char *p = pathof(fd); if (p && pre(TRUNC, p, &after)) return -1; int r = real(fd, n); if (after) die(); return r; }
int ftruncate64(int fd, off64_t n)
{ REAL(int, "ftruncate64", int, off64_t); int after = 0; const char *p = pathof(fd); if (p && pre(TRUNC, p, &after)) return -1; int r = real(fd, n); if (after) die(); return r; }
int rename(const char *a, const char *b)
{ REAL(int, "rename", const char *, const char *); int after = 0; if (armed && pre(RENAME, b, &after)) return -1; int r = real(a, b); if (after) die(); return r; }
int unlink(const char *a)
{ REAL(int, "unlink", const char *); int after = 0; if (armed && pre(UNLINK, a, &after)) return -1; int r = real(a); if (after) die(); return r; }
int fsync(int fd)
{ REAL(int, "fsync", int); int after = 0; const char *p = pathof(fd); if (p && pre(SYNC, p, &after)) return -1; int r = real(fd); if (after) die(); return r; }

/* streams: C++ libraries open their files this way */
static FILE *fop(const char *path, const char *mode, FILE *(*real)(const char *, const char *))
{
    int after = 0, wr = mode && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'));
    if (armed && wr && pre(OPEN, path, &after)) return NULL;
    FILE *f = real(path, mode);
    int e = errno;
    if (f) note(fileno(f), (armed && wr && match(path, OPEN)) ? path : NULL);
    if (after) die();
    errno = e; return f;
}
FILE *fopen(const char *path, const char *mode)
{ REAL(FILE *, "fopen", const char *, const char *); return fop(path, mode, real); }
FILE *fopen64(const char *path, const char *mode)
{ REAL(FILE *, "fopen64", const char *, const char *); return fop(path, mode, real); }
int fclose(FILE *f)
{
    REAL(int, "fclose", FILE *); int fd = f ? fileno(f) : -1; const char *p = pathof(fd);
    if (p && match(p, CLOSE)) {
        int after = 0; char *q = strdup(p);
        int bad = pre(CLOSE, q, &after); free(q);
        int e0 = errno;
        int r = real(f); int e = errno; note(fd, NULL);
        if (after) die();
        if (bad) { errno = e0; return EOF; }
        errno = e; return r;
    }
    if (fd >= 0 && fd < NFD && fdpath[fd]) note(fd, NULL);
    return real(f);
}
