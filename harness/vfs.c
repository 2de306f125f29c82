/* Stands between the interpreter and the C library for files under one
 * directory: counts, fails or interrupts their calls (faults), or waits for
 * permission before each (schedules).  Signals to others are recorded, never
 * sent.  Everything is off until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

enum { OFF, FAULT, STEP };
enum { NONE, DIE, HALF, EIO1, NOSPC, SHORT, DEAD };
static int mode = OFF, how = NONE, broken = 0;
static long at = 0, count = 0;
static char root[PATH_MAX];
static size_t rootlen = 0;
static int req = -1, ack = -1;
static double now_ = 0;
#define NFD 1024
static char mine[NFD], wrote[NFD];
#define NLOG 4096
static const char *names[NLOG];
static char writes[NLOG];

#define REAL(t, name, args) \
    static t (*real) args; \
    if (!real) real = (t (*) args)dlsym(RTLD_NEXT, name)

static int under(const char *p)
{
    char b[PATH_MAX];
    if (mode == OFF || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(b, sizeof b)) return 0;
        return strncmp(b, root, rootlen) == 0;
    }
    return strncmp(p, root, rootlen) == 0 &&
        (p[rootlen] == '/' || p[rootlen] == 0);
}

static void say(const char *s)
{
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "write");
    size_t n = strlen(s), i = 0;
    while (i < n) {
        ssize_t k = real(req, s + i, n - i);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(98); }
        i += k;
    }
}

/* wait for the scheduler; the answer may be a time to pass */
void vfs_step(const char *name)
{
    static ssize_t (*real)(int, void *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "read");
    char b[PATH_MAX + 64];
    if (mode != STEP) return;
    int e = errno;
    snprintf(b, sizeof b, "C %s\n", name);
    say(b);
    char c;
    ssize_t k;
    while ((k = real(ack, &c, 1)) < 0 && errno == EINTR) ;
    if (k != 1) _exit(98);
    errno = e;
}

void vfs_event(const char *text)
{
    char b[4096];
    if (mode != STEP) return;
    snprintf(b, sizeof b, "E %s\n", text);
    say(b);
}

/* 0: go on; 1: fail with errno set; 2: half, then die; 3: half, then fail */
static int point(const char *name, const char *path, int writing)
{
    if (mode == STEP) {
        char b[PATH_MAX + 64];
        const char *s = path ? strrchr(path, '/') : 0;
        snprintf(b, sizeof b, "%s %s", name, s ? s + 1 : path ? path : "");
        vfs_step(b);
        now_ += 0.01;
        return 0;
    }
    if (mode != FAULT) return 0;
    if (broken) {
        if (how == NOSPC || how == SHORT) {
            if (!writing) return 0;
            errno = ENOSPC;
            return 1;
        }
        errno = EIO;
        return 1;
    }
    if (count < NLOG) { names[count] = name; writes[count] = writing; }
    if (++count != at) return 0;
    switch (how) {
    case DIE: _exit(97);
    case HALF: if (writing != 2) return 0; return 2;
    case EIO1: errno = EIO; return 1;
    case NOSPC: broken = 1; if (!writing) return 0; errno = ENOSPC; return 1;
    case SHORT: broken = 1; return writing == 2 ? 3 : 0;
    case DEAD: broken = 1; errno = EIO; return 1;
    }
    return 0;
}

void vfs_fault(const char *dir, int h, long n)
{
    snprintf(root, sizeof root, "%s", dir);
    rootlen = strlen(root);
    how = h; at = n; count = 0; broken = 0;
    memset(mine, 0, sizeof mine);
    mode = FAULT;
}

long vfs_off(void) { mode = OFF; return count; }

/* the calls counted from 0: their names and whether they write */
const char *vfs_name(long i) { return i < NLOG ? names[i] : "?"; }
int vfs_writes(long i) { return i < NLOG ? writes[i] : 0; }

void vfs_steps(const char *dir, int r, int a, double start)
{
    snprintf(root, sizeof root, "%s", dir);
    rootlen = strlen(root);
    req = r; ack = a; now_ = start;
    memset(mine, 0, sizeof mine);
    mode = STEP;
}

static int opened(int fd, int flags)
{
    if (fd >= 0 && fd < NFD) {
        mine[fd] = 1;
        wrote[fd] = (flags & O_ACCMODE) != O_RDONLY;
    }
    return fd;
}

#define OPEN(fn) \
int fn(const char *p, int flags, ...) \
{ \
    REAL(int, #fn, (const char *, int, ...)); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
    if (!under(p)) { int fd = real(p, flags, m); if (fd >= 0 && fd < NFD) mine[fd] = 0; return fd; } \
    int w = (flags & O_ACCMODE) != O_RDONLY; \
    if (point(w ? "open for writing" : "open", p, !!(flags & (O_CREAT | O_TRUNC)))) return -1; \
    return opened(real(p, flags, m), flags); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(fn) \
int fn(int d, const char *p, int flags, ...) \
{ \
    REAL(int, #fn, (int, const char *, int, ...)); \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); } \
    if (!under(p)) { int fd = real(d, p, flags, m); if (fd >= 0 && fd < NFD) mine[fd] = 0; return fd; } \
    int w = (flags & O_ACCMODE) != O_RDONLY; \
    if (point(w ? "open for writing" : "open", p, !!(flags & (O_CREAT | O_TRUNC)))) return -1; \
    return opened(real(d, p, flags, m), flags); \
}
OPENAT(openat)
OPENAT(openat64)

#define ISMINE(fd) (mode != OFF && (fd) >= 0 && (fd) < NFD && mine[fd])

int close(int fd)
{
    REAL(int, "close", (int));
    if (ISMINE(fd)) {
        mine[fd] = 0;
        if (mode == FAULT && wrote[fd]) {
            int k = point("close", 0, 1);
            if (k) { int e = errno; real(fd); errno = e; return -1; }
        }
        if (mode == STEP) point("close", 0, 0);
    }
    return real(fd);
}

static ssize_t halves(ssize_t (*f)(int, const void *, size_t), int fd,
                      const void *b, size_t n)
{
    int k = point("write", 0, 2);
    if (k == 1) return -1;
    if (k >= 2) {
        ssize_t r = f(fd, b, n / 2);
        if (k == 2) _exit(97);
        if (r == 0 && n) { errno = ENOSPC; return -1; }
        return r;
    }
    return f(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", (int, const void *, size_t));
    return ISMINE(fd) ? halves(real, fd, b, n) : real(fd, b, n);
}

#define PWRITE(fn, off) \
ssize_t fn(int fd, const void *b, size_t n, off o) \
{ \
    REAL(ssize_t, #fn, (int, const void *, size_t, off)); \
    if (ISMINE(fd)) { \
        int k = point("write", 0, 2); \
        if (k == 1) return -1; \
        if (k >= 2) { ssize_t r = real(fd, b, n / 2, o); if (k == 2) _exit(97); return r; } \
    } \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

#define SENDFILE(fn, off) \
ssize_t fn(int o, int i, off *p, size_t n) \
{ \
    REAL(ssize_t, #fn, (int, int, off *, size_t)); \
    if (ISMINE(o)) { \
        int k = point("write", 0, 2); \
        if (k == 1) return -1; \
        if (k >= 2) { ssize_t r = real(o, i, p, n / 2); if (k == 2) _exit(97); return r; } \
    } \
    return real(o, i, p, n); \
}
SENDFILE(sendfile, off_t)
SENDFILE(sendfile64, off64_t)

ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, "read", (int, void *, size_t));
    if (ISMINE(fd) && point("read", 0, 0)) return -1;
    return real(fd, b, n);
}

#define ONE(fn, type, arg, kind, w) \
int fn(type arg) \
{ \
    REAL(int, #fn, (type)); \
    if (kind(arg) && point(#fn, 0, w)) return -1; \
    return real(arg); \
}
ONE(fsync, int, fd, ISMINE, 1)
ONE(fdatasync, int, fd, ISMINE, 1)

#define FTRUNC(fn, off) \
int fn(int fd, off n) \
{ \
    REAL(int, #fn, (int, off)); \
    if (ISMINE(fd) && point("truncate", 0, 0)) return -1; \
    return real(fd, n); \
}
FTRUNC(ftruncate, off_t)
FTRUNC(ftruncate64, off64_t)

#define TRUNC(fn, off) \
int fn(const char *p, off n) \
{ \
    REAL(int, #fn, (const char *, off)); \
    if (under(p) && point("truncate", p, 0)) return -1; \
    return real(p, n); \
}
TRUNC(truncate, off_t)
TRUNC(truncate64, off64_t)

int unlink(const char *p)
{
    REAL(int, "unlink", (const char *));
    if (under(p) && point("unlink", p, 0)) return -1;
    return real(p);
}

int unlinkat(int d, const char *p, int f)
{
    REAL(int, "unlinkat", (int, const char *, int));
    if (under(p) && point("unlink", p, 0)) return -1;
    return real(d, p, f);
}

int rename(const char *a, const char *b)
{
    REAL(int, "rename", (const char *, const char *));
    if ((under(a) || under(b)) && point("rename", b, 1)) return -1;
    return real(a, b);
}

int renameat(int x, const char *a, int y, const char *b)
{
    REAL(int, "renameat", (int, const char *, int, const char *));
    if ((under(a) || under(b)) && point("rename", b, 1)) return -1;
    return real(x, a, y, b);
}

int link(const char *a, const char *b)
{
    REAL(int, "link", (const char *, const char *));
    if (under(b) && point("link", b, 1)) return -1;
    return real(a, b);
}

int linkat(int x, const char *a, int y, const char *b, int f)
{
    REAL(int, "linkat", (int, const char *, int, const char *, int));
    if (under(b) && point("link", b, 1)) return -1;
    return real(x, a, y, b, f);
}

int symlink(const char *a, const char *b)
{
    REAL(int, "symlink", (const char *, const char *));
    if (under(b) && point("symlink", b, 1)) return -1;
    return real(a, b);
}

int mkdir(const char *p, mode_t m)
{
    REAL(int, "mkdir", (const char *, mode_t));
    if (under(p) && point("mkdir", p, 1)) return -1;
    return real(p, m);
}

int rmdir(const char *p)
{
    REAL(int, "rmdir", (const char *));
    if (under(p) && point("rmdir", p, 0)) return -1;
    return real(p);
}

int chmod(const char *p, mode_t m)
{
    REAL(int, "chmod", (const char *, mode_t));
    if (under(p) && point("chmod", p, 0)) return -1;
    return real(p, m);
}

int fchmod(int fd, mode_t m)
{
    REAL(int, "fchmod", (int, mode_t));
    if (ISMINE(fd) && point("chmod", 0, 0)) return -1;
    return real(fd, m);
}

int flock(int fd, int op)
{
    REAL(int, "flock", (int, int));
    if (ISMINE(fd) && point("flock", 0, 0)) return -1;
    return real(fd, op);
}

/* a process of another user */
static pid_t foreign = 0;
void vfs_foreign(int pid) { foreign = pid; }

int kill(pid_t pid, int sig)
{
    REAL(int, "kill", (pid_t, int));
    if (mode == STEP && sig != 0 && pid != getpid()) {
        char b[64];
        snprintf(b, sizeof b, "killed %d", (int)pid);
        vfs_event(b);
        return 0;
    }
    if (mode == STEP) vfs_step("kill 0");
    if (mode == STEP && foreign && pid == foreign) { errno = EPERM; return -1; }
    return real(pid, sig);
}

/* ------------------------------------------------------------- time */
static void pass(double s)
{
    vfs_step("sleep");
    now_ += s > 0 ? s : 0;
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    REAL(int, "select", (int, fd_set *, fd_set *, fd_set *, struct timeval *));
    if (mode == STEP && t && !r && !w && !e) {
        pass(t->tv_sec + t->tv_usec / 1e6);
        return 0;
    }
    return real(n, r, w, e, t);
}

int nanosleep(const struct timespec *t, struct timespec *rem)
{
    REAL(int, "nanosleep", (const struct timespec *, struct timespec *));
    if (mode == STEP) { pass(t->tv_sec + t->tv_nsec / 1e9); return 0; }
    return real(t, rem);
}

int clock_nanosleep(clockid_t c, int f, const struct timespec *t,
                    struct timespec *rem)
{
    REAL(int, "clock_nanosleep",
         (clockid_t, int, const struct timespec *, struct timespec *));
    if (mode == STEP && !f) { pass(t->tv_sec + t->tv_nsec / 1e9); return 0; }
    return real(c, f, t, rem);
}

int usleep(useconds_t u)
{
    REAL(int, "usleep", (useconds_t));
    if (mode == STEP) { pass(u / 1e6); return 0; }
    return real(u);
}

int gettimeofday(struct timeval *t, void *z)
{
    REAL(int, "gettimeofday", (struct timeval *, void *));
    if (mode == STEP) {
        now_ += 0.0001;
        t->tv_sec = (long)now_;
        t->tv_usec = (long)((now_ - (long)now_) * 1e6);
        return 0;
    }
    return real(t, z);
}

int clock_gettime(clockid_t c, struct timespec *t)
{
    REAL(int, "clock_gettime", (clockid_t, struct timespec *));
    if (mode == STEP && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) {
        now_ += 0.0001;
        t->tv_sec = (long)now_;
        t->tv_nsec = (long)((now_ - (long)now_) * 1e9);
        return 0;
    }
    return real(c, t);
}

time_t time(time_t *p)
{
    REAL(time_t, "time", (time_t *));
    if (mode == STEP) { time_t t = (time_t)now_; if (p) *p = t; return t; }
    return real(p);
}
