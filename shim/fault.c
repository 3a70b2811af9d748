/* Fault injector for the file operations of the program under test (LD_PRELOAD).
 *
 * Counts the operations on files below ACCMC_DIR, on relative paths, and on standard input and
 * output, and makes chosen ones fail: ACCMC_FAULTS="K:ERRNO[,K:ERRNO...]"; K:short transfers one
 * byte only, K:half transfers half, K:zero writes nothing and says so, K:kill ends the process before the operation (a crash),
 * K:stop stops it there until it is continued, and K:torn writes half of the data and then ends the process. ACCMC_LOG names a file that gets one
 * line per operation: "K op path flags/size result". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 256
static char *names[MAXFD];
static const char *dir;
static int logfd = -1;
static int counter;
static struct { int k; int err; } faults[64];
static int nfaults;
enum { SHORT = -1, HALF = -2, KILL = -3, TORN = -4, ZERO = -5, STOP = -6 };

static int (*r_open)(const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_readv)(int, const struct iovec *, int);
static int (*r_close)(int);
static int (*r_mkdir)(const char *, mode_t);
static char *(*r_realpath)(const char *, char *);
static int (*r_ftruncate)(int, off_t);
static int (*r_rename)(const char *, const char *);
static int (*r_unlink)(const char *);
static int (*r_fsync)(int);

__attribute__((constructor)) static void init(void) {
    r_open = dlsym(RTLD_NEXT, "open64");
    r_read = dlsym(RTLD_NEXT, "read");
    r_write = dlsym(RTLD_NEXT, "write");
    r_writev = dlsym(RTLD_NEXT, "writev");
    r_readv = dlsym(RTLD_NEXT, "readv");
    r_close = dlsym(RTLD_NEXT, "close");
    r_mkdir = dlsym(RTLD_NEXT, "mkdir");
    r_realpath = dlsym(RTLD_NEXT, "realpath");
    r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
    r_rename = dlsym(RTLD_NEXT, "rename");
    r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_fsync = dlsym(RTLD_NEXT, "fsync");
    dir = getenv("ACCMC_DIR");
    const char *l = getenv("ACCMC_LOG");
    if (l) logfd = r_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    const char *f = getenv("ACCMC_FAULTS");
    while (f && *f && nfaults < 64) {
        char *e;
        int k = (int)strtol(f, &e, 10);
        if (*e != ':') break;
        e++;
        int v;
        if (!strncmp(e, "short", 5)) v = SHORT;
        else if (!strncmp(e, "half", 4)) v = HALF;
        else if (!strncmp(e, "zero", 4)) v = ZERO;
        else if (!strncmp(e, "kill", 4)) v = KILL;
        else if (!strncmp(e, "torn", 4)) v = TORN;
        else if (!strncmp(e, "stop", 4)) v = STOP;
        else v = (int)strtol(e, 0, 10);
        faults[nfaults].k = k;
        faults[nfaults++].err = v;
        f = strchr(e, ',');
        if (f) f++;
    }
    /* Programs that this one starts are left alone. */
    dir = dir ? strdup(dir) : 0;
    unsetenv("LD_PRELOAD");
    unsetenv("ACCMC_DIR");
    unsetenv("ACCMC_FAULTS");
    unsetenv("ACCMC_LOG");
    names[0] = "<stdin>";
    names[1] = "<stdout>";
}

static int ours(const char *p) {
    if (!dir || !p) return 0;
    return p[0] != '/' || !strncmp(p, dir, strlen(dir));
}

static const char *of_fd(int fd) { return fd >= 0 && fd < MAXFD && dir ? names[fd] : 0; }

/* Numbers the operation, logs it, and gives the fault to inject (0: none). */
static int op(const char *what, const char *path, long n) {
    int k = __sync_fetch_and_add(&counter, 1);
    if (logfd >= 0) {
        char b[512];
        int l = snprintf(b, sizeof b, "%d %s %s %ld\n", k, what, path, n);
        if (l > (int)sizeof b) l = sizeof b;
        r_write(logfd, b, (size_t)l);
    }
    for (int i = 0; i < nfaults; i++)
        if (faults[i].k == k) {
            if (faults[i].err == KILL) raise(SIGKILL);
            if (faults[i].err == STOP) {
                raise(SIGSTOP);
                return 0;
            }
            return faults[i].err;
        }
    return 0;
}

static int do_open(const char *p, int flags, mode_t mode) {
    if (ours(p) && !(flags & O_DIRECTORY)) {
        int f = op((flags & O_ACCMODE) == O_RDONLY ? "open-r" : "open-w", p, flags & (O_TRUNC | O_CREAT | O_EXCL | O_APPEND));
        if (f > 0) { errno = f; return -1; }
    }
    int fd = r_open(p, flags, mode);
    if (fd >= 0 && fd < MAXFD) names[fd] = ours(p) ? strdup(p) : 0;
    return fd;
}

int open64(const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open(p, flags, m);
}
int open(const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return do_open(p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    if (d == AT_FDCWD || p[0] == '/') return do_open(p, flags, m);
    int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat64");
    return f(d, p, flags, m);
}

ssize_t read(int fd, void *buf, size_t n) {
    const char *p = of_fd(fd);
    if (p) {
        int f = op("read", p, (long)n);
        if (f > 0) { errno = f; return -1; }
        if (f == SHORT && n > 1) n = 1;
        if (f == HALF && n > 1) n = n > 64 ? 64 : n / 2;
    }
    return r_read(fd, buf, n);
}

ssize_t readv(int fd, const struct iovec *v, int c) {
    const char *p = of_fd(fd);
    if (p) {
        int f = op("read", p, c);
        if (f > 0) { errno = f; return -1; }
    }
    return r_readv(fd, v, c);
}

ssize_t write(int fd, const void *buf, size_t n) {
    const char *p = of_fd(fd);
    if (p) {
        int f = op("write", p, (long)n);
        if (f > 0) { errno = f; return -1; }
        if (f == SHORT && n > 1) n = 1;
        if (f == HALF && n > 1) n = n / 2;
        if (f == ZERO) return 0;
        if (f == TORN) {
            if (n > 1) r_write(fd, buf, n / 2);
            raise(SIGKILL);
        }
    }
    return r_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *p = of_fd(fd);
    if (p) {
        long n = 0;
        for (int i = 0; i < c; i++) n += (long)v[i].iov_len;
        int f = op("write", p, n);
        if (f > 0) { errno = f; return -1; }
        if (f == SHORT || f == HALF) return r_writev(fd, v, 1);
        if (f == ZERO) return 0;
        if (f == TORN) { r_writev(fd, v, 1); raise(SIGKILL); }
    }
    return r_writev(fd, v, c);
}

int close(int fd) {
    if (fd >= 0 && fd < MAXFD) names[fd] = 0;
    return r_close(fd);
}

int mkdir(const char *p, mode_t m) {
    if (ours(p)) {
        int f = op("mkdir", p, 0);
        if (f > 0) { errno = f; return -1; }
    }
    return r_mkdir(p, m);
}

char *realpath(const char *p, char *r) {
    if (ours(p)) {
        int f = op("realpath", p, 0);
        if (f > 0) { errno = f; return 0; }
    }
    return r_realpath(p, r);
}

int ftruncate64(int fd, off_t n) {
    const char *p = of_fd(fd);
    if (p) {
        int f = op("truncate", p, (long)n);
        if (f > 0) { errno = f; return -1; }
    }
    return r_ftruncate(fd, n);
}

int rename(const char *a, const char *b) {
    if (ours(b)) {
        int f = op("rename", b, 0);
        if (f > 0) { errno = f; return -1; }
    }
    return r_rename(a, b);
}

int unlink(const char *a) {
    if (ours(a)) {
        int f = op("unlink", a, 0);
        if (f > 0) { errno = f; return -1; }
    }
    return r_unlink(a);
}

int fsync(int fd) {
    const char *p = of_fd(fd);
    if (p) {
        int f = op("fsync", p, 0);
        if (f > 0) { errno = f; return -1; }
    }
    return r_fsync(fd);
}
