/* Interposes on the calls that change files: records them, and lets the n-th of them fail, or
   end the process before or after it.  Only calls on paths under a chosen directory count. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static int on = 0, count = 0, at = 0, mode = 0, err = ENOSPC;
static long budget = -1;
static char *logbuf = 0;
static size_t loglen = 0, logcap = 0;
static char paths[1024][512];

#define REAL(name) ({ static void *p_; if (!p_) p_ = dlsym(RTLD_NEXT, #name); (__typeof__(&name)) p_; })

/* mode: 0 record, 1 end before, 2 fail once, 3 end after, 4 fail from then on, 5 bytes run out, 6 end within the write */
void ff_arm(const char *dir, int a, int m, int e, long b) {
    strncpy(root, dir, sizeof root - 1);
    count = 0; at = a; mode = m; err = e; budget = b; loglen = 0; on = 1;
    for (int i = 0; i < 1024; i++) paths[i][0] = 0;
}
void ff_off(void) { on = 0; }
int ff_count(void) { return count; }
const char *ff_log(void) { return logbuf ? logbuf : ""; }

static void put(const char *fmt, ...) {
    if (logcap < loglen + 4096) { logcap = logcap * 2 + 65536; logbuf = realloc(logbuf, logcap); }
    va_list ap; va_start(ap, fmt);
    loglen += vsnprintf(logbuf + loglen, 4000, fmt, ap);
    va_end(ap);
}
static void puthex(const unsigned char *b, size_t n) {
    if (logcap < loglen + 2 * n + 4096) { logcap = logcap * 2 + 2 * n + 65536; logbuf = realloc(logbuf, logcap); }
    for (size_t i = 0; i < n; i++) loglen += sprintf(logbuf + loglen, "%02x", b[i]);
    loglen += sprintf(logbuf + loglen, "\n");
}
static const char *full(const char *p, char *o) {
    if (p[0] == '/') { strncpy(o, p, PATH_MAX - 1); o[PATH_MAX - 1] = 0; return o; }
    char c[PATH_MAX];
    if (!getcwd(c, sizeof c)) c[0] = 0;
    snprintf(o, PATH_MAX, "%s/%s", c, p);
    return o;
}
static int under(const char *p) { size_t n = strlen(root); return on && n && !strncmp(p, root, n); }
static int known(int fd) { return on && fd >= 0 && fd < 1024 && paths[fd][0]; }
/* 0: go on; otherwise the call fails */
static int fault(void) {
    count++;
    if (mode == 1 && count == at) _exit(77);
    if ((mode == 2 && count == at) || (mode == 4 && count >= at)) { errno = err; return 1; }
    return 0;
}
static void after(void) { if (mode == 3 && count == at) _exit(77); }

static int do_open(int dirfd, const char *path, int flags, mode_t m) {
    char f[PATH_MAX];
    int mine = on && under(full(path, f)) && (dirfd == AT_FDCWD || path[0] == '/');
    int changes = mine && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)));
    if (changes && fault()) return -1;
    static int (*r)(int, const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "openat");
    int fd = r(dirfd, path, flags, m);
    if (mine && fd >= 0 && fd < 1024) {
        strncpy(paths[fd], f, 511);
        put("open %d %d %s\n", fd, (flags & O_CREAT ? 1 : 0) + (flags & O_TRUNC ? 2 : 0) + (flags & O_APPEND ? 4 : 0), f);
        if (changes) after();
    }
    return fd;
}
#define VAMODE va_list ap; mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { VAMODE return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { VAMODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { VAMODE return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { VAMODE return do_open(d, path, flags | O_LARGEFILE, m); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_write(int fd, const void *b, size_t n, off_t off) {
    if (fault()) return -1;
    size_t k = n;
    if (mode == 5) {
        if (budget <= 0 && n > 0) { errno = err; return -1; }
        if ((long) k > budget) k = budget;
        budget -= k;
    }
    if (mode == 6 && count == at && k > 1) k = k / 2;
    ssize_t w = off >= 0 ? REAL(pwrite)(fd, b, k, off) : REAL(write)(fd, b, k);
    if (w >= 0) {
        if (off >= 0) put("pwrite %d %ld ", fd, (long) off); else put("write %d ", fd);
        puthex(b, w);
    }
    if (mode == 6 && count == at) _exit(77);
    after();
    return w;
}
ssize_t write(int fd, const void *b, size_t n) { return known(fd) ? do_write(fd, b, n, -1) : REAL(write)(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return known(fd) ? do_write(fd, b, n, o) : REAL(pwrite)(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!known(fd)) return REAL(writev)(fd, v, n);
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        ssize_t w = do_write(fd, v[i].iov_base, v[i].iov_len, -1);
        if (w < 0) return t ? t : -1;
        t += w;
        if ((size_t) w < v[i].iov_len) break;
    }
    return t;
}
/* copying within the kernel is refused, so that the data is written visibly */
ssize_t sendfile(int o, int i, off_t *f, size_t n) { if (known(o)) { errno = EINVAL; return -1; } return REAL(sendfile)(o, i, f, n); }
ssize_t sendfile64(int o, int i, off_t *f, size_t n) { return sendfile(o, i, f, n); }
ssize_t copy_file_range(int i, off_t *a, int o, off_t *b, size_t n, unsigned f) {
    if (known(o)) { errno = ENOSYS; return -1; }
    return REAL(copy_file_range)(i, a, o, b, n, f);
}
static int do_sync(int fd, int (*r)(int), const char *what) {
    if (fault()) return -1;
    int x = r(fd);
    if (!x) put("%s %d\n", what, fd);
    after();
    return x;
}
int fsync(int fd) { return known(fd) ? do_sync(fd, REAL(fsync), "fsync") : REAL(fsync)(fd); }
int fdatasync(int fd) { return known(fd) ? do_sync(fd, REAL(fdatasync), "fsync") : REAL(fdatasync)(fd); }
void sync(void) { if (on) put("sync\n"); }
int close(int fd) {
    if (!known(fd)) return REAL(close)(fd);
    put("close %d\n", fd);
    paths[fd][0] = 0;
    if (fault()) { int e = errno; REAL(close)(fd); errno = e; return -1; }
    int x = REAL(close)(fd);
    after();
    return x;
}
static int two(const char *what, const char *a, const char *b, int isrename) {
    char x[PATH_MAX], y[PATH_MAX];
    full(a, x); full(b, y);
    int mine = under(x) || under(y);
    if (mine && fault()) return -1;
    int r = isrename ? REAL(rename)(a, b) : REAL(link)(a, b);
    if (mine && !r) put("%s %s\t%s\n", what, x, y);
    if (mine) after();
    return r;
}
int rename(const char *a, const char *b) { return two("rename", a, b, 1); }
int link(const char *a, const char *b) { return two("link", a, b, 0); }
int renameat(int d, const char *a, int e, const char *b) {
    if (on && d == AT_FDCWD && e == AT_FDCWD) return two("rename", a, b, 1);
    return REAL(renameat)(d, a, e, b);
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    if (on && d == AT_FDCWD && e == AT_FDCWD && f == 0) return two("rename", a, b, 1);
    return REAL(renameat2)(d, a, e, b, f);
}
int linkat(int d, const char *a, int e, const char *b, int f) {
    if (on && d == AT_FDCWD && e == AT_FDCWD && f == 0) return two("link", a, b, 0);
    return REAL(linkat)(d, a, e, b, f);
}
int unlink(const char *a) {
    char x[PATH_MAX];
    full(a, x);
    int mine = under(x);
    if (mine && fault()) return -1;
    int r = REAL(unlink)(a);
    if (mine && !r) put("unlink %s\n", x);
    if (mine) after();
    return r;
}
int unlinkat(int d, const char *a, int f) { if (on && d == AT_FDCWD && f == 0) return unlink(a); return REAL(unlinkat)(d, a, f); }
int ftruncate(int fd, off_t n) {
    if (!known(fd)) return REAL(ftruncate)(fd, n);
    if (fault()) return -1;
    int r = REAL(ftruncate)(fd, n);
    if (!r) put("ftruncate %d %ld\n", fd, (long) n);
    after();
    return r;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char *a, off_t n) {
    char x[PATH_MAX];
    full(a, x);
    int mine = under(x);
    if (mine && fault()) return -1;
    int r = REAL(truncate)(a, n);
    if (mine && !r) put("truncate %ld %s\n", (long) n, x);
    if (mine) after();
    return r;
}
int truncate64(const char *a, off_t n) { return truncate(a, n); }
int chmod(const char *a, mode_t m) {
    char x[PATH_MAX];
    full(a, x);
    int mine = under(x);
    if (mine && fault()) return -1;
    int r = REAL(chmod)(a, m);
    if (mine) after();
    return r;
}
int fchmod(int fd, mode_t m) {
    if (!known(fd)) return REAL(fchmod)(fd, m);
    if (fault()) return -1;
    int r = REAL(fchmod)(fd, m);
    after();
    return r;
}
int fchmodat(int d, const char *a, mode_t m, int f) { if (on && d == AT_FDCWD && f == 0) return chmod(a, m); return REAL(fchmodat)(d, a, m, f); }
