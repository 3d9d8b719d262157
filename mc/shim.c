/* Interposes the libc file system calls of one process so that a controller
 * can, on paths below a scratch directory only:
 *   log every operation,
 *   end the process before the k-th mutating operation, or in the middle of
 *     a write after `partial` bytes (crash points and torn writes),
 *   make the k-th operation fail with a chosen errno (fault points),
 *   block before every operation until the controller grants it (schedules).
 * Paths outside the prefix are passed straight through.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, LOG = 1, KILL = 2, FAIL = 3, SCHED = 4 };

static int mode, target, partial, err, persist, counter;
static int logfd = -1, ctl_r = -1, ctl_w = -1;
static char prefix[PATH_MAX];
static char exclude[PATH_MAX];
static int fired;

void shim_arm(int m, const char *pre, const char *excl, int k, int part, int e, int pers,
              int lfd, int cr, int cw)
{
    snprintf(prefix, sizeof prefix, "%s", pre);
    snprintf(exclude, sizeof exclude, "%s", excl ? excl : "");
    target = k; partial = part; err = e; persist = pers;
    logfd = lfd; ctl_r = cr; ctl_w = cw;
    counter = 0; fired = 0;
    mode = m;
}
int shim_counter(void) { return counter; }
int shim_fired(void) { return fired; }
void shim_disarm(void) { mode = OFF; }

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static int under(const char *p)
{
    size_t n = strlen(prefix);
    if (!n || strncmp(p, prefix, n)) return 0;
    return p[n] == '/' || p[n] == 0 || p[n] == ' ';
}

static const char *fdpath(int fd, char *buf)
{
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlink, link, buf, PATH_MAX - 1);
    if (n < 0) return NULL;
    buf[n] = 0;
    return buf;
}

static const char *atpath(int dfd, const char *path, char *buf)
{
    if (!path) return NULL;
    if (path[0] == '/') { snprintf(buf, PATH_MAX, "%s", path); return buf; }
    char base[PATH_MAX];
    if (dfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) < 0) return NULL;
    } else if (!fdpath(dfd, base)) return NULL;
    snprintf(buf, PATH_MAX, "%s/%s", base, path);
    return buf;
}

/* returns 0: go on; -1: fail with errno set; >0: torn write of ret-1 bytes, then die */
static int point(const char *kind, const char *path, int mutating, long size)
{
    if (mode == OFF || !path || !under(path)) return 0;
    if (exclude[0] && !strcmp(path, exclude) && !mutating) return 0;
    if (mode == KILL && !mutating) return 0;
    int k = counter++;
    if (logfd >= 0) {
        char line[PATH_MAX + 64];
        int n = snprintf(line, sizeof line, "%s %d %ld %s\n", kind, mutating, size, path + strlen(prefix));
        raw_write(logfd, line, n);
    }
    switch (mode) {
    case KILL:
        if (k == target) {
            if (partial >= 0 && size > 0) return 1 + partial;
            syscall(SYS_exit_group, 77);
        }
        break;
    case FAIL:
        if (k == target || (persist && k > target && mutating)) { fired++; errno = err; return -1; }
        break;
    case SCHED: {
        char c = 'p';
        if (logfd < 0) raw_write(ctl_w, &c, 1);
        else raw_write(ctl_w, &c, 1);
        long r;
        do { r = syscall(SYS_read, ctl_r, &c, 1); } while (r < 0 && errno == EINTR);
        if (r <= 0) syscall(SYS_exit_group, 78);
        break; }
    }
    return 0;
}

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);
#define SAVE int saved_errno = errno; (void)saved_errno;

static int open_mut(int flags) { return (flags & (O_CREAT | O_TRUNC)) ? 1 : 0; }

#define OPENLIKE(NAME) \
int NAME(const char *path, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a);} \
    REAL(int, NAME, const char *, int, ...) \
    if (mode != OFF) { char b[PATH_MAX]; \
        if (point(open_mut(flags) ? "creat" : "open", atpath(AT_FDCWD, path, b), open_mut(flags), 0)) return -1; } \
    return real_##NAME(path, flags, m); }
OPENLIKE(open)
OPENLIKE(open64)

#define OPENATLIKE(NAME) \
int NAME(int dfd, const char *path, int flags, ...) { \
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a);} \
    REAL(int, NAME, int, const char *, int, ...) \
    if (mode != OFF) { char b[PATH_MAX]; \
        if (point(open_mut(flags) ? "creat" : "open", atpath(dfd, path, b), open_mut(flags), 0)) return -1; } \
    return real_##NAME(dfd, path, flags, m); }
OPENATLIKE(openat)
OPENATLIKE(openat64)

FILE *fopen64(const char *path, const char *md)
{
    REAL(FILE *, fopen64, const char *, const char *)
    if (mode != OFF) { char b[PATH_MAX]; int mut = md && (md[0] == 'w' || md[0] == 'a');
        if (point(mut ? "creat" : "open", atpath(AT_FDCWD, path, b), mut, 0)) return NULL; }
    return real_fopen64(path, md);
}
FILE *fopen(const char *path, const char *md)
{
    REAL(FILE *, fopen, const char *, const char *)
    if (mode != OFF) { char b[PATH_MAX]; int mut = md && (md[0] == 'w' || md[0] == 'a');
        if (point(mut ? "creat" : "open", atpath(AT_FDCWD, path, b), mut, 0)) return NULL; }
    return real_fopen(path, md);
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t)
    if (mode != OFF && fd > 2 && fd != logfd && fd != ctl_w) {
        char b[PATH_MAX];
        int r = point("write", fdpath(fd, b), 1, (long)n);
        if (r < 0) return -1;
        if (r > 0) {
            size_t want = (size_t)(r - 1) < n ? (size_t)(r - 1) : n, off = 0;
            while (off < want) {
                long w = raw_write(fd, (const char *)buf + off, want - off);
                if (w <= 0) break;
                off += w;
            }
            syscall(SYS_exit_group, 77);
        }
    }
    return real_write(fd, buf, n);
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
    if (mode != OFF) { char b[PATH_MAX]; int r = point("pwrite", fdpath(fd, b), 1, 0); if (r < 0) return -1; }
    return real_pwrite64(fd, buf, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int)
    if (mode != OFF) { char b[PATH_MAX]; int r = point("writev", fdpath(fd, b), 1, 0); if (r < 0) return -1; }
    return real_writev(fd, v, c);
}
ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t)
    if (mode == FAIL || mode == LOG || mode == SCHED) {
        if (fd > 2 && fd != ctl_r) { char b[PATH_MAX]; if (point("read", fdpath(fd, b), 0, (long)n)) return -1; }
    }
    return real_read(fd, buf, n);
}

/* data that the kernel copies from another file */
#define COPY(CALL) { \
        char b[PATH_MAX]; \
        int r = point("write", fdpath(out, b), 1, (long)(n > 4096 ? 4096 : n)); \
        if (r < 0) return -1; \
        if (r > 0) { if (r > 1) { n = r - 1; CALL; } syscall(SYS_exit_group, 77); } }
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    REAL(ssize_t, sendfile, int, int, off_t *, size_t)
    if (mode != OFF) COPY(real_sendfile(out, in, off, n))
    return real_sendfile(out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
    if (mode != OFF) COPY(real_sendfile64(out, in, off, n))
    return real_sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *o1, int out, off64_t *o2, size_t n, unsigned f)
{
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
    if (mode != OFF) COPY(real_copy_file_range(in, o1, out, o2, n, f))
    return real_copy_file_range(in, o1, out, o2, n, f);
}

int mkdir(const char *path, mode_t m)
{
    REAL(int, mkdir, const char *, mode_t)
    if (mode != OFF) { char b[PATH_MAX]; if (point("mkdir", atpath(AT_FDCWD, path, b), 1, 0)) return -1; }
    return real_mkdir(path, m);
}
int mkdirat(int d, const char *path, mode_t m)
{
    REAL(int, mkdirat, int, const char *, mode_t)
    if (mode != OFF) { char b[PATH_MAX]; if (point("mkdir", atpath(d, path, b), 1, 0)) return -1; }
    return real_mkdirat(d, path, m);
}
int unlink(const char *path)
{
    REAL(int, unlink, const char *)
    if (mode != OFF) { char b[PATH_MAX]; if (point("unlink", atpath(AT_FDCWD, path, b), 1, 0)) return -1; }
    return real_unlink(path);
}
int unlinkat(int d, const char *path, int f)
{
    REAL(int, unlinkat, int, const char *, int)
    if (mode != OFF) { char b[PATH_MAX]; if (point((f & AT_REMOVEDIR) ? "rmdir" : "unlink", atpath(d, path, b), 1, 0)) return -1; }
    return real_unlinkat(d, path, f);
}
int rmdir(const char *path)
{
    REAL(int, rmdir, const char *)
    if (mode != OFF) { char b[PATH_MAX]; if (point("rmdir", atpath(AT_FDCWD, path, b), 1, 0)) return -1; }
    return real_rmdir(path);
}
int rename(const char *a, const char *c)
{
    REAL(int, rename, const char *, const char *)
    if (mode != OFF) { char b[PATH_MAX]; if (point("rename", atpath(AT_FDCWD, c, b), 1, 0)) return -1; }
    return real_rename(a, c);
}
int renameat(int d1, const char *a, int d2, const char *c)
{
    REAL(int, renameat, int, const char *, int, const char *)
    if (mode != OFF) { char b[PATH_MAX]; if (point("rename", atpath(d2, c, b), 1, 0)) return -1; }
    return real_renameat(d1, a, d2, c);
}
int link(const char *a, const char *c)
{
    REAL(int, link, const char *, const char *)
    if (mode != OFF) { char b[PATH_MAX]; if (point("link", atpath(AT_FDCWD, c, b), 1, 0)) return -1; }
    return real_link(a, c);
}
int symlink(const char *a, const char *c)
{
    REAL(int, symlink, const char *, const char *)
    if (mode != OFF) { char b[PATH_MAX]; if (point("symlink", atpath(AT_FDCWD, c, b), 1, 0)) return -1; }
    return real_symlink(a, c);
}
int ftruncate64(int fd, off64_t n)
{
    REAL(int, ftruncate64, int, off64_t)
    if (mode != OFF) { char b[PATH_MAX]; if (point("ftruncate", fdpath(fd, b), 1, 0) < 0) return -1; }
    return real_ftruncate64(fd, n);
}
int fsync(int fd)
{
    REAL(int, fsync, int)
    if (mode != OFF) { char b[PATH_MAX]; if (point("fsync", fdpath(fd, b), 1, 0) < 0) return -1; }
    return real_fsync(fd);
}

#define STATLIKE(NAME) \
int NAME(const char *path, struct stat64 *st) { \
    REAL(int, NAME, const char *, struct stat64 *) \
    if (mode == FAIL || mode == SCHED || mode == LOG) { char b[PATH_MAX]; if (point("stat", atpath(AT_FDCWD, path, b), 0, 0)) return -1; } \
    return real_##NAME(path, st); }
STATLIKE(stat64)
STATLIKE(lstat64)
int stat(const char *path, struct stat *st)
{
    REAL(int, stat, const char *, struct stat *)
    if (mode == FAIL || mode == SCHED || mode == LOG) { char b[PATH_MAX]; if (point("stat", atpath(AT_FDCWD, path, b), 0, 0)) return -1; }
    return real_stat(path, st);
}
int lstat(const char *path, struct stat *st)
{
    REAL(int, lstat, const char *, struct stat *)
    if (mode == FAIL || mode == SCHED || mode == LOG) { char b[PATH_MAX]; if (point("stat", atpath(AT_FDCWD, path, b), 0, 0)) return -1; }
    return real_lstat(path, st);
}
int fstatat64(int d, const char *path, struct stat64 *st, int f)
{
    REAL(int, fstatat64, int, const char *, struct stat64 *, int)
    if ((mode == FAIL || mode == SCHED || mode == LOG) && path && path[0]) { char b[PATH_MAX]; if (point("stat", atpath(d, path, b), 0, 0)) return -1; }
    return real_fstatat64(d, path, st, f);
}
int access(const char *path, int m)
{
    REAL(int, access, const char *, int)
    if (mode == FAIL || mode == SCHED || mode == LOG) { char b[PATH_MAX]; if (point("access", atpath(AT_FDCWD, path, b), 0, 0)) return -1; }
    return real_access(path, m);
}
DIR *opendir(const char *path)
{
    REAL(DIR *, opendir, const char *)
    if (mode == FAIL || mode == SCHED || mode == LOG) { char b[PATH_MAX]; if (point("opendir", atpath(AT_FDCWD, path, b), 0, 0)) return NULL; }
    return real_opendir(path);
}
DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int)
    if (mode == FAIL || mode == SCHED || mode == LOG) { char b[PATH_MAX]; if (point("opendir", fdpath(fd, b), 0, 0) < 0) return NULL; }
    return real_fdopendir(fd);
}
