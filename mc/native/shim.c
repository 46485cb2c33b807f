/* Preloaded: makes a chosen write operation on files below a directory fail.
   mode 0: count only; 1: the n'th operation fails, once; 2: from the n'th operation on no file can grow (disk full);
   3: the process dies just before the n'th operation; 4: it dies in the middle of it (half of the data written);
   5, 6: the process pauses before, after the n'th operation (which may also be opening for writing, removing or renaming a file):
   it writes a byte to one pipe and reads one from another. 7: counts the operations of 5 and 6. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static int armed, mode;
static long target;
static volatile long count;
static int busy;
static char lastname[256], names[1 << 21];
static long used;

void flt_arm(const char *p, int m, long n) { snprintf(prefix, sizeof prefix, "%s", p); mode = m; target = n; count = 0; used = 0; armed = 1; }
long flt_count(void) { return count; }
/* names of the files of the operations so far, one line each (mode 0 only) */
const char *flt_names(void) { names[used] = 0; return names; }
static int pipe_out = -1, pipe_in = -1, hit;
void flt_pipes(int o, int i) { pipe_out = o; pipe_in = i; }

static void wait_here(void)
{
    char c = 'p';
    int e = errno;
    if (syscall(SYS_write, pipe_out, &c, 1) == 1)
        while (syscall(SYS_read, pipe_in, &c, 1) < 0 && errno == EINTR) ;
    errno = e;
}

static void after(void)
{
    if (hit) { hit = 0; wait_here(); }
}

void flt_disarm(void) { armed = 0; }

#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int tracked(int fd)
{
    char link[64], path[PATH_MAX];
    ssize_t n;
    if (!armed || busy || fd < 0) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    if (strncmp(path, prefix, strlen(prefix))) return 0;
    if (mode == 0) {
        const char *b = strrchr(path, '/');
        snprintf(lastname, sizeof lastname, "%.250s", b ? b + 1 : path);
    }
    return 1;
}

/* 0: go on, 1: fail, 2: die halfway */
static int event(int fd, off_t end)
{
    struct stat st;
    long k = ++count;
    if (mode == 0 && used + sizeof lastname + 2 < sizeof names) used += sprintf(names + used, "%s\n", lastname);
    if (mode == 1) return k == target;
    if (mode == 2) {
        if (k < target || end < 0) return 0;
        if (fstat(fd, &st)) return 0;
        return end > st.st_size;
    }
    if (mode == 5 && k == target) wait_here();
    if (mode == 6 && k == target) hit = 1;
    if (mode == 3 && k == target) _exit(77);
    if (mode == 4 && k == target) { if (end < 0) _exit(77); return 2; }
    return 0;
}

static off_t position(int fd, off_t len)
{
    off_t p = lseek(fd, 0, SEEK_CUR);
    return p < 0 ? -1 : p + len;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(write);
    if (tracked(fd)) {
        int e = event(fd, position(fd, n));
        if (e == 1) { errno = ENOSPC; return -1; }
        if (e == 2) { if (real(fd, buf, n / 2)) {} _exit(77); }
    }
    { ssize_t r = real(fd, buf, n); after(); return r; }
}

ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
{
    REAL(pwrite);
    if (tracked(fd)) {
        int e = event(fd, off + n);
        if (e == 1) { errno = ENOSPC; return -1; }
        if (e == 2) { if (real(fd, buf, n / 2, off)) {} _exit(77); }
    }
    { ssize_t r = real(fd, buf, n, off); after(); return r; }
}

ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
    REAL(pwrite64);
    if (tracked(fd)) {
        int e = event(fd, off + n);
        if (e == 1) { errno = ENOSPC; return -1; }
        if (e == 2) { if (real(fd, buf, n / 2, off)) {} _exit(77); }
    }
    { ssize_t r = real(fd, buf, n, off); after(); return r; }
}

ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    REAL(writev);
    if (tracked(fd)) {
        off_t len = 0;
        int i, e;
        for (i = 0; i < cnt; i++) len += iov[i].iov_len;
        e = event(fd, position(fd, len));
        if (e == 1) { errno = ENOSPC; return -1; }
        if (e == 2) _exit(77);
    }
    { ssize_t r = real(fd, iov, cnt); after(); return r; }
}

size_t fwrite(const void *buf, size_t size, size_t n, FILE *f)
{
    REAL(fwrite);
    if (armed && !busy) {
        int fd = fileno(f);
        if (tracked(fd)) {
            off_t p = ftello(f);
            int e = event(fd, p < 0 ? -1 : p + (off_t)(size * n));
            if (e == 1) { errno = ENOSPC; return 0; }
            if (e == 2) { if (real(buf, 1, size * n / 2, f)) {} fflush(f); _exit(77); }
        }
    }
    { size_t r = real(buf, size, n, f); after(); return r; }
}

int fsync(int fd)
{
    REAL(fsync);
    if (tracked(fd) && event(fd, -1)) { errno = EIO; return -1; }
    { int r = real(fd); after(); return r; }
}

int fdatasync(int fd)
{
    REAL(fdatasync);
    if (tracked(fd) && event(fd, -1)) { errno = EIO; return -1; }
    { int r = real(fd); after(); return r; }
}

int ftruncate(int fd, off_t n)
{
    REAL(ftruncate);
    if (tracked(fd) && event(fd, n)) { errno = ENOSPC; return -1; }
    { int r = real(fd, n); after(); return r; }
}

int ftruncate64(int fd, off64_t n)
{
    REAL(ftruncate64);
    if (tracked(fd) && event(fd, n)) { errno = ENOSPC; return -1; }
    { int r = real(fd, n); after(); return r; }
}

/* operations on names, for pausing only */
static int named(const char *path)
{
    char abs[2 * PATH_MAX];
    if (!armed || busy || mode < 5 || !path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(abs, sizeof abs, "%s/%s", cwd, path);
        path = abs;
    }
    return strncmp(path, prefix, strlen(prefix)) == 0;
}

#define OPEN(name) int name(const char *path, int flags, ...) \
{ \
    REAL(name); \
    mode_t m = 0; \
    int r, e; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if ((flags & O_ACCMODE) != O_RDONLY && named(path)) event(-1, -1); \
    r = real(path, flags, m); \
    e = errno; after(); errno = e; \
    return r; \
}
OPEN(open)
OPEN(open64)

int unlink(const char *path)
{
    REAL(unlink);
    int r, e;
    if (named(path)) event(-1, -1);
    r = real(path);
    e = errno; after(); errno = e;
    return r;
}

int rename(const char *a, const char *b)
{
    REAL(rename);
    int r, e;
    if (named(b)) event(-1, -1);
    r = real(a, b);
    e = errno; after(); errno = e;
    return r;
}

/* no time passes for a process which waits for a lock */
int usleep(useconds_t t)
{
    REAL(usleep);
    return armed && mode >= 5 ? 0 : real(t);
}

int nanosleep(const struct timespec *t, struct timespec *rest)
{
    REAL(nanosleep);
    return armed && mode >= 5 ? 0 : real(t, rest);
}
