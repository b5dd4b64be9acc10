/* Disk seam: an LD_PRELOAD interposer over the libc calls that create or change
 * files.  Only files under one scratch prefix are tracked; every other call is
 * passed through untouched.  The simulator arms it (through ctypes) with one
 * fault to inject at the k-th tracked operation; everything it does is a
 * function of that arming, so one scenario is one exactly repeatable run.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { F_NONE = 0, F_CRASH = 1, F_TORN = 2, F_ENOSPC = 3, F_EIO = 4,
       F_SHORT = 5, F_EINTR = 6, F_EACCES = 7, F_SIGINT = 8 };
#define MAXFD 4096
#define CRASH_STATUS 77

static char prefix[1024];
static size_t plen;
static unsigned char tracked[MAXFD];
static long op_count;            /* tracked operations so far                */
static long fault_at = -1;       /* 0-based index of the faulty operation    */
static long fault_len = 1;       /* how many operations stay faulty          */
static int fault_kind;
static long fired;
static uint64_t trace_hash = 1469598103934665603ULL;
static long kinds[8];            /* open write trunc rename unlink mkdir ... */
static long first_hit = -1;
static int last_fault_op = -1;   /* kind of the operation that was hit       */

static void mix(uint64_t v)
{
    for (int i = 0; i < 8; i++) {
        trace_hash ^= (v >> (8 * i)) & 0xff;
        trace_hash *= 1099511628211ULL;
    }
}

void iof_arm(const char *p, int kind, long at, long len)
{
    snprintf(prefix, sizeof prefix, "%s", p ? p : "");
    plen = strlen(prefix);
    fault_kind = kind;
    fault_at = at;
    fault_len = len < 1 ? 1 : len;
    op_count = 0;
    fired = 0;
    last_fault_op = -1;
    first_hit = -1;
    trace_hash = 1469598103934665603ULL;
    memset(kinds, 0, sizeof kinds);
}
void iof_disarm(void) { plen = 0; prefix[0] = 0; fault_kind = F_NONE; fault_at = -1; }
long iof_ops(void) { return op_count; }
long iof_fired(void) { return fired; }
long iof_first(void) { return first_hit; }
int iof_hit(void) { return last_fault_op; }
uint64_t iof_trace(void) { return trace_hash; }
long iof_kind(int k) { return (k >= 0 && k < 8) ? kinds[k] : -1; }
int iof_present(void) { return 4242; }

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int ours_path(const char *p)
{
    return plen && p && strncmp(p, prefix, plen) == 0;
}
static int ours_fd(int fd) { return plen && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* Returns the fault to apply to this tracked operation (F_NONE: none). */
static int step(int opkind, uint64_t size)
{
    long n = op_count++;
    kinds[opkind]++;
    mix((uint64_t)opkind);
    mix(size);
    if (fault_kind == F_NONE || fault_at < 0) return F_NONE;
    if (n < fault_at || n >= fault_at + fault_len) return F_NONE;
    /* a full disk does not prevent removing or renaming files */
    if (fault_kind == F_ENOSPC && (opkind == 3 || opkind == 4)) return F_NONE;
    fired++;
    if (last_fault_op < 0) { last_fault_op = opkind; first_hit = n; }
    if (fault_kind == F_CRASH) _exit(CRASH_STATUS);
    if (fault_kind == F_SIGINT) { raise(SIGINT); return F_NONE; }
    return fault_kind;
}

/* Faults that make a metadata call (open/rename/unlink/...) fail. */
static int meta_fault(int f)
{
    switch (f) {
    case F_TORN: _exit(CRASH_STATUS);
    case F_ENOSPC: errno = ENOSPC; return 1;
    case F_EIO: errno = EIO; return 1;
    case F_EACCES: errno = EACCES; return 1;
    default: return 0;           /* short/EINTR do not apply */
    }
}

static int do_open(int (*real)(const char *, int, ...), const char *path, int flags, mode_t mode)
{
    int t = ours_path(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
    if (t && meta_fault(step(0, (uint64_t)flags))) return -1;
    int fd = real(path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = (unsigned char)t;
    return fd;
}
#define OPENARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...)
{ OPENARG; REAL(int, open, const char *, int, ...); return do_open(real_open, path, flags, m); }
int open64(const char *path, int flags, ...)
{ OPENARG; REAL(int, open64, const char *, int, ...); return do_open(real_open64, path, flags, m); }
int openat(int d, const char *path, int flags, ...)
{
    OPENARG; REAL(int, openat, int, const char *, int, ...);
    int t = ours_path(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
    if (t && meta_fault(step(0, (uint64_t)flags))) return -1;
    int fd = real_openat(d, path, flags, m);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = (unsigned char)t;
    return fd;
}
int openat64(int d, const char *path, int flags, ...)
{
    OPENARG; REAL(int, openat64, int, const char *, int, ...);
    int t = ours_path(path) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
    if (t && meta_fault(step(0, (uint64_t)flags))) return -1;
    int fd = real_openat64(d, path, flags, m);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = (unsigned char)t;
    return fd;
}
int close(int fd)
{
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    return real_close(fd);
}

#define DATA_FAULT(n, WRITE_HALF) do { \
    switch (step(1, (uint64_t)(n))) { \
    case F_TORN: { size_t h = (n) / 2; (void)h; if (h) { WRITE_HALF; } _exit(CRASH_STATUS); } \
    case F_ENOSPC: { errno = ENOSPC; return -1; } \
    case F_EIO: errno = EIO; return -1; \
    case F_EACCES: errno = EIO; return -1; \
    case F_EINTR: errno = EINTR; return -1; \
    case F_SHORT: if ((n) > 1) (n) = (n) / 2; break; \
    default: break; } } while (0)

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (ours_fd(fd)) DATA_FAULT(n, (void)!real_write(fd, b, h));
    return real_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
    if (ours_fd(fd)) DATA_FAULT(n, (void)!real_pwrite(fd, b, h, o));
    return real_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o)
{
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    if (ours_fd(fd)) DATA_FAULT(n, (void)!real_pwrite64(fd, b, h, o));
    return real_pwrite64(fd, b, n, o);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (ours_fd(out)) { if (n > (1u << 16)) n = 1u << 16; DATA_FAULT(n, (void)!real_sendfile(out, in, off, h)); }
    return real_sendfile(out, in, off, n);
}
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl)
{
    REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
    if (ours_fd(out)) { if (n > (1u << 16)) n = 1u << 16; DATA_FAULT(n, (void)!real_copy_file_range(in, oi, out, oo, h, fl)); }
    return real_copy_file_range(in, oi, out, oo, n, fl);
}
int ftruncate(int fd, off_t len)
{
    REAL(int, ftruncate, int, off_t);
    if (ours_fd(fd) && meta_fault(step(2, (uint64_t)len))) return -1;
    return real_ftruncate(fd, len);
}
int ftruncate64(int fd, off_t len)
{
    REAL(int, ftruncate64, int, off_t);
    if (ours_fd(fd) && meta_fault(step(2, (uint64_t)len))) return -1;
    return real_ftruncate64(fd, len);
}
int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    if ((ours_path(a) || ours_path(b)) && meta_fault(step(3, 0))) return -1;
    return real_rename(a, b);
}
int renameat(int x, const char *a, int y, const char *b)
{
    REAL(int, renameat, int, const char *, int, const char *);
    if ((ours_path(a) || ours_path(b)) && meta_fault(step(3, 0))) return -1;
    return real_renameat(x, a, y, b);
}
int link(const char *a, const char *b)
{
    REAL(int, link, const char *, const char *);
    if ((ours_path(a) || ours_path(b)) && meta_fault(step(3, 0))) return -1;
    return real_link(a, b);
}
int unlink(const char *a)
{
    REAL(int, unlink, const char *);
    if (ours_path(a) && meta_fault(step(4, 0))) return -1;
    return real_unlink(a);
}
int unlinkat(int d, const char *a, int f)
{
    REAL(int, unlinkat, int, const char *, int);
    if (ours_path(a) && meta_fault(step(4, 0))) return -1;
    return real_unlinkat(d, a, f);
}
int mkdir(const char *a, mode_t m)
{
    REAL(int, mkdir, const char *, mode_t);
    if (ours_path(a) && meta_fault(step(5, 0))) return -1;
    return real_mkdir(a, m);
}
