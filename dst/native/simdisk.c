/* Simulated disk: interposes the file calls of the process (Python's and libsndfile's alike) for
 * paths below one directory and injects the planned faults. Everything else passes through.
 *
 * A plan is a list of faults {op, k, action, value}: at the k-th call of kind `op` on simulated
 * files since arming, do `action`. In addition a quota limits the bytes that can still be written. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <limits.h>

enum { OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_SYNC, OP_META, NOPS };
enum { A_ERR, A_SHORT, A_CRASH };
#define MAXF 32
#define MAXFD 4096
typedef struct { int op; long k; int action; int value; int fired; } fault;

static char prefix[PATH_MAX];
static size_t plen;
static fault faults[MAXF];
static int nf, on;
static long count[NOPS], injected, nbytes, quota;
static unsigned char tracked[MAXFD];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

void simdisk_arm(const char *dir) {
    memset(count, 0, sizeof count);
    memset(tracked, 0, sizeof tracked);
    nf = 0; injected = 0; nbytes = 0; quota = -1;
    strncpy(prefix, dir, sizeof prefix - 1);
    plen = strlen(prefix);
    on = 1;
}
void simdisk_add(int op, long k, int action, int value) {
    if (nf < MAXF) { fault f = { op, k, action, value, 0 }; faults[nf++] = f; }
}
void simdisk_quota(long q) { quota = q; }
void simdisk_off(void) { on = 0; }
long simdisk_count(int op) { return count[op]; }
long simdisk_injected(void) { return injected; }
long simdisk_bytes(void) { return nbytes; }
int simdisk_fired(int i) { return i < nf ? faults[i].fired : 0; }
int simdisk_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += tracked[i]; return n; }

static fault *hit(int op) {
    if (!on) return NULL;
    long c = ++count[op];
    for (int i = 0; i < nf; i++)
        if (faults[i].op == op && faults[i].k == c) { faults[i].fired = 1; injected++; return &faults[i]; }
    return NULL;
}
static int mine(const char *p) {
    if (!on || !p || !plen) return 0;
    if (p[0] == '/') return strncmp(p, prefix, plen) == 0 && (p[plen] == '/' || p[plen] == 0);
    char cwd[PATH_MAX];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    return strncmp(cwd, prefix, plen) == 0;
}
static int isfd(int fd) { return on && fd >= 0 && fd < MAXFD && tracked[fd]; }
static void track(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; }

static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    REAL(int, openat64, int, const char *, int, ...);
    int m = mine(p) && !(flags & O_DIRECTORY);
    if (m) {
        fault *f = hit((flags & O_ACCMODE) == O_RDONLY ? OP_OPENR : OP_OPENW);
        if (f) {
            if (f->action == A_CRASH) _exit(137);
            if (f->action == A_ERR) { errno = f->value; return -1; }
        }
    }
    int fd = real_openat64(dirfd, p, flags, mode);
    if (m && fd >= 0) track(fd);
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* how many of n bytes go through; -1: fail with errno; crash happens after the partial transfer */
static ssize_t gate(int op, size_t n, int *crash) {
    fault *f = hit(op);
    *crash = 0;
    size_t lim = n;
    if (f) {
        if (f->action == A_ERR) { errno = f->value; return -1; }
        if (n > 0) lim = f->value < 0 ? n : (size_t)(((double)n * f->value) / 1000.0);
        if (f->action == A_CRASH) *crash = 1;
        else if (lim < 1 && n > 0) lim = 1;
    }
    if (op == OP_WRITE && quota >= 0 && nbytes + (long)lim > quota) {
        long left = quota - nbytes;
        if (left <= 0 && n > 0) { injected++; errno = ENOSPC; return -1; }
        if ((long)lim > left) lim = left;
        injected++;
    }
    return lim;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!isfd(fd)) return real_write(fd, b, n);
    int crash;
    ssize_t m = gate(OP_WRITE, n, &crash);
    if (m < 0) return -1;
    ssize_t r = (m > 0 || n == 0) ? real_write(fd, b, m) : 0;
    if (r > 0) nbytes += r;
    if (crash) _exit(137);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!isfd(fd)) return real_pwrite64(fd, b, n, o);
    int crash;
    ssize_t m = gate(OP_WRITE, n, &crash);
    if (m < 0) return -1;
    ssize_t r = real_pwrite64(fd, b, m, o);
    if (r > 0) nbytes += r;
    if (crash) _exit(137);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!isfd(fd) || c < 1) return real_writev(fd, v, c);
    return write(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!isfd(fd)) return real_read(fd, b, n);
    int crash;
    ssize_t m = gate(OP_READ, n, &crash);
    if (m < 0) return -1;
    if (crash) _exit(137);
    return real_read(fd, b, m);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (!isfd(fd)) return real_pread64(fd, b, n, o);
    int crash;
    ssize_t m = gate(OP_READ, n, &crash);
    if (m < 0) return -1;
    if (crash) _exit(137);
    return real_pread64(fd, b, m, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
int close(int fd) {
    REAL(int, close, int);
    if (!isfd(fd)) return real_close(fd);
    fault *f = hit(OP_CLOSE);
    if (f && f->action == A_CRASH) _exit(137);
    tracked[fd] = 0;
    int r = real_close(fd);          /* as on Linux, the descriptor is gone even if close fails */
    if (f && f->action == A_ERR) { errno = f->value; return -1; }
    return r;
}
#define SYNC(name, sig, ...) int name sig { static int (*real) sig; if (!real) real = (int (*) sig)dlsym(RTLD_NEXT, #name); \
    if (isfd(fd)) { fault *f = hit(OP_SYNC); if (f) { if (f->action == A_CRASH) _exit(137); if (f->action == A_ERR) { errno = f->value; return -1; } } } return real(__VA_ARGS__); }
SYNC(fsync, (int fd), fd)
SYNC(fdatasync, (int fd), fd)
SYNC(ftruncate, (int fd, off_t n), fd, n)
SYNC(ftruncate64, (int fd, off64_t n), fd, n)
static int meta(const char *p) {
    if (!mine(p)) return 0;
    fault *f = hit(OP_META);
    if (!f) return 0;
    if (f->action == A_CRASH) _exit(137);
    if (f->action == A_ERR) { errno = f->value; return -1; }
    return 0;
}
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); return meta(a) ? -1 : real_rename(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, renameat, int, const char *, int, const char *); return meta(a) ? -1 : real_renameat(x, a, y, b); }
int unlink(const char *a) { REAL(int, unlink, const char *); return meta(a) ? -1 : real_unlink(a); }
