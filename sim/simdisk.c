/*
 * simdisk: LD_PRELOAD seam between the system under test and the disk.
 *
 * Every file operation on a path under one configured prefix (the scratch
 * directory of the running simulation) passes through here: raw descriptors,
 * C stdio (re-routed through fopencookie so that libc's own buffering reaches
 * the seam too), directory listings, rename/unlink/mkdir.  A fault plan that
 * is fully decided before the run (by the seeded generator, in Python) says
 * which matching operation fails, is cut short, or is the one the process
 * dies at.  All counters and the operation trace live in a MAP_SHARED mapping
 * so that a parent can read what a child did before it "crashed".
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum {
    K_OPEN_R = 1, K_OPEN_W = 2, K_READ = 4, K_WRITE = 8, K_TRUNC = 16, K_FSYNC = 32, K_CLOSE = 64,
    K_UNLINK = 128, K_RENAME = 256, K_MKDIR = 512, K_OPENDIR = 1024, K_READDIR = 2048, K_RMDIR = 4096,
    K_SEEK = 8192, K_CLOSE_W = 16384
};
enum { A_ERR = 1, A_SHORT = 2, A_TORN = 3, A_CRASH = 4, A_BUDGET = 5, A_EOF = 6 };

#define MAXFD 4096
#define MAXF 16
#define MAXTRACE 60000
#define PLEN 200

typedef struct { int kind; int action; int err; int persist; long nth; long arg; char path[PLEN]; long matched; long fired; } fault_t;
typedef struct { int kind; int fault; long len; long res; char path[56]; } trace_t;
typedef struct {
    int armed; int nfaults; fault_t f[MAXF];
    long nops; long ntrace; long bytes_written; long bytes_read; long growth; int crashed; int died;
    uint64_t hash;
    trace_t trace[MAXTRACE];
} shared_t;

static shared_t *S;
#define OPCAP 40000
static fault_t dead;
static char prefix[PLEN];
static size_t plen;
static long dirseed = -1;
static int crash_code = 99;
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

typedef struct { int tracked; int writable; char path[PLEN]; } fdinfo_t;
static fdinfo_t fds[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

/* ------------------------------------------------------------------ control */
int sd_init(void) {
    if (!S) {
        S = mmap(NULL, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) { S = NULL; return -1; }
    }
    return 0;
}
void sd_set_prefix(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix); }
void sd_reset(void) {
    pthread_mutex_lock(&mu);
    S->armed = 0; S->nfaults = 0; memset(S->f, 0, sizeof S->f); S->nops = 0; S->ntrace = 0; S->bytes_written = 0; S->bytes_read = 0; S->growth = 0; S->crashed = 0; S->died = 0; S->died = 0;
    S->hash = 1469598103934665603ULL;
    pthread_mutex_unlock(&mu);
}
void sd_clear_faults(void) { S->nfaults = 0; }
int sd_add_fault(int kind, int action, int err, int persist, long nth, long arg, const char *path) {
    if (S->nfaults >= MAXF) return -1;
    fault_t *f = &S->f[S->nfaults++];
    memset(f, 0, sizeof *f);
    f->kind = kind; f->action = action; f->err = err; f->persist = persist; f->nth = nth; f->arg = arg;
    snprintf(f->path, sizeof f->path, "%s", path ? path : "");
    return 0;
}
void sd_arm(int on) { S->armed = on; }
void sd_set_dirseed(long s) { dirseed = s; }
long sd_nops(void) { return S->nops; }
long sd_ntrace(void) { return S->ntrace; }
long sd_bytes_written(void) { return S->bytes_written; }
long sd_growth(void) { return S->growth; }
long sd_bytes_read(void) { return S->bytes_read; }
long sd_fired(int i) { return S->f[i].fired; }
long sd_matched(int i) { return S->f[i].matched; }
uint64_t sd_hash(void) { return S->hash; }
int sd_died(void) { return S->died; }
int sd_crashed(void) { return S->crashed; }
int sd_trace(long i, int *kind, int *fault, long *len, long *res, char *path) {
    if (i >= S->ntrace) return -1;
    trace_t *t = &S->trace[i];
    *kind = t->kind; *fault = t->fault; *len = t->len; *res = t->res; memcpy(path, t->path, sizeof t->path);
    return 0;
}
int sd_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += fds[i].tracked; return n; }

/* ------------------------------------------------------------------ helpers */
static int tracked_path(const char *p) {
    return S && plen && p && p[0] == '/' && strncmp(p, prefix, plen) == 0;
}
static int tracked_fd(int fd) { return S && fd >= 0 && fd < MAXFD && fds[fd].tracked; }
static void hmix(const void *p, size_t n) {
    const unsigned char *c = p; uint64_t h = S->hash;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    S->hash = h;
}
static const char *rel(const char *p) {
    if (strncmp(p, prefix, plen) == 0) { p += plen; while (*p == '/') p++; }
    return p;
}
static long rec(int kind, const char *path, long len, long res, int fault) {
    int e = errno;
    if (S->armed) {
        const char *r = rel(path);
        S->nops++;
        hmix(&kind, sizeof kind); hmix(&len, sizeof len); hmix(&res, sizeof res); hmix(&fault, sizeof fault); hmix(r, strlen(r));
        if (S->ntrace < MAXTRACE) {
            trace_t *t = &S->trace[S->ntrace++];
            t->kind = kind; t->len = len; t->res = res; t->fault = fault;
            size_t l = strlen(r); if (l > 55) { r += l - 55; }
            snprintf(t->path, sizeof t->path, "%s", r);
        }
    }
    errno = e;
    return res;
}
/* which fault, if any, hits this operation */
static fault_t *hit(int kind, const char *path, int *idx) {
    if (!S->armed) return NULL;
    fault_t *found = NULL;
    if (S->nops > OPCAP) {
        /* a library that keeps retrying for ever after an injected fault: the device now dies completely,
           which is one more legal fault and makes every run finite */
        for (int i = 0; i < S->nfaults; i++)
            if (S->f[i].fired) {
                dead.action = A_ERR; dead.err = EIO; dead.kind = ~0; *idx = i;
                if (!S->died) { S->died = 1; }
                return &dead;
            }
    }
    for (int i = 0; i < S->nfaults; i++) {
        fault_t *f = &S->f[i];
        if (!(f->kind & kind)) continue;
        if (f->path[0] && !strstr(path, f->path)) continue;
        long m = f->matched++;
        if (found) continue;
        if (f->action == A_BUDGET) { found = f; *idx = i; continue; }
        if (m == f->nth || (f->persist && m > f->nth)) { found = f; *idx = i; f->fired++; }
    }
    return found;
}
static void die(int kind, const char *path, long len, long res, int i) {
    S->crashed = 1;
    rec(kind, path, len, res, i + 1);
    _exit(crash_code);
}
/* simple operation: only error and crash make sense. returns 1 if the op must fail (errno set) */
static int simple_fault(int kind, const char *path, int *fi) {
    fault_t *f = hit(kind, path, fi);
    if (!f) { *fi = -1; return 0; }
    if (f->action == A_CRASH) die(kind, path, 0, -1, *fi);
    if (f->action == A_ERR || f->action == A_TORN) { errno = f->err; return 1; }
    if (f->action == A_BUDGET) {
        if ((kind & (K_MKDIR | K_TRUNC)) && S->growth >= f->arg) { f->fired++; errno = f->err; return 1; }
        *fi = -1; return 0;
    }
    *fi = -1;
    return 0;
}

/* ------------------------------------------------------------------ data */
static ssize_t do_write(int fd, const void *buf, size_t n, off64_t off, int use_off) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    const char *path = fds[fd].path;
    int fi = -1;
    fault_t *f = hit(K_WRITE, path, &fi);
    size_t m = n;
    int err = 0, die_after = 0;
    if (f) {
        if (f->action == A_ERR) { errno = f->err; return rec(K_WRITE, path, n, -1, fi + 1); }
        if (f->action == A_SHORT) { if (n > 1) m = 1 + (size_t)((f->arg < 0 ? -f->arg : f->arg) % (long)(n - 1)); }
        if (f->action == A_TORN) { m = n ? (size_t)(f->arg % (long)n) : 0; err = f->err; }
        if (f->action == A_CRASH) { m = f->arg < 0 ? 0 : (n ? (size_t)(f->arg % (long)(n + 1)) : 0); die_after = 1; }
        if (f->action == A_BUDGET) {
            struct stat64 st; off64_t end = use_off ? off : lseek64(fd, 0, SEEK_CUR);
            int fl = fcntl64(fd, F_GETFL);
            if (fstat64(fd, &st) != 0) st.st_size = 0;
            if (fl & O_APPEND) end = st.st_size;
            /* only growth consumes space: overwriting allocated blocks of a full disk succeeds */
            long room = (long)(st.st_size - end); if (room < 0) room = 0;
            long left = f->arg - S->growth + room;
            if (left < 0) left = 0;
            if ((long)n > left) {
                f->fired++;
                m = left;
                if (m == 0) { errno = f->err; return rec(K_WRITE, path, n, -1, fi + 1); }
            } else fi = -1;
        }
        if (f->action == A_EOF) fi = -1;
    }
    ssize_t r = 0;
    struct stat64 s0; off64_t size0 = fstat64(fd, &s0) == 0 ? s0.st_size : 0;
    if (m || !n) {
        r = use_off ? real_pwrite64(fd, buf, m, off) : real_write(fd, buf, m);
    }
    if (r > 0 && S->armed) { struct stat64 s1; if (fstat64(fd, &s1) == 0 && s1.st_size > size0) S->growth += s1.st_size - size0; }
    if (r > 0 && S->armed) { S->bytes_written += r; if (r <= 4096) hmix(buf, r); }
    if (die_after) die(K_WRITE, path, n, r, fi);
    if (err) { errno = err; return rec(K_WRITE, path, n, -1, fi + 1); }
    return rec(K_WRITE, path, n, r, fi + 1);
}
static ssize_t do_read(int fd, void *buf, size_t n, off64_t off, int use_off) {
    REAL(ssize_t, read, int, void *, size_t);
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    const char *path = fds[fd].path;
    int fi = -1;
    fault_t *f = hit(K_READ, path, &fi);
    size_t m = n;
    if (f) {
        if (f->action == A_ERR || f->action == A_TORN) { errno = f->err; return rec(K_READ, path, n, -1, fi + 1); }
        if (f->action == A_SHORT) { if (n > 1) m = 1 + (size_t)((f->arg < 0 ? -f->arg : f->arg) % (long)(n - 1)); }
        if (f->action == A_EOF) return rec(K_READ, path, n, 0, fi + 1);
        if (f->action == A_CRASH) die(K_READ, path, n, -1, fi);
        if (f->action == A_BUDGET) fi = -1;
    }
    ssize_t r = use_off ? real_pread64(fd, buf, m, off) : real_read(fd, buf, m);
    if (r > 0 && S->armed) S->bytes_read += r;
    return rec(K_READ, path, n, r, fi + 1);
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!tracked_fd(fd)) return real_write(fd, b, n);
    pthread_mutex_lock(&mu); ssize_t r = do_write(fd, b, n, 0, 0); int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!tracked_fd(fd)) return real_pwrite64(fd, b, n, o);
    pthread_mutex_lock(&mu); ssize_t r = do_write(fd, b, n, o, 1); int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!tracked_fd(fd)) return real_read(fd, b, n);
    pthread_mutex_lock(&mu); ssize_t r = do_read(fd, b, n, 0, 0); int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (!tracked_fd(fd)) return real_pread64(fd, b, n, o);
    pthread_mutex_lock(&mu); ssize_t r = do_read(fd, b, n, o, 1); int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return read(fd, b, n); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t l) { (void)l; return pread64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!tracked_fd(fd)) return real_writev(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, readv, int, const struct iovec *, int);
    if (!tracked_fd(fd)) return real_readv(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    if (tracked_fd(o) || tracked_fd(i)) { errno = EINVAL; return -1; }
    return real_sendfile64(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (tracked_fd(o) || tracked_fd(i)) { errno = EXDEV; return -1; }
    return real_copy_file_range(i, oi, o, oo, n, fl);
}

/* ------------------------------------------------------------------ open/close */
static void track(int fd, const char *path, int flags) {
    if (fd >= 0 && fd < MAXFD) {
        fds[fd].tracked = 1;
        fds[fd].writable = (flags & O_ACCMODE) != O_RDONLY;
        snprintf(fds[fd].path, PLEN, "%s", path);
    }
}
static int do_open(const char *path, int flags, mode_t mode) {
    REAL(int, open64, const char *, int, ...);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (flags & O_DIRECTORY) return real_open64(path, flags, mode);
    int kind = w ? K_OPEN_W : K_OPEN_R, fi = -1;
    if (simple_fault(kind, path, &fi)) return rec(kind, path, 0, -1, fi + 1);
    int fd = real_open64(path, flags, mode);
    track(fd, path, flags);
    rec(kind, path, 0, fd < 0 ? -errno : 0, 0);
    return fd;
}
#define OPENBODY(name) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open64(const char *path, int flags, ...) {
    OPENBODY(open64)
    REAL(int, open64, const char *, int, ...);
    if (!tracked_path(path)) return real_open64(path, flags, mode);
    pthread_mutex_lock(&mu); int r = do_open(path, flags, mode); int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
int open(const char *path, int flags, ...) {
    OPENBODY(open)
    return open64(path, flags, mode);
}
int openat64(int d, const char *path, int flags, ...) {
    OPENBODY(openat64)
    REAL(int, openat64, int, const char *, int, ...);
    if (!tracked_path(path)) return real_openat64(d, path, flags, mode);
    return open64(path, flags, mode);
}
int openat(int d, const char *path, int flags, ...) {
    OPENBODY(openat)
    return openat64(d, path, flags, mode);
}
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat(const char *p, mode_t m) { return creat64(p, m); }
int __open_2(const char *p, int f) { return open64(p, f); }
int __open64_2(const char *p, int f) { return open64(p, f); }
int __openat_2(int d, const char *p, int f) { return openat64(d, p, f); }
int __openat64_2(int d, const char *p, int f) { return openat64(d, p, f); }

int close(int fd) {
    REAL(int, close, int);
    if (!tracked_fd(fd)) return real_close(fd);
    pthread_mutex_lock(&mu);
    char path[PLEN]; memcpy(path, fds[fd].path, PLEN);
    int kind = fds[fd].writable ? (K_CLOSE_W) : K_CLOSE;
    fds[fd].tracked = 0;
    int fi = -1;
    int bad = simple_fault(kind, path, &fi), e = errno;
    int r = real_close(fd);
    if (bad) { r = -1; errno = e; } else e = errno;
    rec(kind, path, 0, r, bad ? fi + 1 : 0);
    pthread_mutex_unlock(&mu);
    errno = e;
    return r;
}
static int dupinfo(int from, int to) {
    if (to >= 0 && to < MAXFD) { if (tracked_fd(from)) fds[to] = fds[from]; else fds[to].tracked = 0; }
    return to;
}
int dup(int fd) { REAL(int, dup, int); return dupinfo(fd, real_dup(fd)); }
int dup2(int a, int b) { REAL(int, dup2, int, int); return dupinfo(a, real_dup2(a, b)); }
int dup3(int a, int b, int f) { REAL(int, dup3, int, int, int); return dupinfo(a, real_dup3(a, b, f)); }
int fcntl64(int fd, int cmd, ...) {
    REAL(int, fcntl64, int, int, ...);
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    int r = real_fcntl64(fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupinfo(fd, r);
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    return fcntl64(fd, cmd, arg);
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    if (!tracked_fd(fd)) return real_ftruncate64(fd, n);
    pthread_mutex_lock(&mu);
    int fi = -1, r;
    if (simple_fault(K_TRUNC, fds[fd].path, &fi)) r = rec(K_TRUNC, fds[fd].path, n, -1, fi + 1);
    else r = rec(K_TRUNC, fds[fd].path, n, real_ftruncate64(fd, n), 0);
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    REAL(int, fsync, int);
    if (!tracked_fd(fd)) return real_fsync(fd);
    pthread_mutex_lock(&mu);
    int fi = -1, r;
    if (simple_fault(K_FSYNC, fds[fd].path, &fi)) r = rec(K_FSYNC, fds[fd].path, 0, -1, fi + 1);
    else r = rec(K_FSYNC, fds[fd].path, 0, 0, 0);
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
int fdatasync(int fd) { if (tracked_fd(fd)) return fsync(fd); REAL(int, fdatasync, int); return real_fdatasync(fd); }

/* ------------------------------------------------------------------ names */
#define NAMEOP1(fname, K) \
int fname(const char *p) { \
    REAL(int, fname, const char *); \
    if (!tracked_path(p)) return real_##fname(p); \
    pthread_mutex_lock(&mu); int fi = -1, r; \
    if (simple_fault(K, p, &fi)) r = rec(K, p, 0, -1, fi + 1); \
    else { r = real_##fname(p); rec(K, p, 0, r < 0 ? -errno : 0, 0); } \
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return r; }
NAMEOP1(unlink, K_UNLINK)
NAMEOP1(rmdir, K_RMDIR)
int unlinkat(int d, const char *p, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    if (!tracked_path(p)) return real_unlinkat(d, p, fl);
    return (fl & AT_REMOVEDIR) ? rmdir(p) : unlink(p);
}
int remove(const char *p) {
    REAL(int, remove, const char *);
    if (!tracked_path(p)) return real_remove(p);
    return unlink(p);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (!tracked_path(p)) return real_mkdir(p, m);
    pthread_mutex_lock(&mu); int fi = -1, r;
    if (simple_fault(K_MKDIR, p, &fi)) r = rec(K_MKDIR, p, 0, -1, fi + 1);
    else { r = real_mkdir(p, m); rec(K_MKDIR, p, 0, r < 0 ? -errno : 0, 0); }
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t);
    if (!tracked_path(p)) return real_mkdirat(d, p, m);
    return mkdir(p, m);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (!tracked_path(a) && !tracked_path(b)) return real_rename(a, b);
    pthread_mutex_lock(&mu); int fi = -1, r;
    if (simple_fault(K_RENAME, b, &fi)) r = rec(K_RENAME, b, 0, -1, fi + 1);
    else { r = real_rename(a, b); rec(K_RENAME, b, 0, r < 0 ? -errno : 0, 0); }
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (!tracked_path(a) && !tracked_path(b)) return real_renameat(x, a, y, b);
    return rename(a, b);
}

/* ------------------------------------------------------------------ directory listings */
typedef struct simdir { DIR *d; struct dirent64 *e; int n, pos; struct simdir *next; char path[PLEN]; } simdir;
static simdir *dirs;
static int cmpd(const void *a, const void *b) { return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name); }
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    REAL(struct dirent64 *, readdir64, DIR *);
    if (!tracked_path(p)) return real_opendir(p);
    pthread_mutex_lock(&mu);
    int fi = -1;
    DIR *d = NULL;
    if (simple_fault(K_OPENDIR, p, &fi)) { rec(K_OPENDIR, p, 0, -1, fi + 1); goto out; }
    d = real_opendir(p);
    rec(K_OPENDIR, p, 0, d ? 0 : -errno, 0);
    if (d) {
        simdir *s = calloc(1, sizeof *s);
        int cap = 16; s->e = malloc(cap * sizeof *s->e); s->d = d;
        snprintf(s->path, PLEN, "%s", p);
        struct dirent64 *e;
        while ((e = real_readdir64(d))) {
            if (s->n == cap) { cap *= 2; s->e = realloc(s->e, cap * sizeof *s->e); }
            size_t l = e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e;
            memset(&s->e[s->n], 0, sizeof *e);
            memcpy(&s->e[s->n++], e, l);
        }
        qsort(s->e, s->n, sizeof *s->e, cmpd);
        if (dirseed >= 0) {
            uint64_t x = (uint64_t)dirseed * 6364136223846793005ULL + 1442695040888963407ULL;
            for (int i = s->n - 1; i > 0; i--) {
                x = x * 6364136223846793005ULL + 1442695040888963407ULL;
                int j = (int)((x >> 33) % (uint64_t)(i + 1));
                struct dirent64 t = s->e[i]; s->e[i] = s->e[j]; s->e[j] = t;
            }
        }
        s->next = dirs; dirs = s;
    }
out:;
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return d;
}
static simdir *finddir(DIR *d) { for (simdir *s = dirs; s; s = s->next) if (s->d == d) return s; return NULL; }
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    simdir *s = dirs ? finddir(d) : NULL;
    if (!s) return real_readdir64(d);
    pthread_mutex_lock(&mu);
    int fi = -1; struct dirent64 *r = NULL;
    if (simple_fault(K_READDIR, s->path, &fi)) rec(K_READDIR, s->path, s->pos, -1, fi + 1);
    else {
        int e0 = errno;
        if (s->pos < s->n) r = &s->e[s->pos++];
        if (r) rec(K_READDIR, r->d_name, s->pos, 0, 0);
        errno = e0;
    }
    int e = errno; pthread_mutex_unlock(&mu); errno = e; return r;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) {
    REAL(void, rewinddir, DIR *);
    simdir *s = dirs ? finddir(d) : NULL;
    if (s) s->pos = 0;
    real_rewinddir(d);
}
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    pthread_mutex_lock(&mu);
    for (simdir **pp = &dirs; *pp; pp = &(*pp)->next)
        if ((*pp)->d == d) { simdir *s = *pp; *pp = s->next; free(s->e); free(s); break; }
    pthread_mutex_unlock(&mu);
    return real_closedir(d);
}

/* ------------------------------------------------------------------ stdio */
#define MAXCOOKIE 1024
typedef struct { FILE *fp; int fd; } cookie_t;
static cookie_t *cookies[MAXCOOKIE];
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((cookie_t *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    /* what libc's own file back end does: loop until done or error */
    size_t done = 0;
    while (done < n) {
        ssize_t r = write(((cookie_t *)c)->fd, b + done, n - done);
        if (r < 0) break;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w) {
    off64_t r = lseek64(((cookie_t *)c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) {
    cookie_t *k = c;
    int r = close(k->fd), e = errno;
    for (int i = 0; i < MAXCOOKIE; i++) if (cookies[i] == k) cookies[i] = NULL;
    free(k);
    errno = e;
    return r;
}
static FILE *mkcookie(int fd, const char *mode) {
    cookie_t *k = calloc(1, sizeof *k);
    int slot = -1;
    for (int i = 0; i < MAXCOOKIE; i++) if (!cookies[i]) { slot = i; break; }
    if (slot < 0) { errno = EMFILE; free(k); return NULL; }
    k->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    char m[4] = { mode[0], 0, 0, 0 };
    if (strchr(mode, '+')) m[1] = '+';
    FILE *fp = fopencookie(k, m, io);
    if (!fp) { free(k); return NULL; }
    k->fp = fp;
    cookies[slot] = k;
    return fp;
}
FILE *fopen64(const char *p, const char *mode) {
    REAL(FILE *, fopen64, const char *, const char *);
    if (!tracked_path(p)) return real_fopen64(p, mode);
    int plus = strchr(mode, '+') != NULL, fl = 0;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else { errno = EINVAL; return NULL; }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    pthread_mutex_lock(&mu);
    int fd = open64(p, fl | O_CLOEXEC, 0666);
    FILE *fp = fd < 0 ? NULL : mkcookie(fd, mode);
    int e = errno; pthread_mutex_unlock(&mu); errno = e;
    return fp;
}
FILE *fopen(const char *p, const char *mode) {
    REAL(FILE *, fopen, const char *, const char *);
    if (!tracked_path(p)) return real_fopen(p, mode);
    return fopen64(p, mode);
}
FILE *fdopen(int fd, const char *mode) {
    REAL(FILE *, fdopen, int, const char *);
    if (!tracked_fd(fd)) return real_fdopen(fd, mode);
    pthread_mutex_lock(&mu);
    FILE *fp = mkcookie(fd, mode);
    int e = errno; pthread_mutex_unlock(&mu); errno = e;
    return fp;
}
static int cookie_fd(FILE *fp) {
    for (int i = 0; i < MAXCOOKIE; i++) if (cookies[i] && cookies[i]->fp == fp) return cookies[i]->fd;
    return -1;
}
int fileno(FILE *fp) {
    REAL(int, fileno, FILE *);
    if (S) { int fd = cookie_fd(fp); if (fd >= 0) return fd; }
    return real_fileno(fp);
}
int fileno_unlocked(FILE *fp) { return fileno(fp); }

/* ---------------------------------------------------------------- simulated memory: numpy's array data (NEP 49 handler)
 * The nth allocation of array data made while armed fails (once, or from then on); sizes and order are the program's own. */
static struct { char name[127]; unsigned char version; struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t);
    void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } a; } mem_handler;
static long mem_n, mem_nth = -1, mem_fired;
static int mem_armed, mem_persist;
/* room for a single number never runs out: numpy's ufuncs do not check for that */
static int mem_fail(size_t size) {
    if (!mem_armed || size <= 16) return 0;
    long n = mem_n++;
    if (mem_nth < 0 || n < mem_nth || (n > mem_nth && !mem_persist)) return 0;
    mem_fired++;
    return 1;
}
static void *nm_malloc(void *x, size_t n) { (void)x; return mem_fail(n) ? NULL : malloc(n ? n : 1); }
static void *nm_calloc(void *x, size_t k, size_t n) { (void)x; return mem_fail(k * n) ? NULL : calloc(k ? k : 1, n ? n : 1); }
static void *nm_realloc(void *x, void *p, size_t n) { (void)x; return mem_fail(n) ? NULL : realloc(p, n ? n : 1); }
static void nm_free(void *x, void *p, size_t n) { (void)x; (void)n; free(p); }
void *sd_mem_handler(void) {
    strcpy(mem_handler.name, "simulated memory");
    mem_handler.version = 1;
    mem_handler.a.m = nm_malloc; mem_handler.a.c = nm_calloc; mem_handler.a.r = nm_realloc; mem_handler.a.f = nm_free;
    return &mem_handler;
}
void sd_mem_arm(int on, long nth, int persist) { mem_armed = on; mem_nth = nth; mem_persist = persist; if (on) { mem_n = 0; mem_fired = 0; } }
long sd_mem_n(void) { return mem_n; }
long sd_mem_fired(void) { return mem_fired; }
