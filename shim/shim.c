/* LD_PRELOAD library used by the checks: counts, logs and disturbs the file operations a
 * command makes on files below HUFF_SHIM_ROOT. It never touches any other file.
 *
 *   HUFF_SHIM_ROOT  directory whose files are watched
 *   HUFF_SHIM_LOG   file the log is appended to
 *   HUFF_SHIM_PLAN  comma separated  SEL=ACT
 *       SEL: N (the N-th watched call, from 0) | * (all) | %M (every M-th)
 *       ACT: eERR  fail with errno ERR          EERR  ... this and every later call of its kind
 *            i     fail with EINTR              sK    transfer at most K bytes
 *            k     die (SIGKILL) before         K     die after the call
 *            h     like K, but half of the bytes are transferred
 *            dK    wait K microseconds before
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[4096];
static size_t rootlen;
static int logfd = -1;
struct rule { char sel; long n; char act; long arg; };
static struct rule rules[64];
static int nrules;
static long count;
static int sticky[16]; /* errno per kind */
static unsigned char watched[4096];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
enum { OPEN, READ, WRITE, SEEK, TRUNC, UNLINK, RENAME };
static const char *names[] = {"open", "read", "write", "seek", "trunc", "unlink", "rename"};

__attribute__((constructor)) static void init(void) {
    const char *r = getenv("HUFF_SHIM_ROOT"), *l = getenv("HUFF_SHIM_LOG"), *p = getenv("HUFF_SHIM_PLAN");
    if (!r || !l) return;
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
    while (p && *p && nrules < 64) {
        struct rule *q = &rules[nrules++];
        char *e = (char *)p;
        q->sel = '#';
        if (*p == '*') { q->sel = '*'; e++; }
        else if (*p == '%') { q->sel = '%'; q->n = strtol(p + 1, &e, 10); }
        else q->n = strtol(p, &e, 10);
        if (*e == '=') e++;
        q->act = *e ? *e++ : 0;
        q->arg = strtol(e, &e, 10);
        p = *e == ',' ? e + 1 : e;
        if (*e && *e != ',') break;
    }
}
static void say(const char *s, int n) { if (logfd >= 0) { ssize_t r = syscall(SYS_write, logfd, s, n); (void)r; } }
__attribute__((destructor)) static void fini(void) {
    if (logfd < 0) return;
    char b[8192];
    int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/status", O_RDONLY);
    ssize_t n = fd >= 0 ? syscall(SYS_read, fd, b, sizeof b - 1) : -1;
    if (n > 0) {
        b[n] = 0;
        char *h = strstr(b, "VmHWM:"), o[64];
        if (h) say(o, snprintf(o, sizeof o, "hwm %ld\n", strtol(h + 6, 0, 10)));
    }
    if (fd >= 0) syscall(SYS_close, fd);
}
static int below(const char *p) { return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }
static int path_below(int dirfd, const char *path) {
    char b[8192];
    if (path[0] == '/') return below(path);
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, b, sizeof b) < 0) return 0; return below(b); }
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, b, sizeof b - 1);
    if (n < 0) return 0;
    b[n] = 0;
    return below(b);
}
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

struct verdict { long idx; int err; size_t limit; int kill_after; };
static struct verdict decide(int kind, size_t len) {
    struct verdict v = {0, 0, len, 0};
    long wait = 0;
    pthread_mutex_lock(&mu);
    v.idx = count++;
    if (sticky[kind]) v.err = sticky[kind];
    for (int i = 0; i < nrules; i++) {
        struct rule *q = &rules[i];
        if (q->sel == '#' && q->n != v.idx) continue;
        if (q->sel == '%' && (q->n <= 0 || v.idx % q->n != q->n - 1)) continue;
        switch (q->act) {
            case 'E': sticky[kind] = q->arg; /* fallthrough */
            case 'e': v.err = q->arg; break;
            case 'i': if (kind == OPEN || kind == READ || kind == WRITE) v.err = EINTR; break;
            case 's': if ((kind == READ || kind == WRITE) && q->arg > 0 && v.limit > (size_t)q->arg) v.limit = q->arg; break;
            case 'k': say("killed before\n", 14); die();
            case 'K': v.kill_after = 1; break;
            case 'd': wait = q->arg; break;
            case 'h': v.kill_after = 1; if (v.limit > 1) v.limit /= 2; break;
        }
    }
    pthread_mutex_unlock(&mu);
    if (wait > 0) usleep(wait);
    return v;
}
static void done(struct verdict *v, int kind, int fd, size_t len, long res) {
    char b[160];
    int n = snprintf(b, sizeof b, "%ld %s %d %zu %ld%s\n", v->idx, names[kind], fd, len, res, v->err ? " !" : "");
    say(b, n);
    if (v->kill_after) die();
}
#define FAIL(v) do { errno = (v).err; return -1; } while (0)
static int is_watched(int fd) { return fd >= 0 && fd < 4096 && watched[fd]; }

/* path of an entry the command opened for writing, renamed, linked or removed */
static void touched(const char *what, int dirfd, const char *path) {
    char b[8192], d[4096] = "";
    ssize_t n = 0;
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) { n = syscall(SYS_getcwd, d, sizeof d - 1); if (n > 0) n--; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); n = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1); }
        if (n < 0) n = 0;
        d[n] = '/'; d[n + 1] = 0;
    }
    int k = snprintf(b, sizeof b, "touch %s ", what);
    for (const char *q = d; *q && k < 8000; q++) k += sprintf(b + k, "%02x", (unsigned char)*q);
    for (const char *q = path; *q && k < 8000; q++) k += sprintf(b + k, "%02x", (unsigned char)*q);
    b[k++] = '\n';
    say(b, k);
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (logfd < 0 || !path_below(dirfd, path)) {
        int fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd < 0) return -1; /* syscall() set errno */
        if (fd < 4096) watched[fd] = 0;
        return fd;
    }
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) touched("write", dirfd, path);
    struct verdict v = decide(OPEN, flags & O_ACCMODE);
    if (v.err) { done(&v, OPEN, -1, flags & O_ACCMODE, -1); FAIL(v); }
    long fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < 4096) watched[fd] = 1;
    done(&v, OPEN, fd, flags & O_ACCMODE, fd);
    errno = e;
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define IO(kind, fd, len, call) do { \
    struct verdict v = decide(kind, len); \
    if (v.err) { done(&v, kind, fd, len, -1); FAIL(v); } \
    size_t lim = v.limit; \
    ssize_t r = call; \
    int e = errno; done(&v, kind, fd, len, r); errno = e; \
    return r; } while (0)

/* what is said and heard */
static ssize_t talk(const char *way, ssize_t r) {
    int e = errno;
    char b[40];
    say(b, snprintf(b, sizeof b, "%s %zd\n", way, r));
    errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    if (!is_watched(fd)) return fd == 0 ? talk("in", syscall(SYS_read, fd, b, n)) : syscall(SYS_read, fd, b, n);
    IO(READ, fd, n, syscall(SYS_read, fd, b, lim));
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!is_watched(fd)) return fd == 1 ? talk("out", syscall(SYS_write, fd, b, n)) : syscall(SYS_write, fd, b, n);
    IO(WRITE, fd, n, syscall(SYS_write, fd, b, lim));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (!is_watched(fd)) return syscall(SYS_pread64, fd, b, n, o);
    IO(READ, fd, n, syscall(SYS_pread64, fd, b, lim, o));
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!is_watched(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
    IO(WRITE, fd, n, syscall(SYS_pwrite64, fd, b, lim, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static size_t total(const struct iovec *v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
static int cut(const struct iovec *v, int n, size_t lim, struct iovec *o) {
    int k = 0;
    for (int i = 0; i < n && k < 64 && lim; i++) { o[k] = v[i]; if (o[k].iov_len > lim) o[k].iov_len = lim; lim -= o[k].iov_len; k++; }
    return k;
}
ssize_t readv(int fd, const struct iovec *io, int n) {
    if (!is_watched(fd)) return fd == 0 ? talk("in", syscall(SYS_readv, fd, io, n)) : syscall(SYS_readv, fd, io, n);
    struct iovec o[64];
    size_t t = total(io, n);
    IO(READ, fd, t, syscall(SYS_readv, fd, o, cut(io, n, lim, o)));
}
ssize_t writev(int fd, const struct iovec *io, int n) {
    if (!is_watched(fd)) return fd == 1 ? talk("out", syscall(SYS_writev, fd, io, n)) : syscall(SYS_writev, fd, io, n);
    struct iovec o[64];
    size_t t = total(io, n);
    IO(WRITE, fd, t, syscall(SYS_writev, fd, o, cut(io, n, lim, o)));
}
off64_t lseek64(int fd, off64_t o, int w) {
    if (!is_watched(fd)) return syscall(SYS_lseek, fd, o, w);
    IO(SEEK, fd, 0, ((void)lim, syscall(SYS_lseek, fd, o, w)));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t n) {
    if (!is_watched(fd)) return syscall(SYS_ftruncate, fd, n);
    IO(TRUNC, fd, 0, ((void)lim, syscall(SYS_ftruncate, fd, n)));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int unlinkat(int d, const char *p, int fl) {
    if (logfd < 0 || !path_below(d, p)) return syscall(SYS_unlinkat, d, p, fl);
    touched("unlink", d, p);
    IO(UNLINK, -1, 0, ((void)lim, syscall(SYS_unlinkat, d, p, fl)));
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int renameat(int d, const char *p, int d2, const char *q) {
    if (logfd < 0 || !path_below(d, p)) return syscall(SYS_renameat2, d, p, d2, q, 0);
    touched("rename", d, p);
    touched("rename", d2, q);
    IO(RENAME, -1, 0, ((void)lim, syscall(SYS_renameat2, d, p, d2, q, 0)));
}
int rename(const char *p, const char *q) { return renameat(AT_FDCWD, p, AT_FDCWD, q); }
/* make kernel-side copies fall back to read and write, so that they are seen */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (is_watched(a) || is_watched(c)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, a, b, c, d, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (is_watched(o) || is_watched(i)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
int close(int fd) {
    if (fd >= 0 && fd < 4096) watched[fd] = 0;
    if (fd == logfd && fd >= 0) { errno = EBADF; return -1; }
    return syscall(SYS_close, fd);
}
