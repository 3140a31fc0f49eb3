/* Preloaded into lazyfs: makes chosen calls on files below SHIM_ROOT fail, fall short or take longer.
 *
 * The rules live in a file that is mapped shared (SHIM_CTL), so the driver arms and reads them while lazyfs runs.
 * Only calls on paths below SHIM_ROOT, or on descriptors opened from such paths, are touched.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN, K_READ, K_WRITE, K_TRUNC, K_SYNC, K_TIMES, K_RENAME, K_LINK, K_UNLINK, K_SYMLINK, K_MKDIR, K_RMDIR,
       K_STAT, K_OPENDIR, K_ACCESS, K_CHMOD, K_LSEEK, K_STATFS, K_N };

struct rule {
    int32_t err;      /* errno to fail with; 0: none */
    int32_t after;    /* how many calls still pass before it */
    int32_t times;    /* how many calls are hit then; -1: all */
    int32_t cut;      /* >0: the call does only its first n bytes instead of failing */
    int32_t calls;    /* seen while armed */
    int32_t hits;     /* acted on */
};

struct ctl {
    int32_t armed;
    int32_t delay_us; /* a random pause of up to so much before every call */
    int32_t delay_pm; /* with this probability (per mille) */
    int32_t lock_pm;  /* the same around lock operations (per ten thousand) */
    struct rule rule[32];
    int32_t delays;
    int32_t calls[32];
};

static struct ctl *ctl;
static const char *root;
static size_t rootlen;
#define MAXFD 65536
static unsigned char ours[MAXFD];
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static __thread uint64_t rnd;

__attribute__ ((constructor)) static void start (void) {
    const char *c = getenv ("SHIM_CTL");
    root = getenv ("SHIM_ROOT");
    if (!c || !root) return;
    rootlen = strlen (root);
    int (*o) (const char *, int, ...) = dlsym (RTLD_NEXT, "open");
    int fd = o (c, O_RDWR);
    if (fd < 0) return;
    void *p = mmap (0, sizeof (struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close (fd);
    if (p != MAP_FAILED) ctl = p;
}

static uint64_t dice (void) {
    if (!rnd) rnd = (uint64_t) (uintptr_t) &rnd ^ (uint64_t) time (0) * 0x9E3779B97F4A7C15ull;
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    return rnd;
}

static int under (const char *p) {
    return ctl && p && !strncmp (p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}

static int fd_ours (int fd) { return ctl && fd >= 0 && fd < MAXFD && ours[fd]; }

static void pause_some (void) {
    int us = __atomic_load_n (&ctl->delay_us, __ATOMIC_RELAXED);
    if (us <= 0) return;
    uint64_t rnd = dice ();
    if ((int) (rnd % 1000) >= ctl->delay_pm) return;
    struct timespec t = {0, (long) ((rnd >> 20) % (us + 1)) * 1000};
    nanosleep (&t, 0);
    __atomic_add_fetch (&ctl->delays, 1, __ATOMIC_RELAXED);
}

/* 0: go on; 1: fail, errno is set; 2: do only *cut bytes */
static int act (int kind, int mine, size_t *cut) {
    if (!mine) return 0;
    int e = errno;
    pause_some ();
    errno = e;
    __atomic_add_fetch (&ctl->calls[kind], 1, __ATOMIC_RELAXED);
    if (!__atomic_load_n (&ctl->armed, __ATOMIC_ACQUIRE)) return 0;
    struct rule *r = &ctl->rule[kind];
    int res = 0;
    pthread_mutex_lock (&mtx);
    r->calls++;
    if (r->err || r->cut > 0) {
        if (r->after > 0)
            r->after--;
        else if (r->times != 0) {
            if (r->times > 0) r->times--;
            if (r->cut > 0) {
                if (cut) {
                    *cut = r->cut;
                    r->hits++;
                    res = 2;
                }
            } else {
                r->hits++;
                e   = r->err;
                res = 1;
            }
        }
    }
    pthread_mutex_unlock (&mtx);
    errno = e;
    return res;
}

#define REAL(ret, name, ...)                     \
    static ret (*real) (__VA_ARGS__);            \
    if (!real) real = dlsym (RTLD_NEXT, name)

static int opened (int fd, int mine) {
    if (fd >= 0 && fd < MAXFD) ours[fd] = mine;
    return fd;
}

#define OPEN(fn)                                                     \
    int fn (const char *p, int flags, ...) {                         \
        va_list ap;                                                  \
        va_start (ap, flags);                                        \
        int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg (ap, int) : 0; \
        va_end (ap);                                                 \
        REAL (int, #fn, const char *, int, ...);                     \
        int mine = under (p);                                        \
        if (act (K_OPEN, mine, 0)) return -1;                        \
        return opened (real (p, flags, mode), mine);                 \
    }
OPEN (open)
OPEN (open64)

#define OPENAT(fn)                                                   \
    int fn (int d, const char *p, int flags, ...) {                  \
        va_list ap;                                                  \
        va_start (ap, flags);                                        \
        int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg (ap, int) : 0; \
        va_end (ap);                                                 \
        REAL (int, #fn, int, const char *, int, ...);                \
        int mine = under (p);                                        \
        if (act (K_OPEN, mine, 0)) return -1;                        \
        return opened (real (d, p, flags, mode), mine);              \
    }
OPENAT (openat)
OPENAT (openat64)

#define CREAT(fn)                                          \
    int fn (const char *p, mode_t m) {                     \
        REAL (int, #fn, const char *, mode_t);             \
        int mine = under (p);                              \
        if (act (K_OPEN, mine, 0)) return -1;              \
        return opened (real (p, m), mine);                 \
    }
CREAT (creat)
CREAT (creat64)

int close (int fd) {
    REAL (int, "close", int);
    if (fd >= 0 && fd < MAXFD) ours[fd] = 0;
    return real (fd);
}

#define IO(ret, fn, kind, ptr)                                             \
    ret fn (int fd, ptr b, size_t n) {                                     \
        REAL (ret, #fn, int, ptr, size_t);                                 \
        size_t cut = n;                                                    \
        if (act (kind, fd_ours (fd), &cut) == 1) return -1;                \
        return real (fd, b, cut < n ? cut : n);                            \
    }
IO (ssize_t, read, K_READ, void *)
IO (ssize_t, write, K_WRITE, const void *)

#define PIO(fn, kind, ptr, off)                                            \
    ssize_t fn (int fd, ptr b, size_t n, off o) {                          \
        REAL (ssize_t, #fn, int, ptr, size_t, off);                        \
        size_t cut = n;                                                    \
        if (act (kind, fd_ours (fd), &cut) == 1) return -1;                \
        return real (fd, b, cut < n ? cut : n, o);                         \
    }
PIO (pread, K_READ, void *, off_t)
PIO (pread64, K_READ, void *, off64_t)
PIO (pwrite, K_WRITE, const void *, off_t)
PIO (pwrite64, K_WRITE, const void *, off64_t)

/* a short vector write: the first bytes of the first buffers, through pwrite */
#define PVIO(fn, kind, one, off)                                           \
    ssize_t fn (int fd, const struct iovec *v, int c, off o) {             \
        REAL (ssize_t, #fn, int, const struct iovec *, int, off);          \
        static ssize_t (*real1) (int, void *, size_t, off);                \
        if (!real1) real1 = dlsym (RTLD_NEXT, one);                        \
        size_t cut = 0;                                                    \
        int a = act (kind, fd_ours (fd), &cut);                            \
        if (a == 1) return -1;                                             \
        if (a == 2) {                                                      \
            ssize_t done = 0;                                              \
            for (int i = 0; i < c && cut; i++) {                           \
                size_t n  = v[i].iov_len < cut ? v[i].iov_len : cut;       \
                ssize_t r = real1 (fd, v[i].iov_base, n, o + done);        \
                if (r < 0) return done ? done : -1;                        \
                done += r;                                                 \
                cut -= n;                                                  \
            }                                                              \
            return done;                                                   \
        }                                                                  \
        return real (fd, v, c, o);                                         \
    }
PVIO (pwritev, K_WRITE, "pwrite", off_t)
PVIO (pwritev64, K_WRITE, "pwrite64", off64_t)
PVIO (preadv, K_READ, "pread", off_t)
PVIO (preadv64, K_READ, "pread64", off64_t)

ssize_t writev (int fd, const struct iovec *v, int c) {
    REAL (ssize_t, "writev", int, const struct iovec *, int);
    if (act (K_WRITE, fd_ours (fd), 0) == 1) return -1;
    return real (fd, v, c);
}

#define FD1(fn, kind)                                  \
    int fn (int fd) {                                  \
        REAL (int, #fn, int);                          \
        if (act (kind, fd_ours (fd), 0)) return -1;    \
        return real (fd);                              \
    }
FD1 (fsync, K_SYNC)
FD1 (fdatasync, K_SYNC)

#define FTR(fn, off)                                   \
    int fn (int fd, off n) {                           \
        REAL (int, #fn, int, off);                     \
        if (act (K_TRUNC, fd_ours (fd), 0)) return -1; \
        return real (fd, n);                           \
    }
FTR (ftruncate, off_t)
FTR (ftruncate64, off64_t)

#define TR(fn, off)                                    \
    int fn (const char *p, off n) {                    \
        REAL (int, #fn, const char *, off);            \
        if (act (K_TRUNC, under (p), 0)) return -1;    \
        return real (p, n);                            \
    }
TR (truncate, off_t)
TR (truncate64, off64_t)

int utimensat (int d, const char *p, const struct timespec t[2], int fl) {
    REAL (int, "utimensat", int, const char *, const struct timespec *, int);
    if (act (K_TIMES, under (p), 0)) return -1;
    return real (d, p, t, fl);
}

int futimens (int fd, const struct timespec t[2]) {
    REAL (int, "futimens", int, const struct timespec *);
    if (act (K_TIMES, fd_ours (fd), 0)) return -1;
    return real (fd, t);
}

#define P1(fn, kind)                                   \
    int fn (const char *p) {                           \
        REAL (int, #fn, const char *);                 \
        if (act (kind, under (p), 0)) return -1;       \
        return real (p);                               \
    }
P1 (unlink, K_UNLINK)
P1 (rmdir, K_RMDIR)

#define P2(fn, kind, test)                             \
    int fn (const char *a, const char *b) {            \
        REAL (int, #fn, const char *, const char *);   \
        if (act (kind, under (test), 0)) return -1;    \
        return real (a, b);                            \
    }
P2 (rename, K_RENAME, a)
P2 (link, K_LINK, a)
P2 (symlink, K_SYMLINK, b)

int renameat2 (int d, const char *a, int e, const char *b, unsigned fl) {
    REAL (int, "renameat2", int, const char *, int, const char *, unsigned);
    if (act (K_RENAME, under (a), 0)) return -1;
    return real (d, a, e, b, fl);
}

#define PM(fn, kind)                                   \
    int fn (const char *p, mode_t m) {                 \
        REAL (int, #fn, const char *, mode_t);         \
        if (act (kind, under (p), 0)) return -1;       \
        return real (p, m);                            \
    }
PM (mkdir, K_MKDIR)
PM (chmod, K_CHMOD)

int access (const char *p, int m) {
    REAL (int, "access", const char *, int);
    if (act (K_ACCESS, under (p), 0)) return -1;
    return real (p, m);
}

#define ST(fn, type)                                   \
    int fn (const char *p, struct type *s) {           \
        REAL (int, #fn, const char *, struct type *);  \
        if (act (K_STAT, under (p), 0)) return -1;     \
        return real (p, s);                            \
    }
ST (lstat, stat)
ST (lstat64, stat64)
ST (stat, stat)
ST (stat64, stat64)

DIR *opendir (const char *p) {
    REAL (DIR *, "opendir", const char *);
    if (act (K_OPENDIR, under (p), 0)) return 0;
    return real (p);
}

/* Pauses between critical sections: before a lock is asked for and after it is given back. */
static void between (void) {
    int pm = ctl ? __atomic_load_n (&ctl->lock_pm, __ATOMIC_RELAXED) : 0;
    if (pm <= 0) return;
    uint64_t d = dice ();
    if ((int) (d % 10000) >= pm) return;
    int e = errno;
    if ((d >> 16) % 4 == 0)
        sched_yield ();
    else {
        struct timespec t = {0, (long) ((d >> 20) % (ctl->delay_us + 1)) * 1000};
        nanosleep (&t, 0);
    }
    __atomic_add_fetch (&ctl->delays, 1, __ATOMIC_RELAXED);
    errno = e;
}

#define LOCK(fn, type)                                          \
    static int (*real_##fn) (type *);                           \
    int fn (type *m) {                                          \
        if (!real_##fn) real_##fn = dlsym (RTLD_NEXT, #fn);     \
        between ();                                             \
        return real_##fn (m);                                   \
    }
#define UNLOCK(fn, type)                                        \
    static int (*real_##fn) (type *);                           \
    int fn (type *m) {                                          \
        if (!real_##fn) real_##fn = dlsym (RTLD_NEXT, #fn);     \
        int r = real_##fn (m);                                  \
        between ();                                             \
        return r;                                               \
    }
LOCK (pthread_mutex_lock, pthread_mutex_t)
UNLOCK (pthread_mutex_unlock, pthread_mutex_t)
LOCK (pthread_rwlock_rdlock, pthread_rwlock_t)
LOCK (pthread_rwlock_wrlock, pthread_rwlock_t)
UNLOCK (pthread_rwlock_unlock, pthread_rwlock_t)
