/* Linked into the FlashMQ binary under test (never into /repo).  Gives the harness a controllable clock,
 * a quiescence signal (epoll entry/activity counters) and I/O fault / crash points.
 * With FMQ_SHIM unset everything passes straight through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

enum { S_ENABLE, S_REAL, S_MONO, S_TICK, S_CAP, S_ACT, S_NTHR, S_IOCNT, S_IOFAIL, S_IOMODE, S_IODONE, S_ENTRIES = 64, S_MAXTHR = 64,
       S_IOLOG = 128, S_IOLOGMAX = 1024, S_DIRTY = 1200, S_DIRTYMAX = 400 };

static _Atomic int64_t *S;
static char io_prefix[512];
static __thread int my_idx = -1;

__attribute__((constructor)) static void shim_init(void)
{
    const char *p = getenv("FMQ_SHIM");
    const char *pre = getenv("FMQ_SHIM_IODIR");
    if (pre) snprintf(io_prefix, sizeof io_prefix, "%s", pre);
    if (!p || S) return;
    prctl(PR_SET_PDEATHSIG, SIGKILL);       /* do not outlive the test */
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(NULL, 16384, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) S = m;
    if (pre && !getenv("FMQ_SHIM_XFSZ")) signal(SIGXFSZ, SIG_IGN);    /* over the file size limit: a failing write, not a signal */
}

/* Files (by inode) with data that no fsync has made durable yet: lost at a power failure. */
static void mark(int fd, int dirty)
{
    struct stat st;
    if (!S || fstat(fd, &st) < 0) return;
    for (int i = 0; i < S_DIRTYMAX; i++)
    {
        if (S[S_DIRTY + i] == (int64_t)st.st_ino) { if (!dirty) S[S_DIRTY + i] = 0; return; }
    }
    if (!dirty) return;
    for (int i = 0; i < S_DIRTYMAX; i++)
    {
        if (S[S_DIRTY + i] == 0) { S[S_DIRTY + i] = st.st_ino; return; }
    }
}

#define REAL(ret, name, args) static ret (*real) args; if (!real) real = (ret (*) args)dlsym(RTLD_NEXT, #name)

int clock_gettime(clockid_t id, struct timespec *ts)
{
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    if (!S) shim_init();
    if (S && S[S_ENABLE])
    {
        int64_t v;
        if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = S[S_REAL];
        else if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_RAW)
        {
            int64_t tick = S[S_TICK];
            if (tick) { v = atomic_fetch_add(&S[S_MONO], tick); atomic_fetch_add(&S[S_REAL], tick); }
            else v = S[S_MONO];
        }
        else return real(id, ts);
        ts->tv_sec = v / 1000000000LL;
        ts->tv_nsec = v % 1000000000LL;
        return 0;
    }
    return real(id, ts);
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

int epoll_wait(int epfd, struct epoll_event *ev, int maxev, int timeout)
{
    REAL(int, epoll_wait, (int, struct epoll_event *, int, int));
    if (!S) return real(epfd, ev, maxev, timeout);
    if (my_idx < 0)
    {
        int i = (int)atomic_fetch_add(&S[S_NTHR], 1);
        my_idx = i < S_MAXTHR ? i : S_MAXTHR - 1;
    }
    atomic_fetch_add(&S[S_ENTRIES + my_idx], 1);
    int64_t cap = S[S_CAP];
    int rc;
    if (cap > 0 && (timeout < 0 || timeout > 0))
    {
        static int (*pwait2)(int, struct epoll_event *, int, const struct timespec *, const sigset_t *);
        static int tried;
        if (!tried) { pwait2 = (void *)dlsym(RTLD_NEXT, "epoll_pwait2"); tried = 1; }
        int64_t us = timeout < 0 ? cap : ((int64_t)timeout * 1000 < cap ? (int64_t)timeout * 1000 : cap);
        struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
        rc = -1; errno = ENOSYS;
        if (pwait2) rc = pwait2(epfd, ev, maxev, &ts, NULL);
        if (rc < 0 && errno == ENOSYS) rc = real(epfd, ev, maxev, 1);
    }
    else
        rc = real(epfd, ev, maxev, timeout);
    if (rc != 0) { int e = errno; atomic_fetch_add(&S[S_ACT], 1); errno = e; }
    return rc;
}

/* ---- I/O fault points: only for files below FMQ_SHIM_IODIR ---------------------------------------------------- */
/* S_IOMODE: 1 = fail the chosen operation with ENOSPC/EIO, 2 = kill the process before it, 3 = kill after it,
 * 4 = write: short write then fail.   S_IOFAIL: index (0-based) of the operation, -1 = never.
 * 5 = fail this and every later operation. */

static int fd_in_scope(int fd)
{
    if (!S || !io_prefix[0]) return 0;
    char lnk[64], buf[512];
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(lnk, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    return strncmp(buf, io_prefix, strlen(io_prefix)) == 0;
}
static int path_in_scope(const char *p) { return S && io_prefix[0] && p && strncmp(p, io_prefix, strlen(io_prefix)) == 0; }

/* returns 0: go on normally; 1: fail; 2: short then fail */
static int io_point(int kind)
{
    if (!S || S[S_IOFAIL] == -2) return 0;
    int64_t n = atomic_fetch_add(&S[S_IOCNT], 1);
    if (n < S_IOLOGMAX) S[S_IOLOG + n] = kind;
    int64_t at = S[S_IOFAIL];
    if (at < 0) return 0;
    int mode = (int)S[S_IOMODE];
    if (mode == 5 && n >= at) { S[S_IODONE] = 1; return 1; }
    if (n != at) return 0;
    S[S_IODONE] = 1;
    if (mode == 1) return 1;
    if (mode == 2) kill(getpid(), SIGKILL);
    if (mode == 4) return 2;
    return 0;
}
static void io_after(int64_t n)
{
    if (S && S[S_IOMODE] == 3 && S[S_IOFAIL] == n) kill(getpid(), SIGKILL);
}
static int64_t io_now(void) { return S ? S[S_IOCNT] - 1 : -9; }

ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, (int, const void *, size_t));
    if (S && io_prefix[0] && fd > 2 && fd_in_scope(fd))
    {
        int r = io_point('w');
        int64_t me = io_now();
        if (r == 1) { errno = ENOSPC; return -1; }
        if (r == 2) { if (n > 1) real(fd, b, n / 2); errno = ENOSPC; return -1; }
        mark(fd, 1);
        ssize_t rc = real(fd, b, n);
        io_after(me);
        return rc;
    }
    return real(fd, b, n);
}

size_t fwrite(const void *restrict p, size_t sz, size_t n, FILE *restrict f)
{
    REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *));
    if (S && io_prefix[0] && f && fileno(f) > 2 && fd_in_scope(fileno(f)))
    {
        int r = io_point('W');
        int64_t me = io_now();
        if (r == 1) { errno = ENOSPC; return 0; }
        if (r == 2) { size_t k = sz * n / 2; if (k) real(p, 1, k, f); errno = ENOSPC; return 0; }
        mark(fileno(f), 1);
        size_t rc = real(p, sz, n, f);
        io_after(me);
        return rc;
    }
    return real(p, sz, n, f);
}

int fflush(FILE *f)
{
    REAL(int, fflush, (FILE *));
    if (S && io_prefix[0] && f && fileno(f) > 2 && fd_in_scope(fileno(f)))
    {
        if (io_point('f')) { errno = ENOSPC; return EOF; }
        int64_t me = io_now();
        mark(fileno(f), 1);
        int rc = real(f);
        io_after(me);
        return rc;
    }
    return real(f);
}

int fclose(FILE *f)
{
    REAL(int, fclose, (FILE *));
    if (S && io_prefix[0] && f && fileno(f) > 2 && fd_in_scope(fileno(f)))
    {
        int r = io_point('c');
        int64_t me = io_now();
        int rc = real(f);
        if (r) { errno = ENOSPC; return EOF; }
        io_after(me);
        return rc;
    }
    return real(f);
}

int fsync(int fd)
{
    REAL(int, fsync, (int));
    if (S && io_prefix[0] && fd_in_scope(fd))
    {
        if (io_point('s')) { errno = EIO; return -1; }
        int64_t me = io_now();
        int rc = real(fd);
        if (rc == 0) mark(fd, 0);
        io_after(me);
        return rc;
    }
    return real(fd);
}

int fdatasync(int fd)
{
    REAL(int, fdatasync, (int));
    if (S && io_prefix[0] && fd_in_scope(fd))
    {
        if (io_point('s')) { errno = EIO; return -1; }
        int64_t me = io_now();
        int rc = real(fd);
        if (rc == 0) mark(fd, 0);
        io_after(me);
        return rc;
    }
    return real(fd);
}

int open(const char *path, int flags, ...)
{
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    if ((flags & O_CREAT) && path_in_scope(path))
    {
        if (io_point('o')) { errno = ENOSPC; return -1; }
        int64_t me = io_now();
        int rc = real(path, flags, mode);
        io_after(me);
        return rc;
    }
    return real(path, flags, mode);
}

int rename(const char *a, const char *b)
{
    REAL(int, rename, (const char *, const char *));
    if (path_in_scope(a) || path_in_scope(b))
    {
        if (io_point('r')) { errno = EIO; return -1; }
        int64_t me = io_now();
        int rc = real(a, b);
        io_after(me);
        return rc;
    }
    return real(a, b);
}
