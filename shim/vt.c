/* libvt: LD_PRELOAD shim used by the conformance drivers.
 *
 *  - virtual time: CLOCK_REALTIME / CLOCK_MONOTONIC are frozen and jump forward whenever the
 *    process would block (epoll, poll, select, sleep); signals and the end of the run can be planted at virtual instants;
 *  - file-system fault injection below one directory: die before (or half-way through) the n-th
 *    mutating system call;
 *  - file-system scheduling below one directory: ask a controller for permission before each relevant
 *    system call, so that interleavings of several processes are chosen by the harness.
 *
 * Everything is off until a driver calls the vt_* functions (through ctypes), so the shim is inert by default.
 * It only ever acts on the process it was loaded into.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef long long i64;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
static long sys6(long n, long a, long b, long c, long d, long e, long f) {
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* ------------------------------------------------------------------ virtual time */
static volatile int vt_on = 0;
static volatile i64 vt_real = 0;          /* ns since epoch */
static volatile i64 vt_mono = 0;          /* ns */
static volatile i64 vt_end = -1;          /* absolute real ns at which the process ends (exit 98) */
#define MAXEV 512
static struct { i64 at; int sig; int done; } vt_ev[MAXEV];
static int vt_nev = 0;
static i64 vt_advances = 0, vt_same = 0;

void vt_enable(i64 real_ns) { vt_real = real_ns; vt_mono = 1000000000000LL; vt_on = 1; }
void vt_disable(void) { vt_on = 0; }
i64 vt_now(void) { return vt_real; }
void vt_set_end(i64 real_ns) { vt_end = real_ns; }
void vt_signal_at(i64 real_ns, int sig) {
    if (vt_nev < MAXEV) { vt_ev[vt_nev].at = real_ns; vt_ev[vt_nev].sig = sig; vt_ev[vt_nev].done = 0; vt_nev++; }
}
void vt_clear_signals(void) { vt_nev = 0; }

static int next_ev(void) {
    int best = -1;
    for (int i = 0; i < vt_nev; i++)
        if (!vt_ev[i].done && (best < 0 || vt_ev[i].at < vt_ev[best].at)) best = i;
    return best;
}
static void jump(i64 t) {
    if (t > vt_real) { vt_mono += t - vt_real; vt_real = t; vt_advances++; }
    if (vt_end >= 0 && vt_real >= vt_end) _exit(98);
}
/* advance by up to ns; stops early (returns 1) when a planted signal was raised and stop_early is set */
static int advance(i64 ns, int stop_early) {
    i64 target = vt_real + ns;
    for (;;) {
        int e = next_ev();
        if (e >= 0 && vt_ev[e].at <= target) {
            vt_ev[e].done = 1;
            jump(vt_ev[e].at);
            raise(vt_ev[e].sig);
            if (stop_early) return 1;
            continue;
        }
        jump(target);
        return 0;
    }
}
void vt_advance(i64 ns) { if (vt_on) advance(ns, 0); }
void vt_set(i64 real_ns) { if (vt_on && real_ns > vt_real) advance(real_ns - vt_real, 0); }

/* at the k-th reading of the wall clock from now on, time has passed to real_ns */
static int vt_reads = 0, vt_jump_k = -1;
static i64 vt_jump_to = 0;
void vt_jump_at_read(int k, i64 real_ns) { vt_reads = 0; vt_jump_k = k; vt_jump_to = real_ns; }
int vt_read_count(void) { return vt_reads; }
static i64 wall(void) {
    if (vt_reads++ == vt_jump_k) jump(vt_jump_to);
    return vt_real;
}

static int virt_clock(clockid_t c, struct timespec *ts) {
    i64 v;
    switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = wall(); break;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: v = vt_mono; break;
    default: return 0;
    }
    ts->tv_sec = v / 1000000000LL;
    ts->tv_nsec = v % 1000000000LL;
    return 1;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (vt_on && virt_clock(c, ts)) return 0;
    return (int)sys6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    if (vt_on) { i64 v = wall(); if (tv) { tv->tv_sec = v / 1000000000LL; tv->tv_usec = v / 1000 % 1000000; } return 0; }
    return (int)sys6(SYS_gettimeofday, (long)tv, (long)tz, 0, 0, 0, 0);
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

static void sched_point(const char *op, const char *path);
static int sched_on(void);

int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
    if (vt_on) {
        i64 ns = rq->tv_sec * 1000000000LL + rq->tv_nsec;
        if (flags & TIMER_ABSTIME) {
            struct timespec now;
            clock_gettime(c, &now);
            ns -= now.tv_sec * 1000000000LL + now.tv_nsec;
        }
        if (sched_on()) sched_point("sleep", "");
        if (ns > 0) advance(ns, 0);
        return 0;
    }
    long r = raw6(SYS_clock_nanosleep, c, flags, (long)rq, (long)rm, 0, 0);
    return (int)-r;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
    if (r) { errno = r; return -1; }
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = { us / 1000000, (long)(us % 1000000) * 1000 };
    return nanosleep(&ts, NULL);
}

/* blocking waits: poll the real thing without waiting; if nothing is there, time jumps */
static int wait_jump(i64 timeout_ns) {   /* returns 0: timed out, 1: interrupted by a planted signal */
    if (timeout_ns < 0) {
        int e = next_ev();
        if (e < 0) {
            if (vt_end >= 0) { jump(vt_end); }
            _exit(97);                     /* nothing can ever happen again */
        }
        return advance(vt_ev[e].at > vt_real ? vt_ev[e].at - vt_real : 0, 1) ? 1 : 1;
    }
    return advance(timeout_ns, 1);
}
static long epoll_virtual(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss, size_t ssz, int pw) {
    long n = pw ? sys6(SYS_epoll_pwait, epfd, (long)ev, max, 0, (long)ss, (long)ssz)
                : sys6(SYS_epoll_pwait, epfd, (long)ev, max, 0, 0, 8);
    if (n != 0 || timeout == 0) return n;
    if (wait_jump(timeout < 0 ? -1 : (i64)timeout * 1000000LL)) { errno = EINTR; return -1; }
    return 0;
}
int epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) {
    if (vt_on) return (int)epoll_virtual(epfd, ev, max, timeout, NULL, 8, 0);
    return (int)sys6(SYS_epoll_pwait, epfd, (long)ev, max, timeout, 0, 8);
}
int epoll_pwait(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss) {
    if (vt_on) return (int)epoll_virtual(epfd, ev, max, timeout, ss, 8, 1);
    return (int)sys6(SYS_epoll_pwait, epfd, (long)ev, max, timeout, (long)ss, 8);
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (vt_on) {
        if (n == SYS_epoll_wait) return epoll_virtual((int)a, (struct epoll_event *)b, (int)c, (int)d, NULL, 8, 0);
        if (n == SYS_epoll_pwait) return epoll_virtual((int)a, (struct epoll_event *)b, (int)c, (int)d, (const sigset_t *)e, (size_t)f, 1);
    }
    return sys6(n, a, b, c, d, e, f);
}
int poll(struct pollfd *fds, nfds_t nf, int timeout) {
    if (vt_on && timeout != 0) {
        struct timespec z = {0, 0};
        long n = sys6(SYS_ppoll, (long)fds, (long)nf, (long)&z, 0, 8, 0);
        if (n != 0) return (int)n;
        if (wait_jump(timeout < 0 ? -1 : (i64)timeout * 1000000LL)) { errno = EINTR; return -1; }
        return 0;
    }
    return (int)sys6(SYS_poll, (long)fds, (long)nf, timeout, 0, 0, 0);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    if (vt_on && (!tv || tv->tv_sec || tv->tv_usec)) {
        i64 ns = tv ? tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1;
        struct timeval z = {0, 0};
        long k = sys6(SYS_select, n, (long)r, (long)w, (long)x, (long)&z, 0);
        if (k != 0) return (int)k;
        if (wait_jump(ns)) { errno = EINTR; return -1; }
        return 0;
    }
    return (int)sys6(SYS_select, n, (long)r, (long)w, (long)x, (long)tv, 0);
}

/* ------------------------------------------------------------------ file-system faults and scheduling */
#define MAXFD 4096
static char fs_prefix[1024];
static size_t fs_plen = 0;
static int fs_mode = 0;                    /* 1: count/crash, 2: scheduled */
static int fs_count = 0, fs_crash_at = -1, fs_torn = 0;
static int fs_full_at = -1;                /* from this operation on the disk is full: what would create or write fails */
static int sch_req = -1, sch_grant = -1;
static char *fd_name[MAXFD];
#define MAXLOG 4096
static char fs_log[MAXLOG][96];
static int fs_nlog = 0;

void vt_fs_count(const char *prefix) { snprintf(fs_prefix, sizeof fs_prefix, "%s", prefix); fs_plen = strlen(fs_prefix); fs_mode = 1; fs_count = 0; fs_crash_at = -1; fs_full_at = -1; fs_nlog = 0; }
void vt_fs_crash(const char *prefix, int at, int torn) { vt_fs_count(prefix); fs_crash_at = at; fs_torn = torn; }
void vt_fs_full(const char *prefix, int at, int torn) { vt_fs_count(prefix); fs_full_at = at; fs_torn = torn; }
void vt_fs_sched(const char *prefix, int req, int grant) { snprintf(fs_prefix, sizeof fs_prefix, "%s", prefix); fs_plen = strlen(fs_prefix); sch_req = req; sch_grant = grant; fs_mode = 2; }
void vt_fs_off(void) { fs_mode = 0; }
int vt_fs_ops(void) { return fs_count; }
const char *vt_fs_op(int i) { return i < fs_nlog ? fs_log[i] : ""; }

static int sched_on(void) { return fs_mode == 2; }
static const char *tracked(const char *p) {
    if (!fs_mode || !p || strncmp(p, fs_prefix, fs_plen)) return NULL;
    const char *b = strrchr(p, '/');
    return b ? b + 1 : p;
}
static const char *tracked_fd(int fd) { return fs_mode && fd >= 0 && fd < MAXFD ? fd_name[fd] : NULL; }

static void sched_point(const char *op, const char *path) {
    char buf[160];
    int n = snprintf(buf, sizeof buf, "%s %.100s %lld\n", op, *path ? path : "-", vt_real);
    raw6(SYS_write, sch_req, (long)buf, n, 0, 0, 0);
    char c;
    long r;
    do { r = raw6(SYS_read, sch_grant, (long)&c, 1, 0, 0, 0); } while (r == -EINTR);
    if (r != 1) _exit(95);
}
/* returns 1 when a torn write has to be performed before dying */
static int point(const char *op, const char *path, int mutating) {
    if (fs_mode == 2) { sched_point(op, path); return 0; }
    if (fs_mode == 1 && mutating) {
        if (fs_nlog < MAXLOG) { snprintf(fs_log[fs_nlog], sizeof fs_log[0], "%s %s", op, path); fs_nlog++; }
        int k = fs_count++;
        if (fs_full_at >= 0 && k >= fs_full_at && !strcmp(op, "write")) {
            int t = fs_torn;
            fs_torn = 0;                       /* what still fits is written once */
            return t ? 3 : 2;
        }
        if (k == fs_crash_at) {
            if (fs_torn && !strcmp(op, "write")) return 1;
            _exit(96);
        }
    }
    return 0;
}
/* another process rewrites a file while it is being read: before the k-th read after an opening, unless everything has been read already */
static char swap_target[1024], swap_source[1024];
static int swap_k = -1, swap_fd = -1, swap_reads = 0, swap_done = 0;
static i64 swap_got = 0, swap_when = 0;
void vt_swap_at_read(const char *target, const char *source, int k) {
    snprintf(swap_target, sizeof swap_target, "%s", target);
    snprintf(swap_source, sizeof swap_source, "%s", source);
    swap_k = k; swap_fd = -1; swap_done = 0;
}
i64 vt_swapped(void) { return swap_done ? swap_when : -1; }
void vt_swap_off(void) { swap_k = -1; }
static void swap_opened(const char *path, int flags, int fd) {
    if (swap_k >= 0 && fd >= 0 && (flags & O_ACCMODE) == O_RDONLY && !strcmp(path, swap_target)) { swap_fd = fd; swap_reads = 0; swap_got = 0; }
}
static void swap_reading(int fd) {
    if (swap_k < 0 || fd < 0 || fd != swap_fd) return;
    struct stat st;
    if (swap_reads++ != swap_k) return;
    if (swap_k > 0 && (fstat(fd, &st) || swap_got >= st.st_size)) return;
    char buf[65536];
    long n, in = raw6(SYS_openat, AT_FDCWD, (long)swap_source, O_RDONLY, 0, 0, 0);
    long out = raw6(SYS_openat, AT_FDCWD, (long)swap_target, O_WRONLY | O_TRUNC, 0, 0, 0);
    while (in >= 0 && out >= 0 && (n = raw6(SYS_read, in, (long)buf, sizeof buf, 0, 0, 0)) > 0) raw6(SYS_write, out, (long)buf, n, 0, 0, 0);
    raw6(SYS_close, in, 0, 0, 0, 0, 0);
    raw6(SYS_close, out, 0, 0, 0, 0, 0);
    swap_k = -1; swap_done = 1; swap_when = vt_real;
}
ssize_t read(int fd, void *buf, size_t n) {
    swap_reading(fd);
    ssize_t r = (ssize_t)sys6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
    if (r > 0 && fd == swap_fd) swap_got += r;
    return r;
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    const char *b = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) ? tracked(path) : NULL;
    if (b) point("open", b, 1);
    int fd = (int)sys6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0);
    swap_opened(path, flags, fd);
    if (fd >= 0 && fd < MAXFD) {
        free(fd_name[fd]);
        fd_name[fd] = b ? strdup(b) : NULL;
    }
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t write(int fd, const void *buf, size_t n) {
    const char *b = tracked_fd(fd);
    int t = b ? point("write", b, 1) : 0;
    if (t == 1) { sys6(SYS_write, fd, (long)buf, (long)(n / 2), 0, 0, 0); _exit(96); }
    if (t == 3 && n > 1) return sys6(SYS_write, fd, (long)buf, (long)(n / 2), 0, 0, 0);
    if (t) { errno = ENOSPC; return -1; }
    return sys6(SYS_write, fd, (long)buf, (long)n, 0, 0, 0);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) {
    const char *b = tracked_fd(fd);
    if (b && point("write", b, 1)) { sys6(SYS_pwrite64, fd, (long)buf, (long)(n / 2), o, 0, 0); _exit(96); }
    return sys6(SYS_pwrite64, fd, (long)buf, (long)n, o, 0, 0);
}
ssize_t sendfile64(int out, int in, off_t *o, size_t n) {
    const char *b = tracked_fd(out);
    if (b) point("sendfile", b, 1);
    return sys6(SYS_sendfile, out, in, (long)o, (long)n, 0, 0);
}
int ftruncate64(int fd, off_t n) { const char *b = tracked_fd(fd); if (b) point("truncate", b, 1); return (int)sys6(SYS_ftruncate, fd, n, 0, 0, 0, 0); }
int truncate64(const char *p, off_t n) { const char *b = tracked(p); if (b) point("truncate", b, 1); return (int)sys6(SYS_truncate, (long)p, n, 0, 0, 0, 0); }
int rename(const char *a, const char *c) { const char *b = tracked(c); if (!b) b = tracked(a); if (b) point("rename", b, 1); return (int)sys6(SYS_rename, (long)a, (long)c, 0, 0, 0, 0); }
int renameat(int d, const char *a, int e, const char *c) { const char *b = tracked(c); if (!b) b = tracked(a); if (b) point("rename", b, 1); return (int)sys6(SYS_renameat, d, (long)a, e, (long)c, 0, 0); }
int link(const char *a, const char *c) { const char *b = tracked(c); if (b) point("link", b, 1); return (int)sys6(SYS_link, (long)a, (long)c, 0, 0, 0, 0); }
int unlink(const char *p) { const char *b = tracked(p); if (b) point("unlink", b, 1); return (int)sys6(SYS_unlink, (long)p, 0, 0, 0, 0, 0); }
int unlinkat(int d, const char *p, int f) { const char *b = tracked(p); if (b) point("unlink", b, 1); return (int)sys6(SYS_unlinkat, d, (long)p, f, 0, 0, 0); }
int mkdir(const char *p, mode_t m) { const char *b = tracked(p); if (b) point("mkdir", b, 1); return (int)sys6(SYS_mkdir, (long)p, m, 0, 0, 0, 0); }
int mkdirat(int d, const char *p, mode_t m) { const char *b = tracked(p); if (b) point("mkdir", b, 1); return (int)sys6(SYS_mkdirat, d, (long)p, m, 0, 0, 0); }
int flock(int fd, int op) { const char *b = tracked_fd(fd); if (b) point(op & LOCK_UN ? "unlock" : "lock", b, 0); return (int)sys6(SYS_flock, fd, op, 0, 0, 0, 0); }
static int do_fcntl(int fd, int cmd, long arg) {
    const char *b = tracked_fd(fd);
    if (b && (cmd == F_SETLK || cmd == F_SETLKW)) point(((struct flock *)arg)->l_type == F_UNLCK ? "unlock" : "lock", b, 0);
    return (int)sys6(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int close(int fd) {
    const char *b = tracked_fd(fd);
    if (fd == swap_fd) swap_fd = -1;
    if (b) point("close", b, 0);
    if (fd >= 0 && fd < MAXFD && fd_name[fd]) { free(fd_name[fd]); fd_name[fd] = NULL; }
    return (int)sys6(SYS_close, fd, 0, 0, 0, 0, 0);
}
