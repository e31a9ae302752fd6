// Preloaded into the server programs: another loopback address, a clock the check controls, and
// shorter long sleeps. Nothing else changes.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <netinet/in.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static volatile uint64_t *fake;
static uint32_t bind_ip;
static long nap_ms, send_ms, jitter, aborts;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
// Now and then a thread is held up for a moment where it meets others.
static __thread uint64_t rnd;
static uint64_t threads;
static void hold_up(void) {
    if (!jitter) return;
    if (!rnd) rnd = 88172645463325252ull + 0x9E3779B97F4A7C15ull * (__atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED) + jitter);
    rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
    if (rnd % 8) return;
    long us = (rnd >> 20) % (rnd >> 60 ? 200 : 3000);
    struct timespec t = {0, us * 1000};
    raw6(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
}
// The standard library reaches its locks and channels through this function.
long shim_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long shim_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if (n == SYS_futex) hold_up();
    return raw(n, a, b, c, d, e, f);
}

__attribute__((constructor)) static void init(void) {
    const char *fd = getenv("VH_CLOCK_FD"), *ip = getenv("VH_BIND_IP"), *nap = getenv("VH_NAP_MS"), *snd = getenv("VH_SEND_MS"), *jit = getenv("VH_JITTER"), *abo = getenv("VH_ABORTS");
    // End with the check that started this program.
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getenv("VH_NOFILE")) {
        struct rlimit l = {atol(getenv("VH_NOFILE")), atol(getenv("VH_NOFILE"))};
        setrlimit(RLIMIT_NOFILE, &l);
    }
    if (fd) {
        void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, atoi(fd), 0);
        if (p != MAP_FAILED) fake = p;
    }
    if (ip) bind_ip = inet_addr(ip);
    if (nap) nap_ms = atol(nap);
    if (snd) send_ms = atol(snd);
    if (jit) jitter = atol(jit);
    if (abo) aborts = atol(abo);
}

int bind(int fd, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_in in;
    if (bind_ip && a->sa_family == AF_INET && l >= sizeof in) {
        memcpy(&in, a, sizeof in);
        in.sin_addr.s_addr = bind_ip;
        return raw(SYS_bind, fd, (long)&in, sizeof in, 0, 0, 0);
    }
    return raw(SYS_bind, fd, (long)a, l, 0, 0, 0);
}

// A thread that is slow to get to its write.
ssize_t send(int fd, const void *b, size_t n, int flags) {
    if (send_ms) {
        struct timespec t = {send_ms / 1000, send_ms % 1000 * 1000000};
        raw6(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
    }
    hold_up();
    return raw(SYS_sendto, fd, (long)b, n, flags, 0, 0);
}
ssize_t recv(int fd, void *b, size_t n, int flags) {
    hold_up();
    return raw(SYS_recvfrom, fd, (long)b, n, flags, 0, 0);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
    // Every so often taking a connection fails, as it does for one whose client is gone already.
    static int held = -1, n;
    int r = __atomic_exchange_n(&held, -1, __ATOMIC_SEQ_CST);
    if (r >= 0) {
        if (a) getpeername(r, a, l);
        return r;
    }
    r = raw(SYS_accept4, fd, (long)a, (long)l, flags, 0, 0);
    hold_up();
    if (aborts && r >= 0 && __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) % aborts == 0) {
        __atomic_store_n(&held, r, __ATOMIC_SEQ_CST);
        errno = n / aborts % 3 ? ECONNABORTED : EMFILE;
        return -1;
    }
    return r;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
    if (c == CLOCK_REALTIME && fake && *fake) {
        uint64_t f = *fake;
        // How much memory is in use, when asked.
        if (fake[1] != fake[2]) {
            uint64_t n = fake[1];
            struct mallinfo2 m = mallinfo2();
            fake[3] = m.uordblks + m.hblkhd;
            fake[2] = n;
        }
        ts->tv_sec = f / 1000000000;
        ts->tv_nsec = f % 1000000000;
        return 0;
    }
    return raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
}

static int nap(const struct timespec *q, struct timespec *rest) {
    struct timespec t = {nap_ms / 1000, nap_ms % 1000 * 1000000};
    (void)q;
    if (rest) { rest->tv_sec = 0; rest->tv_nsec = 0; }
    return raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
}
int nanosleep(const struct timespec *q, struct timespec *rest) {
    if (nap_ms && q->tv_sec >= 1) return nap(q, rest);
    return raw(SYS_nanosleep, (long)q, (long)rest, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *q, struct timespec *rest) {
    struct timespec now, left;
    if (nap_ms && !flags && q->tv_sec >= 1) return nap(q, rest) ? errno : 0;
    if (nap_ms && (flags & TIMER_ABSTIME)) {
        raw(SYS_clock_gettime, c, (long)&now, 0, 0, 0, 0);
        left.tv_sec = q->tv_sec - now.tv_sec - (q->tv_nsec < now.tv_nsec);
        if (left.tv_sec >= 1 || (left.tv_sec == 0 && q->tv_nsec - now.tv_nsec + (q->tv_nsec < now.tv_nsec ? 1000000000L : 0) > 900000000L))
            return nap(0, 0) ? errno : 0;
    }
    return raw(SYS_clock_nanosleep, c, flags, (long)q, (long)rest, 0, 0) ? errno : 0;
}
