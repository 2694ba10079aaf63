/* Native runtime for the harness: the rsym_* primitives read a replay file. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <pthread.h>

static void rt_exit(int c);
static FILE *rf;
static void die(int code, const char *what, const char *m, size_t n) {
    dprintf(2, "%s %.*s\n", what, (int)n, m);
    rt_exit(code);
}
void rt_open(const char *path) {
    rf = fopen(path, "r");
    if (!rf) die(70, "RSYM-ERROR", "open replay", 11);
}
static void next(char kind, const char *name, size_t nlen, char *val, size_t cap) {
    static char line[1 << 20];
    if (!rf || !fgets(line, sizeof line, rf)) die(78, "RSYM-END replay exhausted at", name, nlen);
    char k; char nm[256];
    int off = 0;
    if (sscanf(line, "%c %255s %n", &k, nm, &off) < 2 || k != kind || strlen(nm) != nlen || memcmp(nm, name, nlen)) {
        dprintf(2, "RSYM-MISMATCH wanted %c %.*s got %s", kind, (int)nlen, name, line);
        rt_exit(79);
    }
    size_t l = strcspn(line + off, "\r\n");
    if (l >= cap) die(70, "RSYM-ERROR", "long", 4);
    memcpy(val, line + off, l);
    val[l] = 0;
}
void rsym_sym(uint8_t *p, size_t len, const char *name, size_t nlen) {
    static char v[1 << 20];
    if (len == 0) { return; }
    next('S', name, nlen, v, sizeof v);
    for (size_t i = 0; i < len; i++) {
        unsigned b = 0;
        sscanf(v + 2 * i, "%2x", &b);
        p[i] = b;
    }
}
uint32_t rsym_choose(uint32_t n, const char *name, size_t nlen) {
    char v[64];
    (void)n;
    if (n <= 1) return 0;
    next('C', name, nlen, v, sizeof v);
    return strtoul(v, 0, 10);
}
void rsym_assume(bool c) { if (!c) die(77, "RSYM-ASSUME", "", 0); }
void rsym_fail(const char *m, size_t n) { die(101, "RSYM-VIOLATION", m, n); }
void rsym_assert(bool c, const char *m, size_t n) { if (!c) rsym_fail(m, n); }
void rsym_reach(const char *m, size_t n) { (void)m; (void)n; }
void rsym_end(void) { dprintf(2, "RSYM-OK end\n"); rt_exit(0); }
void rsym_log(const char *m, size_t n) { dprintf(2, "LOG %.*s\n", (int)n, m); }
uint64_t rsym_conc(uint64_t x) { return x; }
void rsym_argv_init(int n, char **v, char **e) { (void)n; (void)v; (void)e; }
uint64_t rsym_insts(void) { return 0; }
bool rsym_is_sym(uint64_t x) { (void)x; return false; }

/* Threads: real pthreads, exactly one of which holds the baton. */
#define MAXT 256
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT];
static volatile uint32_t baton = 0;
static uint32_t nthreads = 1;
static __thread uint32_t me = 0;
struct th { void (*f)(void *); void *arg; uint32_t id; };
static void await(uint32_t id) {
    pthread_mutex_lock(&mu);
    while (baton != id) pthread_cond_wait(&cv[id], &mu);
    pthread_mutex_unlock(&mu);
}
static void *tmain(void *p) {
    struct th t = *(struct th *)p;
    me = t.id;
    await(t.id);
    t.f(t.arg);
    die(70, "RSYM-ERROR", "thread fn returned", 18);
    return 0;
}
int rt_real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
uint32_t rsym_thread_new(void (*f)(void *), void *arg) {
    static int once;
    if (!once) { once = 1; for (int i = 0; i < MAXT; i++) pthread_cond_init(&cv[i], 0); }
    struct th *t = malloc(sizeof *t);
    t->f = f; t->arg = arg; t->id = nthreads++;
    pthread_t h;
    pthread_attr_t a;
    pthread_attr_init(&a);
    if (rt_real_pthread_create(&h, &a, tmain, t)) die(70, "RSYM-ERROR", "pthread_create", 14);
    return t->id;
}
void rsym_switch(uint32_t tid) {
    if (tid == me) return;
    pthread_mutex_lock(&mu);
    baton = tid;
    pthread_cond_signal(&cv[tid]);
    while (baton != me) pthread_cond_wait(&cv[me], &mu);
    pthread_mutex_unlock(&mu);
}
uint32_t rsym_cur(void) { return me; }

/* Interposition: once a scenario has booted the simulated kernel, the libc
 * calls of the code under test go there instead of to the real one. */
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/syscall.h>
static int sim;
void rt_sim_on(void) { sim = 1; }
static void rt_exit(int c) { for (;;) { long r; __asm__ volatile("syscall" : "=a"(r) : "a"((long)SYS_exit_group), "D"((long)c) : "rcx", "r11", "memory"); } }
static void *rt_real(const char *n) {
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) die(70, "RSYM-ERROR no real", n, strlen(n));
    return p;
}
#define A1 a
#define A2 a, b
#define A3 a, b, c
#define A4 a, b, c, d
#define A5 a, b, c, d, e
#define A6 a, b, c, d, e, f
#define P0 void
#define P1 long a
#define P2 long a, long b
#define P3 long a, long b, long c
#define P4 long a, long b, long c, long d
#define P5 long a, long b, long c, long d, long e
#define P6 long a, long b, long c, long d, long e, long f
/* All arguments are integers or pointers; results are int-like or long-like. */
#define F(ret, n, P, A) \
    ret simos_##n(P); \
    ret rt_i_##n(P) __asm__(#n); \
    ret rt_i_##n(P) { \
        static ret (*real)(P); \
        if (sim) return simos_##n(A); \
        if (!real) real = rt_real(#n); \
        return real(A); \
    }
#define F0(ret, n) \
    ret simos_##n(void); \
    ret rt_i_##n(void) __asm__(#n); \
    ret rt_i_##n(void) { \
        static ret (*real)(void); \
        if (sim) return simos_##n(); \
        if (!real) real = rt_real(#n); \
        return real(); \
    }
F0(void *, __errno_location)
F0(int, sched_yield)
F0(int, getpid)
F0(unsigned, getuid)
F0(unsigned, geteuid)
F0(int, fork)
F0(int, setsid)
F(long, getrandom, P3, A3)
F(int, clock_gettime, P2, A2)
F(int, nanosleep, P2, A2)
F(int, clock_nanosleep, P4, A4)
F(int, pthread_create, P4, A4)
F(int, pthread_join, P2, A2)
F(int, pthread_detach, P1, A1)
F(int, pthread_setname_np, P2, A2)
F(int, pthread_key_create, P2, A2)
F(int, pthread_key_delete, P1, A1)
F(int, pthread_setspecific, P2, A2)
F(int, __cxa_thread_atexit_impl, P3, A3)
F(long, sysconf, P1, A1)
F(int, close, P1, A1)
F(int, dup2, P2, A2)
F(int, tcgetattr, P2, A2)
F(int, tcsetattr, P3, A3)
F(int, isatty, P1, A1)
F(long, read, P3, A3)
F(long, recv, P4, A4)
F(long, write, P3, A3)
F(long, send, P4, A4)
F(long, writev, P3, A3)
F(int, poll, P3, A3)
F(int, socket, P3, A3)
F(int, socketpair, P4, A4)
F(int, pipe2, P2, A2)
F(int, bind, P3, A3)
F(int, listen, P2, A2)
F(int, connect, P3, A3)
F(int, accept4, P4, A4)
F(int, shutdown, P2, A2)
F(int, setsockopt, P5, A5)
F(int, getsockopt, P5, A5)
F(int, waitpid, P3, A3)
F(int, kill, P2, A2)
F(int, execvp, P2, A2)
F(int, getpwuid_r, P5, A5)
F(int, sigaction, P3, A3)
F(long, signal, P2, A2)
F(int, setuid, P1, A1)
F(int, setgid, P1, A1)
F(int, setgroups, P2, A2)
F(int, setpgid, P2, A2)
F(int, grantpt, P1, A1)
F(int, unlockpt, P1, A1)
F(int, ptsname_r, P3, A3)
F(long, lseek64, P3, A3)
F(int, stat64, P2, A2)
F(int, lstat64, P2, A2)
F(int, fstat64, P2, A2)
F(int, fstat, P2, A2)
F(int, statx, P5, A5)
F(int, mkdir, P2, A2)
F(int, unlink, P1, A1)
F(int, symlink, P2, A2)
F(int, chmod, P2, A2)
F(unsigned, umask, P1, A1)
F(int, flock, P2, A2)
F(int, ftruncate64, P2, A2)
F(int, posix_spawn_file_actions_init, P1, A1)
F(int, posix_spawn_file_actions_adddup2, P3, A3)
F(int, posix_spawn_file_actions_destroy, P1, A1)
F(int, posix_spawnattr_init, P1, A1)
F(int, posix_spawnattr_destroy, P1, A1)
F(int, posix_spawnattr_setflags, P2, A2)
F(int, posix_spawnattr_setpgroup, P2, A2)
F(int, posix_spawnattr_setsigmask, P2, A2)
F(int, posix_spawnattr_setsigdefault, P2, A2)
F(int, posix_spawnp, P6, A6)
F(long, readlink, P3, A3)
F(void *, realpath, P2, A2)
F(void *, getcwd, P2, A2)
F(int, chdir, P1, A1)
F(void *, opendir, P1, A1)
F(void *, readdir64, P1, A1)
F(int, dirfd, P1, A1)
F(int, closedir, P1, A1)
F(int, __xpg_strerror_r, P3, A3)
F0(unsigned, getgid)
F0(unsigned, getegid)
F0(int, getppid)
F0(int, getpgrp)
F(int, killpg, P2, A2)
F(int, fsync, P1, A1)
F(int, fdatasync, P1, A1)
F(int, tcdrain, P1, A1)
F(int, tcflush, P2, A2)
F(int, tcflow, P2, A2)
F(int, syncfs, P1, A1)
F(int, fchmod, P2, A2)
F(int, rename, P2, A2)
F(int, link, P2, A2)
F(int, linkat, P5, A5)
F(int, rmdir, P1, A1)
F(int, unlinkat, P3, A3)
F(void *, fdopendir, P1, A1)
F(int, access, P2, A2)
F(int, faccessat, P4, A4)
F(int, getsockname, P3, A3)
F(int, getpeername, P3, A3)
F(int, accept, P3, A3)
F(int, pipe, P1, A1)
F(int, dup, P1, A1)
F(int, dup3, P3, A3)
F(int, usleep, P1, A1)
F(int, setenv, P3, A3)
F(long, readv, P3, A3)
F(int, gethostname, P2, A2)
F(int, pthread_sigmask, P3, A3)
F(int, sigprocmask, P3, A3)
F(int, chown, P3, A3)
F(int, fchown, P3, A3)
F(int, lchown, P3, A3)
F(unsigned, alarm, P1, A1)
int simos_openat64(P4);
int rt_i_openat64(long a, long b, long c, ...) __asm__("openat64");
int rt_i_openat64(long a, long b, long c, ...) {
    va_list v; va_start(v, c); long d = va_arg(v, long); va_end(v);
    static int (*real)(long, long, long, ...);
    if (sim) return simos_openat64(a, b, c, d);
    if (!real) real = rt_real("openat64");
    return real(a, b, c, d);
}
int simos_openat(P4);
int rt_i_openat(long a, long b, long c, ...) __asm__("openat");
int rt_i_openat(long a, long b, long c, ...) {
    va_list v; va_start(v, c); long d = va_arg(v, long); va_end(v);
    static int (*real)(long, long, long, ...);
    if (sim) return simos_openat(a, b, c, d);
    if (!real) real = rt_real("openat");
    return real(a, b, c, d);
}
int simos_fcntl(P3);
int rt_i_fcntl(long a, long b, ...) __asm__("fcntl");
int rt_i_fcntl(long a, long b, ...) {
    va_list v; va_start(v, b); long c = va_arg(v, long); va_end(v);
    static int (*real)(long, long, ...);
    if (sim) return simos_fcntl(a, b, c);
    if (!real) real = rt_real("fcntl");
    return real(a, b, c);
}
int simos_ioctl(P3);
int rt_i_ioctl(long a, long b, ...) __asm__("ioctl");
int rt_i_ioctl(long a, long b, ...) {
    va_list v; va_start(v, b); long c = va_arg(v, long); va_end(v);
    static int (*real)(long, long, ...);
    if (sim) return simos_ioctl(a, b, c);
    if (!real) real = rt_real("ioctl");
    return real(a, b, c);
}
int simos_open64(P3);
int rt_i_open64(long a, long b, ...) __asm__("open64");
int rt_i_open64(long a, long b, ...) {
    va_list v; va_start(v, b); long c = va_arg(v, long); va_end(v);
    static int (*real)(long, long, ...);
    if (sim) return simos_open64(a, b, c);
    if (!real) real = rt_real("open64");
    return real(a, b, c);
}
int rt_i_open(long a, long b, ...) __asm__("open");
int rt_i_open(long a, long b, ...) {
    va_list v; va_start(v, b); long c = va_arg(v, long); va_end(v);
    static int (*real)(long, long, ...);
    if (sim) return simos_open64(a, b, c);
    if (!real) real = rt_real("open");
    return real(a, b, c);
}
long simos_syscall(long n, P6);
long rt_i_syscall(long n, ...) __asm__("syscall");
long rt_i_syscall(long n, ...) {
    va_list v; va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    static long (*real)(long, ...);
    if (sim) return simos_syscall(n, a, b, c, d, e, f);
    if (!real) real = rt_real("syscall");
    return real(n, a, b, c, d, e, f);
}
void simos_exit(long) __attribute__((noreturn));
void rt_i_exit(long a) __asm__("exit") __attribute__((noreturn));
void rt_i_exit(long a) {
    if (sim) simos_exit(a);
    void (*real)(long) = rt_real("exit");
    real(a);
    for (;;) ;
}
void rt_i__exit(long a) __asm__("_exit") __attribute__((noreturn));
void rt_i__exit(long a) {
    if (sim) simos_exit(a);
    rt_exit(a);
    for (;;) ;
}
int rt_real_pthread_create(pthread_t *a, const pthread_attr_t *b, void *(*c)(void *), void *d) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = rt_real("pthread_create");
    return real(a, b, c, d);
}
