/* LD_PRELOAD seam around the compiler process. A seccomp filter turns every file, memory and
   randomness system call of the process (whoever issues it: libc stdio, libstdc++, mimalloc) into a
   SIGSYS handled here, in the process; the handler consults the run's plan, injects the planned
   fault or performs the call, and logs it to a shared file. Clock functions are replaced outright by
   a virtual clock. Everything is a pure function of the plan, so a plan replays exactly. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum { C_OPEN, C_READ, C_WRITE, C_CLOSE, C_MMAP, C_CLOCK, C_RANDOM, C_SYNC, C_RENAME, NCLASS };
enum { R_IN, R_OUT, R_STD, R_OTHER, R_EXEC, NROLE };
enum { A_NONE, A_ERR, A_SHORT, A_JUMP, A_STEP, A_PERSIST };

struct Ent { uint8_t cls, role; uint16_t act; int32_t fd; i64 size, ret; };
struct Log {
    u32 magic, n;
    u64 count[NCLASS][NROLE];
    u64 faults[18];
    u64 clockReads, elapsed, allocs, activeFault, rBytes[NROLE], rErrAt, rErrPersist, wBytes, spare;
    struct Ent e[8192];
};
struct Fault { u64 ord; i64 p, p2; u32 next; uint8_t cls, role, act; };

__asm__(".text\n.globl dst_raw\n.hidden dst_raw\n.type dst_raw,@function\ndst_raw:\n"
        " mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n"
        " syscall\n.globl dst_raw_ip\n.hidden dst_raw_ip\ndst_raw_ip:\n ret\n");
extern long dst_raw(long nr, long a, long b, long c, long d, long e, long f) __attribute__((visibility("hidden")));
extern char dst_raw_ip[] __attribute__((visibility("hidden")));

static struct Log dummy;
static struct Log* lg = &dummy;
static struct Fault faults[4096];
static u32 nFaults;
static char paths[3][512];          /* input file, output file, interpreter input */
static int active;
static uint8_t fdRole[1024];
static i64 clkReal = 1700000000000000000ll, clkMono = 1000000000000ll, clkStep = 1000;
static i64 wcap = -1, rcap = -1, mcap = -1, arenaMax = -1, shiftPages;
static struct { u64 ord, until; } afail[64];
static int nAfail;
static int wcapErr = ENOSPC, rcapErr = EIO;
static i64 wTotal, rTotal, mTotal;
static u64 rchunk, rseed = 1, wchunk, wseed = 1, eseed = 1, rndseed = 1;
static int rprob, wprob, eprobR, eprobW;
static u64 envSeed, idSeed, fillSeed, padSeed;
static int lastEintr[2];

static u64 rnd(u64* s) {
    u64 z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void note(int cls, int role, int act, int fd, i64 size, i64 ret) {
    if(lg->n < 8192) {
        struct Ent* e = &lg->e[lg->n];
        e->cls = (uint8_t)cls; e->role = (uint8_t)role; e->act = (uint16_t)act; e->fd = fd; e->size = size; e->ret = ret;
    }
    lg->n++;
}
static struct Fault* plan(int cls, int role) {
    u64 o = lg->count[cls][role]++;
    for(u32 i = 0; i < nFaults; ++i) {
        struct Fault* f = &faults[i];
        if(f->cls == cls && f->role == role && (f->ord == o || (f->act == A_PERSIST && o >= f->ord))) return f;
    }
    return 0;
}
static void fired(int k) { lg->faults[k]++; lg->activeFault = 1; }
static int roleOf(int fd) { return fd >= 0 && fd < 1024 ? fdRole[fd] : R_OTHER; }

/* does `p` name the file `want`, however its directory is written? */
static int names(const char* p, const char* want) {
    size_t n = strlen(p), m = strlen(want);
    return m && n >= m && !strcmp(p + n - m, want) && (n == m || p[n - m - 1] == '/');
}
static long doOpen(long nr, long* a) {
    const char* p = (const char*)(nr == SYS_openat ? a[1] : a[0]);
    int role = R_OTHER;
    long flags = nr == SYS_openat ? a[2] : nr == SYS_open ? a[1] : O_WRONLY;
    if(p) {
        int rdonly = (flags & O_ACCMODE) == O_RDONLY;
        if(rdonly && names(p, paths[0])) role = R_IN;
        else if(rdonly && names(p, paths[2])) role = R_EXEC;
        else if(!rdonly && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6)) role = R_OUT;
    }
    struct Fault* f = plan(C_OPEN, role);
    if(f) { fired(0); note(C_OPEN, role, f->act, -1, 0, -f->p); return -f->p; }
    long r = dst_raw(nr, a[0], a[1], a[2], a[3], 0, 0);
    if(r >= 0 && r < 1024) fdRole[r] = (uint8_t)role;
    note(C_OPEN, role, 0, (int)r, 0, r);
    return r;
}
static long doRead(long nr, long* a) {
    int role = roleOf((int)a[0]);
    i64 want = 0;
    struct iovec v;
    if(nr == SYS_readv) {
        const struct iovec* iv = (const struct iovec*)a[1];
        for(long i = 0; i < a[2]; ++i) want += (i64)iv[i].iov_len;
    } else want = a[2];
    if(role != R_IN && role != R_EXEC) return dst_raw(nr, a[0], a[1], a[2], a[3], 0, 0);
    struct Fault* f = plan(C_READ, role);
    i64 lim = want;
    int act = 0;
    if(f && f->act != A_SHORT) {
        if(!lg->faults[1]) { lg->rErrAt = lg->rBytes[role]; lg->rErrPersist = f->act == A_PERSIST; }
        fired(1); note(C_READ, role, f->act, (int)a[0], want, -f->p); return -f->p; }
    if(f && f->act == A_SHORT && f->p < lim) { lim = f->p; act = A_SHORT; fired(2); }
    int dist = role == (paths[2][0] ? R_EXEC : R_IN);  /* which file the random disturbances apply to */
    if(dist && eprobR && !lastEintr[0] && (int)(rnd(&eseed) % 1000) < eprobR) { lastEintr[0] = 1; fired(3); note(C_READ, role, A_ERR, (int)a[0], want, -EINTR); return -EINTR; }
    lastEintr[0] = 0;
    if(dist && rchunk && (int)(rnd(&rseed) % 1000) < rprob) {
        i64 c = 1 + (i64)(rnd(&rseed) % rchunk);
        if(c < lim) { lim = c; act = A_SHORT; fired(2); }
    }
    if(dist && rcap >= 0) {
        if(rTotal >= rcap) {
            if(!lg->faults[1]) { lg->rErrAt = lg->rBytes[role]; lg->rErrPersist = 1; }
            fired(1); note(C_READ, role, A_ERR, (int)a[0], want, -rcapErr); return -rcapErr; }
        if(rTotal + lim > rcap) lim = rcap - rTotal;
    }
    long r;
    if(nr == SYS_readv) {
        const struct iovec* iv = (const struct iovec*)a[1];
        long k = 0;
        while(k < a[2] && !iv[k].iov_len) ++k;
        if(k == a[2]) return 0;
        v = iv[k];
        if((i64)v.iov_len > lim) v.iov_len = (size_t)lim;
        r = dst_raw(SYS_read, a[0], (long)v.iov_base, (long)v.iov_len, 0, 0, 0);
    } else r = dst_raw(nr, a[0], a[1], lim, a[3], 0, 0);
    if(r > 0) { rTotal += r; lg->rBytes[role] += (u64)r; }
    note(C_READ, role, act, (int)a[0], want, r);
    return r;
}
static long doWrite(long nr, long* a) {
    int role = a[0] == 1 || a[0] == 2 ? (roleOf((int)a[0]) == R_OUT ? R_OUT : R_STD) : roleOf((int)a[0]);
    i64 want = 0;
    if(nr == SYS_writev) {
        const struct iovec* iv = (const struct iovec*)a[1];
        for(long i = 0; i < a[2]; ++i) want += (i64)iv[i].iov_len;
    } else want = a[2];
    if(role != R_OUT) return dst_raw(nr, a[0], a[1], a[2], a[3], 0, 0);
    struct Fault* f = plan(C_WRITE, role);
    i64 lim = want;
    int act = 0;
    if(f && f->act != A_SHORT) { fired(4); note(C_WRITE, role, f->act, (int)a[0], want, -f->p); return -f->p; }
    if(f && f->act == A_SHORT && f->p < lim && f->p > 0) { lim = f->p; act = A_SHORT; fired(5); }
    if(eprobW && !lastEintr[1] && (int)(rnd(&eseed) % 1000) < eprobW) { lastEintr[1] = 1; fired(6); note(C_WRITE, role, A_ERR, (int)a[0], want, -EINTR); return -EINTR; }
    lastEintr[1] = 0;
    if(wchunk && want && (int)(rnd(&wseed) % 1000) < wprob) {
        i64 c = 1 + (i64)(rnd(&wseed) % wchunk);
        if(c < lim) { lim = c; act = A_SHORT; fired(5); }
    }
    if(wcap >= 0 && want) {
        if(wTotal >= wcap) { fired(7); note(C_WRITE, role, A_ERR, (int)a[0], want, -wcapErr); return -wcapErr; }
        if(wTotal + lim > wcap) { lim = wcap - wTotal; fired(5); }
    }
    long r;
    if(nr == SYS_writev) {
        const struct iovec* iv = (const struct iovec*)a[1];
        if(lim == want) r = dst_raw(nr, a[0], a[1], a[2], 0, 0, 0);
        else {
            long k = 0;
            while(k < a[2] && !iv[k].iov_len) ++k;
            i64 l = (i64)iv[k].iov_len < lim ? (i64)iv[k].iov_len : lim;
            r = dst_raw(SYS_write, a[0], (long)iv[k].iov_base, l, 0, 0, 0);
        }
    } else r = dst_raw(nr, a[0], a[1], lim, a[3], 0, 0);
    if(r > 0) { wTotal += r; lg->wBytes += (u64)r; }
    note(C_WRITE, role, act, (int)a[0], want, r);
    return r;
}
static long doClose(long* a) {
    int role = roleOf((int)a[0]);
    struct Fault* f = plan(C_CLOSE, role);
    /* a failing close stands for write-back that failed: part of the data never reaches the file */
    if(f && role == R_OUT && f->p2 >= 0) dst_raw(SYS_ftruncate, a[0], f->p2, 0, 0, 0, 0);
    long r = dst_raw(SYS_close, a[0], 0, 0, 0, 0, 0);
    if(a[0] >= 0 && a[0] < 1024) fdRole[a[0]] = R_OTHER;
    if(f && (role == R_OUT || role == R_IN || role == R_EXEC)) { fired(8); r = -f->p; note(C_CLOSE, role, f->act, (int)a[0], 0, r); return r; }
    note(C_CLOSE, role, 0, (int)a[0], 0, r);
    return r;
}
static long doMem(long nr, long* a) {
    struct Fault* f = plan(C_MMAP, R_OTHER);
    i64 size = nr == SYS_mmap ? a[1] : nr == SYS_mremap ? a[2] - a[1] : 0;
    int bad = f != 0;
    if(mcap >= 0 && size > 0 && mTotal + size > mcap && size < (3ll << 30)) bad = 1;
    if(bad) { fired(9); note(C_MMAP, R_OTHER, A_ERR, (int)nr, size, nr == SYS_brk ? 0 : -ENOMEM); return nr == SYS_brk ? dst_raw(SYS_brk, 0, 0, 0, 0, 0, 0) : -ENOMEM; }
    long r = dst_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if(size > 0 && size < (3ll << 30)) mTotal += size;
    note(C_MMAP, R_OTHER, 0, (int)nr, size, r);
    return r;
}
static void tick(void) {
    lg->clockReads++;
    u64 o = lg->count[C_CLOCK][0]++;
    clkReal += clkStep; clkMono += clkStep; lg->elapsed += (u64)clkStep;
    for(u32 i = 0; i < nFaults; ++i)
        if(faults[i].cls == C_CLOCK && faults[i].ord == o) {
            fired(10);
            if(faults[i].act == A_STEP) clkStep = faults[i].p;
            else { clkReal += faults[i].p; clkMono += faults[i].p2; if(faults[i].p2 > 0) lg->elapsed += (u64)faults[i].p2; }
        }
}
int clock_gettime(clockid_t id, struct timespec* ts) {
    tick();
    int real = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    i64 t = real ? clkReal : clkMono;
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    if(ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
    (void)tz; tick();
    tv->tv_sec = clkReal / 1000000000; tv->tv_usec = clkReal % 1000000000 / 1000;
    return 0;
}
time_t time(time_t* p) { tick(); time_t t = (time_t)(clkReal / 1000000000); if(p) *p = t; return t; }
clock_t clock(void) { tick(); return (clock_t)((clkMono - 1000000000000ll) / 1000); }

static int allocHook(size_t n) {
    (void)n;
    u64 o = lg->allocs++;
    for(int i = 0; i < nAfail; ++i) if(o >= afail[i].ord && o < afail[i].until) { fired(12); return 0; }
    return 1;
}
static size_t arenaHook(size_t n) {
    if(arenaMax >= 0 && (size_t)arenaMax < n) { fired(13); return (size_t)arenaMax; }
    return n;
}

static void onsys(int sig, siginfo_t* si, void* uc) {
    (void)sig;
    greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs;
    long nr = si->si_syscall;
    long a[6] = { g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9] };
    long r;
    switch(nr) {
        case SYS_open: case SYS_openat: case SYS_creat: r = doOpen(nr, a); break;
        case SYS_read: case SYS_readv: case SYS_pread64: r = doRead(nr, a); break;
        case SYS_write: case SYS_writev: case SYS_pwrite64: r = doWrite(nr, a); break;
        case SYS_close: r = doClose(a); break;
        case SYS_mmap: case SYS_brk: case SYS_mremap: r = doMem(nr, a); break;
        case SYS_sendfile: case SYS_copy_file_range: case SYS_pwritev: {  /* other ways to write: as a write, but never shortened */
            long fd = nr == SYS_copy_file_range ? a[2] : a[0];
            struct Fault* f = roleOf((int)fd) == R_OUT ? plan(C_WRITE, R_OUT) : 0;
            if(f && f->act != A_SHORT) { fired(4); r = -f->p; note(C_WRITE, R_OUT, f->act, (int)fd, 0, r); break; }
            if(roleOf((int)fd) == R_OUT && wcap >= 0 && wTotal >= wcap) { fired(7); r = -wcapErr; break; }
            r = dst_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
            if(r > 0 && roleOf((int)fd) == R_OUT) wTotal += r;
            break;
        }
        case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: case SYS_fallocate: {
            struct Fault* f = plan(C_SYNC, roleOf((int)a[0]));
            if(f) { fired(11); r = -f->p; } else r = dst_raw(nr, a[0], a[1], a[2], a[3], 0, 0);
            break;
        }
        case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: {
            struct Fault* f = plan(C_RENAME, R_OUT);
            if(f) { fired(14); r = -f->p; note(C_RENAME, R_OUT, f->act, -1, 0, r); }
            else r = dst_raw(nr, a[0], a[1], a[2], a[3], a[4], 0);
            break;
        }
        case SYS_dup: case SYS_dup2: case SYS_dup3:
            r = dst_raw(nr, a[0], a[1], a[2], 0, 0, 0);
            if(r >= 0 && r < 1024) fdRole[r] = (uint8_t)roleOf((int)a[0]);
            break;
        case SYS_getrandom: {
            lg->count[C_RANDOM][0]++;
            for(long i = 0; i < a[1]; ++i) ((char*)a[0])[i] = (char)rnd(&rndseed);
            r = a[1];
            break;
        }
        case SYS_clock_gettime: {
            struct timespec ts;
            clock_gettime((clockid_t)a[0], &ts);
            *(struct timespec*)a[1] = ts;
            r = 0;
            break;
        }
        default: r = dst_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
    g[REG_RAX] = r;
}

static void parse(char* s) {
    char* save;
    for(char* l = strtok_r(s, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
        char* q;
        if(!strncmp(l, "in ", 3)) strncpy(paths[0], l + 3, 511);
        else if(!strncmp(l, "out ", 4)) strncpy(paths[1], l + 4, 511);
        else if(!strncmp(l, "exec ", 5)) strncpy(paths[2], l + 5, 511);
        else if(!strncmp(l, "clock ", 6)) { clkReal = strtoll(l + 6, &q, 0); clkMono = strtoll(q, &q, 0); clkStep = strtoll(q, &q, 0); }
        else if(!strncmp(l, "wcap ", 5)) { wcap = strtoll(l + 5, &q, 0); wcapErr = (int)strtol(q, &q, 0); }
        else if(!strncmp(l, "rcap ", 5)) { rcap = strtoll(l + 5, &q, 0); rcapErr = (int)strtol(q, &q, 0); }
        else if(!strncmp(l, "mcap ", 5)) mcap = strtoll(l + 5, &q, 0);
        else if(!strncmp(l, "arena ", 6)) arenaMax = strtoll(l + 6, &q, 0);
        else if(!strncmp(l, "pad ", 4)) padSeed = strtoull(l + 4, &q, 0) | 1;
        else if(!strncmp(l, "fill ", 5)) fillSeed = strtoull(l + 5, &q, 0) | 1;
        else if(!strncmp(l, "shift ", 6)) shiftPages = strtoll(l + 6, &q, 0);
        else if(!strncmp(l, "a ", 2) && nAfail < 64) { afail[nAfail].ord = strtoull(l + 2, &q, 0); afail[nAfail].until = strtoull(q, &q, 0); nAfail++; }
        else if(!strncmp(l, "rchunk ", 7)) { rseed = strtoull(l + 7, &q, 0); rchunk = strtoull(q, &q, 0); rprob = (int)strtol(q, &q, 0); }
        else if(!strncmp(l, "wchunk ", 7)) { wseed = strtoull(l + 7, &q, 0); wchunk = strtoull(q, &q, 0); wprob = (int)strtol(q, &q, 0); }
        else if(!strncmp(l, "eintr ", 6)) { eseed = strtoull(l + 6, &q, 0); eprobR = (int)strtol(q, &q, 0); eprobW = (int)strtol(q, &q, 0); }
        else if(!strncmp(l, "getenv ", 7)) envSeed = strtoull(l + 7, &q, 0);
        else if(!strncmp(l, "ids ", 4)) idSeed = strtoull(l + 4, &q, 0);
        else if(!strncmp(l, "rand ", 5)) rndseed = strtoull(l + 5, &q, 0);
        else if(!strncmp(l, "f ", 2) && nFaults < 4096) {
            struct Fault* f = &faults[nFaults++];
            f->cls = (uint8_t)strtol(l + 2, &q, 0); f->role = (uint8_t)strtol(q, &q, 0); f->ord = strtoull(q, &q, 0);
            f->act = (uint8_t)strtol(q, &q, 0); f->p = strtoll(q, &q, 0); f->p2 = strtoll(q, &q, 0);
        }
    }
}
/* std::random_device reads the CPU's generator; its values come from the plan as well */
unsigned _ZNSt13random_device9_M_getvalEv(void* self) {
    (void)self;
    lg->count[C_RANDOM][0]++;
    return (unsigned)(rnd(&rndseed) >> 16);
}
/* environment variables and process identities nobody should depend on */
static u64 mix(u64 h, const char* s) { for(; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return rnd(&h); }
char* getenv(const char* name) {
    extern char** environ;
    size_t n = strlen(name);
    char* v = 0;
    for(char** e = environ; e && *e && !v; ++e) if(!strncmp(*e, name, n) && (*e)[n] == '=') v = *e + n + 1;
    if(!active || !envSeed) return v;
    static char* const pool[] = { "", "0", "1", "2", "3", "7", "yes", "off", "1000000007", "-1", "/tmp", "de_DE.UTF-8", "x" };
    u64 h = mix(envSeed, name);
    if(h % 3 == 0) return v;
    fired(15);
    return pool[(h >> 8) % (sizeof pool / sizeof *pool)];
}
char* secure_getenv(const char* name) { return getenv(name); }
static pid_t ident(int k, int nr) {
    pid_t r = (pid_t)dst_raw(nr, 0, 0, 0, 0, 0, 0);
    if(!active || !idSeed) return r;
    fired(15);
    u64 h = idSeed + (u64)k;
    return (pid_t)(2 + rnd(&h) % 4000000);
}
pid_t getpid(void) { return ident(1, SYS_getpid); }
pid_t getppid(void) { return ident(2, SYS_getppid); }
pid_t gettid(void) { return ident(1, SYS_gettid); }
uid_t getuid(void) { return (uid_t)ident(3, SYS_getuid); }
uid_t geteuid(void) { return (uid_t)ident(3, SYS_geteuid); }
#define TRAP(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)
/* what uninitialised memory holds is up to the machine */
static void fillHook(void* p, size_t n) {
    u64 r = rnd(&fillSeed);
    unsigned char* b = p;
    size_t i = 0;
    int k = (int)(r % 4);  /* the same byte, small integers, random words, ones and zeros */
    if(k == 0) memset(p, (int)(r >> 8) & 255, n);
    else for(; i < n; i += 8) {
        u64 v = rnd(&fillSeed);
        if(k == 1) v &= 0x0000000f0000000full; else if(k == 3) v &= 0x0101010101010101ull;
        memcpy(b + i, &v, n - i < 8 ? n - i : 8);
    }
    fired(16);
}
static size_t padHook(size_t align) {
    u64 r = rnd(&padSeed);
    if(r % 3) return 0;
    size_t n = 16u << ((r >> 8) % 5);
    if(align < 16) align = 16;
    return (n + align - 1) / align * align;
}
__attribute__((noinline)) static void dirtyStack(void) {
    unsigned char b[1 << 18];
    fillHook(b, sizeof b);
    __asm__ volatile("" :: "r"(b) : "memory");
}
__attribute__((constructor)) static void init(void) {
    static char buf[1 << 18];
    lg = &dummy;
    memset(fdRole, R_OTHER, sizeof fdRole);
    const char* pf = getenv("DST_SHIM_PLAN");
    const char* lf = getenv("DST_SHIM_LOG");
    if(!pf || !lf) return;
    int fd = open(pf, O_RDONLY);
    if(fd >= 0) {
        ssize_t n = 0, m;
        while((m = read(fd, buf + n, sizeof buf - 1 - (size_t)n)) > 0) n += m;
        buf[n] = 0;
        close(fd);
        parse(buf);
    }
    fd = open(lf, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd < 0 || ftruncate(fd, sizeof(struct Log))) _exit(121);
    void* m = mmap(0, sizeof(struct Log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if(m == MAP_FAILED) _exit(121);
    close(fd);
    lg = m;
    if(shiftPages > 0) mmap(0, (size_t)shiftPages * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int (**ah)(size_t) = dlsym(RTLD_DEFAULT, "dst_alloc_hook");
    size_t (**rh)(size_t) = dlsym(RTLD_DEFAULT, "dst_arena_hook");
    void (**fh)(void*, size_t) = dlsym(RTLD_DEFAULT, "dst_fill_hook");
    if(fh && fillSeed) *fh = fillHook;
    size_t (**ph)(size_t) = dlsym(RTLD_DEFAULT, "dst_pad_hook");
    if(ph && padSeed) *ph = padHook;
    if(fillSeed) dirtyStack();
    if(ah) *ah = allocHook;
    if(rh) *rh = arenaHook;
    unsetenv("DST_SHIM_PLAN"); unsetenv("DST_SHIM_LOG"); unsetenv("LD_PRELOAD");
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, 0);
    u64 ip = (u64)(uintptr_t)dst_raw_ip;
    struct sock_filter flt[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)ip, 0, 3),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (u32)(ip >> 32), 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        TRAP(SYS_open), TRAP(SYS_openat), TRAP(SYS_creat), TRAP(SYS_read), TRAP(SYS_readv), TRAP(SYS_pread64), TRAP(SYS_write), TRAP(SYS_writev),
        TRAP(SYS_pwrite64), TRAP(SYS_close), TRAP(SYS_mmap), TRAP(SYS_brk), TRAP(SYS_mremap), TRAP(SYS_fsync), TRAP(SYS_fdatasync),
        TRAP(SYS_ftruncate), TRAP(SYS_sendfile), TRAP(SYS_copy_file_range), TRAP(SYS_pwritev), TRAP(SYS_fallocate), TRAP(SYS_rename), TRAP(SYS_renameat), TRAP(SYS_renameat2), TRAP(SYS_link), TRAP(SYS_linkat), TRAP(SYS_dup), TRAP(SYS_dup2), TRAP(SYS_dup3), TRAP(SYS_getrandom), TRAP(SYS_clock_gettime),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    };
    struct sock_fprog prog = { sizeof flt / sizeof *flt, flt };
    if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) _exit(121);
    active = 1;
    lg->magic = 0xd57109;
}
