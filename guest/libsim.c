/* Freestanding libc stand-in for simulated programs: thin wrappers that turn every libc entry point
   used by cmmc's generated code and runtime into a simulator trap (real kernel ABI where one exists,
   host calls >= 5000 for SysY I/O and history events). STUB component: see evidence "components". */
typedef unsigned long ul;
typedef int i32;

#if defined(__riscv)
__asm__(
    ".text\n.globl _start\n_start:\n"
    ".option push\n.option norelax\n lla gp, __global_pointer$\n.option pop\n"
    " call sim_start\n"
    ".globl syscall\n.type syscall,@function\nsyscall:\n"
    " mv a7,a0\n mv a0,a1\n mv a1,a2\n mv a2,a3\n mv a3,a4\n mv a4,a5\n mv a5,a6\n ecall\n"
    " li t0,-4096\n bgtu a0,t0,1f\n ret\n1: addi sp,sp,-16\n sd ra,0(sp)\n call sim_seterr\n ld ra,0(sp)\n addi sp,sp,16\n li a0,-1\n ret\n"
    ".globl clone\n.type clone,@function\nclone:\n" /* fn, stack, flags, arg */
    " andi a1,a1,-16\n addi a1,a1,-16\n sd a0,0(a1)\n sd a3,8(a1)\n"
    " mv a0,a2\n li a2,0\n li a3,0\n li a4,0\n li a7,220\n ecall\n"
    " bltz a0,2f\n beqz a0,3f\n ret\n2: addi sp,sp,-16\n sd ra,0(sp)\n call sim_seterr\n ld ra,0(sp)\n addi sp,sp,16\n li a0,-1\n ret\n"
    "3: ld a1,0(sp)\n ld a0,8(sp)\n addi sp,sp,16\n jalr a1\n li a7,93\n ecall\n");
#define SYS_mmap 222
#define SYS_munmap 215
#define SYS_yield 124
#define SYS_nanosleep 101
#define SYS_gettid 178
#define SYS_getpid 172
#define SYS_write 64
#define SYS_exit_group 94
#define SYS_setaff 122
#define SYS_wait4 260
#define SYS_clock_gettime 113
static long hc(long nr, long a, long b, long c, long d) {
    register long a0 __asm__("a0") = a, a1 __asm__("a1") = b, a2 __asm__("a2") = c, a3 __asm__("a3") = d, a7 __asm__("a7") = nr;
    __asm__ volatile("ecall" : "+r"(a0) : "r"(a1), "r"(a2), "r"(a3), "r"(a7) : "memory");
    return a0;
}
#else
__asm__(
    ".text\n.arm\n.syntax unified\n.globl _start\n.type _start,%function\n_start:\n bl sim_start\n"
    ".globl syscall\n.type syscall,%function\nsyscall:\n"
    " mov ip,sp\n push {r4,r5,r6,r7}\n mov r7,r0\n mov r0,r1\n mov r1,r2\n mov r2,r3\n ldmia ip,{r3,r4,r5}\n svc #0\n"
    " pop {r4,r5,r6,r7}\n cmn r0,#4096\n bxls lr\n push {r4,lr}\n bl sim_seterr\n mvn r0,#0\n pop {r4,pc}\n"
    ".globl clone\n.type clone,%function\nclone:\n"
    " bic r1,r1,#7\n str r0,[r1,#-8]!\n str r3,[r1,#4]\n push {r4,r7}\n mov r0,r2\n mov r2,#0\n mov r3,#0\n mov r4,#0\n mov r7,#120\n svc #0\n"
    " cmp r0,#0\n beq 3f\n pop {r4,r7}\n mvnlt r0,#0\n bx lr\n"
    "3: ldr r1,[sp]\n ldr r0,[sp,#4]\n add sp,sp,#8\n blx r1\n mov r7,#1\n svc #0\n");
#define SYS_mmap 192
#define SYS_munmap 91
#define SYS_yield 158
#define SYS_nanosleep 162
#define SYS_gettid 224
#define SYS_getpid 20
#define SYS_write 4
#define SYS_exit_group 248
#define SYS_setaff 241
#define SYS_wait4 114
#define SYS_clock_gettime 263
#define SYS_clock_gettime64 403
static long hc(long nr, long a, long b, long c, long d) {
    register long r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c, r3 __asm__("r3") = d, r7 __asm__("r7") = nr;
    __asm__ volatile("svc #0" : "+r"(r0) : "r"(r1), "r"(r2), "r"(r3), "r"(r7) : "memory");
    return r0;
}
int __cxa_guard_dummy;
void __aeabi_unwind_cpp_pr0(void) {}
void __aeabi_unwind_cpp_pr1(void) {}
int raise(int s) { (void)s; hc(SYS_exit_group, 136, 0, 0, 0); return 0; }
#endif
extern long syscall(long, ...);
#if !defined(__riscv)
void* mmap64(void* a, ul len, int prot, int flags, int fd, long long off) { return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, (long)(off >> 12)); }
int __clock_gettime64(int id, void* tp) { return (int)syscall(SYS_clock_gettime64, id, tp, 0, 0, 0, 0); }
#endif

void* mmap(void* a, ul len, int prot, int flags, int fd, long off) { return (void*)syscall(SYS_mmap, a, len, prot, flags, fd, off); }
int munmap(void* a, ul len) { return (int)syscall(SYS_munmap, a, len, 0, 0, 0, 0); }
int sched_yield(void) { return (int)syscall(SYS_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const void* a, void* b) { return (int)syscall(SYS_nanosleep, a, b, 0, 0, 0, 0); }
int mprotect(void* a, ul len, int p) { (void)a; (void)len; (void)p; return 0; }
int gettid(void) { return (int)syscall(SYS_gettid, 0, 0, 0, 0, 0, 0); }
int getpid(void) { return (int)syscall(SYS_getpid, 0, 0, 0, 0, 0, 0); }
int madvise(void* a, ul n, int k) { (void)a; (void)n; (void)k; return 0; }
int memcmp(const void* a, const void* b, ul n) {
    const unsigned char *x = a, *y = b;
    for(ul i = 0; i < n; ++i) if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
ul strlen(const char* s) { ul n = 0; while(s[n]) { ++n; __asm__ volatile("" ::: "memory"); } return n; }
int usleep(unsigned us) { long ts[2] = { 0, (long)us * 1000 }; return nanosleep(ts, 0); }
int clock_nanosleep(int c, int f, const void* a, void* b) { (void)c; (void)f; return nanosleep(a, b); }
int sched_getaffinity(int pid, ul n, void* set) { (void)pid; for(ul i = 0; i < n; ++i) ((char*)set)[i] = i == 0 ? 15 : 0; return 0; }
int sched_getcpu(void) { return 0; }
int get_nprocs(void) { return 4; }
int get_nprocs_conf(void) { return 4; }
long sysconf(int k) { return k == 30 ? 4096 : k == 83 || k == 84 ? 4 : -1; }
char* getenv(const char* n) { (void)n; return 0; }
void _exit(int c) { for(;;) hc(SYS_exit_group, c, 0, 0, 0); }
long write(int fd, const void* p, ul n) { return syscall(SYS_write, fd, p, n, 0, 0, 0); }
void abort(void) { for(;;) hc(SYS_exit_group, 134, 0, 0, 0); }
static int errs[16];
int* __errno_location(void) { return &errs[hc(SYS_gettid, 0, 0, 0, 0) & 15]; }
__attribute__((used)) void sim_seterr(long e) { *__errno_location() = (int)-e; }
int sched_setaffinity(int pid, ul n, const void* set) { return (int)syscall(SYS_setaff, pid, n, set, 0, 0, 0); }
int waitpid(int pid, int* st, int opt) { return (int)syscall(SYS_wait4, pid, st, opt, 0, 0, 0); }
int clock_gettime(int id, void* tp) { return (int)syscall(SYS_clock_gettime, id, tp, 0, 0, 0, 0); }
#if defined(__riscv)
int __clock_gettime64(int id, void* tp) { return clock_gettime(id, tp); }
#endif

void* memset(void* p, int c, ul n) { char* q = p; for(ul i = 0; i < n; ++i) { q[i] = (char)c; __asm__ volatile("" ::: "memory"); } return p; }
void* memcpy(void* d, const void* s, ul n) { char* a = d; const char* b = s; for(ul i = 0; i < n; ++i) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); } return d; }
void* memmove(void* d, const void* s, ul n) {
    char* a = d; const char* b = s;
    if(a < b) for(ul i = 0; i < n; ++i) { a[i] = b[i]; __asm__ volatile("" ::: "memory"); }
    else while(n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); }
    return d;
}

i32 getint(void) { return (i32)hc(5000, 0, 0, 0, 0); }
i32 getch(void) { return (i32)hc(5001, 0, 0, 0, 0); }
float getfloat(void) { union { i32 i; float f; } u; u.i = (i32)hc(5002, 0, 0, 0, 0); return u.f; }
i32 getarray(i32* a) { i32 n = getint(); for(i32 i = 0; i < n; ++i) a[i] = getint(); return n; }
i32 getfarray(float* a) { i32 n = getint(); for(i32 i = 0; i < n; ++i) a[i] = getfloat(); return n; }
void putint(i32 v) { hc(5010, v, 0, 0, 0); }
void putch(i32 v) { hc(5011, v, 0, 0, 0); }
void putfloat(float f) { union { i32 i; float f; } u; u.f = f; hc(5012, u.i, 0, 0, 0); }
void putarray(i32 n, i32* a) { putint(n); putch(':'); for(i32 i = 0; i < n; ++i) { putch(' '); putint(a[i]); } putch('\n'); }
void putfarray(i32 n, float* a) { putint(n); putch(':'); for(i32 i = 0; i < n; ++i) { putch(' '); putfloat(a[i]); } putch('\n'); }
void _sysy_starttime(i32 l) { (void)l; }
void _sysy_stoptime(i32 l) { (void)l; }
void putf(void) { hc(5090, 0, 0, 0, 0); }

/* history events used by driver programs */
i32 sim_event(i32 kind, i32 a, i32 b, i32 c) { return (i32)hc(5020, kind, a, b, c); }

extern int main(void);
typedef void (*fn)(void);
extern fn __init_array_start[] __attribute__((weak)), __init_array_end[] __attribute__((weak));
extern fn __fini_array_start[] __attribute__((weak)), __fini_array_end[] __attribute__((weak));
__attribute__((noreturn, used)) void sim_start(void) {
    for(fn* p = __init_array_start; p < __init_array_end; ++p) (*p)();
    int r = main();
    for(fn* p = __fini_array_end; p > __fini_array_start;) (*--p)();
    for(;;) hc(SYS_exit_group, r, 0, 0, 0);
}
