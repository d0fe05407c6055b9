/* Driver program linked against the real runtime emitted by the compiler. It reads a list of
   operations, performs them through the runtime's entry points and reports a history of events to
   the simulator, which checks it while the run proceeds. */
typedef int i32;
typedef unsigned u32;
typedef void (*body_t)(i32, i32);
extern i32 getint(void);
extern i32 sim_event(i32 kind, i32 a, i32 b, i32 c);
extern void cmmcParallelFor(i32, i32, body_t) __attribute__((weak));
extern void cmmcReduceAddI32(i32*, i32) __attribute__((weak));
extern void cmmcReduceAddF32(float*, float) __attribute__((weak));
extern i32* cmmcCacheLookup(i32*, i32, i32) __attribute__((weak));

enum { E_CALL = 1, E_BEG, E_END, E_RET, E_STALE, E_LOST, E_VAL, E_OTHER };
#define W 2048
static volatile i32 in[64], out[W];
static volatile i32 g_base, g_small, g_spin, g_kind, g_token;
static i32 g_sum;
static float g_fsum;
static i32 g_arr[8];

static void work(i32 id, i32 beg, i32 end) {
    i32 tok = g_token;
    sim_event(E_BEG, id, beg, end);
    for(i32 k = 0; k < 8; ++k)
        if(in[((u32)beg + (u32)k * 7) & 63] != tok) sim_event(E_STALE, id, in[((u32)beg + (u32)k * 7) & 63], tok);
    for(volatile i32 k = 0; k < g_spin; ++k) ;
    if(g_kind == 2) {
        for(i32 i = beg; i < end; ++i) cmmcReduceAddI32(&g_sum, (i32)((u32)i * 2654435761u + (u32)tok));
    } else if(g_kind == 3) {
        for(i32 i = beg; i < end; ++i) cmmcReduceAddF32(&g_fsum, (float)(((i - g_base) & 15) - 3));
    } else if(g_kind == 4) {
        for(i32 i = beg; i < end; ++i) cmmcReduceAddI32(&g_arr[(i - g_base) & 7], (i32)((u32)i ^ (u32)tok));
    } else if(g_small) {
        u32 o = (u32)beg - (u32)g_base;
        for(u32 i = o; i < o + ((u32)end - (u32)beg); ++i)
            if(i < W) out[i] = (i32)((u32)tok + i * 3);
    }
    sim_event(E_END, id, beg, end);
}
#define B(n) static void body##n(i32 b, i32 e) { work(n, b, e); __asm__ volatile("" ::: "memory"); }
B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10) B(11) B(12) B(13) B(14) B(15) B(16) B(17) B(18) B(19) B(20) B(21) B(22) B(23)
static body_t const bodies[24] = { body0, body1, body2, body3, body4, body5, body6, body7, body8, body9, body10, body11,
                                   body12, body13, body14, body15, body16, body17, body18, body19, body20, body21, body22, body23 };

/* memoised recursion, following the code the compiler emits around a memoised function */
static i32 lut[2][1021 * 4] __attribute__((aligned(8)));
static i32 mp[2][8];
static i32 memo(i32 t, i32 a, i32 b) {
    i32* p = cmmcCacheLookup(lut[t], a, b);
    if(p[3]) return p[2];
    i32 r;
    i32* q = mp[t];
    if(a < q[0]) r = (i32)((u32)a * (u32)q[1] + (u32)b * 3u + 1u);
    else {
        u32 x = (u32)memo(t, a - q[2], (i32)((u32)b + (u32)q[3]));
        u32 y = (u32)memo(t, a - q[4], (i32)((u32)b + (u32)q[5]));
        r = (i32)(x * 5u + y * 3u + (u32)b + (u32)q[6]);
    }
    p[3] = 1;
    p[2] = r;
    return r;
}

i32 main(void) {
    i32 n = getint(), status = getint();
    for(i32 t = 0; t < 2; ++t) for(i32 k = 0; k < 7; ++k) mp[t][k] = getint();
    for(i32 op = 0; op < n; ++op) {
        i32 kind = getint(), a = getint(), b = getint(), c = getint(), d = getint();
        if(kind == 5) {
            i32 r = memo(c, a, b);
            sim_event(E_VAL, op, 0, r);
            continue;
        }
        i32 tok = (i32)((u32)op * 40503u + 77u);
        for(i32 k = 0; k < 64; ++k) in[k] = tok;
        u32 size = b > a ? (u32)b - (u32)a : 0;
        g_base = a; g_small = size <= W; g_spin = d; g_kind = kind; g_token = tok;
        g_sum = tok; g_fsum = 1.0f;
        for(i32 k = 0; k < 8; ++k) g_arr[k] = k;
        sim_event(E_CALL, op, 0, 0);
        cmmcParallelFor(a, b, bodies[c]);
        if(kind == 1 && size <= W)
            for(u32 i = 0; i < size; ++i)
                if(out[i] != (i32)((u32)tok + i * 3)) { sim_event(E_LOST, op, (i32)i, out[i]); break; }
        if(kind == 2) sim_event(E_VAL, op, 0, *(volatile i32*)&g_sum);
        if(kind == 3) { union { float f; i32 i; } u; u.f = *(volatile float*)&g_fsum; sim_event(E_VAL, op, 0, u.i); }
        if(kind == 4) for(i32 k = 0; k < 8; ++k) sim_event(E_VAL, op, k, *(volatile i32*)&g_arr[k]);
        sim_event(E_RET, op, 0, 0);
    }
    return status;
}
