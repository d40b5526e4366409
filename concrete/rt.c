/* Checking runtime: arena allocator with red zones, access checks and data-race detection on every access the
   compiler instruments (-fsanitize=thread callbacks), and a deterministic OpenMP runtime that runs the threads of a
   parallel region one after another in a chosen order (a legal schedule; conflicting accesses are detected
   independently of the order). */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#define ARENA (1UL << 28)
#define RZ 64
static unsigned char *ar, *sh;          /* arena and shadow: 0 red zone, 1 live, 2 freed */
static size_t cur = 0, base = 0, dirty = 0;
typedef struct { size_t off, n; int live; } blk;
static blk *blks; static int nb = 0, nbase = 0, cb = 0;
int vp_fill = 0xA5;
static char msg[16][400]; static int nmsg = 0; static int quiet = 0;
static const char *where = "";

static void report(const char *kind, const char *txt)
{
    if (quiet) return;
    for (int i = 0; i < nmsg && i < 16; i++)
        if (!strncmp(msg[i], kind, strlen(kind)) ) return;
    if (nmsg < 16) snprintf(msg[nmsg++], 400, "%s: %s", kind, txt);
}
int vp_nmsg(void) { return nmsg; }
const char *vp_msg(int i) { return msg[i]; }

static void init(void)
{
    if (ar) return;
    ar = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cb = 4096; blks = malloc(cb * sizeof(blk));
}
void vp_begin(void)       /* start of a case: everything allocated so far is persistent */
{
    init(); base = cur; nbase = nb; nmsg = 0; dirty = cur;
}
void vp_reset(void)       /* end of a case: forget its blocks */
{
    memset(sh + base, 0, cur - base + RZ); cur = base; nb = nbase; nmsg = 0;
}
long vp_live(void) { long c = 0; for (int i = nbase; i < nb; i++) c += blks[i].live; return c; }
long vp_live_bytes(void) { long c = 0; for (int i = nbase; i < nb; i++) if (blks[i].live) c += blks[i].n; return c; }
void *vp_malloc(size_t n)
{
    init();
    size_t a = (cur + RZ + 63) & ~63UL;
    if (n > ARENA / 2 || a + n + 2 * RZ > ARENA) { report("memory", "allocation of an absurd size"); return NULL; }
    memset(ar + a, vp_fill, n); memset(sh + a, 1, n);
    cur = a + n;
    if (nb == cb) { cb *= 2; blks = realloc(blks, cb * sizeof(blk)); }
    blks[nb].off = a; blks[nb].n = n; blks[nb].live = 1; nb++;
    return ar + a;
}
static int find(void *p)
{
    if (!ar || (unsigned char *)p < ar || (unsigned char *)p >= ar + ARENA) return -1;
    size_t o = (unsigned char *)p - ar;
    for (int i = nb - 1; i >= 0; i--) if (blks[i].off == o) return i;
    return -1;
}
void *vp_calloc(size_t n, size_t m) { void *p = vp_malloc(n * m); if (p) memset(p, 0, n * m); return p; }
int vp_posix_memalign(void **p, size_t al, size_t n) { *p = vp_malloc(n); return *p ? 0 : 12; }
void vp_free(void *p)
{
    if (!p) return;
    int i = find(p);
    if (i < 0) {
        if (ar && (unsigned char *)p >= ar && (unsigned char *)p < ar + ARENA) report("memory", "free of a pointer that is not the start of a block");
        else free(p);
        return;
    }
    if (!blks[i].live) { report("memory", "double free"); return; }
    blks[i].live = 0; memset(sh + blks[i].off, 2, blks[i].n);
    memset(ar + blks[i].off, 0xDB, blks[i].n);
}
void *vp_realloc(void *p, size_t n)
{
    if (!p) return vp_malloc(n);
    int i = find(p);
    if (i < 0 || !blks[i].live) { report("memory", "realloc of an invalid pointer"); return vp_malloc(n); }
    size_t o = blks[i].n; void *q = vp_malloc(n);
    memcpy(q, p, o < n ? o : n); vp_free(p);
    return q;
}
void vp_exit(int c) { fflush(NULL); _exit(97); }

/* ------------------------------------------------------------------ races */
typedef struct { uintptr_t a; unsigned ep; short w[2], r[2]; uintptr_t wp[2], rp[2]; } rec;
#define HB 20
static rec *ht; static unsigned epoch = 1; static int inpar = 0, tid = 0, nth = 1, maxth = 4, order = 0;
static uintptr_t prot = 0, stklo = 0, stkhi = 0; static int races_on = 1; static long hused = 0;

static rec *slot(uintptr_t a)
{
    if (!ht) ht = mmap(0, sizeof(rec) << HB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    unsigned h = (unsigned)((a * 0x9E3779B97F4A7C15UL) >> (64 - HB));
    for (int k = 0; k < 64; k++) {
        rec *r = ht + ((h + k) & ((1u << HB) - 1));
        if (r->ep != epoch) { memset(r, 0, sizeof *r); r->a = a; r->ep = epoch; r->w[0] = r->w[1] = r->r[0] = r->r[1] = -1; return r; }
        if (r->a == a) return r;
    }
    return NULL;
}
static void conflict(uintptr_t a, int t2, int w1, int w2)
{
    char b[300];
    int heap = ar && a >= (uintptr_t)ar && a < (uintptr_t)ar + ARENA;
    snprintf(b, 300, "threads %d and %d access the same %s location (%s/%s) in one parallel region", tid, t2,
             heap ? "heap" : "shared variable", w1 ? "write" : "read", w2 ? "write" : "read");
    report("race", b);
}
static void race(uintptr_t a, int n, int w)
{
    if (!inpar || !races_on || (a >= stklo && a < stkhi)) return;
    for (uintptr_t x = a & ~3UL; x < a + n; x += 4) {
        rec *r = slot(x); if (!r) return;
        for (int i = 0; i < 2; i++) {
            if (r->w[i] >= 0 && r->w[i] != tid && !(prot && prot == r->wp[i])) { conflict(a, r->w[i], w, 1); return; }
            if (w && r->r[i] >= 0 && r->r[i] != tid && !(prot && prot == r->rp[i])) { conflict(a, r->r[i], w, 0); return; }
        }
        short *s = w ? r->w : r->r; uintptr_t *p = w ? r->wp : r->rp; int done = 0;
        for (int i = 0; i < 2; i++) if (s[i] == tid && p[i] == prot) done = 1;
        for (int i = 0; i < 2 && !done; i++) if (s[i] < 0) { s[i] = tid; p[i] = prot; done = 1; }
    }
}
static void acc(void *p, int n, int w)
{
    uintptr_t a = (uintptr_t)p;
    if (ar && a >= (uintptr_t)ar && a < (uintptr_t)ar + ARENA) {
        size_t o = a - (uintptr_t)ar;
        for (int i = 0; i < n; i++)
            if (sh[o + i] != 1) { report("memory", sh[o + i] == 2 ? (w ? "write to a freed block" : "read of a freed block") : (w ? "write outside a block" : "read outside a block")); break; }
    } else if (a < 4096) { report("memory", "null pointer access"); }
    race(a, n, w);
}
void vp_range(const void *p, size_t n, int w)
{
    if (!n) return;
    uintptr_t a = (uintptr_t)p;
    if (ar && a >= (uintptr_t)ar && a < (uintptr_t)ar + ARENA) {
        size_t o = a - (uintptr_t)ar;
        for (size_t i = 0; i < n; i++) if (o + i >= ARENA || sh[o + i] != 1) { report("memory", w ? "bulk write outside a block" : "bulk read outside a block"); break; }
    }
    race(a, (int)n, w);
}
void *vp_memcpy(void *d, const void *s, size_t n)
{
    vp_range(s, n, 0); vp_range(d, n, 1);
    uintptr_t x = (uintptr_t)d, y = (uintptr_t)s;
    if (n && x != y && x < y + n && y < x + n) report("memory", "memcpy between overlapping ranges");
    return memmove(d, s, n);
}
void *vp_memmove(void *d, const void *s, size_t n) { vp_range(s, n, 0); vp_range(d, n, 1); return memmove(d, s, n); }
void *vp_memset(void *d, int c, size_t n) { vp_range(d, n, 1); return memset(d, c, n); }

#define RW(N) void __tsan_read##N(void *p) { acc(p, N, 0); } void __tsan_write##N(void *p) { acc(p, N, 1); } \
  void __tsan_unaligned_read##N(void *p) { acc(p, N, 0); } void __tsan_unaligned_write##N(void *p) { acc(p, N, 1); } \
  void __tsan_volatile_read##N(void *p) { acc(p, N, 0); } void __tsan_volatile_write##N(void *p) { acc(p, N, 1); } \
  void __tsan_read_write##N(void *p) { acc(p, N, 0); acc(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { vp_range(p, n, 0); }
void __tsan_write_range(void *p, long n) { vp_range(p, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) {}
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T *p, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 0); prot = o; return *p; } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; *p = v; } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; T x = *p; *p = x + v; return x; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; T x = *p; *p = x - v; return x; } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; T x = *p; *p = x & v; return x; } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; T x = *p; *p = x | v; return x; } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int m) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; T x = *p; *p = v; return x; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, m, f); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { uintptr_t o = prot; prot = 1; acc((void *)p, sizeof(T), 1); prot = o; T x = *p; if (x == c) *p = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ------------------------------------------------------------------ OpenMP */
typedef struct { volatile int held; } lk;
static int nest = 0;
int omp_get_thread_num(void) { return nest ? 0 : tid; }
int omp_get_num_threads(void) { return nest ? 1 : inpar ? nth : 1; }
int omp_get_max_threads(void) { return inpar ? 1 : maxth; }
int omp_get_num_procs(void) { return maxth; }
int omp_in_parallel(void) { return inpar; }
void omp_set_num_threads(int n) { }
double omp_get_wtime(void) { return 0; }
void omp_init_lock(void *l) { *(int *)l = 0; }
void omp_destroy_lock(void *l) { }
void omp_set_lock(void *l) { vp_range(l, 4, 0); prot = (uintptr_t)l; }
void omp_unset_lock(void *l) { prot = 0; }
void GOMP_atomic_start(void) { prot = 1; }
void GOMP_atomic_end(void) { prot = 0; }
void GOMP_critical_start(void) { prot = 2; }
void GOMP_critical_end(void) { prot = 0; }
void GOMP_critical_name_start(void **p) { prot = (uintptr_t)p; }
void GOMP_critical_name_end(void **p) { prot = 0; }

#define MAXT 64
#define STK (1 << 20)
static ucontext_t mainc, tc[MAXT]; static char *stks[MAXT]; static int st[MAXT]; /* 0 ready 1 at barrier 2 done */
static void (*pfn)(void *); static void *pdata;
static void tramp(int t) { pfn(pdata); st[t] = 2; swapcontext(&tc[t], &mainc); }
void GOMP_barrier(void) { if (!inpar || nest) return; int t = tid; st[t] = 1; uintptr_t o = prot; swapcontext(&tc[t], &mainc); prot = o; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    if (inpar) { nest++; fn(data); nest--; return; }   /* nested: one thread */
    nth = n ? (int)n : maxth; if (nth > MAXT) nth = MAXT;
    inpar = 1; epoch++; pfn = fn; pdata = data;
    for (int t = 0; t < nth; t++) {
        if (!stks[t]) stks[t] = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        getcontext(&tc[t]); tc[t].uc_stack.ss_sp = stks[t]; tc[t].uc_stack.ss_size = STK; tc[t].uc_link = &mainc;
        makecontext(&tc[t], (void (*)(void))tramp, 1, t); st[t] = 0;
    }
    for (;;) {
        int left = 0;
        for (int k = 0; k < nth; k++) {
            int t = order == 1 ? nth - 1 - k : order == 2 ? (k + nth / 2) % nth : k;
            if (st[t] == 2) continue;
            left = 1; st[t] = 0; tid = t; stklo = (uintptr_t)stks[t]; stkhi = stklo + STK; prot = 0;
            swapcontext(&mainc, &tc[t]);
        }
        if (!left) break;
        epoch++;       /* barrier */
    }
    inpar = 0; tid = 0; nth = 1; stklo = stkhi = 0; prot = 0;
}
void vp_threads(int n, int ord) { maxth = n; order = ord; }
void vp_races(int on) { races_on = on; }
int vp_nth(void) { return maxth; }

/* work sharing with run-time schedules: iterations are handed out cyclically, in the chosen thread order */
typedef struct { int gen[MAXT]; long start, end, incr, next; int cur, set; } ws;
static ws W;
static int wgen[MAXT];
static void ws_init(long s, long e, long i) { if (!W.set || wgen[tid] >= W.cur) { W.set = 1; W.cur++; W.start = s; W.next = s; W.end = e; W.incr = i; } wgen[tid] = W.cur; }
static int ws_next(long *a, long *b)
{
    /* thread t takes every nth-th iteration: any assignment is a legal dynamic schedule */
    static long pos[MAXT]; static int pg[MAXT];
    int t = nest ? 0 : tid, n = nest ? 1 : nth;
    if (pg[t] != W.cur) { pg[t] = W.cur; pos[t] = t; }
    long x = W.start + pos[t] * W.incr;
    if (W.incr > 0 ? x >= W.end : x <= W.end) return 0;
    pos[t] += n; *a = x; *b = x + W.incr; return 1;
}
static void ws_reset(void) { W.set = 0; W.cur = 0; for (int i = 0; i < MAXT; i++) wgen[i] = 0; }
#define LOOPS(K) \
  int GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { ws_init(s, e, i); return ws_next(a, b); } \
  int GOMP_loop_##K##_next(long *a, long *b) { return ws_next(a, b); }
LOOPS(dynamic) LOOPS(guided) LOOPS(static) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
int GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { ws_init(s, e, i); return ws_next(a, b); }
int GOMP_loop_runtime_next(long *a, long *b) { return ws_next(a, b); }
int GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { ws_init(s, e, i); return ws_next(a, b); }
int GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return ws_next(a, b); }
int GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { ws_init(s, e, i); return ws_next(a, b); }
int GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return ws_next(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
#define PLOOPS(K) void GOMP_parallel_loop_##K(void (*f)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) \
  { ws_reset(); W.set = 1; W.cur = 1; W.start = s; W.end = e; W.incr = i; for (int k = 0; k < MAXT; k++) wgen[k] = 1; wsbump(); GOMP_parallel(f, d, n, fl); ws_reset(); }
static int wsbase = 1000; static void wsbump(void) { W.cur = wsbase++; for (int k = 0; k < MAXT; k++) wgen[k] = W.cur; }
PLOOPS(dynamic) PLOOPS(guided) PLOOPS(static) PLOOPS(nonmonotonic_dynamic) PLOOPS(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_static(f, d, n, s, e, i, 1, fl); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_static(f, d, n, s, e, i, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*f)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_static(f, d, n, s, e, i, 1, fl); }
/* single: the thread that runs first takes it */
static int sgen[MAXT], scur = 0;
int GOMP_single_start(void) { if (!inpar || nest) return 1; sgen[tid]++; if (sgen[tid] > scur) { scur = sgen[tid]; return 1; } return 0; }

/* ------------------------------------------------------------------ BLAS, with the extents the library may touch */
#include <complex.h>
#include <math.h>
typedef float complex fc; typedef double complex dc;
static void mat_range(const void *a, int rows, int cols, int ld, int e, int w)
{ for (int j = 0; j < cols; j++) vp_range((const char *)a + (size_t)j * ld * e, (size_t)rows * e, w); }
static float cj_f(float x) { return x; } static double cj_d(double x) { return x; }
static fc cj_fc(fc x) { return conjf(x); } static dc cj_dc(dc x) { return conj(x); }
#define BLAS(P, T, CJ) \
void vp_##P##gemm(const char *ta, const char *tb, const int *m, const int *n, const int *k, const T *al, const T *a, const int *lda, \
    const T *b, const int *ldb, const T *be, T *c, const int *ldc) { \
  int na = (*ta == 'N' || *ta == 'n'), nB = (*tb == 'N' || *tb == 'n'), cA = (*ta == 'C' || *ta == 'c'), cB = (*tb == 'C' || *tb == 'c'); \
  if (*al != 0) { mat_range(a, na ? *m : *k, na ? *k : *m, *lda, sizeof(T), 0); mat_range(b, nB ? *k : *n, nB ? *n : *k, *ldb, sizeof(T), 0); } \
  if (*be != 0) mat_range(c, *m, *n, *ldc, sizeof(T), 0); mat_range(c, *m, *n, *ldc, sizeof(T), 1); \
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { T s = 0; \
    if (*al != 0) for (int l = 0; l < *k; l++) { T x = na ? a[i + (size_t)l * *lda] : a[l + (size_t)i * *lda], y = nB ? b[l + (size_t)j * *ldb] : b[j + (size_t)l * *ldb]; \
      s += (cA ? CJ(x) : x) * (cB ? CJ(y) : y); } \
    c[i + (size_t)j * *ldc] = *al * s + (*be != 0 ? *be * c[i + (size_t)j * *ldc] : 0); } } \
void vp_##P##axpy(const int *n, const T *a, const T *x, const int *ix, T *y, const int *iy) { \
  for (int i = 0; i < *n; i++) { vp_range(x + i * *ix, sizeof(T), 0); vp_range(y + i * *iy, sizeof(T), 1); y[i * *iy] += *a * x[i * *ix]; } } \
void vp_##P##scal(const int *n, const T *a, T *x, const int *ix) { \
  for (int i = 0; i < *n; i++) { vp_range(x + i * *ix, sizeof(T), 1); x[i * *ix] *= *a; } } \
void vp_##P##lacpy(const char *u, const int *m, const int *n, const T *a, const int *lda, T *b, const int *ldb) { \
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { if ((*u == 'U' || *u == 'u') && i > j) continue; if ((*u == 'L' || *u == 'l') && i < j) continue; \
    vp_range(a + i + (size_t)j * *lda, sizeof(T), 0); vp_range(b + i + (size_t)j * *ldb, sizeof(T), 1); b[i + (size_t)j * *ldb] = a[i + (size_t)j * *lda]; } }
BLAS(s, float, cj_f) BLAS(d, double, cj_d) BLAS(c, fc, cj_fc) BLAS(z, dc, cj_dc)
