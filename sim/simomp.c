/* Replacement for libgomp and the ThreadSanitizer runtime: OpenMP threads are
 * fibers of one OS thread, every memory access of the instrumented Fortran code
 * is a possible switch point, and a seeded generator decides every switch.
 * Arrays (numpy's allocator, and malloc of the Fortran code) live in an arena
 * with a shadow map, so each access outside of a live block is seen. */
#define _GNU_SOURCE
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL simomp_ARRAY_API
#include <numpy/arrayobject.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>

/* ---------------------------------------------------------------- random */
static uint64_t rs;
static uint64_t rnd(void) {
    uint64_t z = (rs += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static unsigned below(unsigned n) { return n ? (unsigned)(rnd() % n) : 0; }

/* ----------------------------------------------------------------- state */
#define MAXF 4096
typedef struct team team;
typedef struct fiber {
    ucontext_t ctx;
    char *stack; size_t stacksz;
    team *tm; int tid;
    int state;                 /* 0 free, 1 runnable, 2 blocked, 3 done */
    void *waits;               /* what it is blocked on */
    int ws;                    /* workshares entered */
    int prio;
    int level;
    struct ws *cur;            /* current workshare */
    int nth_icv;
} fiber;
typedef struct ws {
    int id; long next, end, incr, chunk; int kind; int started, single_taken, sec_next, sec_n, ended;
    void *copy;
    struct ws *link;
} ws;
struct team { int n, alive, arrived; long gen; ws *list; void (*fn)(void *); void *data; team *parent; };

static fiber F[MAXF]; static int nF = 1, cur = 0;
static int inpar;              /* depth of regions with more than one thread */
static int icv_threads = 8, icv_procs = 8, icv_dynamic, icv_cfg_fewer, icv_levels = 1;
static int mode, mean; static long countdown;
static size_t stacksize = 8u << 20;
static long n_switch, n_regions, n_access, n_fewer, n_multi, max_threads_seen; static uint64_t sig;
static long budget;
static int armed;
static char err[512]; static int errcode;
static double simtime;

static void fail(int code, const char *msg) {
    if (!errcode) { errcode = code; snprintf(err, sizeof err, "%s", msg); }
}
static void die(int code, const char *msg) {
    fail(code, msg);
    fprintf(stderr, "simomp: %s\n", msg); fflush(stderr);
    _exit(code);
}

/* ----------------------------------------------------------------- arena */
#define ARENA (6ul << 30)
static char *arena, *shadow; static size_t top; static int fillmode; static long n_alloc, n_live;
static void arena_init(void) {
    if (arena) return;
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = mmap(0, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED) die(98, "no memory for the arena");
    top = 4096;
}
static int inarena(const void *p) { return arena && (const char *)p >= arena && (const char *)p < arena + ARENA; }
/* header: 64 bytes before the block: size */
static void *a_malloc(size_t n, int fill) {
    arena_init();
    size_t m = n ? n : 1;
    top = (top + 255) & ~255ul;
    size_t off = top + 128 + 64 * below(4);
    if (off + m + 4096 > ARENA) return NULL;
    top = off + m + 128;
    char *p = arena + off;
    *(size_t *)(p - 64) = n;
    memset(shadow + off / 8, 8, m / 8);
    if (m % 8) shadow[off / 8 + m / 8] = m % 8;
    if (fill && fillmode) {
        union { double d; uint64_t u; } x;
        if (fillmode == 1) x.u = 0x7ff8dead00000000ull; else x.d = 1.2345e200;
        for (size_t i = 0; i + 8 <= n; i += 8) memcpy(p + i, &x, 8);
    }
    n_alloc++; n_live++;
    return p;
}
static void a_free(void *q) {
    char *p = q; size_t off = p - arena, n = *(size_t *)(p - 64), m = n ? n : 1;
    if (shadow[off / 8] == 0) { fail(96, "free of a block which is not allocated"); return; }
    memset(shadow + off / 8, 0, (m + 7) / 8);
    /* give big blocks back, poison the others */
    size_t a = (off + 4095) & ~4095ul, b = (off + m) & ~4095ul;
    if (b > a) madvise(arena + a, b - a, MADV_DONTNEED);
    else memset(p, 0x7d, m);
    n_live--;
}
static void *a_realloc(void *p, size_t n) {
    if (!p) return a_malloc(n, 1);
    void *q = a_malloc(n, 1); size_t o = *(size_t *)((char *)p - 64);
    if (q) { memcpy(q, p, o < n ? o : n); a_free(p); }
    return q;
}
static void range(const char *p, size_t n, int wr) {
    if (!inarena(p)) return;
    size_t off = p - arena, i = 0;
    while (i < n) {
        size_t o = off + i, r = 8 - o % 8;
        if (r > n - i) r = n - i;
        int v = shadow[o / 8];
        if ((int)(o % 8 + r) > v) {
            char b[200]; snprintf(b, sizeof b, "%s of %zu bytes outside of any array", wr ? "write" : "read", n);
            fail(95, b); return;
        }
        i += r;
    }
}
void *simomp_malloc(size_t n) { void *p = armed ? a_malloc(n, 1) : NULL; return p ? p : malloc(n); }
void *simomp_calloc(size_t a, size_t b) { if (!armed) return calloc(a, b); void *p = a_malloc(a * b, 0); if (p) memset(p, 0, a * b); return p; }
void simomp_free(void *p) { if (inarena(p)) a_free(p); else free(p); }
void *simomp_realloc(void *p, size_t n) { if (inarena(p) || (!p && armed)) return a_realloc(p, n); return realloc(p, n); }
static void yieldpt(void);
void *simomp_memcpy(void *d, const void *s, size_t n) { range(s, n, 0); range(d, n, 1); yieldpt(); return memmove(d, s, n); }
void *simomp_memmove(void *d, const void *s, size_t n) { range(s, n, 0); range(d, n, 1); yieldpt(); return memmove(d, s, n); }
void *simomp_memset(void *d, int c, size_t n) { extern void *memset(void *, int, size_t); range(d, n, 1); yieldpt(); return memset(d, c, n); }

/* numpy's allocator */
static void *np_malloc(void *c, size_t n) { void *p = a_malloc(n, 1); return p ? p : malloc(n); }
static void *np_calloc(void *c, size_t a, size_t b) { void *p = a_malloc(a * b, 0); if (p) memset(p, 0, a * b); return p; }
static void *np_realloc(void *c, void *p, size_t n) { return inarena(p) || !p ? a_realloc(p, n) : realloc(p, n); }
static void np_free(void *c, void *p, size_t n) { if (inarena(p)) a_free(p); else free(p); }
static PyDataMem_Handler H = { "simomp", 1, { NULL, np_malloc, np_calloc, np_realloc, np_free } };
static void *imp(void) { import_array1(NULL); return (void *)1; }
int simomp_numpy(void) {
    if (!PyArray_API && !imp()) return -1;
    arena_init();
    PyObject *c = PyCapsule_New(&H, "mem_handler", NULL);
    PyObject *o = PyDataMem_SetHandler(c);
    Py_XDECREF(o); Py_DECREF(c);
    return o ? 0 : -1;
}

/* ------------------------------------------------------------- scheduler */
static long newcount(void) {
    switch (mode) {
    case 0: return 1 + below(2 * mean);               /* every few accesses */
    case 1: return 1L << 60;                          /* at synchronisation only */
    case 2: { long k = 1; while (below(mean) && k < 100000) k++; return k; }
    case 3: return below(4) ? 1 + below(3) : 1 + below(40 * mean);   /* bursts of single steps */
    default: return 1 + below(2 * mean);
    }
}
static int pick(int self_ok) {
    int c[MAXF], n = 0;
    for (int i = 0; i < nF; i++) if (F[i].state == 1 && (self_ok || i != cur)) c[n++] = i;
    if (!n) return -1;
    if (mode == 4) {           /* priorities: a stalled thread moves only if nobody else can */
        int b = c[0];
        for (int i = 1; i < n; i++) if (F[c[i]].prio > F[b].prio) b = c[i];
        if (below(50) == 0) F[b].prio = below(1000);
        return b;
    }
    return c[below(n)];
}
static void go(int to) {
    if (to == cur) return;
    int from = cur;
    n_switch++; sig = (sig ^ (uint64_t)(to + 1 + 1000003ull * (n_access & 0xffffff))) * 0x100000001b3ull;
    cur = to;
    swapcontext(&F[from].ctx, &F[to].ctx);
}
static void yieldpt(void) {
    if (!inpar) return;
    n_access++;
    if (budget && n_access > budget) die(94, "kernel does not end: step budget used up");
    if (--countdown > 0) return;
    countdown = newcount();
    int t = pick(1);
    if (t >= 0) go(t);
}
static void block(void) {      /* the state of the current fiber is 2 or 3 */
    int t = pick(0);
    if (t < 0) die(93, "deadlock: all threads wait");
    countdown = newcount();
    go(t);
}
static void sync_yield(void) {
    if (!inpar) return;
    countdown = newcount();
    int t = pick(1);
    if (t >= 0) go(t);
}
static void wait_on(void *w) { F[cur].state = 2; F[cur].waits = w; block(); }
static void wake(void *w) { for (int i = 0; i < nF; i++) if (F[i].state == 2 && F[i].waits == w) F[i].state = 1; }

static void fiber_main(int id) {
    fiber *f = &F[id];
    f->tm->fn(f->tm->data);
    f->tm->alive--;
    f->state = 3;
    wake(f->tm);
    block();
    die(98, "finished fiber was resumed");
}
static team solo = { .n = 1, .alive = 1 };
static team *T(void) { return F[cur].tm ? F[cur].tm : &solo; }

static void region(void (*fn)(void *), void *data, unsigned nth, ws *first) {
    fiber *me = &F[cur];
    int n = nth ? (int)nth : (me->nth_icv ? me->nth_icv : icv_threads);
    if (me->level >= icv_levels) n = 1;
    if (n < 1) n = 1;
    if (n > 256) n = 256;
    n_regions++;
    if (icv_cfg_fewer && n > 1 && below(2)) { n = 1 + below(n); n_fewer++; }
    if (n > 1) n_multi++;
    if (n > max_threads_seen) max_threads_seen = n;
    team tm = { .n = n, .alive = n, .fn = fn, .data = data, .parent = me->tm, .list = first };
    team *otm = me->tm; int otid = me->tid, ows = me->ws; ws *ocur = me->cur;
    me->tm = &tm; me->tid = 0; me->ws = first ? 1 : 0; me->cur = first; me->level++;
    if (n > 1) inpar++;
    for (int i = 1; i < n; i++) {
        int id;
        for (id = 1; id < nF && F[id].state != 3 && F[id].state != 0; id++);
        if (id == nF) { if (nF == MAXF) die(98, "too many threads"); nF++; }
        fiber *f = &F[id];
        if (!f->stack || f->stacksz != stacksize) {
            if (f->stack) munmap(f->stack, f->stacksz + 65536);
            f->stack = mmap(0, stacksize + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
            if (f->stack == MAP_FAILED) die(98, "no memory for stacks");
            mprotect(f->stack, 65536, PROT_NONE);
            f->stacksz = stacksize;
        }
        f->tm = &tm; f->tid = i; f->state = 1; f->waits = 0; f->ws = first ? 1 : 0; f->cur = first; f->prio = below(1000); f->level = me->level; f->nth_icv = me->nth_icv;
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = f->stack + 65536; f->ctx.uc_stack.ss_size = f->stacksz; f->ctx.uc_link = NULL;
        makecontext(&f->ctx, (void (*)(void))fiber_main, 1, id);
    }
    me->state = 1; me->prio = below(1000);
    countdown = newcount();
    if (n > 1) sync_yield();
    fn(data);
    tm.alive--;
    while (tm.alive > 0) wait_on(&tm);
    if (n > 1) inpar--;
    for (ws *w = tm.list; w; ) { ws *l = w->link; if (w != first || 1) free(w); w = l; }
    me->tm = otm; me->tid = otid; me->ws = ows; me->cur = ocur; me->level--;
}

/* -------------------------------------------------------------- GOMP API */
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { region(fn, data, n, NULL); }
void GOMP_barrier(void) {
    team *t = T();
    if (t->n == 1) return;
    long g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake((char *)t + 1); sync_yield(); }
    else while (t->gen == g) wait_on((char *)t + 1);
}
static void *locks[64]; static int owner[64], depth[64];
static int lockidx(void *k) { for (int i = 0; i < 64; i++) { if (locks[i] == k) return i; if (!locks[i]) { locks[i] = k; owner[i] = -1; return i; } } die(98, "too many locks"); return 0; }
static void lock(void *k) { int i = lockidx(k); sync_yield(); while (owner[i] >= 0) wait_on(&locks[i]); owner[i] = cur; }
static void unlock(void *k) { int i = lockidx(k); owner[i] = -1; wake(&locks[i]); sync_yield(); }
static char L_crit, L_atom;
void GOMP_critical_start(void) { lock(&L_crit); }
void GOMP_critical_end(void) { unlock(&L_crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&L_atom); }
void GOMP_atomic_end(void) { unlock(&L_atom); }

static ws *enter(void) {       /* the next workshare of this thread */
    team *t = T(); fiber *f = &F[cur]; int id = f->ws++;
    for (ws *w = t->list; w; w = w->link) if (w->id == id) { f->cur = w; return w; }
    ws *w = calloc(1, sizeof *w); w->id = id; w->link = t->list; t->list = w; f->cur = w;
    return w;
}
static void loop_setup(ws *w, long s, long e, long inc, long chunk, int kind) { w->started = 1; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk < 1 ? 1 : chunk; w->kind = kind; }
static bool loop_take(ws *w, long *a, long *b) {
    sync_yield();
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->end - w->next + w->incr + 1) / w->incr;
    if (left <= 0) return false;
    long c = w->chunk;
    if (w->kind == 1) { long g = left / T()->n; if (g > c) c = g; }
    if (c > left) c = left;
    *a = w->next; w->next += c * w->incr; *b = w->next;
    return true;
}
#define LOOPS(NAME, KIND) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { ws *w = enter(); if (!w->started) loop_setup(w, s, e, i, c, KIND); return loop_take(w, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return loop_take(F[cur].cur, a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { ws *w = calloc(1, sizeof *w); loop_setup(w, s, e, i, c, KIND); region(fn, d, n, w); }
LOOPS(static, 0) LOOPS(dynamic, 0) LOOPS(guided, 1) LOOPS(nonmonotonic_dynamic, 0) LOOPS(nonmonotonic_guided, 1)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { ws *w = enter(); if (!w->started) loop_setup(w, s, e, i, 1, 0); return loop_take(w, a, b); } \
bool GOMP_loop_##NAME##_next(long *a, long *b) { return loop_take(F[cur].cur, a, b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { ws *w = calloc(1, sizeof *w); loop_setup(w, s, e, i, 1, 0); region(fn, d, n, w); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { sync_yield(); }
bool GOMP_single_start(void) { ws *w = enter(); sync_yield(); if (w->single_taken) return false; w->single_taken = 1; return true; }
void *GOMP_single_copy_start(void) { ws *w = enter(); if (!w->single_taken) { w->single_taken = 1; return NULL; } GOMP_barrier(); return w->copy; }
void GOMP_single_copy_end(void *d) { F[cur].cur->copy = d; GOMP_barrier(); }
static unsigned sec(ws *w) { sync_yield(); return w->sec_next < w->sec_n ? ++w->sec_next : 0; }
unsigned GOMP_sections_start(unsigned n) { ws *w = enter(); if (!w->started) { w->started = 1; w->sec_n = n; } return sec(w); }
unsigned GOMP_sections_next(void) { return sec(F[cur].cur); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { sync_yield(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned fl) { ws *w = calloc(1, sizeof *w); w->started = 1; w->sec_n = cnt; region(fn, d, n, w); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool iff, unsigned fl, void **dep, int pr, void *det) {
    if (cpy) { char b[sz + al]; char *p = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data);
    sync_yield();
}
void GOMP_taskwait(void) { sync_yield(); }
void GOMP_taskyield(void) { sync_yield(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) { sync_yield(); }
bool GOMP_cancellation_point(int w) { return false; }
bool GOMP_cancel(int w, bool d) { return false; }

/* --------------------------------------------------------------- omp API */
#define I4 int32_t
void omp_set_num_threads(int n) { F[cur].nth_icv = n > 0 ? n : 1; }
void omp_set_num_threads_(const I4 *n) { omp_set_num_threads(*n); }
void omp_set_num_threads_8_(const int64_t *n) { omp_set_num_threads((int)*n); }
int omp_get_num_threads(void) { return T()->n; }
int omp_get_thread_num(void) { return F[cur].tm ? F[cur].tid : 0; }
int omp_get_max_threads(void) { return F[cur].nth_icv ? F[cur].nth_icv : icv_threads; }
int omp_get_num_procs(void) { return icv_procs; }
int omp_in_parallel(void) { return inpar > 0; }
int omp_get_dynamic(void) { return icv_dynamic; }
void omp_set_dynamic(int d) { icv_dynamic = d; }
int omp_get_level(void) { return F[cur].level; }
int omp_get_active_level(void) { return inpar; }
int omp_get_thread_limit(void) { return 256; }
void omp_set_nested(int v) { icv_levels = v ? 8 : 1; }
int omp_get_nested(void) { return icv_levels > 1; }
void omp_set_max_active_levels(int v) { icv_levels = v; }
int omp_get_max_active_levels(void) { return icv_levels; }
void omp_set_schedule(int k, int c) {}
double omp_get_wtime(void) { simtime += 1e-6; return simtime; }
double omp_get_wtick(void) { return 1e-6; }
#define FI(n) I4 n##_(void) { return n(); }
FI(omp_get_num_threads) FI(omp_get_thread_num) FI(omp_get_max_threads) FI(omp_get_num_procs) FI(omp_in_parallel) FI(omp_get_dynamic) FI(omp_get_level) FI(omp_get_active_level) FI(omp_get_thread_limit) FI(omp_get_nested) FI(omp_get_max_active_levels)
void omp_set_dynamic_(const I4 *v) { icv_dynamic = *v; }
void omp_set_nested_(const I4 *v) { omp_set_nested(*v); }
void omp_set_max_active_levels_(const I4 *v) { icv_levels = *v; }
void omp_set_schedule_(const I4 *a, const I4 *b) {}
double omp_get_wtime_(void) { return omp_get_wtime(); }
double omp_get_wtick_(void) { return 1e-6; }
void omp_init_lock_(void *l) {} void omp_destroy_lock_(void *l) {}
void omp_set_lock_(void *l) { lock(l); } void omp_unset_lock_(void *l) { unlock(l); }
void omp_init_lock(void *l) {} void omp_destroy_lock(void *l) {}
void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
I4 omp_test_lock_(void *l) { int i = lockidx(l); sync_yield(); if (owner[i] >= 0) return 0; owner[i] = cur; return 1; }

/* ------------------------------------------------------------ tsan hooks */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}
static inline void rd(void *p, size_t n) { yieldpt(); if (inarena(p)) range(p, n, 0); }
static inline void wr(void *p, size_t n) { yieldpt(); if (inarena(p)) range(p, n, 1); }
#define RW(n) void __tsan_read##n(void *p) { rd(p, n); } void __tsan_write##n(void *p) { wr(p, n); } \
    void __tsan_volatile_read##n(void *p) { rd(p, n); } void __tsan_volatile_write##n(void *p) { wr(p, n); } \
    void __tsan_unaligned_read##n(void *p) { rd(p, n); } void __tsan_unaligned_write##n(void *p) { wr(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { rd(p, n); }
void __tsan_write_range(void *p, size_t n) { wr(p, n); }
void __tsan_vptr_update(void *p, void *v) {} void __tsan_vptr_read(void *p) {}
#define AT(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY *a, int m) { yieldpt(); range((char *)a, sizeof(TY), 0); return *a; } \
void __tsan_atomic##N##_store(volatile TY *a, TY v, int m) { yieldpt(); range((char *)a, sizeof(TY), 1); *a = v; } \
TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = v; return o; } \
TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = o + v; return o; } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = o - v; return o; } \
TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = o & v; return o; } \
TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = o | v; return o; } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = o ^ v; return o; } \
TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int m) { yieldpt(); TY o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int m, int f) { yieldpt(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int m, int f) { yieldpt(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int m, int f) { yieldpt(); TY o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) {} void __tsan_atomic_signal_fence(int m) {}

/* --------------------------------------------------------------- control */
void simomp_config(uint64_t seed, int md, int mn, int threads, int procs, int fewer, long stack, int fill, long bud) {
    rs = seed * 0x9e3779b97f4a7c15ull + 12345; mode = md; mean = mn < 1 ? 1 : mn; icv_threads = threads; icv_procs = procs;
    icv_cfg_fewer = fewer; stacksize = stack; fillmode = fill; budget = bud ? n_access + bud : 0; armed = 1; sig = 0xcbf29ce484222325ull; countdown = newcount();
}
void simomp_off(void) { armed = 0; }
void simomp_stats(int64_t *o) { o[0] = n_switch; o[1] = n_regions; o[2] = n_multi; o[3] = n_access; o[4] = n_fewer; o[5] = max_threads_seen; o[6] = (int64_t)sig; o[7] = n_alloc; o[8] = n_live; }
int simomp_error(char *b, int n) { int c = errcode; snprintf(b, n, "%s", err); errcode = 0; return c; }
