/* A controlled OpenMP run time.
 *
 * Stands in for libgomp in the extension modules of the package under test (linked instead of it), so that the explorer
 * decides which thread gets which loop iteration and who runs when.  The threads of a team are real threads, but only
 * the one that holds the token runs.  It can lose the token at
 *   - the start of a thread, a request for work, the receipt of work, a barrier, the end of the thread, and
 *   - (PREEMPT) one chosen memory access.
 * The modules are compiled with -fsanitize=thread and their __tsan_* callbacks end here: with recording switched on,
 * every access of the explored region is logged, and conflicts - two threads touching the same 4 bytes, one of them
 * writing, with no barrier in between - are reported.  If an execution has none, every other interleaving of the same
 * assignment of iterations to threads is equivalent to it.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <dlfcn.h>
#include <unistd.h>

#define MAXT 8
#define MAXWS 64
#define MAXREG 4096
#define MAXDEC 100000

/* ---------------------------------------------------------------------- configuration (set from Python) */
static int cfg_max = 1, cfg_team = 1;      /* omp_get_max_threads(), team size */
static int cfg_region = -1;                /* explored region number, -1: none */
static int cfg_mode = 0;                   /* 0: choices, 1: assignment */
static int *cfg_c = 0, cfg_n = 0;
static int cfg_record = 0;
static int cfg_pre_t = -1;                 /* thread, ordinal of the access before which it is preempted */
static long cfg_pre_k = -1;
static int cfg_rr = 0;                     /* the other regions: 0 = first thread first, 1 = round robin */

/* ---------------------------------------------------------------------- results */
static int n_regions;
static long reg_iters[MAXREG];
static int n_dec;
static int dec_alt[MAXDEC];
static uint64_t dec_key[MAXDEC];
static int held[MAXT], stage[MAXT];        /* what each thread is at: 0 before / at a request, 1 holding a piece, 2 working on it */
static int n_ex;                           /* executed chunks: (iteration, thread) in order */
static int ex_it[MAXDEC], ex_th[MAXDEC];
static int failed;                         /* 1: a schedule could not be followed */
static long acc_n[MAXT];

/* ---------------------------------------------------------------------- team */
enum { ST_RUN = 0, ST_BAR, ST_DONE };
static struct {
    bool active;
    int n, cur, region;
    bool explored;
    int st[MAXT];
    int bars[MAXT];                        /* barriers entered */
    bool preempted;                        /* the chosen preemption has happened */
    int pre_from;
    pthread_mutex_t mx;
    pthread_cond_t cv[MAXT];
    void (*fn)(void *);
    void *data;
} T = { .mx = PTHREAD_MUTEX_INITIALIZER };

static struct { bool live; long next, end, incr, chunk, start; int ordered; } ws[MAXWS];
static int ws_seen[MAXT];
static struct { int on; long s, e, i, c; } pl;
static __thread int me = 0;
static __thread int in_team = 0;

static int epoch;                          /* barriers passed by the whole team */

static int enabled(int t)
{
    if (T.st[t] == ST_DONE) return 0;
    if (T.st[t] == ST_BAR) {               /* may leave when everybody has entered */
        for (int u = 0; u < T.n; u++)
            if (T.bars[u] < T.bars[t]) return 0;
    }
    return 1;
}

static void give(int t)
{
    T.cur = t;
    pthread_cond_signal(&T.cv[t]);
}

static void wait_turn(void)
{
    while (T.cur != me)
        pthread_cond_wait(&T.cv[me], &T.mx);
}

static long iters_done(void)
{
    return ws[0].live ? (ws[0].next - ws[0].start) / (ws[0].incr ? ws[0].incr : 1) : 0;
}

static int pending;                        /* pieces of work received and not begun */
static int work_left(void) { return ws[0].live && (ws[0].incr > 0 ? ws[0].next < ws[0].end : ws[0].next > ws[0].end); }

/* pick the thread that runs on; called with the lock held by the running thread */
static int choose(int self_ok)
{
    int list[MAXT], m = 0;
    if (self_ok && enabled(me)) list[m++] = me;
    for (int k = 1; k <= T.n; k++) {
        int t = (me + k) % T.n;
        if (t == me) continue;
        if (enabled(t)) list[m++] = t;
    }
    if (!m) return -1;
    if (!T.explored) {
        if (!cfg_rr) return list[0];
        for (int k = 0; k < m; k++) if (list[k] != me) return list[k];
        return list[0];
    }
    if (T.preempted && cfg_pre_t >= 0) {   /* the others run to their end first, then the preempted thread goes on */
        for (int k = 0; k < m; k++) if (list[k] != T.pre_from) return list[k];
        return list[0];
    }
    if (cfg_mode == 1) {
        long i = iters_done();
        int want = i < cfg_n ? cfg_c[i] : -1;
        for (int k = 0; k < m; k++) if (list[k] == want) return want;
        return list[0];
    }
    int c = 0;
    if (m > 1 && (pending || work_left())) {  /* before the loop and after it the order is immaterial */
        if (n_dec < cfg_n) c = cfg_c[n_dec];
        if (c >= m) { failed = 1; c = 0; }
        if (n_dec < MAXDEC) {
            uint64_t h = 1469598103934665603ull;
#define MIX(x) (h = (h ^ (uint64_t)(x)) * 1099511628211ull, h ^= h >> 29)
            MIX(me); MIX(ws[0].next);
            for (int t = 0; t < T.n; t++) { MIX(T.st[t]); MIX(stage[t]); MIX(held[t]); }
            for (int i = 0; i < n_ex; i++) { MIX(ex_it[i]); MIX(ex_th[i]); }
            dec_key[n_dec] = h;
            dec_alt[n_dec] = m;
            n_dec++;
        }
    }
    return list[c];
}

static void point(void)
{
    if (!T.active || !in_team) return;
    pthread_mutex_lock(&T.mx);
    int t = choose(1);
    if (t >= 0 && t != me) { give(t); wait_turn(); }
    pthread_mutex_unlock(&T.mx);
}

/* ---------------------------------------------------------------------- access log */
typedef struct { uintptr_t a; unsigned char t, w; unsigned short sz; int ep; long k; } Acc;
static Acc *alog;
static long alog_n, alog_cap;
static int rec_now;

typedef struct { uintptr_t g; uint32_t val; uint8_t have, rd, wr; int ep; uint32_t rmask, wmask; uint8_t conf; } Cell;   /* one granule of 4 bytes: 4 bits per thread */
static Cell *tab;
static size_t tab_cap, tab_n;
static long n_conf, n_access;
typedef struct { int t; long k; uintptr_t g; int w; } Hit;
static Hit *hits;
static long hits_n, hits_cap;

static Cell *cell(uintptr_t g)
{
    if (tab_n * 2 >= tab_cap) {
        size_t oc = tab_cap;
        Cell *o = tab;
        tab_cap = oc ? oc * 2 : 1 << 16;
        tab = calloc(tab_cap, sizeof(Cell));
        for (size_t i = 0; i < oc; i++)
            if (o[i].g) {
                size_t h = (o[i].g * 0x9E3779B97F4A7C15ull >> 20) & (tab_cap - 1);
                while (tab[h].g) h = (h + 1) & (tab_cap - 1);
                tab[h] = o[i];
            }
        free(o);
    }
    size_t h = (g * 0x9E3779B97F4A7C15ull >> 20) & (tab_cap - 1);
    while (tab[h].g && tab[h].g != g) h = (h + 1) & (tab_cap - 1);
    if (!tab[h].g) { tab[h].g = g; tab_n++; }
    return &tab[h];
}

static void log_hit(uintptr_t g, int t, long k, int w)
{
    if (hits_n == hits_cap) { hits_cap = hits_cap ? 2 * hits_cap : 1024; hits = realloc(hits, hits_cap * sizeof(Hit)); }
    hits[hits_n++] = (Hit){ t, k, g, w };
}

static void mark(uintptr_t g, unsigned bytes, int w, long k)
{
    Cell *c = cell(g);
    if (c->ep != epoch) { c->rmask = c->wmask = 0; c->ep = epoch; c->have = 0; }
    uint32_t m = bytes << (4 * me);
    /* a value nobody instrumented has written: code that is not instrumented (LAPACK) did, on behalf of this thread */
    uint32_t v = 0;
    if (!w) {
        memcpy(&v, (void *)g, 4);
        if (c->have && c->val != v) w = 2;
        c->val = v; c->have = 1;
    } else c->have = 0;
    if (w) c->wmask |= m;
    c->rmask |= m;
    uint32_t wm = c->wmask, rm = c->rmask;
    if (!c->conf) {
        for (int t = 0; t < T.n && !c->conf; t++) {
            unsigned wt = (wm >> (4 * t)) & 15;
            if (!wt) continue;
            for (int u = 0; u < T.n; u++)
                if (u != t && (wt & ((rm >> (4 * u)) & 15))) { c->conf = 1; n_conf++; break; }
        }
    }
}

static void touch(void *p, size_t n, int w)
{
    if (!T.active || !in_team || !T.explored || T.cur != me) return;
    long k = acc_n[me]++;
    if (cfg_pre_t == me && cfg_pre_k == k && !T.preempted) {
        static int (*chk)(void);
        if (!chk) chk = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
        if (!chk || !chk()) {
            pthread_mutex_lock(&T.mx);
            T.preempted = true;
            T.pre_from = me;
            int t = choose(0);
            if (t >= 0 && t != me) { give(t); wait_turn(); }
            pthread_mutex_unlock(&T.mx);
        }
    }
    if (!cfg_record) return;
    n_access++;
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t g = a & ~(uintptr_t)3; g < e; g += 4) {
        unsigned bytes = 15;
        if (g < a) bytes &= 15u << (a - g);
        if (g + 4 > e) bytes &= 15u >> (g + 4 - e);
        mark(g, bytes, w, k);
    }
    if (alog_n == alog_cap) { alog_cap = alog_cap ? 2 * alog_cap : 1 << 18; alog = realloc(alog, alog_cap * sizeof(Acc)); }
    if (n < 65536) alog[alog_n++] = (Acc){ a, me, w, n, epoch, k };
}

static void collect(void)
{
    if (n_conf)
        for (long i = 0; i < alog_n; i++)
            for (uintptr_t g = alog[i].a & ~(uintptr_t)3; g < alog[i].a + alog[i].sz; g += 4)
                if (cell(g)->conf) { log_hit(g, alog[i].t, alog[i].k, alog[i].w); break; }
    alog_n = 0;
    free(tab);
    tab = 0; tab_cap = tab_n = 0;
}

/* ---------------------------------------------------------------------- memory is not reused within a region */
static void *freed;
extern void *__real_malloc(size_t) __attribute__((weak));
extern void __real_free(void *) __attribute__((weak));
void shim_free(void *p)
{
    if (p && T.active && in_team && T.explored) {
        pthread_mutex_lock(&T.mx);
        *(void **)p = freed;               /* malloc(0) still yields 24 usable bytes */
        freed = p;
        pthread_mutex_unlock(&T.mx);
    } else
        free(p);
}

/* ---------------------------------------------------------------------- running a team */
static void body(int id)
{
    me = id;
    in_team = 1;
    pthread_mutex_lock(&T.mx);
    wait_turn();
    pthread_mutex_unlock(&T.mx);
    T.fn(T.data);
    pthread_mutex_lock(&T.mx);
    T.st[id] = ST_DONE;
    int t = choose(0);
    if (t >= 0) give(t);
    else if (id != 0) { T.cur = 0; pthread_cond_signal(&T.cv[0]); }
    pthread_mutex_unlock(&T.mx);
    in_team = 0;
}

static void *entry(void *p)
{
    body((int)(intptr_t)p);
    return 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags)
{
    (void)flags;
    if (T.active) { int im = me, ii = in_team; me = 0; in_team = 0; fn(data); me = im; in_team = ii; return; }   /* nested: one thread */
    int n = num ? (int)num : cfg_team;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    pthread_t th[MAXT];
    T.n = n; T.fn = fn; T.data = data;
    T.region = n_regions;
    T.explored = cfg_region == n_regions;
    T.preempted = false;
    if (n_regions < MAXREG) reg_iters[n_regions] = 0;
    n_regions++;
    memset(ws, 0, sizeof ws);
    memset(ws_seen, 0, sizeof ws_seen);
    if (pl.on) {
        pl.on = 0;
        ws[0].live = true;
        ws[0].start = ws[0].next = pl.s; ws[0].end = pl.e; ws[0].incr = pl.i; ws[0].chunk = pl.c < 1 ? 1 : pl.c;
        if (T.region < MAXREG) reg_iters[T.region] += pl.i > 0 ? (pl.e - pl.s + pl.i - 1) / pl.i : 0;
        for (int t = 0; t < MAXT; t++) ws_seen[t] = 1;
    }
    for (int t = 0; t < n; t++) { T.st[t] = ST_RUN; T.bars[t] = 0; acc_n[t] = 0; stage[t] = 3; held[t] = -1; pthread_cond_init(&T.cv[t], 0); }
    epoch = 0;
    pending = 0;
    T.cur = -1;
    T.active = true;
    for (int t = 1; t < n; t++)
        pthread_create(&th[t], 0, entry, (void *)(intptr_t)t);
    /* who starts is a decision as well */
    pthread_mutex_lock(&T.mx);
    me = 0;
    T.cur = choose(1);
    if (T.cur != 0) pthread_cond_signal(&T.cv[T.cur]);
    pthread_mutex_unlock(&T.mx);
    body(0);
    pthread_mutex_lock(&T.mx);
    for (;;) {
        int all = 1;
        for (int t = 0; t < n; t++) all &= T.st[t] == ST_DONE;
        if (all) break;
        pthread_cond_wait(&T.cv[0], &T.mx);
    }
    pthread_mutex_unlock(&T.mx);
    for (int t = 1; t < n; t++) pthread_join(th[t], 0);
    T.active = false;
    me = 0;
    if (T.explored && cfg_record) collect();
    while (freed) { void *q = *(void **)freed; free(freed); freed = q; }
}

static void bar(void)
{
    if (!T.active || !in_team || T.n == 1) return;
    pthread_mutex_lock(&T.mx);
    T.bars[me]++;
    T.st[me] = ST_BAR;
    int last = 1;
    for (int t = 0; t < T.n; t++) last &= T.bars[t] >= T.bars[me];
    if (last) epoch++;
    int t = choose(1);
    if (t < 0) { fprintf(stderr, "gompshim: deadlock at a barrier\n"); abort(); }
    if (t != me) { give(t); wait_turn(); }
    T.st[me] = ST_RUN;
    pthread_mutex_unlock(&T.mx);
}

void GOMP_barrier(void) { bar(); }

/* ---------------------------------------------------------------------- work sharing */
static bool grab(long *s, long *e)
{
    int id = ws_seen[in_team ? me : 0] - 1;
    stage[me] = 0; held[me] = -1;
    point();                                /* a request for work */
    long left = ws[id].incr > 0 ? ws[id].end - ws[id].next : ws[id].next - ws[id].end;
    if (left <= 0) return false;
    long inc = ws[id].incr, step = ws[id].chunk * inc;
    *s = ws[id].next;
    *e = ws[id].next + step;
    if (inc > 0 ? *e > ws[id].end : *e < ws[id].end) *e = ws[id].end;
    ws[id].next = *e;
    int rec = T.explored && n_ex < MAXDEC;
    int it = (int)((*s - ws[id].start) / inc);
    held[me] = it; stage[me] = 1;
    if (cfg_mode != 1 || !T.explored) { pending++; point(); pending--; }   /* received, not begun: others may overtake */
    stage[me] = 2;
    if (rec) { ex_it[n_ex] = it; ex_th[n_ex] = me; n_ex++; }
    return true;
}

static bool start(long s, long e, long incr, long chunk, long *is, long *ie)
{
    int id = ws_seen[in_team ? me : 0]++;
    if (id >= MAXWS) abort();
    if (!ws[id].live) {
        ws[id].live = true;
        ws[id].start = ws[id].next = s;
        ws[id].end = e;
        ws[id].incr = incr;
        ws[id].chunk = chunk < 1 ? 1 : chunk;
        long n = incr > 0 ? (e - s + incr - 1) / incr : (s - e - incr - 1) / -incr;
        if (T.region < MAXREG) reg_iters[T.region] += n > 0 ? n : 0;
    }
    return grab(is, ie);
}

#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) { return start(s, e, i, c, is, ie); } \
    bool GOMP_loop_##kind##_next(long *is, long *ie) { return grab(is, ie); }
LOOP(dynamic)
LOOP(nonmonotonic_dynamic)
LOOP(guided)
LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return grab(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return start(s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return grab(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return grab(is, ie); }
bool GOMP_loop_static_start(long s, long e, long i, long c, long *is, long *ie) { return start(s, e, i, c, is, ie); }
bool GOMP_loop_static_next(long *is, long *ie) { return grab(is, ie); }
void GOMP_loop_end(void) { bar(); }
void GOMP_loop_end_nowait(void) { }

/* combined constructs: the body only asks for the next piece, the share exists from the start */
#define PLOOP(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
    { if (!T.active) { pl.s = s; pl.e = e; pl.i = i; pl.c = c; pl.on = 1; } GOMP_parallel(fn, d, n, f); }
PLOOP(dynamic)
PLOOP(nonmonotonic_dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_guided)
PLOOP(static)

/* locks and criticals: one thread runs at a time and none loses the token inside (no memory preemption while held) */
static int crit_owner = -1, crit_depth;
static void lock(void)
{
    if (!T.active || !in_team) return;
    pthread_mutex_lock(&T.mx);
    while (crit_owner != -1 && crit_owner != me) {
        int o = crit_owner;
        give(o);
        wait_turn();
    }
    crit_owner = me; crit_depth++;
    pthread_mutex_unlock(&T.mx);
}
static void unlock(void)
{
    if (!T.active || !in_team) return;
    if (--crit_depth == 0) crit_owner = -1;
    epoch++;                                /* ordered: accesses before and after do not race */
}
void GOMP_critical_start(void) { lock(); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { (void)p; lock(); }
void GOMP_critical_name_end(void **p) { (void)p; unlock(); }
void GOMP_atomic_start(void) { lock(); }
void GOMP_atomic_end(void) { unlock(); }
bool GOMP_single_start(void) { return !in_team || me == 0; }

int omp_get_thread_num(void) { return in_team ? me : 0; }
int omp_get_num_threads(void) { return T.active && in_team ? T.n : 1; }
int omp_get_max_threads(void) { return cfg_max; }
int omp_get_num_procs(void) { return cfg_max; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return T.active && T.n > 1; }
int omp_get_level(void) { return T.active; }
int omp_get_dynamic(void) { return cfg_team != cfg_max; }
void omp_set_dynamic(int v) { (void)v; }
void omp_set_num_threads(int n) { if (n >= 1 && n <= MAXT) cfg_max = cfg_team = n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { return 0; }

/* ---------------------------------------------------------------------- instrumentation */
#define AC(n) \
    void __tsan_read##n(void *p) { touch(p, n, 0); } \
    void __tsan_write##n(void *p) { touch(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { touch(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { touch(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { touch(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { touch(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { touch(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { touch(p, n, 1); } \
    void __tsan_read##n##_pc(void *p, void *q) { (void)q; touch(p, n, 0); } \
    void __tsan_write##n##_pc(void *p, void *q) { (void)q; touch(p, n, 1); }
AC(1) AC(2) AC(4) AC(8) AC(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, 1); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
void __tsan_vptr_read(void *p) { (void)p; }
#define AT(n, ty) \
    ty __tsan_atomic##n##_load(const volatile ty *a, int o) { (void)o; return __atomic_load_n(a, 5); } \
    void __tsan_atomic##n##_store(volatile ty *a, ty v, int o) { (void)o; __atomic_store_n(a, v, 5); } \
    ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int o) { (void)o; return __atomic_exchange_n(a, v, 5); } \
    ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int o) { (void)o; return __atomic_fetch_add(a, v, 5); } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int o) { (void)o; return __atomic_fetch_sub(a, v, 5); } \
    ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int o) { (void)o; return __atomic_fetch_and(a, v, 5); } \
    ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int o) { (void)o; return __atomic_fetch_or(a, v, 5); } \
    ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int o) { (void)o; return __atomic_fetch_xor(a, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int o, int f) { (void)o; (void)f; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int o, int f) { (void)o; (void)f; return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
    ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty c, ty v, int o, int f) { (void)o; (void)f; __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

void *shim_memcpy(void *d, const void *s, size_t n) { if (n) { touch((void *)s, n, 0); touch(d, n, 1); } return memcpy(d, s, n); }
void *shim_memmove(void *d, const void *s, size_t n) { if (n) { touch((void *)s, n, 0); touch(d, n, 1); } return memmove(d, s, n); }
void *shim_memset(void *d, int c, size_t n) { if (n) touch(d, n, 1); return memset(d, c, n); }
void *shim_realloc(void *p, size_t n)
{
    return realloc(p, n);
}

/* ---------------------------------------------------------------------- interface for the explorer */
void shim_config(int max, int team, int region, int mode, const int *c, int n, int record, int pre_t, long pre_k, int rr)
{
    cfg_max = max; cfg_team = team; cfg_region = region; cfg_mode = mode;
    free(cfg_c);
    cfg_c = malloc(sizeof(int) * (n > 0 ? n : 1));
    memcpy(cfg_c, c, sizeof(int) * n);
    cfg_n = n;
    cfg_record = record; cfg_pre_t = pre_t; cfg_pre_k = pre_k; cfg_rr = rr;
    n_regions = n_dec = n_ex = failed = 0;
    n_conf = n_access = hits_n = 0;
}
int shim_regions(void) { return n_regions; }
long shim_iters(int r) { return r < MAXREG ? reg_iters[r] : 0; }
int shim_decisions(void) { return n_dec; }
int shim_alt(int i) { return dec_alt[i]; }
unsigned long shim_key(int i) { return dec_key[i]; }
int shim_executed(int i, int *it, int *th) { if (i >= n_ex) return 0; *it = ex_it[i]; *th = ex_th[i]; return 1; }
int shim_failed(void) { return failed; }
long shim_conflicts(void) { return n_conf; }
long shim_accesses(void) { return n_access; }
long shim_hits(void) { return hits_n; }
int shim_hit(long i, int *t, long *k, long *g, int *w) { if (i >= hits_n) return 0; *t = hits[i].t; *k = hits[i].k; *g = (long)hits[i].g; *w = hits[i].w; return 1; }
