/* OpenMP runtime (libgomp ABI) and memory-access callbacks (the interface gcc
 * emits for -fsanitize=thread), driven by a seeded scheduler. Workers are OS
 * threads, but exactly one holds the token and runs at any time. */
#define _GNU_SOURCE
#include "simrt.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

struct SimSched sim_sched = { .mean = 50 };
void (*sim_budget_hook)(void);
struct SimRace sim_races[SIM_MAXRACES]; int sim_n_races; int sim_deadlock;
uint64_t sim_shared_accesses;

static __thread int my = 0;
static int want_threads = 1;
enum { T_DONE, T_RUN, T_BLOCK };
struct Ws { int kind; int inited; long next, end, incr, chunk; int left; int single_taken; int sec_next, sec_n; };
#define MAXWS 64
static struct {
    int active, n; int cur; int state[SIM_MAXT]; void (*fn)(void *); void *data;
    uint32_t vc[SIM_MAXT][SIM_MAXT]; int prio[SIM_MAXT];
    int wsn[SIM_MAXT]; struct Ws ws[MAXWS]; int tws[SIM_MAXT];
    int barrier_in; int barrier_gen; uint32_t bvc[SIM_MAXT];
} R;
static sem_t sem[SIM_MAXT]; static pthread_t th[SIM_MAXT]; static int have[SIM_MAXT];
static long countdown; static uint64_t pct_points[16]; static int pct_n;

static void after_fork_child(void)
{
    for (int i = 0; i < SIM_MAXT; ++i) have[i] = 0;
}
void sim_threads_init(void)
{
    static int once; if (!once) { once = 1; pthread_atfork(NULL, NULL, after_fork_child); }
}
int sim_in_parallel(void) { return R.active; }

static void logsw(int to)
{
    struct SimSched *s = &sim_sched; s->switches++;
    uint64_t d[2] = { s->psteps, (uint64_t) to }; s->hash = sim_hash(s->hash, d, sizeof d);
    if (s->log_on) {
        if (s->n_log == s->cap_log) { s->cap_log = s->cap_log ? s->cap_log * 2 : 1024; s->log = realloc(s->log, s->cap_log * sizeof *s->log); }
        s->log[s->n_log].step = s->psteps; s->log[s->n_log].to = to; s->n_log++;
    }
}
static void draw_countdown(void)
{
    struct SimSched *s = &sim_sched;
    if (s->mode == SCHED_RANDOM) countdown = 1 + (long) sim_below(&s->rng, 2 * (uint64_t) s->mean);
    else if (s->mode == SCHED_PCT) {
        countdown = -1;
        for (int i = 0; i < pct_n; ++i) if (pct_points[i] > s->psteps) { long d = (long) (pct_points[i] - s->psteps); if (countdown < 0 || d < countdown) countdown = d; }
        if (countdown < 0) countdown = 1L << 60;
    } else if (s->mode == SCHED_EXPLICIT) {
        while (s->pos_expl < s->n_expl && s->expl[s->pos_expl].step <= s->psteps) s->pos_expl++;
        countdown = s->pos_expl < s->n_expl ? (long) (s->expl[s->pos_expl].step - s->psteps) : 1L << 60;
    } else countdown = 1L << 60;
}
static int pick(int except)
{
    int c[SIM_MAXT], n = 0;
    for (int i = 0; i < R.n; ++i) if (R.state[i] == T_RUN && i != except) c[n++] = i;
    if (n == 0) return -1;
    struct SimSched *s = &sim_sched;
    if (s->mode == SCHED_PCT || s->mode == SCHED_ORDER) {
        int b = c[0]; for (int i = 1; i < n; ++i) if (R.prio[c[i]] > R.prio[b]) b = c[i];
        return b;
    }
    if (s->mode == SCHED_EXPLICIT) {
        /* an entry recorded at exactly this step wins, else the lowest id */
        for (int k = s->pos_expl; k < s->n_expl && s->expl[k].step <= s->psteps; ++k)
            if (s->expl[k].step == s->psteps) { s->pos_expl = k + 1; for (int i = 0; i < n; ++i) if (c[i] == s->expl[k].to) return c[i]; break; }
        return c[0];
    }
    return c[sim_below(&s->rng, n)];
}
static void hand(int to)
{
    /* pass the token without waiting */
    R.cur = to; sem_post(&sem[to]);
}
static void waitme(void)
{
    do { while (sem_wait(&sem[my]) != 0) {} } while (R.cur != my);
}
static void switch_to(int to) { logsw(to); hand(to); waitme(); draw_countdown(); }

static void preempt(void)
{
    struct SimSched *s = &sim_sched;
    int to = -1;
    if (s->mode == SCHED_RANDOM) { to = pick(my); }
    else if (s->mode == SCHED_PCT) {
        int lo = R.prio[my]; for (int i = 0; i < R.n; ++i) if (R.prio[i] < lo) lo = R.prio[i];
        R.prio[my] = lo - 1; to = pick(-1); if (to == my) to = -1;
    } else if (s->mode == SCHED_EXPLICIT) {
        while (s->pos_expl < s->n_expl && s->expl[s->pos_expl].step < s->psteps) s->pos_expl++;
        if (s->pos_expl < s->n_expl && s->expl[s->pos_expl].step == s->psteps) {
            int t = s->expl[s->pos_expl].to; s->pos_expl++;
            if (t != my && t < R.n && R.state[t] == T_RUN) to = t;
        }
    }
    if (to >= 0) { s->preempts++; switch_to(to); } else draw_countdown();
}
/* block until another thread wakes us (all blocked threads are woken by wake) */
static void wake(void) { for (int i = 0; i < R.n; ++i) if (R.state[i] == T_BLOCK) R.state[i] = T_RUN; }
static void block(void)
{
    R.state[my] = T_BLOCK;
    int to = pick(my);
    if (to < 0) { sim_deadlock = 1; if (sim_budget_hook) sim_budget_hook(); _exit(98); }
    switch_to(to);
}
static void finish(void)
{
    R.state[my] = T_DONE; wake();
    int to = pick(-1);
    if (my == 0) {
        if (to >= 0) { logsw(to); hand(to); }
        else R.cur = 0;
    } else {
        if (to >= 0) { logsw(to); hand(to); }
        else { R.cur = 0; sem_post(&sem[0]); } /* all done: back to the master */
    }
}
static void *worker(void *a)
{
    my = (int) (intptr_t) a;
    for (;;) {
        waitme();
        draw_countdown();
        R.fn(R.data);
        finish();
    }
    return NULL;
}
static void run_team(void (*fn)(void *), void *data, int n)
{
    sim_sched.regions++; sim_sched.multi_regions++;
    memset(&R, 0, sizeof R);
    R.n = n; R.fn = fn; R.data = data; R.active = 1; R.cur = 0;
    for (int i = 0; i < n; ++i) {
        R.state[i] = T_RUN; R.vc[i][i] = 1; R.tws[i] = -1;
        if (!have[i]) {
            sem_init(&sem[i], 0, 0); have[i] = 1;
            if (i > 0) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4u << 20); pthread_create(&th[i], &at, worker, (void *) (intptr_t) i); pthread_attr_destroy(&at); }
        }
    }
    /* priorities: a seeded permutation */
    for (int i = 0; i < n; ++i) R.prio[i] = i;
    for (int i = n - 1; i > 0; --i) { int j = (int) sim_below(&sim_sched.rng, i + 1); int t = R.prio[i]; R.prio[i] = R.prio[j]; R.prio[j] = t; }
    pct_n = 0;
    if (sim_sched.mode == SCHED_PCT) {
        pct_n = sim_sched.pct_d < 16 ? sim_sched.pct_d : 16;
        for (int i = 0; i < pct_n; ++i) pct_points[i] = sim_sched.psteps + 1 + sim_below(&sim_sched.rng, (uint64_t) sim_sched.mean * 20);
    }
    draw_countdown();
    int first = pick(-1);
    if (first != 0) switch_to(first); else { logsw(0); }
    fn(data);
    finish();
    int all = 1; for (int i = 0; i < n; ++i) if (R.state[i] != T_DONE) all = 0;
    if (!all) waitme();
    R.active = 0;
}
static int team_size(unsigned req)
{
    int n = req ? (int) req : want_threads;
    if (sim_sched.team) { if (!(req == 1)) n = sim_sched.team; }
    else if (sim_sched.team_random && n > 1) n = 1 + (int) sim_below(&sim_sched.rng, n < SIM_MAXT ? n : SIM_MAXT);
    if (n > SIM_MAXT) n = SIM_MAXT;
    if (n < 1) n = 1;
    return n;
}
static __thread int solo_depth;
static __thread struct Ws solo_ws[8]; static __thread int solo_cur = -1;
void GOMP_parallel(void (*fn)(void *), void *data, unsigned req, unsigned flags)
{
    (void) flags;
    int n = R.active ? 1 : team_size(req);
    if (n == 1) { if (!R.active) sim_sched.regions++; solo_depth++; fn(data); solo_depth--; return; }
    run_team(fn, data, n);
}
/* ---- work sharing ---- */
static int in_team(void) { return R.active && solo_depth == 0; }
static struct Ws *ws_get(void)
{
    if (!in_team()) return &solo_ws[solo_cur];
    return &R.ws[R.tws[my] % MAXWS];
}
static struct Ws *ws_enter(void)
{
    if (!in_team()) { solo_cur++; memset(&solo_ws[solo_cur], 0, sizeof solo_ws[0]); return &solo_ws[solo_cur]; }
    int k = R.wsn[my]++; R.tws[my] = k;
    return &R.ws[k % MAXWS];
}
static bool ws_next(struct Ws *w, long *is, long *ie)
{
    sim_sched.psteps++; /* dispatch is a scheduling point */
    if (in_team() && --countdown <= 0) preempt();
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long e = w->next + w->chunk * w->incr;
    if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *is = w->next; *ie = e; w->next = e;
    return true;
}
static bool loop_start(long s, long e, long inc, long ch, long *is, long *ie)
{
    struct Ws *w = ws_enter();
    if (!w->inited) { w->inited = 1; w->next = s; w->end = e; w->incr = inc; w->chunk = ch > 0 ? ch : 1; }
    return ws_next(w, is, ie);
}
static bool static_start(long s, long e, long inc, long ch, long *is, long *ie)
{
    return loop_start(s, e, inc, ch > 0 ? ch : 1, is, ie);
}
#define LOOPDEF(name) \
    bool GOMP_loop_##name##_start(long s, long e, long inc, long ch, long *is, long *ie) { return loop_start(s, e, inc, ch, is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_next(ws_get(), is, ie); }
LOOPDEF(dynamic) LOOPDEF(guided) LOOPDEF(nonmonotonic_dynamic) LOOPDEF(nonmonotonic_guided)
bool GOMP_loop_static_start(long s, long e, long inc, long ch, long *is, long *ie) { return static_start(s, e, inc, ch, is, ie); }
bool GOMP_loop_static_next(long *is, long *ie) { return ws_next(ws_get(), is, ie); }
#define LOOPRT(name) \
    bool GOMP_loop_##name##_start(long s, long e, long inc, long *is, long *ie) { return loop_start(s, e, inc, 1, is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_next(ws_get(), is, ie); }
LOOPRT(runtime) LOOPRT(nonmonotonic_runtime) LOOPRT(maybe_nonmonotonic_runtime)
static void par_loop(void (*fn)(void *), void *data, unsigned req, long s, long e, long inc, long ch)
{
    int n = R.active ? 1 : team_size(req);
    if (n == 1) {
        if (!R.active) sim_sched.regions++;
        solo_depth++; solo_cur++; memset(&solo_ws[solo_cur], 0, sizeof solo_ws[0]);
        struct Ws *w = &solo_ws[solo_cur]; w->inited = 1; w->next = s; w->end = e; w->incr = inc; w->chunk = ch > 0 ? ch : 1;
        fn(data);
        solo_cur--; solo_depth--; return;
    }
    /* the loop is the first work share of the region */
    static struct { long s, e, inc, ch; } pl; pl.s = s; pl.e = e; pl.inc = inc; pl.ch = ch > 0 ? ch : 1;
    extern void sim_run_team_loop(void (*)(void *), void *, int, long, long, long, long);
    sim_run_team_loop(fn, data, n, pl.s, pl.e, pl.inc, pl.ch);
}
static long PL[4]; static int PLset;
static void (*PLfn)(void *);
static void pl_tramp(void *d)
{
    if (PLset) { R.tws[my] = 0; R.wsn[my] = 1; struct Ws *w = &R.ws[0]; if (!w->inited) { w->inited = 1; w->next = PL[0]; w->end = PL[1]; w->incr = PL[2]; w->chunk = PL[3]; } }
    PLfn(d);
}
void sim_run_team_loop(void (*fn)(void *), void *data, int n, long s, long e, long inc, long ch)
{
    PL[0] = s; PL[1] = e; PL[2] = inc; PL[3] = ch; PLset = 1; PLfn = fn;
    run_team(pl_tramp, data, n);
    PLset = 0;
}
#define PARLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, long ch, unsigned fl) { (void) fl; par_loop(fn, d, n, s, e, inc, ch); }
PARLOOP(static) PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided)
#define PARLOOPRT(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, unsigned fl) { (void) fl; par_loop(fn, d, n, s, e, inc, 1); }
PARLOOPRT(runtime) PARLOOPRT(nonmonotonic_runtime) PARLOOPRT(maybe_nonmonotonic_runtime)

static void sync_release(uint32_t *vc) { for (int i = 0; i < SIM_MAXT; ++i) if (R.vc[my][i] > vc[i]) vc[i] = R.vc[my][i]; R.vc[my][my]++; }
static void sync_acquire(const uint32_t *vc) { for (int i = 0; i < SIM_MAXT; ++i) if (vc[i] > R.vc[my][i]) R.vc[my][i] = vc[i]; }
void GOMP_barrier(void)
{
    if (!in_team()) return;
    sync_release(R.bvc);
    int gen = R.barrier_gen;
    int alive = 0; for (int i = 0; i < R.n; ++i) if (R.state[i] != T_DONE) alive++;
    if (++R.barrier_in >= alive) { R.barrier_in = 0; R.barrier_gen++; wake(); }
    else while (R.barrier_gen == gen) block();
    sync_acquire(R.bvc);
}
void GOMP_loop_end(void) { if (!in_team()) { solo_cur--; return; } GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { if (!in_team()) solo_cur--; else if (PLset && R.tws[my] == 0) { } }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
struct Lk { const void *key; int held, owner, depth; uint32_t vc[SIM_MAXT]; };
#define MAXLK 256
static struct Lk lks[MAXLK];
static struct Lk *lk(const void *k)
{
    unsigned i = ((uintptr_t) k >> 3) % MAXLK;
    for (int n = 0; n < MAXLK; ++n, i = (i + 1) % MAXLK) { if (lks[i].key == k) return &lks[i]; if (!lks[i].key) { lks[i].key = k; return &lks[i]; } }
    return &lks[0];
}
static uint64_t lk_region;
static void lk_fresh(void) { if (lk_region != sim_sched.regions) { memset(lks, 0, sizeof lks); lk_region = sim_sched.regions; } }
static void lock_(const void *k, int nest)
{
    if (!in_team()) return;
    lk_fresh();
    sim_sched.psteps++; if (--countdown <= 0) preempt();
    struct Lk *l = lk(k);
    if (nest && l->held && l->owner == my) { l->depth++; return; }
    while (l->held) block();
    l->held = 1; l->owner = my; l->depth = 1; sync_acquire(l->vc);
}
static void unlock_(const void *k)
{
    if (!in_team()) return;
    struct Lk *l = lk(k);
    if (--l->depth > 0) return;
    sync_release(l->vc); l->held = 0; wake();
    sim_sched.psteps++; if (--countdown <= 0) preempt();
}
static char crit, atom;
void GOMP_critical_start(void) { lock_(&crit, 0); }
void GOMP_critical_end(void) { unlock_(&crit); }
void GOMP_critical_name_start(void **p) { lock_(p, 0); }
void GOMP_critical_name_end(void **p) { unlock_(p); }
void GOMP_atomic_start(void) { lock_(&atom, 0); }
void GOMP_atomic_end(void) { unlock_(&atom); }
void omp_init_lock(void **l) { *l = 0; }
void omp_destroy_lock(void **l) { (void) l; }
void omp_set_lock(void **l) { lock_(l, 0); }
void omp_unset_lock(void **l) { unlock_(l); }
int omp_test_lock(void **l) { if (!in_team()) return 1; lk_fresh(); if (lk(l)->held) return 0; lock_(l, 0); return 1; }
bool GOMP_single_start(void)
{
    if (!in_team()) return true;
    struct Ws *w = ws_enter(); if (w->single_taken) return false; w->single_taken = 1; return true;
}
unsigned GOMP_sections_next(void) { struct Ws *w = ws_get(); if (w->sec_next > w->sec_n) return 0; return w->sec_next++; }
unsigned GOMP_sections_start(unsigned n) { struct Ws *w = ws_enter(); if (!w->inited) { w->inited = 1; w->sec_next = 1; w->sec_n = (int) n; } return GOMP_sections_next(); }
void GOMP_sections_end(void) { if (!in_team()) { solo_cur--; return; } GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { if (!in_team()) solo_cur--; }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {} void GOMP_taskyield(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool ifc, unsigned fl, void **dep, int pr, void *det)
{
    (void) ifc; (void) fl; (void) dep; (void) pr; (void) det;
    if (cpy) { char buf[sz + al]; char *a = (char *) (((uintptr_t) buf + al - 1) & ~(uintptr_t) (al - 1)); cpy(a, data); fn(a); }
    else fn(data);
}
int omp_get_thread_num(void) { return in_team() ? my : 0; }
int omp_get_num_threads(void) { return in_team() ? R.n : 1; }
int omp_get_max_threads(void) { return want_threads; }
int omp_get_num_procs(void) { return SIM_MAXT; }
void omp_set_num_threads(int n) { if (n > 0) want_threads = n; }
int omp_in_parallel(void) { return in_team(); }
int omp_get_level(void) { return in_team(); }
void omp_set_dynamic(int d) { (void) d; } int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int d) { (void) d; } int omp_get_thread_limit(void) { return SIM_MAXT; }
void omp_set_max_active_levels(int d) { (void) d; } void omp_set_schedule(int a, int b) { (void) a; (void) b; }
double omp_get_wtime(void) { return (double) sim_clock_s; }
double omp_get_wtick(void) { return 1; }

/* ---- race detection ---- */
struct Sh { uintptr_t a; uint64_t ep; uint32_t wc[SIM_MAXT], rc[SIM_MAXT]; uint8_t wm[SIM_MAXT], rm[SIM_MAXT]; const void *wpc, *rpc[SIM_MAXT]; uint8_t who; };
static struct Sh *sh; static size_t shcap = 1u << 19, shcnt; static uint64_t shep;
static struct Sh *shget(uintptr_t a)
{
    if (!sh) sh = calloc(shcap, sizeof *sh);
    if (shep != sim_sched.regions) { shep = sim_sched.regions; shcnt = 0; }
    size_t i = ((a * 0x9e3779b97f4a7c15ULL) >> 24) & (shcap - 1);
    for (;;) {
        struct Sh *e = &sh[i];
        if (e->ep == shep && e->a == a) return e;
        if (e->ep != shep) { if (shcnt * 2 > shcap) return NULL; memset(e, 0, sizeof *e); e->ep = shep; e->a = a; shcnt++; return e; }
        i = (i + 1) & (shcap - 1);
    }
}
static void report(const void *p1, int w1, int t1, const void *p2, int w2, uintptr_t a)
{
    for (int i = 0; i < sim_n_races; ++i) if (sim_races[i].pc1 == p1 && sim_races[i].pc2 == p2) return;
    if (sim_n_races < SIM_MAXRACES) {
        struct SimRace *r = &sim_races[sim_n_races++];
        r->pc1 = p1; r->pc2 = p2; r->w1 = w1; r->w2 = w2; r->t1 = t1; r->t2 = my; r->addr = a; r->region = sim_sched.multi_regions;
    }
}
static void shadow(uintptr_t a, unsigned mask, int w, const void *pc)
{
    struct Sh *e = shget(a >> 3);
    if (!e) return;
    e->who |= (uint8_t) (1u << my);
    if (e->who & (e->who - 1)) sim_shared_accesses++;
    for (int t = 0; t < R.n; ++t) {
        if (t == my) continue;
        if ((e->wm[t] & mask) && e->wc[t] > R.vc[my][t]) report(e->wpc, 1, t, pc, w, a);
        if (w && (e->rm[t] & mask) && e->rc[t] > R.vc[my][t]) report(e->rpc[t], 0, t, pc, w, a);
    }
    uint32_t c = R.vc[my][my];
    if (w) { if (e->wc[my] != c) { e->wm[my] = 0; e->wc[my] = c; } e->wm[my] |= (uint8_t) mask; e->wpc = pc; }
    else { if (e->rc[my] != c) { e->rm[my] = 0; e->rc[my] = c; } e->rm[my] |= (uint8_t) mask; e->rpc[my] = pc; }
}
static inline void step(void)
{
    if (++sim_sched.steps == sim_sched.budget && sim_budget_hook) sim_budget_hook();
}
static void acc(uintptr_t a, size_t n, int w, const void *pc)
{
    step();
    if (!R.active) return;
    sim_sched.psteps++;
    if (--countdown <= 0) preempt();
    if (sim_sched.race_on) {
        uintptr_t end = a + n;
        while (a < end) {
            unsigned off = a & 7; unsigned k = 8 - off; if (k > end - a) k = (unsigned) (end - a);
            shadow(a, ((1u << k) - 1) << off, w, pc);
            a += k;
        }
    }
}
/* fresh memory: forget older accesses to a reused address */
void sim_shadow_clear(void *p, size_t n)
{
    if (!R.active || !sim_sched.race_on || !sh) return;
    for (uintptr_t a = (uintptr_t) p & ~(uintptr_t) 7; a < (uintptr_t) p + n; a += 8) {
        struct Sh *e = shget(a >> 3);
        if (e) { uintptr_t k = e->a; uint64_t ep = e->ep; memset(e, 0, sizeof *e); e->a = k; e->ep = ep; }
    }
}
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { acc((uintptr_t) p, n, 0, PC); } void __tsan_write##n(void *p) { acc((uintptr_t) p, n, 1, PC); } \
    void __tsan_unaligned_read##n(void *p) { acc((uintptr_t) p, n, 0, PC); } void __tsan_unaligned_write##n(void *p) { acc((uintptr_t) p, n, 1, PC); } \
    void __tsan_volatile_read##n(void *p) { acc((uintptr_t) p, n, 0, PC); } void __tsan_volatile_write##n(void *p) { acc((uintptr_t) p, n, 1, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { acc((uintptr_t) p, n, 0, PC); } void __tsan_unaligned_volatile_write##n(void *p) { acc((uintptr_t) p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc((uintptr_t) p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { acc((uintptr_t) p, n, 1, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; step(); }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; } void __tsan_vptr_read(void **p) { (void) p; }
static void async_(const volatile void *p)
{
    step();
    if (!R.active) return;
    lk_fresh(); sim_sched.psteps++; if (--countdown <= 0) preempt();
    struct Lk *l = lk((const void *) p); sync_acquire(l->vc); sync_release(l->vc);
}
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int mo) { (void) mo; async_(p); return *p; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int mo) { (void) mo; async_(p); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int mo) { (void) mo; async_(p); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fm) { (void) mo; (void) fm; async_(p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fm) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fm); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fm) { (void) mo; (void) fm; async_(p); T o = *p; if (o == c) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { (void) mo; } void __tsan_atomic_signal_fence(int mo) { (void) mo; }
/* memory functions called by the code under test */
#ifdef SIM_TSAN
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (R.active && n) { acc((uintptr_t) s, n, 0, PC); acc((uintptr_t) d, n, 1, PC); } return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (R.active && n) { acc((uintptr_t) s, n, 0, PC); acc((uintptr_t) d, n, 1, PC); } return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (R.active && n) acc((uintptr_t) d, n, 1, PC); return memset(d, c, n); }
#endif
