/*
 * The OpenMP run time of the simulator: a parallel region runs as coroutines of the calling thread, a seeded scheduler
 * decides which of them goes on at every memory access (the extensions are compiled with the accesses instrumented)
 * and at every OpenMP construct.  From the same places, and where the GIL is given up and taken back, control may also
 * pass to the other simulated Python threads.  The planner of FFTW, which is not thread safe, is watched.
 */
#define _GNU_SOURCE
#include <Python.h>
#include <dlfcn.h>
#include <fftw3.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define MAXT 16
#define STACK (1 << 20)

typedef struct { int init; long next, end, incr, chunk; } loop_t;
typedef struct team {
    int n, done, cur, waiting, gen, crit, nloop, single;
    void (*fn)(void *);
    void *data;
    void *main, *ctx[MAXT];            /* stack pointers */
    char *stk[MAXT];
    char fin[MAXT], blocked[MAXT];     /* blocked: 1 barrier, 2 critical */
    int loop[MAXT], seen[MAXT];
    long ilo[MAXT];
    loop_t *loops;
    struct team *up;
} team_t;

static __thread team_t *team = NULL;
static __thread PyThreadState *detached = NULL;   /* the thread state while the GIL is given up */
static __thread int inhook = 0;

static uint64_t rng = 88172645463325252ULL;
static long quantum = 50, left = 50, cap = -1, hookgap = 0, hookleft = 0;
static int nthreads = 4, favour = 0;
static PyObject *hook = NULL;
static struct { long switches, regions, accesses, planner, conflicts, hooks, short_teams, criticals, deadlocks; uint64_t hash; } st;
static void *planner_owner = NULL;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

void simomp_set(PyObject *f) { Py_XINCREF(f); Py_XSETREF(hook, f); }
void simomp_seed(uint64_t s, long q, int n, int fav, long c, long hg) {
    rng = s * 2654435761ULL + 88172645463325252ULL; if( !rng ) rng = 1;
    for(int i=0; i<8; i++) rnd();
    quantum = q < 1 ? 1 : q; left = quantum; nthreads = n < 1 ? 1 : (n > MAXT ? MAXT : n); favour = fav; cap = c;
    hookgap = hg; hookleft = hg;
    memset(&st, 0, sizeof st); planner_owner = NULL;
}
void simomp_stats(long *o) {
    o[0] = st.switches; o[1] = st.regions; o[2] = st.accesses; o[3] = st.planner; o[4] = st.conflicts; o[5] = st.hooks;
    o[6] = st.short_teams; o[7] = st.criticals; o[8] = st.deadlocks; o[9] = (long) (st.hash >> 1);
}
static void mix(uint64_t v) { st.hash = (st.hash ^ v) * 1099511628211ULL + 0x9e3779b97f4a7c15ULL; }

/* ------------------------------------------------------------ other Python threads */
static PyThreadState *(*real_save)(void);
static void (*real_restore)(PyThreadState *);
__attribute__((constructor)) static void boot(void) {
    real_save = (PyThreadState *(*)(void)) dlsym(RTLD_DEFAULT, "PyEval_SaveThread");
    real_restore = (void (*)(PyThreadState *)) dlsym(RTLD_DEFAULT, "PyEval_RestoreThread");
}
static void call_hook(const char *w) {      /* with the GIL */
    PyObject *t, *v, *b, *r;
    if( hook == NULL || hook == Py_None || inhook ) return;
    inhook = 1;
    st.hooks++;
    PyErr_Fetch(&t, &v, &b);
    r = PyObject_CallFunction(hook, "s", w);
    if( r == NULL ) PyErr_Clear();
    Py_XDECREF(r);
    PyErr_Restore(t, v, b);
    inhook = 0;
}
static void free_hook(const char *w) {      /* without the GIL, on the stack of the Python thread */
    if( detached == NULL || hook == NULL || inhook ) return;
    PyThreadState *s = detached;
    team_t *t = team;
    detached = NULL; team = NULL;
    real_restore(s);
    call_hook(w);
    s = real_save();
    detached = s; team = t;
}
PyThreadState *__wrap_PyEval_SaveThread(void) {
    call_hook("release");
    PyThreadState *s = real_save();
    detached = s;
    return s;
}
void __wrap_PyEval_RestoreThread(PyThreadState *s) {
    detached = NULL;
    real_restore(s);
    call_hook("acquire");
}

/* ------------------------------------------------------------ coroutines */
/* saves the callee-saved registers on the stack, stores the stack pointer in *from and goes on at the stack `to` */
void simomp_switch(void **from, void *to);
__asm__(".text\n.globl simomp_switch\n.hidden simomp_switch\n.type simomp_switch,@function\nsimomp_switch:\n"
        "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
        "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
        "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
        ".size simomp_switch,.-simomp_switch\n");
static void to_main(void) { team_t *t = team; simomp_switch(&t->ctx[t->cur], t->main); }

static void access_point(void) {
    if( inhook ) return;
    st.accesses++;
    if( hookgap && detached && --hookleft <= 0 && (team == NULL) ) {
        hookleft = 1 + rnd() % (2*hookgap);
        free_hook("serial");
        return;
    }
    if( team == NULL ) return;
    if( --left > 0 ) return;
    left = 1 + rnd() % (2*quantum);
    if( cap >= 0 && st.switches >= cap ) return;
    to_main();
}

static void start(void) {
    team->fn(team->data);
    team_t *t = team;
    t->fin[t->cur] = 1;
    t->done++;
    to_main();
    abort();
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) {
    team_t *t = calloc(1, sizeof *t);
    int i, n = nt ? (int) nt : nthreads;
    if( team != NULL ) n = 1;              /* no nested parallelism */
    if( n > MAXT ) n = MAXT;
    if( n > 1 && cap != 0 && rnd() % 8 == 0 ) { n = 1 + rnd() % n; st.short_teams++; }   /* fewer threads than asked for */
    st.regions++;
    t->n = n; t->fn = fn; t->data = data; t->up = team; t->crit = -1;
    if( team == NULL ) free_hook("region");
    for(i=0; i<n; i++) {
        t->stk[i] = malloc(STACK);
        void **sp = (void **) (((uintptr_t) t->stk[i] + STACK) & ~(uintptr_t) 63);
        *--sp = NULL;                       /* where start() would return to; keeps the stack aligned */
        *--sp = (void *) start;
        sp -= 6;
        memset(sp, 0, 6 * sizeof(void *));
        t->ctx[i] = sp;
    }
    team = t;
    t->cur = -1;
    int last = -1;
    while( t->done < n ) {
        int ok[MAXT], m = 0;
        for(i=0; i<n; i++) if( !t->fin[i] && !t->blocked[i] ) ok[m++] = i;
        if( m == 0 ) { st.deadlocks++; for(i=0; i<n; i++) t->blocked[i] = 0; continue; }
        int pick;
        if( cap >= 0 && st.switches >= cap && last >= 0 && !t->fin[last] && !t->blocked[last] ) pick = last;
        else if( cap >= 0 && st.switches >= cap ) pick = ok[0];
        else if( favour && rnd() % 16 ) pick = favour > 0 ? ok[0] : ok[m-1];
        else pick = ok[rnd() % m];
        if( pick != last ) { if( last >= 0 ) st.switches++; mix(pick + 1); mix(st.accesses); last = pick; }
        t->cur = pick;
        if( hookgap && detached && t->up == NULL && rnd() % 64 == 0 ) { free_hook("parallel"); team = t; }
        simomp_switch(&t->main, t->ctx[pick]);
        team = t;
    }
    for(i=0; i<n; i++) free(t->stk[i]);
    free(t->loops);
    team = t->up;
    free(t);
    if( team == NULL ) free_hook("joined");
}

int omp_get_thread_num(void) { return team ? team->cur : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return nthreads; }
int omp_get_num_procs(void) { return nthreads; }
int omp_in_parallel(void) { return team != NULL && team->n > 1; }
void omp_set_num_threads(int n) { (void) n; }

/* work sharing: every thread meets the constructs of a region in the same order */
static loop_t *myloop(team_t *t) {
    int k = t->loop[t->cur];
    if( k >= t->nloop ) {
        t->loops = realloc(t->loops, (k + 1) * sizeof(loop_t));
        memset(t->loops + t->nloop, 0, (k + 1 - t->nloop) * sizeof(loop_t));
        t->nloop = k + 1;
    }
    return t->loops + k;
}
static bool next_(long *a, long *b) {
    if( team->n > 1 && (cap < 0 || st.switches < cap) ) to_main();
    loop_t *l = myloop(team);
    if( l->incr > 0 ? l->next >= l->end : l->next <= l->end ) return false;
    long s = l->chunk * l->incr;
    *a = l->next;
    l->next = *a + s;
    if( l->incr > 0 ? l->next > l->end : l->next < l->end ) l->next = l->end;
    *b = l->next;
    return true;
}
static bool start_(long s, long e, long i, long c, long *a, long *b) {
    static __thread team_t one;
    if( team == NULL ) { (void) one; *a = s; *b = e; return i > 0 ? s < e : s > e; }
    loop_t *l = myloop(team);
    if( !l->init ) { l->init = 1; l->next = s; l->end = e; l->incr = i; l->chunk = c < 1 ? 1 : c; }
    return next_(a, b);
}
static void barrier_(void) {
    team_t *t = team;
    if( t == NULL ) return;
    if( ++t->waiting + t->done >= t->n ) {
        t->waiting = 0;
        for(int i=0; i<t->n; i++) if( t->blocked[i] == 1 ) t->blocked[i] = 0;
        return;
    }
    t->blocked[t->cur] = 1;
    to_main();
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, a, b); }
bool GOMP_loop_static_start(long s, long e, long i, long c, long *a, long *b) { return start_(s, e, i, c, a, b); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return start_(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return start_(s, e, i, 1, a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return start_(s, e, i, 1, a, b); }
#define NEXT(n) bool n(long *a, long *b) { return team == NULL ? false : next_(a, b); }
NEXT(GOMP_loop_dynamic_next) NEXT(GOMP_loop_nonmonotonic_dynamic_next) NEXT(GOMP_loop_guided_next)
NEXT(GOMP_loop_nonmonotonic_guided_next) NEXT(GOMP_loop_static_next) NEXT(GOMP_loop_runtime_next)
NEXT(GOMP_loop_maybe_nonmonotonic_runtime_next) NEXT(GOMP_loop_nonmonotonic_runtime_next)
bool GOMP_loop_ull_dynamic_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) {
    (void) up; return start_((long) s, (long) e, (long) i, (long) c, (long *) a, (long *) b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) {
    (void) up; return start_((long) s, (long) e, (long) i, (long) c, (long *) a, (long *) b); }
bool GOMP_loop_ull_dynamic_next(unsigned long *a, unsigned long *b) { return team == NULL ? false : next_((long *) a, (long *) b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(unsigned long *a, unsigned long *b) { return team == NULL ? false : next_((long *) a, (long *) b); }
void GOMP_loop_end_nowait(void) { if( team ) team->loop[team->cur]++; }
void GOMP_loop_end(void) { if( team ) { team->loop[team->cur]++; barrier_(); } }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }
void GOMP_barrier(void) { barrier_(); }

/* combined constructs */
typedef struct { long s, e, i, c; void (*fn)(void *); void *data; } comb_t;
static void comb_body(void *p) {
    comb_t *c = p;
    loop_t *l = myloop(team);
    if( !l->init ) { l->init = 1; l->next = c->s; l->end = c->e; l->incr = c->i; l->chunk = c->c < 1 ? 1 : c->c; }
    c->fn(c->data);
}
#define COMB(n) void n(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned fl) { \
    comb_t k = {s, e, i, c, fn, data}; GOMP_parallel(comb_body, &k, nt, fl); }
COMB(GOMP_parallel_loop_dynamic) COMB(GOMP_parallel_loop_nonmonotonic_dynamic) COMB(GOMP_parallel_loop_guided)
COMB(GOMP_parallel_loop_nonmonotonic_guided) COMB(GOMP_parallel_loop_static)

static void lock_(void) {
    team_t *t = team;
    if( t == NULL ) return;
    st.criticals++;
    if( t->n > 1 && (cap < 0 || st.switches < cap) ) to_main();
    while( t->crit >= 0 ) { t->blocked[t->cur] = 2; to_main(); }
    t->crit = t->cur;
}
static void unlock_(void) {
    team_t *t = team;
    if( t == NULL ) return;
    t->crit = -1;
    for(int i=0; i<t->n; i++) if( t->blocked[i] == 2 ) t->blocked[i] = 0;
}
void GOMP_critical_start(void) { lock_(); }
void GOMP_critical_end(void) { unlock_(); }
void GOMP_critical_name_start(void **p) { (void) p; lock_(); }
void GOMP_critical_name_end(void **p) { (void) p; unlock_(); }
void GOMP_atomic_start(void) { lock_(); }
void GOMP_atomic_end(void) { unlock_(); }
bool GOMP_single_start(void) {
    team_t *t = team;
    if( t == NULL ) return true;
    int k = t->seen[t->cur]++;
    if( k < t->single ) return false;
    t->single = k + 1;
    return true;
}

/* ------------------------------------------------------------ memory accesses */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
#define A(n) void __tsan_##n(void *p) { (void) p; access_point(); }
A(read1) A(read2) A(read4) A(read8) A(read16) A(write1) A(write2) A(write4) A(write8) A(write16)
A(unaligned_read2) A(unaligned_read4) A(unaligned_read8) A(unaligned_read16)
A(unaligned_write2) A(unaligned_write4) A(unaligned_write8) A(unaligned_write16)
A(volatile_read1) A(volatile_read2) A(volatile_read4) A(volatile_read8) A(volatile_read16)
A(volatile_write1) A(volatile_write2) A(volatile_write4) A(volatile_write8) A(volatile_write16) A(vptr_read)
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; access_point(); }
void __tsan_read_range(void *p, unsigned long n) { (void) p; (void) n; access_point(); }
void __tsan_write_range(void *p, unsigned long n) { (void) p; (void) n; access_point(); }
#define AT(w, T) \
T __tsan_atomic##w##_load(const volatile T *p, int o) { (void) o; access_point(); return *p; } \
void __tsan_atomic##w##_store(volatile T *p, T v, int o) { (void) o; access_point(); *p = v; } \
T __tsan_atomic##w##_exchange(volatile T *p, T v, int o) { (void) o; access_point(); T r = *p; *p = v; return r; } \
T __tsan_atomic##w##_fetch_add(volatile T *p, T v, int o) { (void) o; access_point(); T r = *p; *p = r + v; return r; } \
T __tsan_atomic##w##_fetch_sub(volatile T *p, T v, int o) { (void) o; access_point(); T r = *p; *p = r - v; return r; } \
T __tsan_atomic##w##_fetch_and(volatile T *p, T v, int o) { (void) o; access_point(); T r = *p; *p = r & v; return r; } \
T __tsan_atomic##w##_fetch_or(volatile T *p, T v, int o) { (void) o; access_point(); T r = *p; *p = r | v; return r; } \
T __tsan_atomic##w##_fetch_xor(volatile T *p, T v, int o) { (void) o; access_point(); T r = *p; *p = r ^ v; return r; } \
bool __tsan_atomic##w##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void) o; (void) f; access_point(); \
    if( *p == *e ) { *p = v; return true; } *e = *p; return false; } \
bool __tsan_atomic##w##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { return __tsan_atomic##w##_compare_exchange_strong(p, e, v, o, f); } \
T __tsan_atomic##w##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { __tsan_atomic##w##_compare_exchange_strong(p, &e, v, o, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void) o; }
void __tsan_atomic_signal_fence(int o) { (void) o; }

/* ------------------------------------------------------------ the planner of FFTW */
static void *fftw(const char *n) {
    static void *h = NULL;
    if( h == NULL ) h = dlopen("libfftw3f.so.3", RTLD_NOW);
    return dlsym(h, n);
}
static void enter(void) {
    void *me = detached ? (void *) detached : (void *) PyThreadState_GET();
    st.planner++;
    if( planner_owner != NULL && planner_owner != me ) st.conflicts++;
    if( team != NULL && team->n > 1 ) {
        /* from inside a region: another thread of the team may be in the planner as well */
        if( planner_owner == me ) st.conflicts++;
        planner_owner = me;
        to_main();
        planner_owner = me;
    } else if( detached ) {
        planner_owner = me;
        free_hook("planner");
        planner_owner = me;
    }
}
static void leave(void) { planner_owner = NULL; }
#define PL(name, proto, args) fftwf_plan __wrap_##name proto { fftwf_plan p; enter(); \
    p = ((fftwf_plan (*) proto) fftw(#name)) args; leave(); return p; }
PL(fftwf_plan_many_dft, (int r, const int *n, int h, fftwf_complex *i, const int *ie, int is, int id, fftwf_complex *o, const int *oe, int os, int od, int s, unsigned f),
   (r, n, h, i, ie, is, id, o, oe, os, od, s, f))
PL(fftwf_plan_many_dft_r2c, (int r, const int *n, int h, float *i, const int *ie, int is, int id, fftwf_complex *o, const int *oe, int os, int od, unsigned f),
   (r, n, h, i, ie, is, id, o, oe, os, od, f))
PL(fftwf_plan_dft_1d, (int n, fftwf_complex *i, fftwf_complex *o, int s, unsigned f), (n, i, o, s, f))
PL(fftwf_plan_dft_2d, (int n, int m, fftwf_complex *i, fftwf_complex *o, int s, unsigned f), (n, m, i, o, s, f))
PL(fftwf_plan_dft_r2c_1d, (int n, float *i, fftwf_complex *o, unsigned f), (n, i, o, f))
PL(fftwf_plan_dft_r2c_2d, (int n, int m, float *i, fftwf_complex *o, unsigned f), (n, m, i, o, f))
PL(fftwf_plan_dft_c2r_1d, (int n, fftwf_complex *i, float *o, unsigned f), (n, i, o, f))
PL(fftwf_plan_dft_c2r_2d, (int n, int m, fftwf_complex *i, float *o, unsigned f), (n, m, i, o, f))
PL(fftwf_plan_r2r_1d, (int n, float *i, float *o, fftwf_r2r_kind k, unsigned f), (n, i, o, k, f))
void __wrap_fftwf_destroy_plan(fftwf_plan p) { enter(); ((void (*)(fftwf_plan)) fftw("fftwf_destroy_plan"))(p); leave(); }
