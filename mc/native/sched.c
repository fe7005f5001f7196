/* Runtime for the code that clang -fsanitize=thread instruments: a controlled scheduler with a happens-before race detector.
   Task threads run one at a time.  Before every acquiring synchronisation operation (mutex, read/write lock, atomic, static guard,
   once) and when a thread starts or ends, the scheduler picks the next thread: the choices of the prescribed schedule first, then the
   running thread as long as it can run.  Every instrumented memory access is checked against all earlier unordered accesses. */
#define _GNU_SOURCE
#include <Python.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define EXP __attribute__((visibility("default")))
#define MAXT 4
typedef struct { uint32_t c[MAXT]; } VC;

/* ---- state of one execution ---- */
static int active, nT, cur = -1, abortAll;
static pthread_mutex_t bm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t bc[MAXT + 1];
static __thread int me = -1;
static __thread int inRt;
static VC clk[MAXT];
static int done[MAXT], spins[MAXT];
static struct Obj *waits[MAXT];
static int waitKind[MAXT];

typedef struct Obj { uintptr_t key; int owner, count, readers[MAXT], state, shared, tmask, wmask; VC vc; } Obj;
#define NOBJ 4096
static Obj objs[NOBJ];

static const int *pre; static int nPre;
typedef struct { int enabled, chosen, cur; } Dec;
#define MAXD 20000
static Dec dec[MAXD]; static int nDec;
typedef struct { uintptr_t addr, pc1, pc2; int t1, t2, w1, w2; } Race;
#define MAXR 16
static Race races[MAXR]; static int nRace; static long nAcc; static int deadlock, overflow;

int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);

static Obj *obj(const void *p) {
    uintptr_t k = (uintptr_t)p; unsigned h = (unsigned)((k >> 2) * 2654435761u) % NOBJ;
    for (unsigned i = 0; i < NOBJ; i++, h = (h + 1) % NOBJ) {
        if (objs[h].key == k) return &objs[h];
        if (!objs[h].key) { objs[h].key = k; objs[h].owner = -1; return &objs[h]; }
    }
    abort();
}
static void join(VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

enum { RUN, WLOCK, RLOCK, GUARD };
static int can(int t) {
    if (done[t]) return 0;
    Obj *o = waits[t];
    if (!o) return 1;
    if (waitKind[t] == GUARD) return o->state != 1;
    if (o->owner >= 0 && o->owner != t) return 0;
    if (waitKind[t] == WLOCK) for (int i = 0; i < MAXT; i++) if (i != t && o->readers[i]) return 0;
    return 1;
}
static void stuck(void) { deadlock = 1; abortAll = 1; for (int i = 0; i <= MAXT; i++) pthread_cond_broadcast(&bc[i]); }
/* Called with bm held by the running thread (or by main at the start): picks and wakes the next one. */
static void pick(int from) {
    int en = 0, fair = 0;
    for (int i = 0; i < nT; i++) if (can(i)) { en |= 1 << i; if (spins[i] < 64) fair |= 1 << i; }
    if (fair) en = fair; else memset(spins, 0, sizeof spins);
    if (!en) { int all = 1; for (int i = 0; i < nT; i++) all &= done[i]; if (!all) { stuck(); return; } cur = MAXT; pthread_cond_broadcast(&bc[MAXT]); return; }
    int c;
    if (nDec < nPre) { c = pre[nDec]; if (!(en >> c & 1)) { overflow = 2; c = __builtin_ctz(en); } }
    else c = from >= 0 && (en >> from & 1) ? from : __builtin_ctz(en);
    if (nDec < MAXD) { dec[nDec].enabled = en; dec[nDec].chosen = c; dec[nDec].cur = from; nDec++; } else overflow = 1;
    cur = c;
    pthread_cond_broadcast(&bc[c]);
}
static void waitTurn(void) { while (cur != me && !abortAll) pthread_cond_wait(&bc[me], &bm); }
static void yieldPoint(Obj *o, int kind) {
    __real_pthread_mutex_lock(&bm);
    if (abortAll) { for (;;) pthread_cond_wait(&bc[me], &bm); }
    waits[me] = o; waitKind[me] = kind;
    pick(me);
    waitTurn();
    if (abortAll) { for (;;) pthread_cond_wait(&bc[me], &bm); }
    waits[me] = NULL;
    __real_pthread_mutex_unlock(&bm);
}
/* Operations on objects that only one thread uses (or that nobody changes) commute with everything: no switch there.  The caller
   finds out which objects are shared by running until the set no longer grows. */
static void point(Obj *o, Obj *w, int kind, int isW) {
    o->tmask |= 1 << me; if (isW) o->wmask |= 1 << me;
    if (w) { waits[me] = w; waitKind[me] = kind; int ok = can(me); waits[me] = NULL; if (ok && !o->shared) return; }
    else if (!o->shared) return;
    yieldPoint(w, kind);
}
#define ON (active && me >= 0 && !inRt)

/* ---- happens-before race detection, one cell per byte ---- */
typedef struct { uintptr_t key; uint32_t w[8][MAXT], r[8][MAXT]; uintptr_t pw[MAXT], pr[MAXT]; } Cell;
static Cell *cells; static size_t nCells, used;
static Cell *cell(uintptr_t k, int make) {
    if (!nCells) { nCells = 1 << 14; cells = calloc(nCells, sizeof(Cell)); }
    if (make && used * 2 > nCells) {
        Cell *old = cells; size_t n = nCells; nCells *= 4; cells = calloc(nCells, sizeof(Cell)); used = 0;
        if (!cells) abort();
        for (size_t i = 0; i < n; i++) if (old[i].key) *cell(old[i].key, 1) = old[i];
        free(old);
    }
    size_t h = (k * 0x9E3779B97F4A7C15ull >> 20) & (nCells - 1);
    for (;; h = (h + 1) & (nCells - 1)) {
        if (cells[h].key == k) return &cells[h];
        if (!cells[h].key) { if (!make) return NULL; used++; cells[h].key = k; return &cells[h]; }
    }
}
static void access_(uintptr_t a, size_t n, int w, uintptr_t pc) {
    if (!ON || !n) return;
    inRt = 1; nAcc++;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
        Cell *c = cell(g, 1);
        int lo = g == a >> 3 ? a & 7 : 0, hi = g == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7, bad = -1, badw = 0;
        for (int b = lo; b <= hi; b++) {
            for (int t = 0; t < nT; t++) if (t != me) {
                if (c->w[b][t] > clk[me].c[t]) { bad = t; badw = 1; }
                else if (w && c->r[b][t] > clk[me].c[t]) { bad = t; badw = 0; }
            }
            if (w) c->w[b][me] = clk[me].c[me]; else c->r[b][me] = clk[me].c[me];
        }
        if (bad >= 0 && nRace < MAXR) {
            int dup = 0;
            uintptr_t p1 = badw ? c->pw[bad] : c->pr[bad];
            for (int i = 0; i < nRace; i++) dup |= races[i].pc1 == p1 && races[i].pc2 == pc;
            if (!dup) { Race r = {g << 3, p1, pc, bad, me, badw, w}; races[nRace++] = r; }
        }
        if (w) c->pw[me] = pc; else c->pr[me] = pc;
    }
    inRt = 0;
}
static void forget(uintptr_t a, size_t n) {
    if (!nCells || !n) return;
    inRt = 1;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) { Cell *c = cell(g, 0); if (c) { memset(c->w, 0, sizeof c->w); memset(c->r, 0, sizeof c->r); } }
    inRt = 0;
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(N) \
    void __tsan_read##N(void *a) { access_((uintptr_t)a, N, 0, PC); } \
    void __tsan_write##N(void *a) { access_((uintptr_t)a, N, 1, PC); } \
    void __tsan_read_write##N(void *a) { access_((uintptr_t)a, N, 1, PC); } \
    void __tsan_unaligned_read##N(void *a) { access_((uintptr_t)a, N, 0, PC); } \
    void __tsan_unaligned_write##N(void *a) { access_((uintptr_t)a, N, 1, PC); } \
    void __tsan_unaligned_read_write##N(void *a) { access_((uintptr_t)a, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **v, void *n) { if (*v != n) access_((uintptr_t)v, 8, 1, PC); }
void __tsan_vptr_read(void **v) { access_((uintptr_t)v, 8, 0, PC); }
void __tsan_read_range(void *a, size_t n) { access_((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { access_((uintptr_t)a, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, PC); access_((uintptr_t)d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, 0, PC); access_((uintptr_t)d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access_((uintptr_t)d, n, 1, PC); return memset(d, v, n); }

/* ---- synchronisation ---- */
static void tick(void) { clk[me].c[me]++; }
static void acq(Obj *o) { join(&clk[me], &o->vc); }
static void rel(Obj *o) { join(&o->vc, &clk[me]); tick(); }
static void lockM(Obj *o, int kind) {
    if (o->owner == me) { o->count++; return; }
    spins[me] = 0;
    point(o, o, kind, 1);
    if (kind == WLOCK) { o->owner = me; o->count = 1; } else o->readers[me]++;
    acq(o);
}
static int tryM(Obj *o, int kind) {
    if (o->owner == me) { o->count++; return 0; }
    spins[me]++;
    point(o, NULL, RUN, 1);
    if (o->owner >= 0) return EBUSY;
    if (kind == WLOCK) { for (int i = 0; i < MAXT; i++) if (o->readers[i]) return EBUSY; o->owner = me; o->count = 1; } else o->readers[me]++;
    acq(o);
    return 0;
}
static void unlockM(Obj *o) {
    if (o->owner == me) { if (--o->count) return; o->owner = -1; } else if (o->readers[me]) o->readers[me]--;
    rel(o);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!ON) return __real_pthread_mutex_lock(m); lockM(obj(m), WLOCK); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!ON) return __real_pthread_mutex_trylock(m); return tryM(obj(m), WLOCK); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!ON) return __real_pthread_mutex_unlock(m); unlockM(obj(m)); return 0; }
#define RWL(fn, act) int __real_pthread_rwlock_##fn(pthread_rwlock_t *); int __wrap_pthread_rwlock_##fn(pthread_rwlock_t *m) { if (!ON) return __real_pthread_rwlock_##fn(m); act; }
RWL(rdlock, lockM(obj(m), RLOCK); return 0) RWL(wrlock, lockM(obj(m), WLOCK); return 0)
RWL(tryrdlock, return tryM(obj(m), RLOCK)) RWL(trywrlock, return tryM(obj(m), WLOCK)) RWL(unlock, unlockM(obj(m)); return 0)
int __real_pthread_spin_lock(pthread_spinlock_t *); int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { if (!ON) return __real_pthread_spin_lock(m); lockM(obj((void *)m), WLOCK); return 0; }
int __real_pthread_spin_unlock(pthread_spinlock_t *); int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { if (!ON) return __real_pthread_spin_unlock(m); unlockM(obj((void *)m)); return 0; }
int __real___cxa_guard_acquire(char *); int __wrap___cxa_guard_acquire(char *g) {
    if (!ON) return __real___cxa_guard_acquire(g);
    Obj *o = obj(g);
    point(o, o, GUARD, !*g);
    acq(o);
    if (*g) return 0;
    o->state = 1;
    return 1;
}
void __real___cxa_guard_release(char *); void __wrap___cxa_guard_release(char *g) {
    if (!ON) { __real___cxa_guard_release(g); return; }
    Obj *o = obj(g);
    *g = 1; o->state = 2;
    rel(o);
}
void __real___cxa_guard_abort(char *); void __wrap___cxa_guard_abort(char *g) {
    if (!ON) { __real___cxa_guard_abort(g); return; }
    Obj *o = obj(g);
    o->state = 0;
    rel(o);
}
int __real_pthread_once(pthread_once_t *, void (*)(void)); int __wrap_pthread_once(pthread_once_t *c, void (*f)(void)) {
    if (!ON) return __real_pthread_once(c, f);
    Obj *o = obj(c);
    point(o, o, GUARD, !*(int *)c);
    acq(o);
    if (o->state == 2 || *(int *)c) return 0;
    o->state = 1;
    f();
    o->state = 2; *(int *)c = 2; /* glibc: initialised */
    rel(o);
    return 0;
}
enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static void at(const volatile void *a, int n, int mo, int isR, int isW, uintptr_t pc) {
    if (!ON) return;
    Obj *o = obj((const void *)a);
    if (o->shared) spins[me] = isW && !isR ? 0 : spins[me] + 1;
    point(o, NULL, RUN, isW);
    if (isR && (mo == mo_acquire || mo == mo_consume || mo >= mo_acq_rel)) acq(o);
    if (isW && (mo == mo_release || mo >= mo_acq_rel)) rel(o); else if (isW) tick();
    (void)n; (void)pc;
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { at(a, N, mo, 1, 0, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { at(a, N, mo, 0, 1, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { at(a, N, mo, 1, 1, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { at(a, N, mo, 1, 1, PC); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { at(a, N, mo, 1, 1, PC); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) { at(a, N, mo, 1, 1, PC); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static VC fenceVc;
void __tsan_atomic_thread_fence(int mo) { if (ON) { join(&clk[me], &fenceVc); join(&fenceVc, &clk[me]); tick(); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}

/* ---- allocation: memory that changes hands starts without history; releasing it is a write ---- */
static void *got(void *p) { if (ON && p) forget((uintptr_t)p, malloc_usable_size(p)); return p; }
static void lost(void *p, uintptr_t pc) { if (ON && p) { size_t n = malloc_usable_size(p); access_((uintptr_t)p, n, 1, pc); forget((uintptr_t)p, n); } }
#define A1(name) void *__real_##name(size_t); void *__wrap_##name(size_t n) { return got(__real_##name(n)); }
A1(malloc) A1(_Znwm) A1(_Znam)
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t a, size_t b) { return got(__real_calloc(a, b)); }
void *__real_realloc(void *, size_t); void *__wrap_realloc(void *p, size_t n) { lost(p, PC); return got(__real_realloc(p, n)); }
#define F1(name) void __real_##name(void *); void __wrap_##name(void *p) { lost(p, PC); __real_##name(p); }
F1(free) F1(_ZdlPv) F1(_ZdaPv)
#define F2(name) void __real_##name(void *, size_t); void __wrap_##name(void *p, size_t n) { lost(p, PC); __real_##name(p, n); }
F2(_ZdlPvm) F2(_ZdaPvm)

/* ---- one execution ---- */
typedef struct { int kind; void (*fn)(void *, void **); void *out; void **in; PyObject *call; } Op; /* 0: compiled call; 1: Python callable under the interpreter lock */
typedef struct { int n; Op *ops; } Task;
static Task tasks[MAXT];
static int pyFailed;
static char gil;
/* A thread ends, for the scheduler, after the destructors of its thread_local objects: the C library runs those before the destructors
   of pthread keys, of which this is one. */
static pthread_key_t endKey;
static void ended(void *arg) {
    int t = (int)(intptr_t)arg - 1;
    inRt = 1;
    __real_pthread_mutex_lock(&bm);
    done[t] = 1;
    pick(t);
    __real_pthread_mutex_unlock(&bm);
}
static void *body(void *arg) {
    int t = (int)(intptr_t)arg;
    me = t;
    inRt = 0;
    pthread_setspecific(endKey, (void *)(intptr_t)(t + 1));
    __real_pthread_mutex_lock(&bm);
    waitTurn();
    __real_pthread_mutex_unlock(&bm);
    for (int i = 0; i < tasks[t].n && !abortAll; i++) {
        Op *o = &tasks[t].ops[i];
        if (o->kind == 0) o->fn(o->out, o->in);
        else {
            lockM(obj(&gil), WLOCK);
            PyGILState_STATE s = PyGILState_Ensure();
            PyObject *r = PyObject_CallNoArgs(o->call);
            if (!r) { pyFailed = 1; PyErr_Print(); }
            Py_XDECREF(r);
            PyGILState_Release(s);
            unlockM(obj(&gil));
        }
    }
    return NULL;
}
/* To be called with the interpreter lock released.  Returns 0, 1 (a thread can never go on), 2 (schedule does not fit). */
EXP int mc_run(int n, Task *ts, int np, const int *sched, int ns, const uintptr_t *shared) {
    pthread_t th[MAXT];
    nT = n; nPre = np; pre = sched;
    memcpy(tasks, ts, n * sizeof(Task));
    for (int i = 0; i <= MAXT; i++) pthread_cond_init(&bc[i], NULL);
    for (int i = 0; i < n; i++) clk[i].c[i] = 1;
    for (int i = 0; i < ns; i++) obj((void *)shared[i])->shared = 1;
    pthread_key_create(&endKey, ended);
    active = 1;
    for (int i = 0; i < n; i++) pthread_create(&th[i], NULL, body, (void *)(intptr_t)i);
    __real_pthread_mutex_lock(&bm);
    pick(-1);
    while (cur != MAXT && !abortAll) pthread_cond_wait(&bc[MAXT], &bm);
    __real_pthread_mutex_unlock(&bm);
    if (abortAll) return 1;
    for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
    active = 0;
    return overflow == 2 ? 2 : 0;
}
EXP int mc_decisions(int *out, int max) { int k = nDec < max ? nDec : max; for (int i = 0; i < k; i++) { out[3 * i] = dec[i].enabled; out[3 * i + 1] = dec[i].chosen; out[3 * i + 2] = dec[i].cur; } return overflow == 1 ? -1 : nDec; }
EXP int mc_races(uintptr_t *out) { for (int i = 0; i < nRace; i++) { uintptr_t *o = out + 7 * i; o[0] = races[i].addr; o[1] = races[i].pc1; o[2] = races[i].pc2; o[3] = races[i].t1; o[4] = races[i].t2; o[5] = races[i].w1; o[6] = races[i].w2; } return nRace; }
EXP int mc_objects(uintptr_t *out, int max) { int k = 0; for (int i = 0; i < NOBJ && k < max; i++) if (objs[i].tmask) { out[3 * k] = objs[i].key; out[3 * k + 1] = objs[i].tmask; out[3 * k + 2] = objs[i].wmask; k++; } return k; }
EXP long mc_accesses(void) { return nAcc; }
EXP int mc_pyfailed(void) { return pyFailed; }
EXP uintptr_t mc_base(void) { return (uintptr_t)&mc_run; }
