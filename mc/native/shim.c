/* Allocation shim linked into the extension with -Wl,--wrap: counts live blocks and bytes that the extension allocated itself
   and fills new memory with a byte the check chooses. */
#include <stddef.h>
#include <string.h>
#include <malloc.h>
#define EXP __attribute__((visibility("default")))
static long live, bytes, total;
static int fill = 0x11;
EXP long mc_live(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
EXP long mc_bytes(void) { return __atomic_load_n(&bytes, __ATOMIC_RELAXED); }
EXP long mc_total(void) { return __atomic_load_n(&total, __ATOMIC_RELAXED); }
EXP void mc_fill(int b) { fill = b; }
static void *in(void *p, size_t n, int doFill) {
    if (p) {
        __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&total, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
        if (doFill) memset(p, fill, n);
    }
    return p;
}
static void out(void *p) {
    if (p) {
        __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    }
}
#define ALLOC1(name) void *__real_##name(size_t); void *__wrap_##name(size_t n) { return in(__real_##name(n), n, 1); }
ALLOC1(malloc) ALLOC1(_Znwm) ALLOC1(_Znam)
void *__real_calloc(size_t, size_t); void *__wrap_calloc(size_t a, size_t b) { return in(__real_calloc(a, b), a * b, 0); }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return in(__real_realloc(p, n), n, 1);
    size_t old = malloc_usable_size(p);
    out(p);
    void *q = __real_realloc(p, n);
    if (!q && n) { in(p, 0, 0); return q; }
    in(q, 0, 0);
    if (q && n > old) memset((char *)q + old, fill, n - old);
    return q;
}
void *__real__ZnwmRKSt9nothrow_t(size_t, void *); void *__wrap__ZnwmRKSt9nothrow_t(size_t n, void *t) { return in(__real__ZnwmRKSt9nothrow_t(n, t), n, 1); }
void *__real__ZnamRKSt9nothrow_t(size_t, void *); void *__wrap__ZnamRKSt9nothrow_t(size_t n, void *t) { return in(__real__ZnamRKSt9nothrow_t(n, t), n, 1); }
void *__real__ZnwmSt11align_val_t(size_t, size_t); void *__wrap__ZnwmSt11align_val_t(size_t n, size_t a) { return in(__real__ZnwmSt11align_val_t(n, a), n, 1); }
void *__real__ZnamSt11align_val_t(size_t, size_t); void *__wrap__ZnamSt11align_val_t(size_t n, size_t a) { return in(__real__ZnamSt11align_val_t(n, a), n, 1); }
void *__real_aligned_alloc(size_t, size_t); void *__wrap_aligned_alloc(size_t a, size_t n) { return in(__real_aligned_alloc(a, n), n, 1); }
int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) in(*p, n, 1); return r; }
#define FREE1(name) void __real_##name(void *); void __wrap_##name(void *p) { out(p); __real_##name(p); }
FREE1(free) FREE1(_ZdlPv) FREE1(_ZdaPv)
#define FREE2(name) void __real_##name(void *, size_t); void __wrap_##name(void *p, size_t n) { out(p); __real_##name(p, n); }
FREE2(_ZdlPvm) FREE2(_ZdaPvm) FREE2(_ZdlPvSt11align_val_t) FREE2(_ZdaPvSt11align_val_t)
#define FREE3(name) void __real_##name(void *, size_t, size_t); void __wrap_##name(void *p, size_t n, size_t a) { out(p); __real_##name(p, n, a); }
FREE3(_ZdlPvmSt11align_val_t) FREE3(_ZdaPvmSt11align_val_t)
