/* Threads under a scheduler the plan controls.
 *
 * Every thread of the simulated process is a fiber which executes its own list of plan operations.  The library's sources are
 * compiled with the compiler's thread instrumentation, but linked with the functions below instead of its runtime: each access to
 * memory that another thread could see is a point at which the seeded scheduler may hand the processor to another fiber. */
#include <ucontext.h>
#include <sys/mman.h>
#include <limits.h>

#define MAXF 16
#define STACK (16u << 20)
static int doop(char *line);
typedef struct { ucontext_t c; char **ops; int n, done, rc; void *stack; } fib_t;
static fib_t fibs[MAXF];
static int nfib, fcur = -1;
static ucontext_t fmain;
static long left;
static uint64_t switches, accesses, flast;
static rng_t frng; static uint64_t frng0;
static double flo, fhi;
static int parked[MAXF], fdir;                                             /* directed schedules: threads held at a place in the code */
static uint64_t parks, tgt[MAXF], until[MAXF], slice;
static int fonly, flife, fhold;
static void target(int i);

static int fib_add(int i, char *op) {
    if (i < 0 || i >= MAXF) return 3;
    if (i >= nfib) nfib = i + 1;
    fib_t *f = &fibs[i];
    f->ops = realloc(f->ops, sizeof(char *) * (f->n + 1)); f->ops[f->n++] = strdup(op);
    return 0;
}
static void pick(void) {
    accesses += slice - (left > 0 ? left : 0); slice = 0;
    int alive = 0, awake = 0, k, w;
    for (int i = 0; i < nfib; i++) if (fibs[i].n && !fibs[i].done) { alive++; awake += !parked[i]; }
    if (!alive) { fcur = -1; return; }
    if (fdir) for (int i = 0; i < nfib; i++) {
        if (parked[i] && accesses >= until[i]) { parked[i] = 0; awake += !fibs[i].done; }
        else if (!parked[i] && accesses >= until[i]) target(i);            /* it may never pass there */
    }
    if (!awake) {                                                          /* all are held at the place: one of them goes on */
        for (k = 0, w = rnd(&frng) % alive; k < nfib; k++) if (fibs[k].n && !fibs[k].done && w-- == 0) break;
        parked[k] = 0;
    } else
        for (k = 0, w = rnd(&frng) % awake; k < nfib; k++) if (fibs[k].n && !fibs[k].done && !parked[k] && w-- == 0) break;
    fcur = k;
    left = (long)exp(log(flo) + uni(&frng) * (log(fhi) - log(flo)));       /* from a few accesses to many: all scales alike */
    if (switches >= flast) left = LONG_MAX / 2;                            /* a shortened schedule: from here on, each to its end */
    slice = left;
}
static void fib_yield(void) {
    int was = fcur;
    pick();
    if (fcur != was) { switches++; swapcontext(&fibs[was].c, &fibs[fcur].c); }
}
static void fib_main(int i) {
    fib_t *f = &fibs[i];
    for (int k = 0; k < f->n && !f->rc; k++) f->rc = doop(f->ops[k]);
    f->done = 1;
    pick();
    if (fcur < 0) swapcontext(&f->c, &fmain);
    else swapcontext(&f->c, &fibs[fcur].c);
}
static int fib_run(unsigned long long seed, double lo, double hi, unsigned long long last, int dir, int life, int hold) {
    int rc = 0; flast = last; fdir = dir; flife = life; fhold = hold; parks = 0; memset(parked, 0, sizeof parked);
    memset(&frng, 0, sizeof frng); frng.s = seed; frng0 = rnd(&frng); flo = lo; fhi = hi;
    for (int i = 0; i < nfib; i++) {
        fib_t *f = &fibs[i];
        f->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->stack == MAP_FAILED) return 4;
        getcontext(&f->c); f->c.uc_stack.ss_sp = f->stack; f->c.uc_stack.ss_size = STACK; f->c.uc_link = NULL;
        makecontext(&f->c, (void (*)(void))fib_main, 1, i);
    }
    switches = accesses = slice = left = 0; fonly = rnd(&frng) % (nfib ? nfib : 1); for (int i = 0; i < nfib; i++) target(i);
    pick();
    if (fcur >= 0) swapcontext(&fmain, &fibs[fcur].c);
    for (int i = 0; i < nfib; i++) { if (fibs[i].rc) rc = fibs[i].rc; munmap(fibs[i].stack, STACK); for (int k = 0; k < fibs[i].n; k++) free(fibs[i].ops[k]); free(fibs[i].ops); memset(&fibs[i], 0, sizeof fibs[i]); }
    nfib = 0; fcur = -1;
    printf("par switches %llu accesses %llu held %llu\n", (unsigned long long)switches, (unsigned long long)accesses, (unsigned long long)parks);
    return rc;
}
extern char __executable_start;
/* Directed schedules.  A thread draws a target - one in |fdir| of the places in the code, and how often it passes there - and is held
 * when it gets there; then it draws the next.  The others go on until they are held, too, or finished.  fdir < 0: only one thread has targets. */
static uint64_t hits[MAXF];
static void target(int i) { tgt[i] = rnd(&frng); until[i] = accesses + (uint64_t)exp(uni(&frng) * log(10) * flife); hits[i] = (uint64_t)exp(uni(&frng) * (tgt[i] & 1 ? log(8) : log(2000))); }
static inline void touch_at(void *pc) {
    if (fcur < 0) return;
    if (fdir && (fdir > 0 || fcur == fonly)) {
        uint64_t h = ((uint64_t)((char *)pc - &__executable_start) + tgt[fcur]) * 0x9E3779B97F4A7C15ull;
        if ((h >> 32) % (unsigned)abs(fdir) == 0 && switches < flast && --hits[fcur] == 0) { target(fcur); parks++; parked[fcur] = 1; until[fcur] = accesses + slice - left + (uint64_t)exp(log(1e2) + uni(&frng) * log(10) * (fhold - 2)); fib_yield(); return; }
    }
    if (--left <= 0) fib_yield();
}
#define touch() touch_at(__builtin_return_address(0))
#define T(n) void n(void *p) { touch(); }
T(__tsan_read1) T(__tsan_read2) T(__tsan_read4) T(__tsan_read8) T(__tsan_read16)
T(__tsan_write1) T(__tsan_write2) T(__tsan_write4) T(__tsan_write8) T(__tsan_write16)
T(__tsan_unaligned_read2) T(__tsan_unaligned_read4) T(__tsan_unaligned_read8) T(__tsan_unaligned_read16)
T(__tsan_unaligned_write2) T(__tsan_unaligned_write4) T(__tsan_unaligned_write8) T(__tsan_unaligned_write16)
T(__tsan_vptr_read)
T(__tsan_func_entry)
void __tsan_vptr_update(void **p, void *v) { touch(); }
void __tsan_func_exit(void) { touch(); }
void __tsan_init(void) { }
void __tsan_read_range(void *p, unsigned long n) { touch(); }
void __tsan_write_range(void *p, unsigned long n) { touch(); }
/* locks and atomic operations, should the library use any: one that is taken makes its thread wait its turn */
#include <pthread.h>
static void contended(void) { if (fcur < 0) abort(); left = 0; fib_yield(); }
int pthread_mutex_lock(pthread_mutex_t *m) { touch(); while (pthread_mutex_trylock(m)) contended(); return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) { touch(); while (pthread_spin_trylock(m)) contended(); return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    touch();
    while (*o == 1) contended();
    if (*o == 0) { *o = 1; f(); *o = 2; }
    return 0;
}
#define ATOMICS(b, t) \
    t __tsan_atomic##b##_load(const volatile t *p, int o) { touch(); return *p; } \
    void __tsan_atomic##b##_store(volatile t *p, t v, int o) { touch(); *p = v; } \
    t __tsan_atomic##b##_exchange(volatile t *p, t v, int o) { touch(); t r = *p; *p = v; return r; } \
    t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int o) { touch(); t r = *p; *p = r + v; return r; } \
    t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int o) { touch(); t r = *p; *p = r - v; return r; } \
    t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int o) { touch(); t r = *p; *p = r & v; return r; } \
    t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int o) { touch(); t r = *p; *p = r | v; return r; } \
    t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int o) { touch(); t r = *p; *p = r ^ v; return r; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *e, t v, int o, int f) { touch(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *e, t v, int o, int f) { touch(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t e, t v, int o, int f) { touch(); t r = *p; if (r == e) *p = v; return r; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { touch(); }
void __tsan_atomic_signal_fence(int o) { }
