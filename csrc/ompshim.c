/* A controlled scheduler standing in for libgomp and the ThreadSanitizer runtime.

   Code compiled with -fopenmp -fsanitize=thread calls GOMP_* for its parallel
   regions and __tsan_* before every memory access.  Here every access to memory
   other than the thread's own stack is a scheduling point: exactly one thread
   runs at a time and the order is dictated by a schedule set from outside.  The
   sequence of accesses is recorded so that the caller can compute which other
   orders are not equivalent and replay those (stateless partial-order exploration). */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXT 16
#define MAXEV 200000
enum { RUN, PENDING, BARRIER, LOCKWAIT, DONE };

struct ev { int64_t tid, addr, size, write, enabled, region; };

static int active, want = 1, region, nev, npre, pos, overflow, last;
static const int *pre;
static struct ev trace[MAXEV];
static struct { pthread_t th; sem_t go; int state; uintptr_t addr; int size, write; uintptr_t lo, hi; } T[MAXT];
static int nT;
static sem_t sched;
static __thread int me = -1;
static void (*g_fn)(void *);
static void *g_data;
static int lock_owner = -1;
static long loop_next, loop_end, loop_incr;
static int loop_users;

static void hand(int state) { T[me].state = state; sem_post(&sched); sem_wait(&T[me].go); }

static void touch(uintptr_t a, int size, int w)
{
    if (me < 0 || !active) return;
    if (a >= T[me].lo && a < T[me].hi) return;
    T[me].addr = a; T[me].size = size; T[me].write = w;
    hand(PENDING);
    T[me].state = RUN;
}

static void *body(void *p)
{
    me = (int)(intptr_t)p;
    pthread_attr_t at; void *sp; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &sp, &sz);
    pthread_attr_destroy(&at);
    T[me].lo = (uintptr_t)sp; T[me].hi = (uintptr_t)sp + sz;
    sem_wait(&T[me].go);
    g_fn(g_data);
    T[me].state = DONE;
    sem_post(&sched);
    return 0;
}

static void step(int t) { sem_post(&T[t].go); sem_wait(&sched); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags)
{
    if (!active || me >= 0) { fn(data); return; }
    nT = nt ? (int)nt : want;
    if (nT > MAXT) nT = MAXT;
    g_fn = fn; g_data = data; lock_owner = -1; loop_users = 0;
    sem_init(&sched, 0, 0);
    for (int t = 0; t < nT; t++) {
        sem_init(&T[t].go, 0, 0);
        T[t].state = RUN;
        pthread_create(&T[t].th, 0, body, (void *)(intptr_t)t);
    }
    for (int t = 0; t < nT; t++) step(t);      /* each to its first shared access */
    last = -1;
    for (;;) {
        int en = 0, done = 0, bar = 0;
        for (int t = 0; t < nT; t++) {
            if (T[t].state == LOCKWAIT && lock_owner < 0) en |= 1 << t;
            if (T[t].state == PENDING) en |= 1 << t;
            done += T[t].state == DONE;
            bar += T[t].state == BARRIER;
        }
        if (done == nT) break;
        if (!en) {
            if (!bar) { fprintf(stderr, "ompshim: deadlock\n"); abort(); }
            region++;
            loop_users = 0;
            for (int t = 0; t < nT; t++) if (T[t].state == BARRIER) step(t);
            continue;
        }
        int t = -1;
        if (pos < npre) { t = pre[pos]; if (t < 0 || t >= nT || !(en >> t & 1)) t = -1; }
        if (t < 0) {
            if (last >= 0 && (en >> last & 1)) t = last;
            else for (t = 0; !(en >> t & 1); t++);
        }
        if (nev < MAXEV) {
            struct ev e = { t, T[t].addr, T[t].size, T[t].write, en, region };
            trace[nev++] = e;
        } else overflow = 1;
        pos++;
        last = t;
        step(t);
    }
    region++;
    for (int t = 0; t < nT; t++) { pthread_join(T[t].th, 0); sem_destroy(&T[t].go); }
    sem_destroy(&sched);
}

void shim_begin(int nt, const int *p, int np) { want = nt; pre = p; npre = np; pos = nev = region = overflow = 0; active = 1; }
int shim_end(void) { active = 0; return overflow ? -1 : nev; }
const struct ev *shim_trace(void) { return trace; }

int omp_get_thread_num(void) { return me < 0 ? 0 : me; }
int omp_get_num_threads(void) { return me < 0 ? 1 : nT; }
int omp_get_max_threads(void) { return want; }
int omp_in_parallel(void) { return me >= 0; }
int omp_get_num_procs(void) { return want; }
void omp_set_num_threads(int n) { }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int n) { }

void GOMP_barrier(void) { if (me >= 0 && active) { hand(BARRIER); T[me].state = RUN; } }

static char critical_cell;
static void lock(void)
{
    if (me < 0 || !active) return;
    T[me].addr = (uintptr_t)&critical_cell; T[me].size = 1; T[me].write = 1;
    hand(LOCKWAIT);
    T[me].state = RUN;
    lock_owner = me;
}
static void unlock(void) { if (me >= 0 && active) lock_owner = -1; }
void GOMP_critical_start(void) { lock(); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { lock(); }
void GOMP_critical_name_end(void **p) { unlock(); }
void GOMP_atomic_start(void) { lock(); }
void GOMP_atomic_end(void) { unlock(); }

/* dynamic/guided schedules: grabbing a chunk is a scheduling point like any other access */
static char chunk_cell;
static int grab(long *a, long *b)
{
    touch((uintptr_t)&chunk_cell, 1, 1);
    if (loop_incr > 0 ? loop_next >= loop_end : loop_next <= loop_end) return 0;
    *a = loop_next; *b = loop_next + loop_incr; loop_next += loop_incr;
    return 1;
}
static int start(long s, long e, long inc, long *a, long *b)
{
    touch((uintptr_t)&chunk_cell, 1, 1);
    if (loop_users++ == 0) { loop_next = s; loop_end = e; loop_incr = inc; }
    return grab(a, b);
}
#define LOOP(k) \
 int GOMP_loop_##k##_start(long s, long e, long inc, long ch, long *a, long *b) { return start(s, e, inc, a, b); } \
 int GOMP_loop_##k##_next(long *a, long *b) { return grab(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static) LOOP(ordered_static)
#define LOOPR(k) \
 int GOMP_loop_##k##_start(long s, long e, long inc, long *a, long *b) { return start(s, e, inc, a, b); } \
 int GOMP_loop_##k##_next(long *a, long *b) { return grab(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
int GOMP_single_start(void) { return me <= 0; }

static void loop_region(void (*fn)(void *), void *data, unsigned nt, long s, long e, long inc)
{
    loop_next = s; loop_end = e; loop_incr = inc;
    if (!active || me >= 0) { fn(data); return; }
    GOMP_parallel(fn, data, nt, 0);
}
#define PLOOP(k) \
 void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, long ch, unsigned f) \
 { loop_region(fn, d, nt, s, e, inc); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
#define PLOOPR(k) \
 void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, unsigned f) \
 { loop_region(fn, d, nt, s, e, inc); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

void __tsan_init(void) { }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
#define RW(n) \
 void __tsan_read##n(void *p) { touch((uintptr_t)p, n, 0); } \
 void __tsan_write##n(void *p) { touch((uintptr_t)p, n, 1); } \
 void __tsan_read_write##n(void *p) { touch((uintptr_t)p, n, 0); touch((uintptr_t)p, n, 1); } \
 void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, 0); } \
 void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, 1); } \
 void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, 0); } \
 void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { touch((uintptr_t)p, (int)n, 0); }
void __tsan_write_range(void *p, long n) { touch((uintptr_t)p, (int)n, 1); }
void __tsan_vptr_update(void **p, void *v) { }
void __tsan_vptr_read(void **p) { }
void *__tsan_memcpy(void *d, const void *s, unsigned long n)
{ touch((uintptr_t)s, (int)n, 0); touch((uintptr_t)d, (int)n, 1); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { touch((uintptr_t)d, (int)n, 1); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n)
{ touch((uintptr_t)s, (int)n, 0); touch((uintptr_t)d, (int)n, 1); return memmove(d, s, n); }
#define ATOMIC(n, t) \
 t __tsan_atomic##n##_load(const volatile t *p, int o) { touch((uintptr_t)p, n / 8, 0); return *p; } \
 void __tsan_atomic##n##_store(volatile t *p, t v, int o) { touch((uintptr_t)p, n / 8, 1); *p = v; } \
 t __tsan_atomic##n##_exchange(volatile t *p, t v, int o) { touch((uintptr_t)p, n / 8, 1); t r = *p; *p = v; return r; } \
 t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int o) { touch((uintptr_t)p, n / 8, 1); t r = *p; *p = r + v; return r; } \
 t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int o) { touch((uintptr_t)p, n / 8, 1); t r = *p; *p = r - v; return r; } \
 t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int o) { touch((uintptr_t)p, n / 8, 1); t r = *p; *p = r | v; return r; } \
 t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int o) { touch((uintptr_t)p, n / 8, 1); t r = *p; *p = r & v; return r; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile t *p, t *c, t v, int o, int f) \
 { touch((uintptr_t)p, n / 8, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile t *p, t *c, t v, int o, int f) \
 { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, o, f); } \
 t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t c, t v, int o, int f) \
 { touch((uintptr_t)p, n / 8, 1); t r = *p; if (r == c) *p = v; return r; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { }
void __tsan_atomic_signal_fence(int o) { }
