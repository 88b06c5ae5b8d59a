/* Scheduler and access monitor for parallel runs.

   The code under test is compiled with the instrumentation of ThreadSanitizer, but linked with
   this file instead of its runtime: every access to memory calls a function below.  Threads run
   one at a time; they hand over control at tokens (calls of nextToken), at every n-th access, or
   when they end or wait, as the schedule says.

   The monitor knows only one source of order between threads: creation and join.  Two accesses
   to the same byte, one of them a write, by threads that are not ordered that way are a
   conflict, whatever the schedule was - unless both threads hold a mutex, and then control is
   not handed over either. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>
#include "verif_sched.h"
#include "lexing.h"

#define NT 110       /* the clock of the main thread, which counts creations and joins, fits into a byte */
#define NEV 65536

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void __real_free(void*);
extern void* __real_memset(void*, int, size_t);
extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern int __real_pthread_join(pthread_t, void**);
extern int __real_pthread_mutex_lock(pthread_mutex_t*);
extern int __real_pthread_mutex_unlock(pthread_mutex_t*);

/* ------------------------------------------------------------------ state */
static int on = 0;                       /* a schedule is set up */
static int nthreads = 0;                 /* workers of this phase: 1..nthreads */
static int phase = 0;
static pthread_t real_id[NT];
static int alive[NT], finished[NT], joined[NT], waits_for[NT];
static unsigned created_at[NT], joined_at[NT], now_main = 1;
static int current = 0;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[NT];
static __thread int self = 0;
static __thread int inside = 0;
static __thread int holds = 0;           /* mutexes */

/* schedule: a list of thread numbers for token points, or random switches at accesses */
static int list[8192], nlist = 0, at = 0, mode = 0, upto = 0;
static int tokens[NT];
static uint64_t rnd = 1; static int every = 100;

static struct { char k; int t; } ev[NEV]; static int nev = 0;
static long conflicts = 0, accesses = 0, switches = 0;

static void note(char k, int t) { if (nev < NEV) { ev[nev].k = k; ev[nev].t = t; nev++; } }
static unsigned next_random(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return (unsigned)(rnd >> 11); }

static int runnable(int t)
{
    if (t < 0 || t > nthreads) return 0;
    if (t == 0) return waits_for[0] == 0 || finished[waits_for[0]];
    return alive[t] && !finished[t];
}
static void give(int t)
{
    if (t == current) return;
    switches++;
    current = t;
    pthread_cond_signal(&cv[t]);
}
static void wait_turn(int t) { while (current != t) pthread_cond_wait(&cv[t], &mx); }
static int pick(int must)
{
    int t, k;
    if (mode == 1) {
        while (at < nlist) { t = list[at++]; if (runnable(t)) return t; }
    } else if (mode == 2) {
        int c[NT], n = 0;
        for (k = 0; k <= nthreads; k++) if (runnable(k)) c[n++] = k;
        if (n) return c[next_random() % n];
    }
    if (!must && runnable(self)) return self;
    for (k = 0; k <= nthreads; k++) if (runnable(k)) return k;
    return -1;
}
static void stuck(void) { fputs("deadlock", stderr); _exit(70); }

/* the running thread gives others the chance to run */
static void point(void)
{
    if (!on || !phase || inside || holds) return;
    inside = 1;
    __real_pthread_mutex_lock(&mx);
    int t = pick(0);
    if (t < 0) stuck();
    if (t != self) { give(t); wait_turn(self); }
    __real_pthread_mutex_unlock(&mx);
    inside = 0;
}

/* ------------------------------------------------------------------ monitor */
/* one per byte; valid in the phase it names; NONE: nobody.  The last two readers are kept. */
#define NONE 255
typedef struct { uint16_t phase; uint8_t writer, wclk, reader[2], rclk0, locked; } Cell;   /* locked: by all of them */
#define PAGE 4096
typedef struct { uintptr_t page; Cell* cell; } Slot;
static Slot* slot; static unsigned phase_no = 0;
#define NSLOT (1 << 16)
static Cell* cells_of(uintptr_t page, int create)
{
    unsigned h = (unsigned)((page * 0x9E3779B97F4A7C15ull) >> 48) & (NSLOT - 1);
    if (!slot) slot = (Slot*)mmap(NULL, NSLOT * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    while (slot[h].cell && slot[h].page != page) h = (h + 1) & (NSLOT - 1);
    if (!slot[h].cell) {
        if (!create) return NULL;
        slot[h].page = page;
        slot[h].cell = (Cell*)mmap(NULL, PAGE * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    return slot[h].cell;
}
/* is the access of thread a (at main clock clk if a is the main thread) before what t does now? */
static int before(int a, unsigned clk, int t)
{
    if (a == t) return 1;
    if (a == 0) return clk <= created_at[t];
    if (t == 0) return joined[a];
    return joined[a] && joined_at[a] <= created_at[t];
}
static void touch(const void* p, size_t n, int write)
{
    if (!on || !phase || inside || n == 0) return;
    inside = 1;
    accesses++;
    uintptr_t x = (uintptr_t)p, end = x + n;
    while (x < end) {
        Cell* c = cells_of(x / PAGE, 1) + x % PAGE;
        uintptr_t stop = (x / PAGE + 1) * PAGE;
        if (stop > end) stop = end;
        for (; x < stop; x++, c++) {
            int bad = 0;
            if (c->phase != phase_no) {
                c->phase = phase_no; c->writer = NONE; c->reader[0] = c->reader[1] = NONE; c->locked = 1;
            }
            if (c->writer != NONE && !before(c->writer, c->wclk, self)) bad = 1;
            if (write) {
                for (int k = 0; k < 2; k++)
                    if (c->reader[k] != NONE && !before(c->reader[k], c->rclk0, self)) bad = 1;
                c->writer = self; c->wclk = now_main;
                c->reader[0] = c->reader[1] = NONE;
            } else {
                if (c->reader[0] != self && c->reader[1] != self) { c->reader[1] = c->reader[0]; c->reader[0] = self; }
                if (self == 0) c->rclk0 = now_main;
            }
            if (bad && !(c->locked && holds)) conflicts++;
            if (!holds) c->locked = 0;
        }
    }
    inside = 0;
    if (mode == 2 && next_random() % every == 0) point();
}
static void forget(void* p, size_t n)
{
    if (!on || !phase || !p) return;
    uintptr_t x = (uintptr_t)p, end = x + n;
    while (x < end) {
        uintptr_t stop = (x / PAGE + 1) * PAGE;
        if (stop > end) stop = end;
        Cell* c = cells_of(x / PAGE, 0);
        if (c) for (c += x % PAGE; x < stop; x++, c++) c->phase = 0;
        x = stop;
    }
}

/* ------------------------------------------------------------------ wrapped calls */
typedef struct { void* (*f)(void*); void* arg; int t; } Start;
static void* trampoline(void* a)
{
    Start s = *(Start*)a;
    __real_free(a);
    self = s.t;
    inside = 1;
    __real_pthread_mutex_lock(&mx);
    wait_turn(self);
    note('b', self);
    __real_pthread_mutex_unlock(&mx);
    inside = 0;
    void* r = s.f(s.arg);
    inside = 1;
    __real_pthread_mutex_lock(&mx);
    finished[self] = 1;
    note('f', self);
    int t = pick(1);
    if (t < 0) stuck();
    give(t);
    __real_pthread_mutex_unlock(&mx);
    return r;
}
int __wrap_pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*f)(void*), void* arg)
{
    if (!on) return __real_pthread_create(id, attr, f, arg);
    inside = 1;
    __real_pthread_mutex_lock(&mx);
    if (!phase) {
        phase = 1; phase_no++; nthreads = 0; now_main = 1;
        __real_memset(alive, 0, sizeof alive); __real_memset(finished, 0, sizeof finished); __real_memset(joined, 0, sizeof joined);
        __real_memset(waits_for, 0, sizeof waits_for); __real_memset(tokens, 0, sizeof tokens);
    }
    int t = ++nthreads;
    if (t >= NT) _exit(71);
    pthread_cond_init(&cv[t], NULL);
    Start* s = (Start*)__real_malloc(sizeof(Start));
    s->f = f; s->arg = arg; s->t = t;
    created_at[t] = now_main++;
    int rc = __real_pthread_create(&real_id[t], attr, trampoline, s);
    *id = real_id[t];
    alive[t] = rc == 0;
    note('c', t);
    __real_pthread_mutex_unlock(&mx);
    inside = 0;
    point();
    return rc;
}
int __wrap_pthread_join(pthread_t id, void** ret)
{
    if (!on) return __real_pthread_join(id, ret);
    int t, k;
    inside = 1;
    __real_pthread_mutex_lock(&mx);
    for (t = 1; t <= nthreads; t++) if (alive[t] && !joined[t] && pthread_equal(real_id[t], id)) break;
    if (t > nthreads) { __real_pthread_mutex_unlock(&mx); inside = 0; return __real_pthread_join(id, ret); }
    waits_for[0] = t;
    if (!finished[t]) {
        int n = pick(1);
        if (n < 0) stuck();
        give(n);
        wait_turn(0);
    }
    waits_for[0] = 0;
    joined[t] = 1; joined_at[t] = now_main++;
    note('j', t);
    __real_pthread_mutex_unlock(&mx);
    int rc = __real_pthread_join(id, ret);
    inside = 0;
    for (k = 1; k <= nthreads; k++) if (!joined[k]) return rc;
    phase = 0;            /* only the main thread is left */
    return rc;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int rc = __real_pthread_mutex_lock(m); if (rc == 0) holds++; return rc; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (holds > 0) holds--; return __real_pthread_mutex_unlock(m); }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (on && phase && !inside) { inside = 1; forget(p, n); inside = 0; } return p; }
void* __wrap_calloc(size_t m, size_t n) { void* p = __real_calloc(m, n); if (on && phase && !inside) { inside = 1; forget(p, m * n); inside = 0; } return p; }
void __wrap_free(void* p) { if (on && phase && !inside && p) { inside = 1; forget(p, malloc_usable_size(p)); inside = 0; } __real_free(p); }
void* __wrap_realloc(void* p, size_t n)
{
    if (!(on && phase) || inside) return __real_realloc(p, n);
    size_t old = p ? malloc_usable_size(p) : 0;
    if (p) touch(p, old < n ? old : n, 0);
    inside = 1;
    forget(p, old);
    void* q = __real_realloc(p, n);
    forget(q, n);
    inside = 0;
    return q;
}
extern void* __real_memcpy(void*, const void*, size_t);
extern void* __real_memmove(void*, const void*, size_t);
extern size_t __real_strlen(const char*);
extern int __real_strcmp(const char*, const char*);
extern char* __real_strcpy(char*, const char*);
extern char* __real_strncpy(char*, const char*, size_t);
extern char* __real_strcat(char*, const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch(s, n, 0); touch(d, n, 1); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch(s, n, 0); touch(d, n, 1); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch(d, n, 1); return __real_memset(d, c, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); touch(s, n + 1, 0); return n; }
int __wrap_strcmp(const char* a, const char* b) { touch(a, 1, 0); touch(b, 1, 0); return __real_strcmp(a, b); }
char* __wrap_strcpy(char* d, const char* s) { size_t n = __real_strlen(s) + 1; touch(s, n, 0); touch(d, n, 1); return __real_strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { touch(d, n, 1); return __real_strncpy(d, s, n); }
char* __wrap_strcat(char* d, const char* s) { size_t n = __real_strlen(s) + 1; touch(s, n, 0); touch(d + __real_strlen(d), n, 1); return __real_strcat(d, s); }

/* a token: a point of the coarse schedules */
extern Token __real_nextToken(Lexer*) __attribute__((weak));
Token __wrap_nextToken(Lexer* l)
{
    if (on && phase && !inside) {
        inside = 1;
        __real_pthread_mutex_lock(&mx);
        note('t', self);
        __real_pthread_mutex_unlock(&mx);
        inside = 0;
        if (mode == 1 && tokens[self]++ < upto) point();
    }
    return __real_nextToken(l);
}

/* ------------------------------------------------------------------ instrumentation */
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void* p) { touch(p, n, 0); } \
void __tsan_write##n(void* p) { touch(p, n, 1); } \
void __tsan_unaligned_read##n(void* p) { touch(p, n, 0); } \
void __tsan_unaligned_write##n(void* p) { touch(p, n, 1); } \
void __tsan_volatile_read##n(void* p) { touch(p, n, 0); } \
void __tsan_volatile_write##n(void* p) { touch(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, 1); }
void __tsan_vptr_update(void** p, void* v) { touch(p, 8, 1); }
void __tsan_vptr_read(void** p) { touch(p, 8, 0); }

/* atomic operations are ordered among each other; threads run one at a time here */
#define ATOMIC(b, T) \
T __tsan_atomic##b##_load(const T* p, int o) { holds++; touch(p, sizeof(T), 0); holds--; return *p; } \
void __tsan_atomic##b##_store(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; *p = v; } \
T __tsan_atomic##b##_exchange(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##b##_fetch_add(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##b##_fetch_sub(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##b##_fetch_and(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##b##_fetch_or(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##b##_fetch_xor(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_fetch_xor(p, v, 5); } \
T __tsan_atomic##b##_fetch_nand(T* p, T v, int o) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##b##_compare_exchange_strong(T* p, T* c, T v, int o, int f) { holds++; touch(p, sizeof(T), 1); holds--; return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
int __tsan_atomic##b##_compare_exchange_weak(T* p, T* c, T v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, o, f); } \
T __tsan_atomic##b##_compare_exchange_val(T* p, T c, T v, int o, int f) { __tsan_atomic##b##_compare_exchange_strong(p, &c, v, o, f); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}

/* ------------------------------------------------------------------ interface of the harness */
/* "list n 1 2 1 0 ...": what runs next at each control point, which are creations and the first n
   tokens of each worker; or "rand seed every" */
void sched_setup(const char* text)
{
    on = 1; phase = 0; nlist = at = 0; nev = 0; conflicts = accesses = switches = 0; current = 0; self = 0; now_main = 1;
    pthread_cond_init(&cv[0], NULL);
    if (!strncmp(text, "rand", 4)) {
        unsigned long long s = 1;
        sscanf(text + 4, "%llu %d", &s, &every);
        rnd = s * 2654435761u + 88172645463325252ull; mode = 2;
        for (int i = 0; i < 10; i++) next_random();
    } else {
        mode = 1;
        const char* p = text + 4; char* q;
        upto = (int)strtol(p, &q, 10); p = q;
        while (nlist < 8192) { long v = strtol(p, &q, 10); if (q == p) break; list[nlist++] = (int)v; p = q; }
    }
}
void sched_report(FILE* out)
{
    fputs("\"trace\":[", out);
    for (int i = 0; i < nev; i++) fprintf(out, "%s[\"%c\",%d]", i ? "," : "", ev[i].k, ev[i].t);
    fprintf(out, "],\"conflicts\":%ld,\"accesses\":%ld,\"switches\":%ld", conflicts, accesses, switches);
    on = 0;
}
