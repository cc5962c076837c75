/* Minimal OpenMP runtime on plain pthreads.  Every parallel region creates its
 * threads and joins them, nothing else synchronises (except the constructs
 * below), so a happens-before race detector sees exactly the ordering which
 * OpenMP guarantees. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#define MAXT 64
#define MAXW 4096
struct ws { bool init; long next, end, inc, chunk; int single; };
struct team { int n; pthread_mutex_t m; pthread_barrier_t bar; struct ws w[MAXW]; };
struct arg { void (*fn)(void *); void *data; int tid, n; struct team *t; int wid; };
static int nthr = 2;
static __thread int tid = 0, nteam = 1, wid = -1;
static __thread struct team *cur = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;

static void *tramp(void *p)
{
    struct arg *a = p;
    tid = a->tid; nteam = a->n; cur = a->t; wid = a->wid;
    a->fn(a->data);
    return 0;
}
static void region(void (*fn)(void *), void *data, unsigned n, struct ws *w)
{
    if (n == 0) n = nthr;
    if (n > MAXT) n = MAXT;
    if (cur) n = 1;
    pthread_t th[MAXT]; struct arg a[MAXT];
    struct team *t = calloc(1, sizeof(*t));
    t->n = n;
    if (w) t->w[0] = *w;
    pthread_mutex_init(&t->m, 0); pthread_barrier_init(&t->bar, 0, n);
    int otid = tid, on = nteam, ow = wid; struct team *oc = cur;
    for (unsigned i = 0; i < n; i++)
        a[i] = (struct arg){fn, data, i, n, t, w ? 0 : -1};
    for (unsigned i = 1; i < n; i++) pthread_create(&th[i], 0, tramp, &a[i]);
    tramp(&a[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    tid = otid; nteam = on; cur = oc; wid = ow;
    free(t);
    fprintf(stderr, "OMPREGION %u\n", n);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { region(fn, data, n, 0); }

static bool loop_next(long *s, long *e)
{
    struct ws *w = &cur->w[wid]; bool r = false;
    pthread_mutex_lock(&cur->m);
    if (w->inc > 0 ? w->next < w->end : w->next > w->end) {
        *s = w->next;
        long k = w->next + w->chunk * w->inc;
        if (w->inc > 0 ? k > w->end : k < w->end) k = w->end;
        *e = w->next = k; r = true;
    }
    pthread_mutex_unlock(&cur->m);
    return r;
}
static bool loop_start(long start, long end, long inc, long chunk, long *s, long *e)
{
    if (chunk < 1) chunk = 1;
    wid++;
    if (!cur || wid >= MAXW) abort();
    pthread_mutex_lock(&cur->m);
    struct ws *w = &cur->w[wid];
    if (!w->init) *w = (struct ws){true, start, end, inc, chunk, 0};
    pthread_mutex_unlock(&cur->m);
    return loop_next(s, e);
}
#define LOOP(name) \
  bool GOMP_loop_##name##_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d, unsigned f) \
  { struct ws w = {true, a, b, c, d < 1 ? 1 : d, 0}; region(fn, data, n, &w); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(name) \
  bool GOMP_loop_##name##_start(long a, long b, long c, long *s, long *e) { return loop_start(a, b, c, 1, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned f) \
  { struct ws w = {true, a, b, c, 1, 0}; region(fn, data, n, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_barrier(void) { if (cur) pthread_barrier_wait(&cur->bar); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
bool GOMP_single_start(void)
{
    if (!cur) return true;
    wid++;
    pthread_mutex_lock(&cur->m);
    bool r = !cur->w[wid].single; cur->w[wid].single = 1;
    pthread_mutex_unlock(&cur->m);
    return r;
}
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&crit); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&crit); }
#define INTFN(name, expr) int name(void) { return expr; } int name##_(void) { return expr; }
INTFN(omp_get_thread_num, tid)
INTFN(omp_get_num_threads, nteam)
INTFN(omp_get_max_threads, nthr)
INTFN(omp_get_num_procs, 4)
INTFN(omp_in_parallel, cur != 0)
void omp_set_num_threads(int n) { nthr = n; }
void omp_set_num_threads_(int *n) { nthr = *n; }
void omp_set_dynamic(int n) { }
void omp_set_dynamic_(int *n) { }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtime_(void) { return omp_get_wtime(); }
