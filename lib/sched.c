/* Runs the generated batch loop (main() or batch_loop()) under a controlled scheduler: this file stands in for the OpenMP runtime and for the
 * threads. A team of N_TEAM coroutines executes each parallel region; the scheduler picks who runs before and after every call of inference().
 * All choices are enumerated (exhaustive), or given orders are followed.  argv: mode file-or-in batch team limit [order] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include "inference.h"
#include "test_dataset.h"
#ifndef T
#define T float
#endif
#ifdef BATCH
void batch_loop(T *predictions, T *nn_input, int n);
#else
int prog_main(int argc, char **argv);
#endif
int __real_inference(inference_t *c, T *p, T *x);

#define MAXT 64
#define STK (1 << 20)
static struct { ucontext_t uc; char *stack; int done; inference_t *in_use; } TH[MAXT];
static ucontext_t REGION;
static int team, size_now, cur = -1, order;
static void (*FN)(void *); static void *DATA;
static int choice[100000], width[100000], depth, given;
static long calls, states, bad_ctx, regions;
static long next_iter, end_iter, incr, chunk;

static int pick(int n)                       /* n runnable threads; returns an index among them */
{
    if (order == 1) return n - 1;
    if (order == 2) return (int)(states % n);
    if (order == 3) return (int)((states * 7 + 3) % n);
    if (order == 4) return 0;
    if (depth >= 100000) exit(9);
    width[depth] = n;
    if (depth >= given) choice[depth] = 0;
    return choice[depth++];
}

static void yield_(void) { if (cur >= 0) { int me = cur; swapcontext(&TH[me].uc, &REGION); } }

static void body(void) { FN(DATA); TH[cur].done = 1; swapcontext(&TH[cur].uc, &REGION); }

static void run_region(void (*fn)(void *), void *data, int n)
{
    size_now = n < team ? n : team;
    if (size_now < 1) size_now = team;
    FN = fn; DATA = data; regions++;
    for (int t = 0; t < size_now; t++) {
        if (!TH[t].stack) TH[t].stack = malloc(STK);
        TH[t].done = 0; TH[t].in_use = 0;
        getcontext(&TH[t].uc);
        TH[t].uc.uc_stack.ss_sp = TH[t].stack; TH[t].uc.uc_stack.ss_size = STK; TH[t].uc.uc_link = 0;
        makecontext(&TH[t].uc, body, 0);
    }
    for (;;) {
        int run[MAXT], n_run = 0;
        for (int t = 0; t < size_now; t++) if (!TH[t].done) run[n_run++] = t;
        if (!n_run) break;
        states++;
        cur = run[n_run == 1 ? 0 : pick(n_run)];
        swapcontext(&REGION, &TH[cur].uc);
    }
    cur = -1; size_now = 1;
}

/* the OpenMP runtime */
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned f) { run_region(fn, data, n ? (int)n : MAXT); }
int omp_get_num_threads(void) { return cur < 0 ? 1 : size_now; }
int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_max_threads(void) { return team; }
int omp_in_parallel(void) { return cur >= 0; }
void omp_set_num_threads(int n) { (void)n; }
double omp_get_wtime(void) { return 0; }
static void dyn(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) { next_iter = s; end_iter = e; incr = i; chunk = c; run_region(fn, d, n ? (int)n : MAXT); }
static _Bool dyn_next(long *s, long *e) {
    yield_();
    if (incr > 0 ? next_iter >= end_iter : next_iter <= end_iter) return 0;
    *s = next_iter; *e = next_iter + chunk * incr; if (incr > 0 ? *e > end_iter : *e < end_iter) *e = end_iter;
    next_iter = *e; return 1;
}
#define DYN(k) void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { dyn(fn, d, n, s, e, i, c); } \
               _Bool GOMP_loop_##k##_next(long *s, long *e) { return dyn_next(s, e); }
DYN(dynamic) DYN(nonmonotonic_dynamic) DYN(guided) DYN(nonmonotonic_guided)
static int lock, arrived, phase, single;
void GOMP_critical_start(void) { while (lock && cur >= 0) yield_(); lock = 1; }
void GOMP_critical_end(void) { lock = 0; }
void GOMP_critical_name_start(void **p) { (void)p; GOMP_critical_start(); }
void GOMP_critical_name_end(void **p) { (void)p; GOMP_critical_end(); }
void GOMP_atomic_start(void) { GOMP_critical_start(); }
void GOMP_atomic_end(void) { GOMP_critical_end(); }
void GOMP_barrier(void) { int p = phase; if (cur < 0) return; if (++arrived == size_now) { arrived = 0; phase++; single = 0; } while (p == phase) yield_(); }
_Bool GOMP_single_start(void) { return cur < 0 || !single++; }
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) {}

int __wrap_inference(inference_t *c, T *p, T *x)
{
    yield_();
    calls++;
    if (cur >= 0) {
        for (int t = 0; t < size_now; t++) if (t != cur && TH[t].in_use == c) bad_ctx++;
        TH[cur].in_use = c;
    }
    if (c < Context || c >= Context + MAX_BATCH_SIZE) { printf("bad context outside\n"); exit(3); }
    yield_();
    int r = __real_inference(c, p, x);
    if (cur >= 0) TH[cur].in_use = 0;
    return r;
}

static long fnv(const unsigned char *p, size_t n) { unsigned long h = 1469598103934665603UL; while (n--) { h ^= *p++; h *= 1099511628211UL; } return (long)(h >> 1); }

int main(int argc, char **argv)
{
    char *path = argv[1]; int batch = atoi(argv[2]); long limit; long runs = 0, differs = 0, first = 0;
    team = atoi(argv[3]); limit = atol(argv[4]); order = atoi(argv[5]);
#ifdef BATCH
    size_t is = (size_t)batch * nn_input_size, os = (size_t)batch * nn_output_size;
    T *in = malloc(is * sizeof(T) + 1), *out = malloc(os * sizeof(T) + 64), *want = malloc(os * sizeof(T) + 1);
    FILE *f = fopen(argv[6], "rb"); if (fread(in, sizeof(T), is, f) != is) return 8; fclose(f);
#else
    char *av[] = {"prog", path, argc > 6 ? argv[6] : NULL, NULL};
#endif
    for (;;) {
        depth = 0;
        memset(Context, runs & 1 ? 0xA5 : 0, sizeof Context);
#ifdef BATCH
        memset(out, 0xEE, os * sizeof(T) + 64);
        batch_loop(out, in, batch);
        for (int k = 0; k < 64; k++) if (((unsigned char *)(out + os))[k] != 0xEE) { printf("bad overrun\n"); return 3; }
        if (!runs) { FILE *g = fopen(path, "wb"); fwrite(out, sizeof(T), os, g); fclose(g); }
        long h = fnv((void *)out, os * sizeof(T));
#else
        prog_main(argc > 6 ? 3 : 2, av);
        FILE *g = fopen(path, "rb"); static unsigned char buf[1 << 22]; size_t n = fread(buf, 1, sizeof buf, g); fclose(g);
        long h = fnv(buf, n);
#endif
        if (!runs) first = h;
        else if (h != first) { differs++; }
        runs++;
        if (order || runs >= limit) break;
        while (depth > 0 && choice[depth - 1] + 1 >= width[depth - 1]) depth--;
        if (!depth) break;
        choice[depth - 1]++; given = depth;
    }
    printf("runs %ld\nstates %ld\ncalls %ld\nbad_ctx %ld\ndiffers %ld\nregions %ld\ncomplete %d\n", runs, states, calls, bad_ctx, differs, regions, order || depth == 0);
    return 0;
}
