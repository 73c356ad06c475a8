/* Explores interleavings of two calls of a generated inference() at the granularity of memory accesses.
 * The generated code is compiled with -fsanitize=thread, whose access hooks are defined here: each one records the access
 * and may hand control to the other call. The two calls run as coroutines on their own stacks, with their own context,
 * input and output; every other object is shared between them. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include "inference.h"
#ifndef T
#define T float
#endif
#define NOTSAN __attribute__((no_sanitize_thread))
#define STK (1 << 22)

typedef struct { inference_t *ctx; T *in, *out; char *stack; ucontext_t uc; unsigned char *w_ctx, *w_out; long n; int done; } call_t;
static call_t C[2];
static ucontext_t MAIN;
static int cur = -1, first_time;
static long is_, os_;
static long sw1, sw2;                         /* global access numbers at which control is handed over (-1: never) */
static long steps, accesses, schedules, shared_writes, stale_reads, foreign, input_writes, prefilled;
static char note[400];
extern char __data_start, _end;

NOTSAN static void hand_over(void)
{
    int me = cur, other = 1 - cur;
    if (C[other].done) return;
    cur = other;
    swapcontext(&C[me].uc, &C[other].uc);
}

static int inside(const void *a, const void *base, size_t n) { return (const char *)a >= (const char *)base && (const char *)a < (const char *)base + n; }

NOTSAN static void access_(void *a, size_t n, int write)
{
    if (cur < 0) return;
    call_t *c = &C[cur], *o = &C[1 - cur];
    if (first_time) {
        accesses++;
        c->n++;
        if (inside(a, c->ctx, sizeof(inference_t))) {
            size_t off = (char *)a - (char *)c->ctx;
            if (off + n > sizeof(inference_t)) { foreign++; snprintf(note, sizeof note, "access past the end of the context"); }
            else if (write) memset(c->w_ctx + off, 1, n);
            else if (memchr(c->w_ctx + off, 0, n)) { stale_reads++; snprintf(note, sizeof note, "reads %zu bytes at offset %zu of the context, which this call did not write", n, off); }
        } else if (inside(a, c->out, os_ * sizeof(T))) {
            size_t off = (char *)a - (char *)c->out;
            if (write) memset(c->w_out + off, 1, n);
            else if (memchr(c->w_out + off, 0, n)) { stale_reads++; snprintf(note, sizeof note, "reads element %zu of the result before writing it", off / sizeof(T)); }
        } else if (inside(a, c->in, is_ * sizeof(T))) {
            if (write) { input_writes++; snprintf(note, sizeof note, "writes element %zu of its input", ((size_t)((char *)a - (char *)c->in)) / sizeof(T)); }
        } else if (inside(a, c->stack, STK)) {
        } else if (inside(a, o->ctx, sizeof(inference_t)) || inside(a, o->out, os_ * sizeof(T)) || inside(a, o->in, is_ * sizeof(T)) || inside(a, o->stack, STK)) {
            foreign++; snprintf(note, sizeof note, "touches the memory of the other call");
        } else if (write) {
            shared_writes++; snprintf(note, sizeof note, "writes memory that is not its context, its result or its stack");
        }
    }
    steps++;
    if (steps == sw1 || steps == sw2) hand_over();
}
#define H(n) NOTSAN void __tsan_read##n(void *a) { access_(a, n, 0); } NOTSAN void __tsan_write##n(void *a) { access_(a, n, 1); } \
    NOTSAN void __tsan_unaligned_read##n(void *a) { access_(a, n, 0); } NOTSAN void __tsan_unaligned_write##n(void *a) { access_(a, n, 1); } \
    NOTSAN void __tsan_volatile_read##n(void *a) { access_(a, n, 0); } NOTSAN void __tsan_volatile_write##n(void *a) { access_(a, n, 1); }
H(1) H(2) H(4) H(8) H(16)
NOTSAN void __tsan_read_range(void *a, size_t n) { access_(a, n, 0); }
NOTSAN void __tsan_write_range(void *a, size_t n) { access_(a, n, 1); }
NOTSAN void __tsan_func_entry(void *a) {}
NOTSAN void __tsan_func_exit(void *a) {}
NOTSAN void __tsan_init(void) {}
NOTSAN void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((void *)s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
NOTSAN void *__tsan_memset(void *d, int v, size_t n) { access_(d, n, 1); return memset(d, v, n); }

NOTSAN void *__tsan_memmove(void *d, const void *s, size_t n) { access_((void *)s, n, 0); access_(d, n, 1); return memmove(d, s, n); }

NOTSAN static void body(int k)
{
    inference(C[k].ctx, C[k].out, C[k].in);
    C[k].done = 1;
    if (!C[1 - k].done) { cur = 1 - k; swapcontext(&C[k].uc, &C[1 - k].uc); }
    cur = -1;
    setcontext(&MAIN);
}

static T *inputs, *expect;

NOTSAN static int run(int a, int b, int start, long s1, long s2, int pat)
{
    int k[2] = {a, b};
    for (int i = 0; i < 2; ++i) {
        call_t *c = &C[i];
        if (pat >= 0) { memset(c->ctx, pat, sizeof(inference_t)); memset(c->out, pat, os_ * sizeof(T)); }
        memcpy(c->in, inputs + k[i] * is_, is_ * sizeof(T));
        c->done = 0; c->n = 0;
        memset(c->w_ctx, 0, sizeof(inference_t)); memset(c->w_out, 0, os_ * sizeof(T));
        getcontext(&c->uc);
        c->uc.uc_stack.ss_sp = c->stack; c->uc.uc_stack.ss_size = STK; c->uc.uc_link = &MAIN;
        makecontext(&c->uc, (void (*)(void))body, 1, i);
    }
    steps = 0; sw1 = s1; sw2 = s2; schedules++;
    cur = start;
    swapcontext(&MAIN, &C[start].uc);
    cur = -1;
    for (int i = 0; i < 2; ++i)
        if (memcmp(C[i].out, expect + k[i] * os_, os_ * sizeof(T))) return 1 + i;
    return 0;
}

int main(int argc, char **argv)
{
    long n = atol(argv[2]), limit2 = atol(argv[5]), limit1 = atol(argv[6]);
    is_ = atol(argv[3]); os_ = atol(argv[4]);
    FILE *f = fopen(argv[1], "rb");
    inputs = malloc(n * is_ * sizeof(T)); expect = calloc(n * os_, sizeof(T));
    if (fread(inputs, sizeof(T), n * is_, f) != (size_t)(n * is_)) return 97;
    for (int i = 0; i < 2; ++i) {
        C[i].ctx = aligned_alloc(4096, (sizeof(inference_t) + 4095) / 4096 * 4096); C[i].in = malloc(is_ * sizeof(T)); C[i].out = malloc(os_ * sizeof(T)); C[i].stack = malloc(STK);
        C[i].w_ctx = calloc(1, sizeof(inference_t)); C[i].w_out = calloc(os_, sizeof(T));
    }
    /* references: each input alone */
    for (long k = 0; k < n; ++k) {
        memset(C[0].ctx, 0x4B, sizeof(inference_t)); memset(C[0].out, 0x4B, os_ * sizeof(T));
        memcpy(C[0].in, inputs + k * is_, is_ * sizeof(T));
        inference(C[0].ctx, C[0].out, C[0].in);
        memcpy(expect + k * os_, C[0].out, os_ * sizeof(T));
    }
    int bad = 0; long at1 = -1, at2 = -1;
    first_time = 1;
    run(0, 1, 0, -1, -1, 0xFF);
    long len = steps, na = C[0].n;
    for (long i = 0; i < os_ * (long)sizeof(T) && !bad; ++i)
        if (!C[0].w_out[i]) { printf("unwritten %ld\n", i / (long)sizeof(T)); break; }
    first_time = 0;
    long stride = len > limit1 ? len / limit1 + 1 : 1;
    /* every place of one hand-over (the other call then runs to its end), from either call */
    for (int start = 0; start < 2 && !bad; ++start)
        for (long i = 1; i <= len && !bad; i += stride)
            if ((bad = run(0, 1, start, i, -1, start ? 0x4B : -1))) { at1 = i; }
    /* every pair of places */
    if (len <= limit2)
        for (long i = 1; i <= len && !bad; ++i)
            for (long j = i + 1; j <= len && !bad; ++j)
                if ((bad = run(1, 0, 0, i, j, -1))) { at1 = i; at2 = j; }
    printf("len %ld\nschedules %ld\nshared_writes %ld\nstale_reads %ld\nforeign %ld\ninput_writes %ld\nbad %d %ld %ld\nstride %ld\npairs %d\nnote %s\n",
           len, schedules, shared_writes, stale_reads, foreign, input_writes, bad, at1, at2, stride, len <= limit2, note);
    return 0;
}
