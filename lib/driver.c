/* Generic driver for a generated inference(): every run is made from several
 * initial memory states, so that a read of anything the call did not itself
 * write shows up as a difference. Buffers are separate heap blocks of exactly
 * the declared size (ASan red zones around each). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "inference.h"

#ifndef T
#define T float
#endif

static void die(const char *m) { fprintf(stderr, "DRIVER: %s\n", m); exit(97); }

int main(int argc, char **argv)
{
    if (argc < 6) die("usage: in out n insize outsize");
    long n = atol(argv[3]), is = atol(argv[4]), os = atol(argv[5]);
    FILE *fi = fopen(argv[1], "rb"), *fo = fopen(argv[2], "wb");
    if (!fi || !fo) die("open");
    T *all = malloc(sizeof(T) * (is * n ? is * n : 1));
    if ((long)fread(all, sizeof(T), is * n, fi) != is * n) die("read");
    fclose(fi);
    static const int pats[3] = {0xFF, 0x4B, -1};
    inference_t *ctx = malloc(sizeof(inference_t));
    T *ref = malloc(sizeof(T) * os);
    for (int p = 0; p < 3; ++p)
        for (long r = 0; r < n; ++r) {
            if (pats[p] >= 0) memset(ctx, pats[p], sizeof *ctx); /* else: as the previous call left it */
            T *in = malloc(sizeof(T) * is), *out = malloc(sizeof(T) * os);
            memcpy(in, all + r * is, sizeof(T) * is);
            memset(out, pats[p] >= 0 ? pats[p] : 0x31, sizeof(T) * os);
            inference(ctx, out, in);
            if (fwrite(out, sizeof(T), os, fo) != (size_t)os) die("write");
            unsigned char same = memcmp(in, all + r * is, sizeof(T) * is) == 0;
            fwrite(&same, 1, 1, fo);
            free(in); free(out);
        }
    fclose(fo);
    free(ref); free(ctx); free(all);
    return 0;
}
