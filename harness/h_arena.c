/* Users of the real arena. args: <arena size> <threads>   prog: "a t slot sz,x t slot by,..."
 * with one thread the program runs in order, otherwise every thread runs its own part. */
#include "hcommon.h"
#include "vsched.h"
#include "arena.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct op { char c; int t, slot, z; };
struct blk { uint8_t* p; uint32_t n; int id; uint8_t pat; };
static struct op g_op[512]; static int g_nop;
static struct blk g_blk[4][5];
static struct gracht_arena* g_a;
static long g_size, g_scale;
static uint8_t* g_base;
static int g_id, g_nt;

#define CHK 4096
static void pattern(struct blk* b)
{
    /* big blocks: the first and the last bytes and some in between */
    if (b->n <= 2 * CHK) { for (uint32_t i = 0; i < b->n; i++) b->p[i] = (uint8_t)(b->pat + i); return; }
    for (uint32_t i = 0; i < CHK; i++) { b->p[i] = (uint8_t)(b->pat + i); uint32_t j = b->n - 1 - i; b->p[j] = (uint8_t)(b->pat + j); }
}
static int intact(struct blk* b, uint32_t n)
{
    if (n <= 2 * CHK) { for (uint32_t i = 0; i < n; i++) if (b->p[i] != (uint8_t)(b->pat + i)) return 0; return 1; }
    for (uint32_t i = 0; i < CHK; i++) if (b->p[i] != (uint8_t)(b->pat + i)) return 0;
    if (n == b->n) for (uint32_t i = 0; i < CHK; i++) { uint32_t j = n - 1 - i; if (b->p[j] != (uint8_t)(b->pat + j)) return 0; }
    return 1;
}
static uint32_t size_of(int z) { long n = g_size > 100000 ? (long)z * (g_size / 1000) : z < 100 ? z : (long)z * g_size / 1000; return (uint32_t)(n < 1 ? 1 : n); }
static void give(struct blk* b, uint32_t by)
{
    uint32_t left = (by == 0 || by >= b->n) ? 0 : b->n - by;
    int ok = intact(b, b->n);
    ev("{\"e\":\"FreeB\",\"b\":%d,\"by\":%u,\"ok\":%d}", b->id, by, ok);
    gracht_arena_free(g_a, b->p, by);
    if (!left) b->p = NULL;
    ev("{\"e\":\"FreeE\"}");
    if (left) { b->n = left; pattern(b); }
}
static void step(struct op* o)
{
    struct blk* b = &g_blk[o->t][o->slot];
    uint32_t n = size_of(o->z);
    switch (o->c) {
    case 'a':
        if (b->p) give(b, 0);
        ev("{\"e\":\"AllocB\"}");
        uint8_t* p = gracht_arena_allocate(g_a, NULL, n);
        int id = ++g_id;
        if (p) { b->p = p; b->n = n; b->id = id; b->pat = (uint8_t)(id * 37); }
        ev("{\"e\":\"AllocE\",\"b\":%d,\"o\":%ld,\"n\":%u,\"got\":%d,\"ok\":1}", id, p ? (long)(p - g_base) : 0, n, p != NULL);
        if (p) pattern(b);
        break;
    case 'x':
        if (!b->p) return;
        ev("{\"e\":\"ExtB\",\"b\":%d,\"ok\":%d}", b->id, intact(b, b->n));
        p = gracht_arena_allocate(g_a, b->p, n);
        uint32_t old = b->n;
        if (p) { b->p = p; }
        ev("{\"e\":\"ExtE\",\"b\":%d,\"o\":%ld,\"n\":%u,\"by\":%u,\"got\":%d,\"ok\":%d}", b->id, p ? (long)(p - g_base) : 0, old + n, n, p != NULL, intact(b, old));
        if (p) { b->n = old + n; pattern(b); }
        break;
    case 's':
        if (!b->p || b->n < 2) return;
        give(b, 1 + (uint32_t)o->z % (b->n - 1));
        break;
    case 'f':
        if (!b->p) return;
        give(b, o->z == 0 ? 0 : o->z == 1 ? b->n : b->n + 5);
        break;
    }
}
static int user(void* a)
{
    int t = (int)(intptr_t)a;
    for (int i = 0; i < g_nop; i++) if (g_nt == 1 || g_op[i].t == t) step(&g_op[i]);
    return 0;
}
static void run(int id, uint64_t seed, char* args, char* prog)
{
    struct vs_cfg cfg;
    sscanf(args, "%ld %d", &g_size, &g_nt);
    g_nop = 0;
    for (char* s = strtok(prog, ","); s && g_nop < 512; s = strtok(NULL, ",")) {
        struct op* o = &g_op[g_nop++];
        sscanf(s, "%c %d %d %d", &o->c, &o->t, &o->slot, &o->z);
    }
    memset(g_blk, 0, sizeof(g_blk));
    g_id = 0;
    vs_plan(&cfg, seed, g_nt > 1);
    vs_alloc_reset();
    ev("{\"e\":\"Run\",\"run\":%d,\"seed\":%llu,\"total\":%ld}", id, (unsigned long long)seed, g_size);
    /* what fits into an empty arena of this size: found by bisection on fresh ones */
    long lo = 0, hi = g_size + 1;
    while (hi - lo > 1) {
        long mid = (lo + hi) / 2;
        struct gracht_arena* x;
        if (gracht_arena_create((size_t)g_size, &x)) vs_fatal("Harness", "arena");
        void* p = gracht_arena_allocate(x, NULL, (size_t)mid);
        gracht_arena_destroy(x);
        if (p) lo = mid; else hi = mid;
    }
    ev("{\"e\":\"Cap\",\"cap\":%ld}", lo);
    if (gracht_arena_create((size_t)g_size, &g_a)) vs_fatal("Harness", "arena");
    g_base = gracht_arena_allocate(g_a, NULL, 1);
    if (!g_base) vs_fatal("Harness", "base");
    gracht_arena_free(g_a, g_base, 0);
    vs_begin(&cfg);
    if (g_nt == 1) user((void*)1);
    else {
        int tid[3];
        for (int i = 0; i < g_nt; i++) tid[i] = vs_spawn("user", user, (void*)(intptr_t)(i + 1));
        for (int i = 0; i < g_nt; i++) vs_join(tid[i]);
    }
    for (int t = 0; t < 4; t++) for (int s = 0; s < 5; s++) if (g_blk[t][s].p) give(&g_blk[t][s], 0);
    /* everything is back: the largest block fits, twice, and so does one in pieces */
    struct op z = { 'a', 0, 0, 0 };
    for (int k = 0; k < 2; k++) {
        struct blk* b = &g_blk[0][0];
        ev("{\"e\":\"AllocB\"}");
        uint8_t* p = gracht_arena_allocate(g_a, NULL, (size_t)lo);
        ev("{\"e\":\"AllocE\",\"b\":%d,\"o\":%ld,\"n\":%ld,\"got\":%d,\"ok\":1}", ++g_id, p ? (long)(p - g_base) : 0, lo, p != NULL);
        if (p) { b->p = p; b->n = (uint32_t)lo; b->id = g_id; b->pat = 3; pattern(b); give(b, 0); }
    }
    (void)z;
    vs_end();
    gracht_arena_destroy(g_a);
    ev("{\"e\":\"End\",\"leaked\":%ld}", vs_alloc_outstanding());
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
