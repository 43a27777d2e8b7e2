/* Users of the real buffer pool under the deterministic scheduler.
 * args: <initial capacity> <threads> <failing allocation or 0>   prog: t1|t2|t3|t4 of [nuo]* */
#include "hcommon.h"
#include "vsched.h"
#include "stack.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static struct stack g_s;
static char* g_prog[4];
static int g_next;
static int g_owned[256], g_no;  /* buffers owned by anyone, taken from the end */
#define PTR(b) ((void*)(uintptr_t)(0x100000 + (b) * 64))
#define IDX(p) ((p) ? (int)(((uintptr_t)(p) - 0x100000) / 64) : 0)

static void push(int t, int b)
{
    ev("{\"e\":\"PushB\",\"t\":%d,\"b\":%d}", t, b);
    int r = stack_push(&g_s, PTR(b));
    ev("{\"e\":\"PushE\",\"t\":%d,\"ok\":%d}", t, r == 0);
    if (r) g_owned[g_no++] = b;
}
static int pop(int t)
{
    ev("{\"e\":\"PopB\",\"t\":%d}", t);
    void* p = stack_pop(&g_s);
    int b = IDX(p);
    if (p && PTR(b) != p) b = 9999;
    ev("{\"e\":\"PopE\",\"t\":%d,\"b\":%d}", t, b);
    if (b) g_owned[g_no++] = b;
    return b;
}
static int user(void* a)
{
    int t = (int)(intptr_t)a;
    for (char* s = g_prog[t - 1]; *s; s++) {
        if (*s == 'n') { int b = ++g_next; ev("{\"e\":\"Fresh\",\"b\":%d}", b); push(t, b); }
        else if (*s == 'u') { if (g_no) push(t, g_owned[--g_no]); }
        else pop(t);
    }
    return 0;
}
static void run(int id, uint64_t seed, char* args, char* prog)
{
    int cap, nt, fail; struct vs_cfg cfg;
    sscanf(args, "%d %d %d", &cap, &nt, &fail);
    for (int i = 0; i < 4; i++) { g_prog[i] = prog; prog += strcspn(prog, "|"); if (*prog) *prog++ = 0; }
    g_next = g_no = 0;
    vs_plan(&cfg, seed, 1);
    ev("{\"e\":\"Run\",\"run\":%d,\"seed\":%llu}", id, (unsigned long long)seed);
    vs_alloc_reset();
    vs_alloc_fail_at = 0;
    if (stack_construct(&g_s, (size_t)cap)) vs_fatal("Harness", "construct");
    vs_begin(&cfg);
    vs_alloc_fail_at = fail;
    int tid[4];
    for (int i = 0; i < nt; i++) tid[i] = vs_spawn("user", user, (void*)(intptr_t)(i + 1));
    for (int i = 0; i < nt; i++) vs_join(tid[i]);
    vs_alloc_fail_at = 0;
    while (pop(0)) { if (g_no > 250) vs_fatal("Endless", "the pool never runs dry"); }
    vs_end();
    stack_destroy(&g_s);
    ev("{\"e\":\"End\",\"n\":%d,\"leaked\":%ld}", g_no, vs_alloc_outstanding());
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
