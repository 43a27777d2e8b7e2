#define _GNU_SOURCE
#include "hcommon.h"
#include "vsched.h"
#include "h_struct.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char g_line[260000]; static size_t g_n;
static const void* g_own[20000]; static int g_owned, g_shared, g_answers;
void dF(const char* f, ...)
{
    va_list a; va_start(a, f);
    if (g_n < sizeof(g_line) - 64) g_n += (size_t)vsnprintf(g_line + g_n, sizeof(g_line) - g_n, f, a);
    va_end(a);
}
void hs_begin(int op) { g_n = 0; g_owned = g_shared = g_answers = 0; dF("{\"e\":\"Op\",\"i\":%d,\"slots\":[", op); }
void hs_answers(void) { dF("],\"r\":["); }
void hs_ans(long v) { dF(g_answers++ ? ",%ld" : "%ld", v); }
void hs_own(const void* p) { if (p && g_owned < 20000) g_own[g_owned++] = p; }
static int cmp(const void* a, const void* b) { const char* x = *(const char* const*)a; const char* y = *(const char* const*)b; return x < y ? -1 : x > y; }
void hs_end(void)
{
    qsort(g_own, (size_t)g_owned, sizeof(*g_own), cmp);
    for (int i = 1; i < g_owned; i++) if (g_own[i] == g_own[i - 1]) g_shared = 1;
    dF("],\"live\":%ld,\"shared\":%d}", vs_alloc_outstanding(), g_shared);
    ev("%s", g_line);
}
static void one(int id, uint64_t seed, char* args, char* prog)
{
    (void)args; (void)prog; (void)seed;
    ev("{\"e\":\"Run\",\"run\":%d}", id);
    vs_alloc_reset();
    hs_run();
    ev("{\"e\":\"End\"}");
}
int main(int argc, char** argv) { return h_runs(argc, argv, one); }
