/* include/rwlock.h with several threads. args: <threads>  prog: one program per thread, separated by | */
#include "hcommon.h"
#include "vsched.h"
#include "rwlock.h"
#include <stdio.h>
#include <string.h>
void vl_init(struct rwlock* l);
void vl_destroy(struct rwlock* l);
void vl_rl(struct rwlock* l);
void vl_ru(struct rwlock* l);
void vl_wl(struct rwlock* l);
void vl_wu(struct rwlock* l);

static struct rwlock g_l;
static char* g_prog[8];
static int g_n, g_in, g_gen;
static int ready(void* p) { return g_gen != (int)(intptr_t)p; }
static void meet(void)
{
    int gen = g_gen;
    if (++g_in == g_n) { g_in = 0; g_gen++; return; }
    vs_block(ready, (void*)(intptr_t)gen, "meeting of readers");
}
static void inside(int n) { for (int i = 0; i < n; i++) vs_point(); }
static int user(void* p)
{
    int t = (int)(intptr_t)p;
#define RL ev("{\"e\":\"RReq\",\"t\":%d}", t); vl_rl(&g_l); ev("{\"e\":\"RGot\",\"t\":%d}", t)
#define RU ev("{\"e\":\"RRel\",\"t\":%d}", t); vl_ru(&g_l)
    for (char* s = g_prog[t]; s && *s && *s != '|'; s++) {
        switch (*s) {
        case 'r': RL; inside(2); RU; break;
        case 'n': RL; inside(1); RL; inside(1); RU; inside(1); RU; break;
        case 'b': RL; meet(); RU; break;
        case 'w':
            ev("{\"e\":\"WReq\",\"t\":%d}", t); vl_wl(&g_l); ev("{\"e\":\"WGot\",\"t\":%d}", t);
            inside(2);
            ev("{\"e\":\"WRel\",\"t\":%d}", t); vl_wu(&g_l);
            break;
        }
        vs_point();
    }
    return 0;
}
static void run(int id, uint64_t seed, char* args, char* prog)
{
    struct vs_cfg cfg; int tid[8];
    sscanf(args, "%d", &g_n);
    for (int i = 0; i < 8; i++) { g_prog[i] = prog; prog = prog ? strchr(prog, '|') : NULL; if (prog) prog++; }
    g_in = g_gen = 0;
    vs_plan(&cfg, seed, 1);
    ev("{\"e\":\"Run\",\"run\":%d,\"seed\":%llu}", id, (unsigned long long)seed);
    vs_begin(&cfg);
    vl_init(&g_l);
    for (int i = 0; i < g_n; i++) tid[i] = vs_spawn("user", user, (void*)(intptr_t)i);
    for (int i = 0; i < g_n; i++) vs_join(tid[i]);
    vl_destroy(&g_l);
    vs_end();
    ev("{\"e\":\"End\"}");
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
