/* The real worker pool (dispatch_generic.c, queue.c) with a recording server behind it.
 * args: <workers> <hold job or 0>    prog: d<n> dispatch n jobs, q quiesce, r release, y yield, x destroy */
#include "hcommon.h"
#include "vsched.h"
#include "server_private.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct gracht_server { int dummy; };
static struct gracht_server g_srv;
static struct gracht_message* g_job[1024];
static int g_hold, g_released, g_base;

static int jobno(struct gracht_message* m) { for (int i = 1; i < 1024; i++) if (g_job[i] == m) return i; return 1023; }
static int rel(void* p) { (void)p; return g_released; }
void server_invoke_action(struct gracht_server* server, struct gracht_message* m)
{
    int j = jobno(m), w = vs_self() - g_base;
    ev("{\"e\":\"Exec\",\"j\":%d,\"w\":%d,\"ok\":%d}", j, w, server == &g_srv);
    if (j == g_hold && !g_released) {
        ev("{\"e\":\"Hold\",\"j\":%d}", j);
        vs_block(rel, NULL, "held");
    }
    vs_point();
    ev("{\"e\":\"ExecEnd\",\"j\":%d,\"w\":%d}", j, w);
}
void server_cleanup_message(struct gracht_server* server, struct gracht_message* m)
{
    (void)server;
    ev("{\"e\":\"Clean\",\"j\":%d,\"w\":%d}", jobno(m), vs_self() - g_base);
    vs_point();
}
static struct gracht_worker_pool* g_pool;
static int releaser(void* p) { (void)p; vs_yield(); ev("{\"e\":\"Release\"}"); g_released = 1; return 0; }
static void run(int id, uint64_t seed, char* args, char* prog)
{
    int nw, jobs = 0, next = 1, relt = -1; struct vs_cfg cfg;
    sscanf(args, "%d %d", &nw, &g_hold);
    for (char* s = prog; *s; s++) if (*s == 'd') jobs += atoi(s + 1);
    for (int i = 0; i < 1024; i++) g_job[i] = (struct gracht_message*)(uintptr_t)(0x10000 + 64 * i);
    g_released = 0;
    vs_plan(&cfg, seed, jobs < 80);
    ev("{\"e\":\"Run\",\"run\":%d,\"seed\":%llu,\"jobs\":%d}", id, (unsigned long long)seed, jobs);
    vs_alloc_reset();
    vs_begin(&cfg);
    g_base = 1;
    if (gracht_worker_pool_create(&g_srv, nw, &g_pool)) vs_fatal("Create", "pool");
    for (char* s = prog; *s; s++) {
        if (*s == 'd') {
            int n = atoi(s + 1);
            for (int i = 0; i < n; i++) {
                int j = next++;
                ev("{\"e\":\"Disp\",\"j\":%d}", j);
                gracht_worker_pool_dispatch(g_pool, g_job[j]);
                ev("{\"e\":\"DispR\",\"j\":%d}", j);
            }
        }
        else if (*s == 'q') { vs_quiesce(); ev("{\"e\":\"Quiet\"}"); }
        else if (*s == 'y') vs_yield();
        else if (*s == 'r' && relt < 0) relt = vs_spawn("releaser", releaser, NULL);
    }
    if (g_hold && relt < 0) relt = vs_spawn("releaser", releaser, NULL);
    ev("{\"e\":\"Destroy\"}");
    gracht_worker_pool_destroy(g_pool);
    ev("{\"e\":\"Destroyed\"}");
    if (relt >= 0) vs_join(relt);
    vs_end();
    ev("{\"e\":\"End\",\"leaked\":%ld}", vs_alloc_outstanding());
}
int main(int argc, char** argv) { return h_runs(argc, argv, run); }
