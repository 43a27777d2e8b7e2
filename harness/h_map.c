/* Replays op sequences of MapGen into the real hash table. stdin: one run per line:
 *   run <id> <hashmode> <pad> <reqcap> ; then ops "s k v", "g k", "r k", "e" separated by ',' */
#include "hcommon.h"
#include "vsched.h"
#include "hashtable.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static int g_mode, g_pad;
struct el { uint32_t key; uint32_t val; uint8_t pad[40]; };
static uint64_t hashfn(const void* p)
{
    uint64_t k = ((const struct el*)p)->key;
    switch (g_mode) {
    case 0: return k;
    case 1: return 0;
    case 2: return k % 4;
    case 3: return 14 + k % 3;
    case 4: return 0xFFFFFFFFFFFFFFF0ull + k % 16;
    case 5: return k << 32 | (k * 7 % 5);
    case 6: { uint64_t s = k * 77 + 5; return h_mix(&s); }
    default: return 31 - k % 6;
    }
}
static int cmpfn(const void* a, const void* b) { return ((const struct el*)a)->key == ((const struct el*)b)->key ? 0 : 1; }
static void fill(struct el* e, uint32_t k, uint32_t v)
{
    e->key = k; e->val = v;
    for (int i = 0; i < 40; i++) e->pad[i] = (uint8_t)(k * 31 + v * 17 + (uint32_t)i);
}
static int good(const struct el* e)
{
    for (int i = 0; i < g_pad; i++) if (e->pad[i] != (uint8_t)(e->key * 31 + e->val * 17 + (uint32_t)i)) return 0;
    return 1;
}
static char g_seen[16384]; static size_t g_sl; static int g_sok;
static void enumfn(int idx, const void* p, void* ctx)
{
    (void)idx; (void)ctx;
    const struct el* e = p;
    if (!good(e)) g_sok = 0;
    if (g_sl < sizeof(g_seen) - 64) g_sl += (size_t)snprintf(g_seen + g_sl, 64, "%s[%u,%u]", g_sl ? "," : "", e->key, e->val);
}
int main(int argc, char** argv)
{
    h_install();
    ev_open(arg_str(argc, argv, "trace", "/dev/null"));
    FILE* in = fopen(arg_str(argc, argv, "in", "/dev/stdin"), "r");
    static char line[1 << 20];
    while (in && fgets(line, sizeof(line), in)) {
        int id, reqcap;
        char* ops = strchr(line, ';');
        if (!ops || sscanf(line, "run %d %d %d %d", &id, &g_mode, &g_pad, &reqcap) != 4) continue;
        ev("{\"e\":\"Run\",\"run\":%d,\"mode\":%d,\"pad\":%d}", id, g_mode, g_pad);
        alarm(20);
        vs_alloc_reset();
        long before = vs_alloc_outstanding();
        gr_hashtable_t t;
        size_t es = 8 + (size_t)g_pad;
        if (gr_hashtable_construct(&t, (size_t)reqcap, es, hashfn, cmpfn)) { ev("{\"e\":\"ConstructFailed\"}"); continue; }
        for (char* s = strtok(ops + 1, ",\n"); s; s = strtok(NULL, ",\n")) {
            unsigned k = 0, v = 0; char c = s[0];
            sscanf(s + 1, "%u %u", &k, &v);
            struct el* e = h_malloc(es);  /* exact size: reading past it is seen */
            struct el tmp; fill(&tmp, k, v); memcpy(e, &tmp, es);
            struct el* r = NULL;
            if (c == 's') r = gr_hashtable_set(&t, e);
            else if (c == 'g') r = gr_hashtable_get(&t, e);
            else if (c == 'r') r = gr_hashtable_remove(&t, e);
            else { g_sl = 0; g_seen[0] = 0; g_sok = 1; gr_hashtable_enumerate(&t, enumfn, NULL); ev("{\"e\":\"enum\",\"ok\":%d,\"seen\":[%s]}", g_sok, g_seen); h_free(e); continue; }
            int ok = !r || (r->key == k && good(r));
            ev("{\"e\":\"%s\",\"k\":%u,\"v\":%u,\"r\":%d,\"ok\":%d}", c == 's' ? "set" : c == 'g' ? "get" : "rem", k, v, r ? (int)r->val : -1, ok);
            h_free(e);
        }
        gr_hashtable_destroy(&t);
        ev("{\"e\":\"End\",\"leaked\":%ld}", vs_alloc_outstanding() - before);
    }
    ev_close();
    return 0;
}
