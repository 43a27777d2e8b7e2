#define _GNU_SOURCE
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <threads.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>

#define MAXT 64
enum { T_FREE, T_RUN, T_BLOCK, T_QUIESCE, T_DONE };

struct vt {
    int         state;
    pthread_t   pt;
    sem_t       sem;
    vs_fn       fn;
    void*       arg;
    int         ret;
    vs_ready    ready;
    void*       rarg;
    const char* why;
    const char* name;
    int         prio;
    int         joined;
    int         daemon;
    int         is_pthread;
};

static struct vt      g_t[MAXT];
static int            g_n;
static int            g_cur;
static int            g_active;
static struct vs_cfg  g_cfg;
static uint64_t       g_rng;
static uint32_t       g_steps, g_switches, g_yields;
static uint32_t       g_change[16];
static int            g_nchange;
static int            g_lowprio;
static int            g_npre;
static __thread int   t_self = -1;
static int            g_memon;
int                   vs_quiet_points;
__thread int          vs_calm;

void* __real_malloc(size_t);
void  __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
void* __real_aligned_alloc(size_t, size_t);

static uint64_t splitmix(uint64_t* s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint32_t vs_rand(void) { return (uint32_t)(splitmix(&g_rng) >> 16); }
uint32_t vs_steps(void) { return g_steps; }
int vs_active(void) { return g_active; }
int vs_self(void) { return t_self; }
int vs_nthreads(void) { return g_n; }
const char* vs_why(int t) { return (g_t[t].state == T_BLOCK || g_t[t].state == T_QUIESCE) ? g_t[t].why : NULL; }
const char* vs_tname(int t) { return g_t[t].name ? g_t[t].name : "?"; }
int vs_tdone(int t) { return g_t[t].state == T_DONE; }
int vs_waits_for_quiesce(int t) { return g_t[t].state == T_QUIESCE; }
void vs_set_daemon(int t) { g_t[t].daemon = 1; }

static int runnable(int i)
{
    if (g_t[i].state == T_RUN) return 1;
    if (g_t[i].state == T_BLOCK && g_t[i].ready && g_t[i].ready(g_t[i].rarg)) return 1;
    return 0;
}

static int newprio(void) { return 1000 + (int)(vs_rand() % 100000); }

/* The seed decides everything about a schedule, including the way it is explored. */
void vs_plan(struct vs_cfg* c, uint64_t seed, int mem)
{
    static const uint32_t est[] = { 60, 250, 1000, 4000, 16000 };
    static const int den[] = { 1, 2, 4, 10, 40 };
    uint64_t s = seed * 2862933555777941757ull + 3037000493ull;
    memset(c, 0, sizeof(*c));
    c->seed = seed;
    c->max_steps = 4000000; c->max_switches = 1000000;
    uint64_t r = splitmix(&s);
    c->mem_points = mem && (r & 3) != 3;
    r = splitmix(&s);
    c->spurious_den = (r & 3) == 0 ? 8 : 0;
    r = splitmix(&s);
    uint32_t e = est[(r >> 8) % 5];
    if (!c->mem_points && e > 1000) e /= 20;
    switch (r % 6) {
    case 0: case 1:
        c->strategy = VS_RANDOM; c->switch_den = den[(r >> 16) % 5] * (c->mem_points ? 6 : 1); break;
    case 2: case 3:
        c->strategy = VS_PCT; c->pct_depth = 1 + (int)((r >> 16) % 5); c->pct_steps = e; break;
    default:
        c->strategy = VS_PREEMPT; c->pre_n = 1 + (int)((r >> 16) % 3);
        for (int i = 0; i < c->pre_n; i++) { c->pre_at[i] = 1 + (uint32_t)(splitmix(&s) % e); c->pre_to[i] = (uint32_t)(splitmix(&s) & 0xff); }
        for (int i = 0; i < c->pre_n; i++) for (int j = i + 1; j < c->pre_n; j++)
            if (c->pre_at[j] < c->pre_at[i]) { uint32_t t = c->pre_at[i]; c->pre_at[i] = c->pre_at[j]; c->pre_at[j] = t; }
        break;
    }
}

void vs_begin(const struct vs_cfg* cfg)
{
    memset(g_t, 0, sizeof(g_t));
    g_cfg = *cfg;
    g_rng = cfg->seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    g_n = 1; g_cur = 0; t_self = 0;
    g_steps = g_switches = g_yields = 0; g_lowprio = 999; g_npre = 0;
    g_t[0].state = T_RUN; g_t[0].name = "main"; sem_init(&g_t[0].sem, 0, 0);
    g_t[0].prio = newprio();
    g_nchange = 0;
    if (cfg->strategy == VS_PCT) {
        g_nchange = cfg->pct_depth > 16 ? 16 : cfg->pct_depth;
        for (int i = 0; i < g_nchange; i++)
            g_change[i] = 1 + vs_rand() % (cfg->pct_steps ? cfg->pct_steps : 1000);
    }
    vs_quiet_points = 0; vs_calm = 0;
    g_active = 1;
    g_memon = cfg->mem_points;
}

void vs_end(void)
{
    for (int i = 1; i < g_n; i++) {
        if (g_t[i].state != T_DONE) vs_fatal("Unfinished", g_t[i].name);
        if (!g_t[i].joined) { pthread_join(g_t[i].pt, NULL); g_t[i].joined = 1; }
        sem_destroy(&g_t[i].sem);
    }
    sem_destroy(&g_t[0].sem);
    g_active = 0; g_memon = 0; t_self = -1;
}

static void swait(sem_t* s) { while (sem_wait(s) != 0) {} }

static void switch_to(int next)
{
    int me = t_self;
    if (g_t[next].state == T_BLOCK) { g_t[next].state = T_RUN; g_t[next].ready = NULL; }
    if (next == me) return;
    if (++g_switches > g_cfg.max_switches) vs_fatal("Livelock", "switch budget");
    int e = errno; /* errno belongs to the thread and survives a switch */
    g_cur = next;
    sem_post(&g_t[next].sem);
    swait(&g_t[me].sem);
    errno = e;
}

/* choose among the runnable threads; never returns -1 unless nothing can run */
static int pick(int exclude_self_ok)
{
    int cand[MAXT], n = 0;
    (void)exclude_self_ok;
    for (int i = 0; i < g_n; i++) if (runnable(i)) cand[n++] = i;
    if (!n) return -1;
    if (g_cfg.strategy == VS_RANDOM) return cand[vs_rand() % n];
    /* PCT and PREEMPT: highest priority */
    int best = cand[0];
    for (int i = 1; i < n; i++) if (g_t[cand[i]].prio > g_t[best].prio) best = cand[i];
    return best;
}

static void blocked_dump(char* buf, size_t len)
{
    size_t o = 0; buf[0] = 0;
    for (int i = 0; i < g_n && o + 64 < len; i++)
        if (g_t[i].state == T_BLOCK || g_t[i].state == T_QUIESCE)
            o += (size_t)snprintf(buf + o, len - o, "%s%s:%s", o ? "," : "", vs_tname(i), g_t[i].why ? g_t[i].why : "?");
}

static void reschedule(void)
{
    int next = pick(1);
    if (next < 0) {
        for (int i = 0; i < g_n; i++)
            if (g_t[i].state == T_QUIESCE) { g_t[i].state = T_RUN; next = i; break; }
    }
    if (next < 0) {
        static char buf[1024];
        blocked_dump(buf, sizeof(buf));
        vs_fatal("Deadlock", buf);
    }
    switch_to(next);
}

static void point_slow(void)
{
    switch (g_cfg.strategy) {
    case VS_RANDOM:
        if (g_cfg.switch_den > 1 && vs_rand() % (uint32_t)g_cfg.switch_den) return;
        reschedule();
        return;
    case VS_PCT:
        for (int i = 0; i < g_nchange; i++)
            if (g_change[i] == g_steps) g_t[t_self].prio = g_lowprio--;
        reschedule();
        return;
    case VS_PREEMPT:
        while (g_npre < g_cfg.pre_n && g_cfg.pre_at[g_npre] <= g_steps) {
            int cand[MAXT], n = 0;
            for (int i = 0; i < g_n; i++) if (i != t_self && runnable(i)) cand[n++] = i;
            if (n) {
                int to = cand[g_cfg.pre_to[g_npre] % (uint32_t)n];
                g_npre++;
                /* the preempted thread goes behind everyone else */
                g_t[t_self].prio = g_lowprio--;
                switch_to(to);
                return;
            }
            g_npre++;
        }
        return;
    }
}

void vs_point(void)
{
    if (!g_active || t_self < 0 || t_self != g_cur) return;
    if (vs_calm) return;
    if (++g_steps > g_cfg.max_steps) vs_fatal("Livelock", "step budget");
    if (vs_quiet_points) return;
    point_slow();
}

void vs_yield(void)
{
    if (!g_active || t_self < 0) return;
    if (++g_steps > g_cfg.max_steps) vs_fatal("Livelock", "step budget");
    g_t[t_self].prio = g_lowprio--;
    reschedule();
}

void vs_block(vs_ready ready, void* arg, const char* why)
{
    if (!g_active || t_self < 0) vs_fatal("Harness", "block outside run");
    struct vt* t = &g_t[t_self];
    if (++g_steps > g_cfg.max_steps) vs_fatal("Livelock", "step budget");
    t->ready = ready; t->rarg = arg; t->why = why; t->state = T_BLOCK;
    reschedule();
    t->state = T_RUN; t->why = NULL;
}

void vs_quiesce(void)
{
    struct vt* t = &g_t[t_self];
    t->ready = NULL; t->why = "quiesce"; t->state = T_QUIESCE;
    reschedule();
    t->state = T_RUN; t->why = NULL;
}

static void* trampoline(void* p)
{
    struct vt* t = p;
    t_self = (int)(t - g_t);
    swait(&t->sem);
    t->ret = t->fn(t->arg);
    t->state = T_DONE;
    /* hand the baton over for good */
    {
        int next = pick(1);
        if (next < 0)
            for (int i = 0; i < g_n; i++)
                if (g_t[i].state == T_QUIESCE) { g_t[i].state = T_RUN; next = i; break; }
        if (next < 0) {
            static char buf[1024];
            blocked_dump(buf, sizeof(buf));
            vs_fatal("Deadlock", buf);
        }
        if (g_t[next].state == T_BLOCK) { g_t[next].state = T_RUN; g_t[next].ready = NULL; }
        g_cur = next;
        sem_post(&g_t[next].sem);
    }
    return NULL;
}

int vs_spawn(const char* name, vs_fn fn, void* arg)
{
    if (g_n >= MAXT) vs_fatal("Harness", "too many threads");
    int id = g_n;
    struct vt* t = &g_t[id];
    t->fn = fn; t->arg = arg; t->name = name; t->state = T_RUN;
    t->prio = newprio();
    sem_init(&t->sem, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    g_n++;
    if (pthread_create(&t->pt, &at, trampoline, t)) vs_fatal("Harness", "pthread_create");
    pthread_attr_destroy(&at);
    vs_point();
    return id;
}

static int join_ready(void* p) { return g_t[(intptr_t)p].state == T_DONE; }
int vs_done(int tid) { return g_t[tid].state == T_DONE; }
int vs_join(int tid)
{
    vs_point();
    if (g_t[tid].joined) vs_fatal("SyncMisuse", "thread joined twice");
    if (g_t[tid].state != T_DONE) vs_block(join_ready, (void*)(intptr_t)tid, "join");
    pthread_join(g_t[tid].pt, NULL);
    g_t[tid].joined = 1;
    return g_t[tid].ret;
}

/* ------------------------------------------------------------------ C11 threads */
#define MTX_MAGIC 0x4d545831u
#define CND_MAGIC 0x434e4431u
struct vmtx { uint32_t magic; int32_t owner; int32_t count; uint32_t type; };
struct vcnd { uint32_t magic; uint32_t waiters; uint64_t pad; };
_Static_assert(sizeof(struct vmtx) <= sizeof(mtx_t), "mtx");
_Static_assert(sizeof(struct vcnd) <= sizeof(cnd_t), "cnd");

int __wrap_mtx_init(mtx_t* m, int type)
{
    struct vmtx* v = (struct vmtx*)m;
    memset(m, 0, sizeof(*m));
    v->magic = MTX_MAGIC; v->owner = -1; v->count = 0; v->type = (uint32_t)type;
    return thrd_success;
}
void __wrap_mtx_destroy(mtx_t* m)
{
    struct vmtx* v = (struct vmtx*)m;
    if (v->magic != MTX_MAGIC) vs_fatal("SyncMisuse", "destroy of a mutex that is not initialised");
    if (v->count) vs_fatal("SyncMisuse", "destroy of a locked mutex");
    v->magic = 0;
}
static int mtx_free_pred(void* p) { return ((struct vmtx*)p)->count == 0; }
static int never(void* p) { (void)p; return 0; }
int __wrap_mtx_lock(mtx_t* m)
{
    struct vmtx* v = (struct vmtx*)m;
    vs_point();
    if (v->magic != MTX_MAGIC) vs_fatal("SyncMisuse", "lock of a mutex that is not initialised");
    if (v->count && v->owner == t_self) {
        if (v->type & mtx_recursive) { v->count++; return thrd_success; }
        vs_block(never, NULL, "self-deadlock");
    }
    while (v->count) vs_block(mtx_free_pred, v, "mutex");
    v->owner = t_self; v->count = 1;
    return thrd_success;
}
int __wrap_mtx_trylock(mtx_t* m)
{
    struct vmtx* v = (struct vmtx*)m;
    vs_point();
    if (v->magic != MTX_MAGIC) vs_fatal("SyncMisuse", "trylock of a mutex that is not initialised");
    if (v->count) {
        if (v->owner == t_self && (v->type & mtx_recursive)) { v->count++; return thrd_success; }
        return thrd_busy;
    }
    v->owner = t_self; v->count = 1;
    return thrd_success;
}
int __wrap_mtx_timedlock(mtx_t* m, const struct timespec* ts) { (void)ts; return __wrap_mtx_lock(m); }
int __wrap_mtx_unlock(mtx_t* m)
{
    struct vmtx* v = (struct vmtx*)m;
    if (v->magic != MTX_MAGIC) vs_fatal("SyncMisuse", "unlock of a mutex that is not initialised");
    if (!v->count || v->owner != t_self) vs_fatal("SyncMisuse", "unlock of a mutex the thread does not hold");
    if (--v->count == 0) v->owner = -1;
    vs_point();
    return thrd_success;
}

struct cwait { struct vcnd* c; int tid; int woken; int spurious; struct cwait* next; };
static struct cwait* g_cw; /* all waiters, any condition; entries live on the waiters' stacks */

int __wrap_cnd_init(cnd_t* c)
{
    struct vcnd* v = (struct vcnd*)c;
    memset(c, 0, sizeof(*c));
    v->magic = CND_MAGIC; v->waiters = 0;
    return thrd_success;
}
void __wrap_cnd_destroy(cnd_t* c)
{
    struct vcnd* v = (struct vcnd*)c;
    if (v->magic != CND_MAGIC) vs_fatal("SyncMisuse", "destroy of a condition that is not initialised");
    if (v->waiters) vs_fatal("SyncMisuse", "destroy of a condition with waiters");
    v->magic = 0;
}
static void cw_remove(struct cwait* w)
{
    struct cwait** p = &g_cw;
    while (*p && *p != w) p = &(*p)->next;
    if (*p) *p = w->next;
}
static int cnd_pred(void* p) { return ((struct cwait*)p)->woken; }
int __wrap_cnd_wait(cnd_t* c, mtx_t* m)
{
    struct vcnd* v = (struct vcnd*)c;
    struct vmtx* mv = (struct vmtx*)m;
    vs_point();
    if (v->magic != CND_MAGIC) vs_fatal("SyncMisuse", "wait on a condition that is not initialised");
    if (mv->magic != MTX_MAGIC || mv->owner != t_self || !mv->count)
        vs_fatal("SyncMisuse", "condition wait without holding the mutex");
    struct cwait w = { v, t_self, 0, 0, g_cw };
    if (g_cfg.spurious_den && vs_rand() % (uint32_t)g_cfg.spurious_den == 0) w.woken = 1;
    g_cw = &w;
    v->waiters++;
    int32_t cnt = mv->count;
    mv->count = 0; mv->owner = -1;
    vs_block(cnd_pred, &w, "cond");
    cw_remove(&w);
    v->waiters--;
    while (mv->count) vs_block(mtx_free_pred, mv, "mutex");
    mv->owner = t_self; mv->count = cnt;
    return thrd_success;
}
int __wrap_cnd_timedwait(cnd_t* c, mtx_t* m, const struct timespec* ts) { (void)ts; return __wrap_cnd_wait(c, m); }
int __wrap_cnd_signal(cnd_t* c)
{
    struct vcnd* v = (struct vcnd*)c;
    struct cwait* cand[MAXT]; int n = 0;
    if (v->magic != CND_MAGIC) vs_fatal("SyncMisuse", "signal of a condition that is not initialised");
    for (struct cwait* w = g_cw; w; w = w->next) if (w->c == v && !w->woken) cand[n++] = w;
    if (n) cand[vs_rand() % (uint32_t)n]->woken = 1;
    vs_point();
    return thrd_success;
}
int __wrap_cnd_broadcast(cnd_t* c)
{
    struct vcnd* v = (struct vcnd*)c;
    if (v->magic != CND_MAGIC) vs_fatal("SyncMisuse", "broadcast of a condition that is not initialised");
    for (struct cwait* w = g_cw; w; w = w->next) if (w->c == v) w->woken = 1;
    vs_point();
    return thrd_success;
}
struct tstart { thrd_start_t fn; void* arg; };
int __wrap_thrd_create(thrd_t* out, thrd_start_t fn, void* arg)
{
    int id = vs_spawn("thread", (vs_fn)fn, arg);
    memset(out, 0, sizeof(*out));
    *out = (thrd_t)id;
    return thrd_success;
}
int __wrap_thrd_join(thrd_t t, int* res)
{
    int id = (int)t;
    if (id <= 0 || id >= g_n) vs_fatal("SyncMisuse", "join of a thread that does not exist");
    int r = vs_join(id);
    if (res) *res = r;
    return thrd_success;
}
int __wrap_thrd_detach(thrd_t t) { (void)t; return thrd_success; }
void __wrap_thrd_yield(void) { vs_yield(); }
int __wrap_thrd_sleep(const struct timespec* a, struct timespec* b) { (void)a; (void)b; vs_yield(); return 0; }
int __wrap_usleep(unsigned u) { (void)u; vs_yield(); return 0; }
thrd_t __wrap_thrd_current(void) { return (thrd_t)t_self; }

/* ------------------------------------------------------------------ memory points */
static inline void mem_point(void) { if (g_memon) vs_point(); }
void __sanitizer_cov_load1(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_load2(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_load4(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_load8(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_load16(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_store1(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_store2(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_store4(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_store8(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_store16(void* p) { (void)p; mem_point(); }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { (void)g; mem_point(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { (void)a; (void)b; }

/* ------------------------------------------------------------------ allocations */
#define ASLOTS 65536
static void*  g_slot[ASLOTS];
static long   g_out;
static long   g_count;
int           vs_alloc_fail_at;
static pthread_mutex_t g_am = PTHREAD_MUTEX_INITIALIZER;

static size_t ahash(void* p) { return ((uintptr_t)p >> 4) * 2654435761u % ASLOTS; }
static void aadd(void* p)
{
    if (!p) return;
    pthread_mutex_lock(&g_am);
    size_t h = ahash(p);
    for (size_t i = 0; i < ASLOTS; i++, h = (h + 1) % ASLOTS)
        if (!g_slot[h] || g_slot[h] == (void*)1) { g_slot[h] = p; g_out++; break; }
    pthread_mutex_unlock(&g_am);
}
static void adel(void* p)
{
    if (!p) return;
    pthread_mutex_lock(&g_am);
    size_t h = ahash(p);
    for (size_t i = 0; i < ASLOTS && g_slot[h]; i++, h = (h + 1) % ASLOTS)
        if (g_slot[h] == p) { g_slot[h] = (void*)1; g_out--; break; }
    pthread_mutex_unlock(&g_am);
}
void vs_alloc_reset(void) { memset(g_slot, 0, sizeof(g_slot)); g_out = 0; g_count = 0; }
long vs_alloc_outstanding(void) { return g_out; }
static int afail(void)
{
    if (!g_active) return 0;
    long n = __atomic_add_fetch(&g_count, 1, __ATOMIC_SEQ_CST);
    return vs_alloc_fail_at && n == vs_alloc_fail_at;
}
void* __wrap_malloc(size_t n) { if (afail()) return NULL; void* p = __real_malloc(n); if (p && g_active) memset(p, 0xA5, n); aadd(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (afail()) return NULL; void* p = __real_calloc(a, b); aadd(p); return p; }
void* __wrap_realloc(void* q, size_t n) { if (afail()) return NULL; void* p = __real_realloc(q, n); if (p) { adel(q); aadd(p); } else if (q && !n) adel(q); return p; }
char* __wrap_strndup(const char* s, size_t m) { size_t n = strnlen(s, m); char* p = __real_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } aadd(p); return p; }
void* __wrap_reallocarray(void* q, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; } return __wrap_realloc(q, a * b); }
void* __wrap_aligned_alloc(size_t al, size_t n) { if (afail()) return NULL; void* p = __real_aligned_alloc(al, n); if (p && g_active) memset(p, 0xA5, n); aadd(p); return p; }
int   __wrap_posix_memalign(void** out, size_t al, size_t n) { void* p = __wrap_aligned_alloc(al, (n + al - 1) / al * al); if (!p) return ENOMEM; *out = p; return 0; }
char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); aadd(p); return p; }
void  __wrap_free(void* p) { adel(p); __real_free(p); }
