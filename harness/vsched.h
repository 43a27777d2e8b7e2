/* Deterministic cooperative scheduler for the code under test.
 *
 * Every thread of a run is a real pthread, but exactly one of them holds the
 * baton at any time.  A switch can only happen at a "point": a wrapped C11
 * thread primitive, a simulated kernel call, or (when mem points are on) any
 * load/store/edge executed by the instrumented code under test.  The schedule
 * is a function of the seed, so that every run can be replayed. */
#ifndef VS_SCHED_H
#define VS_SCHED_H
#include <stdint.h>
#include <stddef.h>

enum vs_strategy { VS_RANDOM = 0, VS_PCT = 1, VS_PREEMPT = 2 };

struct vs_cfg {
    uint64_t seed;
    enum vs_strategy strategy;
    int      mem_points;   /* loads/stores/edges are scheduling points        */
    int      switch_den;   /* VS_RANDOM: switch with probability 1/den        */
    int      pct_depth;    /* VS_PCT: number of priority change points        */
    uint32_t pct_steps;    /* VS_PCT: estimated length of the run             */
    uint32_t pre_at[4];    /* VS_PREEMPT: forced switches at these steps      */
    uint32_t pre_to[4];    /*             to the n-th other runnable thread   */
    int      pre_n;
    int      spurious_den; /* cnd_wait wakes up spuriously with 1/den (0=off) */
    uint32_t max_steps;
    uint32_t max_switches;
};

typedef int (*vs_fn)(void*);
typedef int (*vs_ready)(void*);

void     vs_plan(struct vs_cfg* cfg, uint64_t seed, int mem); /* a schedule for every seed */
void     vs_begin(const struct vs_cfg* cfg);   /* calling thread becomes thread 0 */
void     vs_end(void);                         /* all other threads must be done  */
int      vs_active(void);
int      vs_self(void);
int      vs_spawn(const char* name, vs_fn fn, void* arg);
int      vs_join(int tid);
int      vs_done(int tid);
void     vs_point(void);
void     vs_yield(void);
void     vs_block(vs_ready ready, void* arg, const char* why);
void     vs_quiesce(void);                     /* until no other thread can run   */
uint32_t vs_steps(void);
uint32_t vs_rand(void);                        /* deterministic, part of the seed */
int      vs_nthreads(void);
const char* vs_why(int tid);                   /* NULL when not blocked           */
const char* vs_tname(int tid);
int      vs_tdone(int tid);
int      vs_waits_for_quiesce(int tid);
void     vs_set_daemon(int tid);               /* may stay blocked without deadlock */
extern __thread int vs_calm;                            /* >0: as if nothing were done       */
extern int vs_quiet_points;                    /* >0: no switching at points      */

/* provided by the harness: called when the run cannot go on. must not return */
void     vs_fatal(const char* what, const char* detail);

/* allocation accounting of the code under test */
void     vs_alloc_reset(void);
long     vs_alloc_outstanding(void);
extern int vs_alloc_fail_at;                   /* n-th allocation fails (0 = never) */
#endif
