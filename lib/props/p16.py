import json
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: RWLockAlg.tla (mutex, reader count, condition, spurious wake-ups) refines RWLock.tla, excludes, does not deadlock and always "
        "finishes, checked exhaustively with TLC; TLC-generated thread programs run on the real include/rwlock.h under a deterministic "
        "scheduler that can preempt at every memory access, traces validated against RWLock.tla")
NOTE = "exhaustive incl. liveness in small scope for the modelled algorithm; seeded schedules on the real code"


def run(ctx):
    exe = Build(ctx, "h_rwlock").add(HARN + "/rwlock_impl.c", "impl").add(HARN + "/h_rwlock.c", "harn") \
        .add(HARN + "/hcommon.c", "harn").add(HARN + "/vsched.c", "harn").link(WRAPS_THREAD)
    model_check(ctx, "RWLockAlg.tla", ctx.q("RWLockAlg.cfg", "RWLockAlgBig.cfg"), "algorithm refines RWLock, excludes and finishes", workers=8)
    lines = []
    for s in pmap(lambda k: generate(ctx, "RWLockGen.tla", "RWLockGen.cfg", ctx.q(200, 1500), 20, ctx.seed * 1000 + k), range(2)):
        for x in s:
            p = json.loads(x)
            for j in range(ctx.q(12, 40)):
                n = len(lines)
                lines.append("run %d %d %d;%s" % (n, ctx.seed * 1000003 + n * 13 + 7, [4, 3, 2, 4][n % 4], "|".join("".join(t) for t in p)))
    runner(ctx, exe, lines, "RWLockTrace.tla", "RWLockTrace.cfg", "shared/exclusive lock")
    ctx.assumptions += ["every thread releases what it obtained; the condition and mutex primitives of the platform work"]
