import json
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: WorkerAlg.tla (queues, mutexes, conditions, round robin, spurious wake-ups) refines WorkerPool.tla and always stops, checked "
        "exhaustively with TLC; TLC-generated dispatch programs run on the real dispatch_generic.c/queue.c under a deterministic scheduler, "
        "traces validated against WorkerPool.tla")
NOTE = "exhaustive incl. liveness in small scope for the modelled algorithm; seeded schedules on the real code, bursts far beyond the queue size"


def run(ctx):
    exe = Build(ctx, "h_workers").add(REPO + "/runtime/dispatch_generic.c", "impl").add(REPO + "/runtime/queue.c", "impl") \
        .add(HARN + "/h_workers.c", "harn").add(HARN + "/hcommon.c", "harn").add(HARN + "/vsched.c", "harn").link(WRAPS_THREAD)
    model_check(ctx, "WorkerAlg.tla", ctx.q("WorkerAlg.cfg", "WorkerAlgBig.cfg"), "algorithm refines WorkerPool and always stops", workers=8)
    progs = []
    for s in pmap(lambda k: generate(ctx, "WorkerGen.tla", "WorkerGen.cfg", ctx.q(120, 800), 10, ctx.seed * 1000 + k), range(2)):
        progs += [json.loads(x) for x in s]
    lines = []
    for p in progs:
        t = "".join("%s%d " % (a, b) if a == "d" else a for a, b in p)
        total = sum(b for a, b in p if a == "d")
        for j in range(ctx.q(8, 16)):
            n = len(lines)
            hold = 0 if j % 4 or total == 0 else 1 + (n * 7) % total
            nw = [2, 3, 1, 4, 2][n % 5]
            if hold:  # the dispatcher may have to wait for space: release before the burst is over
                tt = t.replace("r", "")
                tt = ("r" + tt) if total > 30 else tt
            else:
                tt = t.replace("r", "")
            lines.append("run %d %d %d %d;%s" % (n, ctx.seed * 1000003 + n * 11 + 3, nw, hold, tt))
    runner(ctx, exe, lines, "WorkerTrace.tla", "WorkerTrace.cfg", "worker pool")
    ctx.assumptions += ["jobs are dispatched by one thread at a time, as the server does", "handlers return"]
