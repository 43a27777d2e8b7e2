import json
import gsys
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: StackAlg.tla (mutex guarded growing stack) refines Pool.tla, checked exhaustively with TLC; programs generated by TLC run "
        "on the real stack.c under a deterministic scheduler, traces validated against Pool.tla (linearisation by silent steps); full stack scenarios from RpcGen.tla for the borrowed buffers of the server")
NOTE = "exhaustive in small scope for the modelled algorithm; seeded schedules (random, PCT, bounded preemption at every memory access) on the real code"


def unit(ctx):
    exe = Build(ctx, "h_pool").add(REPO + "/runtime/stack.c", "impl").add(HARN + "/h_pool.c", "harn") \
        .add(HARN + "/hcommon.c", "harn").add(HARN + "/vsched.c", "harn").link(WRAPS_THREAD)
    progs = []
    for s in pmap(lambda k: generate(ctx, "PoolGen.tla", "PoolGen.cfg", ctx.q(60, 300), 40, ctx.seed * 1000 + k), range(2)):
        progs += [json.loads(x) for x in s]
    lines = []
    per = ctx.q(6, 25)
    for pi, p in enumerate(progs[:ctx.q(250, 1500)]):
        for j in range(per):
            n = len(lines)
            cap, nt = [1, 2, 3, 8][n % 4], [2, 3, 4, 3][(n // 4) % 4]
            fail = 0 if n % 5 else 1 + (n // 5) % 3
            lines.append("run %d %d %d %d %d;%s" % (n, ctx.seed * 1000003 + n * 17 + 5, cap, nt, fail, "|".join("".join(x) for x in p)))

    runner(ctx, exe, lines, "PoolTrace.tla", "PoolTrace.cfg", "pooled buffers")


def run(ctx):
    model_check(ctx, "Pool.tla", "Pool.cfg", "one owner, never lost", workers=8)
    model_check(ctx, "StackAlg.tla", "StackAlg.cfg", "algorithm refines Pool for all interleavings", workers=8)
    unit(ctx)
    # the server: what is borrowed for sending comes back, whatever happens to the message
    gsys.check(ctx, gsys.build(ctx), {"lossy": 700, "event": 500, "life": 500, "reuse": 400, "shut": 500, "unknown": 300}, "send buffers of the server come back")
    ctx.assumptions += ["a pop that overlaps another operation may come back empty; one that does not may only do so on an empty pool"]
