import json
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: ArenaAlg.tla (header chain, first fit, lazy merge, trim, move) checked exhaustively with TLC in small scope; TLC-generated "
        "programs run on the real arena.c (one and several threads, deterministic scheduler, address sanitizer), traces validated against Arena.tla")
NOTE = "exhaustive in small scope for the modelled algorithm; seeded programs and schedules on the real code, arenas from 256 bytes to 20 MB"


def run(ctx):
    exe = Build(ctx, "h_arena").add(REPO + "/runtime/arena.c", "impl").add(HARN + "/h_arena.c", "harn") \
        .add(HARN + "/hcommon.c", "harn").add(HARN + "/vsched.c", "harn").link(WRAPS_THREAD)
    model_check(ctx, "ArenaAlg.tla", ctx.q("ArenaAlg.cfg", "ArenaAlgBig.cfg"), "blocks in bounds, disjoint, reclaimed", workers=8)
    progs = []
    for s in pmap(lambda k: generate(ctx, "ArenaGen.tla", "ArenaGen.cfg", ctx.q(40, 400), 61, ctx.seed * 1000 + k), range(4)):
        progs += [json.loads(x) for x in s]
    lines = []
    for pi, p in enumerate(progs):
        t = ",".join("%s %d %d %d" % tuple(o) for o in p)
        for size, nt in ((1024, 1), (4096, 3), (256, 1), (2048, 2), (8192, 3)) + (((20000000, 1),) if pi % 8 == 0 else ()):
            lines.append("run %d %d %d %d;%s" % (len(lines), ctx.seed * 1000003 + len(lines) * 13 + 1, size, nt, t))
    runner(ctx, exe, lines, "ArenaTrace.tla", "ArenaTrace.cfg", "receive memory")
    ctx.assumptions += ["a refused request is only judged when no block is live and no other operation is in flight (fragmentation is allowed)",
                        "writes outside the managed memory are seen by the address sanitizer because the users fill their blocks"]
