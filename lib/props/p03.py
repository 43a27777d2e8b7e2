import gsys
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: AwaitAlg.tla (how the threads of a client share one connection: one reads for all, spurious wake-ups, breaking connections) "
        "checked exhaustively with TLC including liveness; ") + gsys.TECH
NOTE = "the modelled algorithm exhaustively for 2 threads (3 in the thorough tier, safety); the real code: " + gsys.NOTE


def run(ctx):
    model_check(ctx, "AwaitAlg.tla", ctx.q("AwaitAlg.cfg", "AwaitAlgBig.cfg"), "one reader, nothing lost, released exactly when due, always released", workers=8)
    if ctx.tier == "thorough":
        model_check(ctx, "AwaitAlg.tla", "AwaitAlgWide.cfg", "three threads: one reader, nothing lost, released exactly when due", workers=8)
    gsys.check(ctx, gsys.build(ctx), {"await": 3000, "result": 800, "shut": 800, "rserv": 1200, "dgram": 300, "unknown": 600, "mem": 300}, "awaiting ends when it should")
    ctx.assumptions += gsys.ASSUME
