import gsys
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: Framing.tla (senders sharing a stream that is cut anywhere, a receiver that continues where it left off, interruptions, ends) "
        "checked exhaustively with TLC including liveness; ") + gsys.TECH
NOTE = "the modelled algorithms exhaustively for two senders, two messages each, every cut; the real code: " + gsys.NOTE


def run(ctx):
    model_check(ctx, "Framing.tla", ctx.q("FramingServer.cfg", "FramingServerBig.cfg"), "a receiver that does not wait, senders that do not either", workers=8)
    model_check(ctx, "Framing.tla", ctx.q("FramingClient.cfg", "FramingClientBig.cfg"), "a receiver that waits, senders that do too", workers=8)
    model_check(ctx, "Framing.tla", ctx.q("FramingLive.cfg", "FramingLiveBig.cfg"), "all arrives (liveness)", workers=8)
    gsys.check(ctx, gsys.build(ctx), {"seg": 1800, "cap": 1400, "big": 600, "pipe": 400, "lossy": 600, "max": 300}, "messages survive fragmentation")
    ctx.assumptions += gsys.ASSUME
