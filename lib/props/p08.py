import gsys
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: Framing.tla (a receiver and a peer that sends any bytes, cut anywhere, ending anywhere) checked exhaustively with TLC; ") + gsys.TECH
NOTE = "the modelled algorithm exhaustively for every sequence of up to 6 (thorough: 7) bytes over 6 values; the real code: " + gsys.NOTE


def run(ctx):
    model_check(ctx, "Framing.tla", ctx.q("FramingRaw.cfg", "FramingRawBig.cfg"), "whatever a peer sends: whole messages are delivered, nothing else, and the buffer is respected", workers=8, heap="12g")
    gsys.check(ctx, gsys.build(ctx), {"raw": 2400, "rserv": 1800}, "malformed framing harms nobody")
    ctx.assumptions += gsys.ASSUME + ["the payload of a well framed request to a registered service is well formed"]
