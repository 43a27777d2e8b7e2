import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; Subs.tla (the bits of a client), likewise; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    model_check(ctx, "Subs.tla", ctx.q("Subs.cfg", "SubsBig.cfg"), "the bits of a client agree with what it subscribed to")
    gsys.check(ctx, gsys.build(ctx), {"event": 2800, "mix": 800, "dgram": 800, "lossy": 800, "chase": 800, "max": 160}, "events reach whom they are meant for")
    ctx.assumptions += gsys.ASSUME + ["the sockets have room for the events, unless the scenario says that events may be lost"]
