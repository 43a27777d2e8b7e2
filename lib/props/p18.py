import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"dgram": 3600, "raw": 400, "lossy": 400, "max": 240}, "datagram clients are served")
    ctx.assumptions += gsys.ASSUME
