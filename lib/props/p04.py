import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"unknown": 3000, "dgram": 1000, "mix": 600, "ids": 60}, "unknown requests fail for their sender only")
    ctx.assumptions += gsys.ASSUME
