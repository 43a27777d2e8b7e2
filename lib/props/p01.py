import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"burst": 400, "order": 1200, "mix": 1400, "result": 600, "pipe": 200, "ids": 60, "max": 160}, "every request handled once")
    ctx.assumptions += gsys.ASSUME + ["handlers return"]
