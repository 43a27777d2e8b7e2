import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"defer": 2600, "life": 500, "result": 500, "reuse": 1500, "ids": 100, "max": 80}, "deferred responses reach their callers")
    ctx.assumptions += gsys.ASSUME
