import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"result": 1800, "mix": 800, "await": 800, "rserv": 1400, "reuse": 500, "pipe": 300, "dgram": 300, "mem": 600, "many": 16, "ids": 120, "max": 160}, "results belong to their calls")
    ctx.assumptions += gsys.ASSUME
