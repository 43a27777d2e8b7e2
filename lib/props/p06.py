import gsys, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"life": 3000, "mix": 800, "raw": 800, "shut": 400, "reuse": 400, "chase": 2500}, "arrival and departure settled once")
    ctx.assumptions += gsys.ASSUME
