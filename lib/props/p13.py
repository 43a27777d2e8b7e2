import gsys, p20, sysmodel
from vlib import *

LEVEL = "model_checking"
TECH = "TLA+: " + sysmodel.TECH + "; " + gsys.TECH + "; Registry.tla in the same way for what is refused while a shutdown is pending"
NOTE = sysmodel.NOTE + gsys.NOTE


def run(ctx):
    sysmodel.check(ctx)
    gsys.check(ctx, gsys.build(ctx), {"shut": 3400, "life": 600, "mix": 600}, "shutdown completes and leaves nothing behind")
    p20.unit(ctx, "shut", 3)
    ctx.assumptions += gsys.ASSUME + ["running handlers return"]
