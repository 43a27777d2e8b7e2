import gencode
from vlib import *

LEVEL = "exploration"
TECH = ("TLA+: Struct.tla states the value of every structure after every helper (init, add, get, set, clear, copy, destroy); TLC generates structures "
        "and histories of operations (StructGen.tla), the real generator makes the helpers, and TLC decides for every step whether all values, answers "
        "and the memory that is held are those of Struct.tla (StructTrace.tla)")
NOTE = "seeded exploration of structure definitions and histories of about 70 operations on three values each; allocations are counted, use after free is fatal"


def run(ctx):
    if not ctx.thorough:
        gencode.structs(ctx, 260)
    else:
        r = 0
        while r < 30 and (r == 0 or ctx.budget() < 580):
            gencode.structs(ctx, 600, r)
            r += 1
    ctx.assumptions += ["memory does not run out", "a structure is initialised before use and again after it was destroyed",
                        "descriptions within what the C generator supports: no arrays of strings, structures held by value are declared before their holder"]
