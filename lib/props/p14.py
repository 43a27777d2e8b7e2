import gencode
from vlib import *

LEVEL = "exploration"
TECH = ("TLA+: Codec.tla states the bytes of every value of every type and what is read from bytes (round trip checked exhaustively with TLC for a "
        "small universe); TLC generates descriptions and values (CodecGen.tla), the real generator makes code from them, and TLC decides whether the "
        "messages on the wire and what handlers, events and results were given are those of Codec.tla (CodecTrace.tla)")
NOTE = ("seeded exploration of descriptions (types, functions, events) and values; every message of a real client and server that run the generated "
        "code is compared byte for byte")


def run(ctx):
    model_check(ctx, "CodecMC.tla", "CodecMC.cfg", "what is read is what was written", workers=8)
    if not ctx.thorough:
        gencode.codec(ctx, 170)
        gencode.codec(ctx, 24, 50, big=True)
    else:
        r = 0
        while r < 30 and (r == 0 or ctx.budget() < 560):
            gencode.codec(ctx, 400, r)
            gencode.codec(ctx, 48, 50 + r, big=True)
            r += 1
    ctx.assumptions += ["little-endian machine", "descriptions within what the C generator supports: no arrays of strings, structures held by value are declared before their holder",
                        "messages fit the configured maximum size"]
