import genschema
from vlib import *

LEVEL = "exploration"
TECH = ("TLA+: Schema.tla is a recogniser of descriptions (grammar over tokens, several files, and the rules for types, identities and extensions) that "
        "also states which files, identities and includes the generated code has; TLC generates valid descriptions, faulty ones and all one-token changes of "
        "a description (SchemaGen.tla, SchemaMut.tla), the real generator is run on their texts, and TLC decides whether it did what Schema.tla says "
        "(SchemaTrace.tla)")
NOTE = "every change of one token of one description, and seeded exploration of descriptions over up to four files with random spelling and layout"


def run(ctx):
    if not ctx.thorough:
        genschema.changed_tokens(ctx, ctx.seed, 3)
        genschema.random_texts(ctx, 900)
    else:
        genschema.changed_tokens(ctx)
        r = 0
        while r < 40 and (r == 0 or ctx.budget() < 560):
            genschema.random_texts(ctx, 2000, r)
            r += 1
    ctx.assumptions += ["nothing is said about descriptions that give a name twice, that have arrays of strings or enumeration values that are names, or a comma after the last value"]
