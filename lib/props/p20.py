import gsys
from vlib import *

LEVEL = "exploration"
TECH = ("TLA+: Registry.tla (every operation of an application on a server and a client, in every state, and its answer), model checked with TLC; "
        "programs generated by TLC from it run on the real library and TLC decides whether each answer and each probe by a peer is the one the "
        "specification allows; full stack scenarios (RpcGen.tla/Rpc.tla) for messages of exactly the configured sizes")
NOTE = "the specification is checked exhaustively in small scope; seeded programs of 20-60 operations over 16 identities, 12 addresses, 8 message sizes, 0-3 workers on the real code"


def unit(ctx, profile="any", n=8):
    b = Build(ctx, "h_reg")
    b.inc_dirs.append(REPO + "/runtime/link/socket")
    for s in runtime_sources():
        b.add(s, "impl0")
    for f in ("h_reg.c", "simnet.c", "hcommon.c", "vsched.c"):
        b.add(HARN + "/" + f, "harn")
    exe = b.link(WRAPS_THREAD + WRAPS_NET)
    progs = []
    for s in pmap(lambda k: generate(ctx, "RegistryGen.tla", "RegistryGen.cfg", ctx.q(250, 2500), 80, ctx.seed * 1000 + k, env={"PROFILE": profile}), range(n)):
        progs += s
    lines = ["run %d %d%s" % (i, i * 7919 + ctx.seed, p) for i, p in enumerate(progs)]
    runner(ctx, exe, lines, "RegistryTrace.tla", "RegistryTrace.cfg", "registration and configuration")


def run(ctx):
    model_check(ctx, "Registry.tla", "Registry.cfg", "refused operations change nothing, limits hold", workers=8)
    unit(ctx)
    gsys.check(ctx, gsys.build(ctx), {"max": 1200, "big": 300, "unknown": 400, "mem": 400}, "configured limits are honoured")
    ctx.assumptions += gsys.ASSUME
