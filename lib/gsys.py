"""The full stack harness: building it and running scenarios on it."""
import json
from vlib import *


def stubs(ctx):
    d = os.path.dirname(ctx.path("gen", "x"))
    sh([sys.executable, REPO + "/generator/parser.py", "--service", VERIF + "/schemas/rpc.gr", "--out", d, "--lang-c", "--server", "--client"],
       env={"PYTHONDONTWRITEBYTECODE": "1"}, cwd=d)
    return d


def build(ctx):
    d = stubs(ctx)
    b = Build(ctx, "gsys")
    b.inc_dirs.append(d)
    b.inc_dirs.append(REPO + "/runtime/link/socket")
    for s in runtime_sources():
        b.add(s, "impl")
    for f in sorted(os.listdir(d)):
        if f.endswith(".c"):
            b.add(os.path.join(d, f), "impl0")
    for f in ("gsys.c", "simnet.c", "hcommon.c", "vsched.c"):
        b.add(HARN + "/" + f, "harn")
    return b.link(WRAPS_THREAD + WRAPS_NET)


def scenarios(ctx, profiles, round=0):
    """profiles: {name: number}. Scenarios generated by TLC from RpcGen.tla, in a fixed order."""
    items = list(profiles.items())
    got = pmap(lambda kv: generate(ctx, "RpcGen.tla", "RpcGen.cfg", kv[1], 30, ctx.seed * 7919 + round * 131 + 1, env={"PROFILE": kv[0]}), items)
    return [s for g in got for s in g]


def check(ctx, exe, profiles, what, env=None, xform=None):
    """Runs generated scenarios on the real stack and has TLC judge the traces for the property of this check."""
    def go(scale, round):
        sc = scenarios(ctx, {k: max(8, int(v * scale)) for k, v in profiles.items()}, round)
        if xform:
            sc = [xform(i, s) for i, s in enumerate(sc)]
        lines = ["run %d %d%s" % (i, (i + round * 100000) * 7919 + 3 + ctx.seed * 1000003, s) for i, s in enumerate(sc)]
        runner(ctx, exe, lines, "RpcTrace.tla", "RpcTrace.cfg", what, env={"CHECK": ctx.prop}, timeout=600)
    if not ctx.thorough:
        return go(1, 0)
    r = 0
    while r < 20 and (r == 0 or ctx.budget() < 600):
        go(3, r)
        r += 1


TECH = ("TLA+: Rpc.tla states what may be observed at the boundary of the library (one action per event, guards per property); scenarios "
        "generated by TLC from RpcGen.tla run on the real server, clients and links over a simulated kernel and a deterministic scheduler, and "
        "TLC decides whether every recorded trace is a behaviour of Rpc.tla")
NOTE = ("seeded exploration: random, PCT and bounded-preemption schedules down to single memory accesses of the real code; every trace is "
        "judged by the specification at every event")
ASSUME = ["the simulated sockets and epoll behave like Linux (level/edge triggering, stream and datagram semantics)",
          "sequentially consistent memory", "CRC32 of datagram addresses does not collide"]
