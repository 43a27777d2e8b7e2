import json, os
from vlib import *

LEVEL = "model_checking"
TECH = ("TLA+: HashTable.tla (robin-hood table) refines Map.tla, checked exhaustively with TLC for small tables; TLC-generated "
        "behaviours of Map replayed into the real hashtable.c and the recorded traces validated against Map with TLC")
NOTE = "exhaustive for the modelled algorithm in small scope; sampled (seeded) operation sequences x 8 hash functions against the real code"


def run(ctx):
    exe = Build(ctx, "h_map").add(REPO + "/runtime/hashtable.c", "impl0").add(HARN + "/h_map.c", "harn") \
        .add(HARN + "/hcommon.c", "harn").add(HARN + "/vsched.c", "harn").link(WRAPS_THREAD)
    model_check(ctx, "HashTable.tla", ctx.q("HashTable.cfg", "HashTableBig.cfg"), "algorithm refines Map for all hash functions", workers=8)
    n = ctx.q(40, 400)
    seqs = []
    for s in pmap(lambda k: generate(ctx, "MapGen.tla", "MapGen.cfg", n // 4, 161, ctx.seed * 1000 + k), range(4)):
        seqs += [json.loads(x) for x in s]
    lines = []
    k = {"set": "s", "get": "g", "rem": "r", "enum": "e"}
    for si, ops in enumerate(seqs):
        t = ",".join("%s%d %d" % (k[o[0]], o[1], o[2]) for o in ops) + ",e"
        for mode in range(8):
            lines.append("run %d %d %d %d;%s" % (len(lines), mode, (si * 7 + mode * 3) % 33, [0, 0, 40, 100][(si + mode) % 4], t))

    def job(j):
        def go(tr):
            p = ctx.path("in", "in%d.txt" % j)
            open(p, "w").write("\n".join(lines[j::NCPU]) + "\n")
            run_harness(exe, ["--in=" + p], tr)
        return ("map%d" % j, go)

    def rerun(r, tr):
        p = ctx.path("in", "again.txt")
        open(p, "w").write(lines[r["run"]] + "\n")
        run_harness(exe, ["--in=" + p], tr)
    conform(ctx, "MapTrace.tla", "MapTrace.cfg", [job(j) for j in range(NCPU)], "lookup table is a map", rerun)
    ctx.assumptions += ["hash and compare functions given to the table are consistent (equal keys have equal hashes)"]
