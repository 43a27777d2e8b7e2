"""Generated code: make it from a description with the real generator, compile a program around it, run it, have TLC judge the trace."""
import json
import random
from vlib import *
import gendesc

ENV = {"PYTHONDONTWRITEBYTECODE": "1"}


def generator(gr, out, args=("--lang-c", "--server", "--client"), timeout=60):
    return sh([sys.executable, REPO + "/generator/parser.py", "--service", gr, "--out", out] + list(args), env=ENV, cwd=out, ok=None, timeout=timeout)


def common(ctx, harness, runtime=True):
    """objects that every program is linked with"""
    b = Build(ctx, "gencommon")
    b.inc_dirs.append(REPO + "/runtime/link/socket")
    if runtime:
        for s in runtime_sources():
            b.add(s, "impl0")
    for f in harness:
        b.add(HARN + "/" + f, "harn")
    pmap(lambda c: sh(c, timeout=180), b.jobs)
    return b


def fatal(what, detail):
    return {"e": "Fatal", "what": what, "detail": detail[-1500:]}


def make(ctx, common, run, text, program, files, wraps):
    """-> (executable, None) or (None, the event that says why there is none)"""
    d = os.path.dirname(ctx.path("gen%d" % run, "x"))
    gr = os.path.join(d, "desc.gr")
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for f, t in text.items():
        open(os.path.join(d, f), "w").write(t)
    r = generator(gr, d)
    if r.returncode != 0:
        return None, fatal("Generator", r.stdout)
    open(os.path.join(d, "program.c"), "w").write(program)
    objs = []
    for f in ["program.c"] + files:
        p = os.path.join(d, f)
        if not os.path.exists(p):
            return None, fatal("Missing", f)
        o = p[:-2] + ".o"
        r = sh(["clang", "-O0", "-g1", "-w", "-fsanitize=address", "-D_GNU_SOURCE", "-DGRACHT_BUILD", "-I" + d] + ["-I" + x for x in common.inc_dirs] + ["-c", p, "-o", o], ok=None, timeout=120)
        if r.returncode != 0:
            return None, fatal("Compile", f + ": " + r.stdout)
        objs.append(o)
    exe = os.path.join(d, "program")
    r = sh(["clang", "-fsanitize=address", "-g1"] + objs + common.objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-o", exe], ok=None, timeout=120)
    if r.returncode != 0:
        return None, fatal("Link", r.stdout)
    return exe, None


def hexs(o):
    if isinstance(o.get("wire"), str):
        o["wire"] = list(bytes.fromhex(o["wire"]))
    return o


def conform_programs(ctx, spec, cfg, what, items, build, desc_of):
    """items: {run id: description}. build(run, item) -> (exe, fatal). One trace per group of programs."""
    ids = sorted(items)

    def execute(run, out):
        head = {"e": "Run", "run": run, "desc": desc_of(items[run])}
        exe, bad = build(run, items[run])
        evs = []
        if exe:
            tr = exe + ".ndjson"
            inp = exe + ".in"
            open(inp, "w").write("run %d %d x;x\n" % (run, run * 7919 + ctx.seed))
            run_harness(exe, ["--in=" + inp], tr, timeout=60)
            clean_ndjson(tr)
            evs = [hexs(json.loads(l)) for l in open(tr) if l.strip()]
            evs = [e for e in evs if e["e"] != "Run"]
            shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
        else:
            evs = [bad]
        for e in [head] + evs:
            out.write(json.dumps(e, separators=(",", ":")) + "\n")

    def job(j):
        def go(tr):
            with open(tr, "w") as f:
                for r in ids[j::NCPU]:
                    execute(r, f)
        return ("gen%d" % j, go)

    def rerun(r, tr):
        with open(tr, "w") as f:
            execute(r["run"], f)
    return conform(ctx, spec, cfg, [job(j) for j in range(min(NCPU, len(ids)))], what, rerun)


LENS = (255, 256, 300, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000)


def enlarge(d, rnd):
    """few of the calls and events, with values that do not fit into one or two bytes of length"""
    def members(i):
        out = []
        for m in d["structs"][i - 1]:
            out += members(m["i"]) if m["k"] == "x" else [m]
        return out

    def places(t, v, put, room, depth):
        """the values in v that can be made longer: (type, value, how to put it, room)"""
        if t["k"] == "str":
            yield t, v, put, room
        elif t["k"] == "a":
            if t["of"]["k"] == "s" or (v and depth == 0):
                yield t, v, put, room
            if v and depth < 3:
                yield from places(t["of"], v[-1], lambda x: v.__setitem__(-1, x), None, depth + 1)
        elif t["k"] == "t" and depth < 3:
            for j, m in enumerate(members(t["i"])):
                yield from places(m, v[j], (lambda x, j=j: v.__setitem__(j, x)), None, depth + 1)
        elif t["k"] == "v" and v["t"]:
            yield from places(t["of"][v["t"] - 1], v["v"], lambda x: v.__setitem__("v", x), None, depth + 1)

    def bigger(t, v):
        n, s = rnd.choice(LENS), rnd.randrange(1, 200)
        if t["k"] == "str":
            return [(j * s) % 251 + 1 for j in range(n)]
        if t["of"]["k"] != "s":
            return [json.loads(json.dumps(v[j % len(v)])) for j in range(rnd.choice((255, 256, 257, 300)))]
        w, name = t["of"]["w"], t["of"]["n"]
        n = min(n, 140000 // w)
        if name == "bool":
            return [[j % 2] for j in range(n)]
        v = [[(j * s + x) % 256 for x in range(w)] for j in range(n)]
        if name in ("float", "double"):
            for x in v:
                x[-2:] = [33, 65]
        return v

    def size(t, v):
        k = t["k"]
        if k == "a":
            return 4 + sum(size(t["of"], x) for x in v)
        if k == "t":
            return sum(size(m, x) for m, x in zip(members(t["i"]), v))
        if k == "v":
            return 1 + (size(t["of"][v["t"] - 1], v["v"]) if v["t"] else 0)
        return len(v) + 5 if k == "str" else 4 if k == "e" else t["w"]

    # the first call, which tells the server whom to send its events, and then some of the others
    ops, rest = d["ops"][:1], d["ops"][1:]
    rnd.shuffle(rest)
    for op in rest:
        s = d["svcs"][op["s"] - 1]
        sides = [(s["fs"][op["f"] - 1]["req"], "args"), (s["fs"][op["f"] - 1]["res"], "res")] if op["o"] == "call" else [(s["es"][op["f"] - 1]["ps"], "args")]
        hit = False
        for ts, key in sides:
            vs = op[key]
            ps = [p for j, t in enumerate(ts) for p in places(t, vs[j], (lambda x, j=j, vs=vs: vs.__setitem__(j, x)), j if key == "res" else None, 0)]
            if ps:
                t, v, put, room = rnd.choice(ps)
                v = bigger(t, v)
                put(v)
                hit = True
                if room is not None:
                    n = len(v)
                    op["room"][room] = rnd.choice((1 + n // 2, n + 1, n + 9) if t["k"] == "str" else (n // 2, n, n + 3))
        if hit and all(sum(size(t, v) for t, v in zip(ts, op[key])) < 250000 for ts, key in sides):
            ops.append(op)
        if len(ops) == 7:
            break
    d["ops"] = ops


def codec(ctx, num, base=0, big=False):
    com = codec.com = getattr(codec, "com", None) or common(ctx, ("h_codec.c", "simnet.c", "hcommon.c", "vsched.c"))
    per = max(1, num // 4)
    got = [x for s in pmap(lambda k: generate(ctx, "CodecGen.tla", "CodecGen.cfg", per, 90, ctx.seed * 1000 + base * 10 + k + 1), range(4)) for x in s]
    items = {base * 100000 + i: json.loads(g) for i, g in enumerate(got)}
    if big:
        for i, d in items.items():
            enlarge(d, random.Random(i * 131 + ctx.seed))

    def build(run, d):
        D = gendesc.Desc(d, run * 31 + ctx.seed)
        text = D.gr()
        files = [D.pre(i) + "_service_%s.c" % side for i in range(len(d["svcs"])) for side in ("client", "server")]
        return make(ctx, com, run, text, gendesc.codec_program(D), files, WRAPS_THREAD + WRAPS_NET)
    return conform_programs(ctx, "CodecTrace.tla", "CodecTrace.cfg", "generated code encodes and decodes", items, build, lambda d: d)


def structs(ctx, num, base=0):
    com = structs.com = getattr(structs, "com", None) or common(ctx, ("h_struct.c", "hcommon.c", "vsched.c"), runtime=False)
    per = max(1, num // 4)
    got = [x for s in pmap(lambda k: generate(ctx, "StructGen.tla", "StructGen.cfg", per, 140, ctx.seed * 1000 + base * 10 + k + 1), range(4)) for x in s]
    items = {base * 100000 + i: json.loads(g) for i, g in enumerate(got)}
    for d in items.values():
        d["svcs"] = [{"sid": 7, "fs": [{"id": 1, "req": [], "res": []}], "es": []}]

    def build(run, d):
        D = gendesc.Desc(d, run * 31 + ctx.seed)
        return make(ctx, com, run, D.gr(), gendesc.struct_program(D), [], WRAPS_THREAD)
    return conform_programs(ctx, "StructTrace.tla", "StructTrace.cfg", "generated structure helpers", items, build, lambda d: {k: v for k, v in d.items() if k != "svcs"})
