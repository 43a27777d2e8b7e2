"""Descriptions as tokens (from TLC): write them down, hand them to the real generator, record what it does."""
import json, random, re, tempfile
from vlib import *
import gencode

SPELL = None


def spelling():
    global SPELL
    if SPELL is None:
        t = open(SPEC + "/Schema.tla").read()
        SPELL = {m[0]: (m[1], m[2], m[3]) for m in re.findall(r'(\w+) \|-> <<"(\w+)", "(\w+)", "(\w+)">>', t)}
    return SPELL


class Text:
    def __init__(self, desc, seed):
        self.rnd, self.f = random.Random(seed), desc["f"]
        self.path = ["root.gr"]
        for k in range(1, len(self.f)):
            self.path.append(os.path.join(self.rnd.choice(["", "sub", "sub/deep", "other"]), "lib%d.gr" % k))
        self.plain = self.rnd.random() < 0.5

    def space(self):
        return " " if self.plain else self.rnd.choice([" ", " ", "  ", "\n", "\t", "\n\n", " /* func x */ ", " // { x\n", "\n/* a\n * b */\n"])

    def opt(self):
        return "" if self.rnd.random() < 0.6 else self.space()

    def token(self, t, prev, k):
        kind = t["k"]
        if kind in ("kw", "p"):
            return t["s"]
        if kind == "id":
            s = spelling().get(t["s"])
            return s[t["w"]] if s else t["s"]
        if kind == "n":
            v = t["v"]
            return ("0x%x" if self.rnd.random() < 0.5 else "0x%X") % v if v >= 0 and self.rnd.random() < 0.3 else str(v)
        if kind == "q":
            if t["f"] and prev and prev["k"] == "kw" and prev["s"] == "import":
                p = os.path.relpath(self.path[t["f"] - 1], os.path.dirname(self.path[k]) or ".")
                return '"%s"' % (p if self.rnd.random() < 0.5 else p[:-3])
            return '"%s"' % t["s"]
        if prev and prev["k"] == "kw" and prev["s"] in ("from", "import"):
            return ' "lib' if self.quote() else " @"
        c = self.rnd.choice(["0x", "-", "007", "@", "$", "'", "1.5", "/", "0xg", '"', '"open', "#include"])
        return " " + (c if c[0] != '"' or self.quote() else "@") + " "

    def quote(self):
        """only one quotation of a text is left open"""
        self.open += 1
        return self.open == 1

    def file(self, k):
        o, prev = self.opt(), None
        self.open = 0
        for t in self.f[k]:
            s = self.token(t, prev, k)
            word = lambda x: x["k"] in ("kw", "id", "n")
            o += (self.space() if prev and word(prev) and word(t) else self.opt() if prev else "") + s
            prev = t
        # a text may end without a new line, but not in the middle of a number
        return o + (self.space() if self.rnd.random() < 0.7 or (prev and prev["k"] == "n") else "")

    def write(self, d):
        for k, p in enumerate(self.path):
            os.makedirs(os.path.join(d, os.path.dirname(p)), exist_ok=True)
            with open(os.path.join(d, p), "w") as f:
                f.write(self.file(k))


def one(ctx, run, desc, out):
    d = tempfile.mkdtemp(prefix="sch", dir=ctx.dir)
    try:
        Text(desc, run * 131 + ctx.seed).write(d)
        o = os.path.join(d, "made")
        os.mkdir(o)
        args = ["--lang-c"] + (["--client"] if desc["client"] else []) + (["--server"] if desc["server"] else []) + (["--include", ",".join(desc["inc"])] if desc["inc"] else [])
        r = sh([sys.executable, REPO + "/generator/parser.py", "--service", os.path.join(d, "root.gr"), "--out", o] + args, env=gencode.ENV, cwd=d, ok=None, timeout=60)
        files = sorted(os.listdir(o))
        evs = [{"e": "Run", "run": run, "desc": desc},
               {"e": "Gen", "status": 0 if r.returncode == 0 else 2 if r.returncode == -99 else 1, "files": files}]
        if r.returncode == 0:
            for f in files:
                if f.endswith("_service.h"):
                    t = open(os.path.join(o, f), errors="replace").read()
                    ids = [{"n": m[0], "v": int(m[1].strip("()uUlL"), 0)} for m in re.findall(r"^\s*#\s*define\s+(SERVICE_\w+_ID)\s+(\S+)", t, re.M)]
                    evs.append({"e": "Header", "name": f, "ids": ids, "includes": re.findall(r"^\s*#\s*include\s*[<\"]([^>\"]+)[>\"]", t, re.M)})
        else:
            evs[-1]["said"] = r.stdout[-200:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for e in evs:
        out.write(json.dumps(e, separators=(",", ":")) + "\n")


def conform_texts(ctx, items, what):
    ids = sorted(items)

    def job(j):
        def go(tr):
            with open(tr, "w") as f:
                for r in ids[j::NCPU]:
                    one(ctx, r, items[r], f)
        return ("sch%d" % j, go)

    def rerun(r, tr):
        with open(tr, "w") as f:
            one(ctx, r["run"], items[r["run"]], f)
    return conform(ctx, "SchemaTrace.tla", "SchemaTrace.cfg", [job(j) for j in range(min(NCPU, len(ids)))], what, rerun)


def random_texts(ctx, num, base=0):
    got = [x for s in pmap(lambda k: generate(ctx, "SchemaGen.tla", "SchemaGen.cfg", max(1, num // 4), 40, ctx.seed * 1000 + base * 10 + k + 1), range(4)) for x in s]
    conform_texts(ctx, {base * 100000 + i: json.loads(g) for i, g in enumerate(got)}, "descriptions are accepted exactly when they are valid")


def changed_tokens(ctx, part=1, of=1):
    """every change of one token of one description"""
    r = tlc(ctx, "SchemaMut.tla", "SchemaMut.cfg", workers=1)
    got = sorted({json.loads(l.strip())[2:] for l in r.stdout.split("\n") if l.strip().startswith('"@@')})
    if len(got) < 1000:
        raise Infra("SchemaMut produced too little:\n" + r.stdout[-2000:])
    items = {50000000 + i: json.loads(g) for i, g in enumerate(got)}
    items = {i: x for i, x in items.items() if x.pop("kind") in ("id", "late") or i % of == part % of}
    conform_texts(ctx, items, "a description with one token changed")
