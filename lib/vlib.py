"""Shared machinery of the checks: build from /repo, generate with TLC, run, validate with TLC."""
import atexit, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))

WRAPS_THREAD = ("mtx_init mtx_destroy mtx_lock mtx_trylock mtx_timedlock mtx_unlock cnd_init cnd_destroy cnd_wait "
                "cnd_timedwait cnd_signal cnd_broadcast thrd_create thrd_join thrd_detach thrd_yield thrd_sleep "
                "thrd_current usleep malloc calloc realloc reallocarray aligned_alloc posix_memalign strdup strndup free").split()
WRAPS_NET = ("socket bind listen accept accept4 connect send sendto sendmsg write recv recvfrom recvmsg read shutdown "
             "close epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait poll readv writev fcntl setsockopt getsockopt getsockname getpeername").split()
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
RUNTIME = ["arena.c", "client.c", "client_config.c", "control.c", "crc.c", "dispatch_generic.c", "hashtable.c", "queue.c",
           "server.c", "server_config.c", "shared.c", "stack.c", "link/socket/client.c", "link/socket/server.c",
           "link/socket/shared.c"]


class Infra(Exception):
    """The check itself could not be carried out (not a verdict about the code)."""


class Violation(Exception):
    def __init__(self, prop, what, data):
        super().__init__(what)
        self.prop, self.what, self.data = prop, what, data


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events": 0}
        self.notes = []
        self.assumptions = []
        self.known = []
        self.samples = []
        self.thorough = tier == "thorough"

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def budget(self):
        return time.time() - self.t0

    def q(self, quick, thorough):
        return thorough if self.thorough else quick


# ------------------------------------------------------------------ running things
def sh(cmd, timeout=600, env=None, cwd=None, ok=(0,), stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           input=stdin, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        out = x.stdout if isinstance(x.stdout, str) else (x.stdout or b"").decode(errors="replace")
        r = subprocess.CompletedProcess(cmd, -99, out, "")
    if ok is not None and r.returncode not in ok:
        raise Infra("command failed (%s): %s\n%s" % (r.returncode, " ".join(map(str, cmd)), (r.stdout or "")[-3000:]))
    return r


def pmap(fn, items, n=NCPU):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=min(n, len(items))) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ building
CONFIG_H = "#ifndef __GRACHT_CONFIG_H__\n#define __GRACHT_CONFIG_H__\n#define HAVE_C11_THREADS\n#define HAVE_PTHREAD\n#endif\n"


class Build:
    """Compiles sources of /repo's working tree and of the harness into one executable."""

    def __init__(self, ctx, name, cc="clang"):
        self.ctx, self.name, self.cc = ctx, name, cc
        self.inc = ctx.path("inc", "config.h")
        with open(self.inc, "w") as f:
            f.write(CONFIG_H)
        self.jobs, self.objs = [], []
        self.inc_dirs = [os.path.dirname(self.inc), REPO + "/include", HARN]

    def add(self, src, kind, extra=()):
        """kind: 'impl' = instrumented code under test, 'harn' = harness, 'impl0' = asan only"""
        o = self.ctx.path("obj-" + self.name, "%d_%s.o" % (len(self.jobs), os.path.basename(src)))
        fl = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GNU_SOURCE"]
        if kind == "impl":
            fl += COV + ["-w", "-DGRACHT_BUILD"]
        elif kind == "impl0":
            fl += ["-w", "-DGRACHT_BUILD"]
        else:
            fl += ["-w"]
        self.jobs.append([self.cc] + fl + list(extra) + ["-I" + d for d in self.inc_dirs] + ["-c", src, "-o", o])
        self.objs.append(o)
        return self

    def link(self, wraps, libs=()):
        pmap(lambda c: sh(c, timeout=180), self.jobs)
        exe = self.ctx.path("bin", self.name)
        sh([self.cc, "-fsanitize=address", "-g"] + self.objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-o", exe]
           + list(libs), timeout=120)
        return exe


def runtime_sources():
    out = []
    for s in RUNTIME:
        p = os.path.join(REPO, "runtime", s)
        if os.path.exists(p):
            out.append(p)
    # sources added to the runtime later on
    known = set(out)
    for root in (REPO + "/runtime", REPO + "/runtime/link/socket"):
        for f in sorted(os.listdir(root)):
            p = os.path.join(root, f)
            if f.endswith(".c") and p not in known and "vali" not in f:
                out.append(p)
    return out


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=1024:hard_rss_limit_mb=2500"}


def run_harness(exe, args, trace, timeout=300):
    """Runs the harness. Whatever happens to it ends up in the trace as a Fatal event."""
    a = [exe] + list(args) + ["--trace=" + trace]
    r = sh(a, timeout=timeout, env=ASAN, ok=None)
    if r.returncode == 9:
        raise Infra("harness: " + r.stdout[-500:])
    if r.returncode != 0:
        last = tail(trace)
        if '"e":"Fatal"' not in last:
            with open(trace, "a") as f:
                what = "Hang" if r.returncode == -99 else "Crash"
                f.write('\n{"e":"Fatal","what":"%s","detail":"exit %s"}\n' % (what, r.returncode))
    return r


def tail(path):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 4000))
            return f.read().decode(errors="replace").strip().split("\n")[-1]
    except OSError:
        return ""


def clean_ndjson(path):
    """Drops blank/torn lines (a crash can tear the last one)."""
    out = []
    with open(path, errors="replace") as f:
        for l in f:
            l = l.strip()
            if not l:
                continue
            try:
                json.loads(l)
            except ValueError:
                continue
            out.append(l)
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return len(out)


# ------------------------------------------------------------------ TLC
def tlc(ctx, spec, cfg, env=None, args=(), heap="3g", timeout=800, workers=1):
    md = tempfile.mkdtemp(prefix="tlc-", dir=ctx.dir)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + md, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(args) + [
           os.path.join(SPEC, spec)]
    r = sh(cmd, timeout=timeout, env=env, ok=None, cwd=md)
    shutil.rmtree(md, ignore_errors=True)
    r.generated = r.distinct = r.depth = 0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    if m:
        r.generated, r.distinct = [int(x.replace(",", "")) for x in m[-1]]
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.stdout)
    if m:
        r.depth = int(m[-1])
    m = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
    if m:
        r.generated = int(m[-1].replace(",", ""))
    return r


def model_check(ctx, spec, cfg, what, **kw):
    """Exhaustive check of the specification itself. A failure here is a defect of /verif, not of the code."""
    r = tlc(ctx, spec, cfg, workers=kw.pop("workers", 4), **kw)
    if r.returncode != 0 or "No error has been found" not in r.stdout:
        raise Infra("model checking %s/%s failed:\n%s" % (spec, cfg, r.stdout[-3000:]))
    ctx.add(states=r.distinct, transitions=r.generated)
    ctx.notes.append("%s: %s, %d distinct states, %d generated, depth %d" % (os.path.basename(cfg), what, r.distinct, r.generated, r.depth))
    return r


def generate(ctx, spec, cfg, num, depth, seed, env=None, timeout=300):
    """Behaviours of the specification (TLC simulation); the spec prints one JSON line per behaviour."""
    r = tlc(ctx, spec, cfg, env=env, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], timeout=timeout)
    out, seen = [], set()
    for l in r.stdout.split("\n"):
        l = l.strip()
        if l.startswith('"@@') and l.endswith('"'):
            t = json.loads(l)[2:]
            if t not in seen:   # TLC may evaluate the printing invariant twice
                seen.add(t)
                out.append(t)
    if not out:
        raise Infra("generation %s/%s produced nothing:\n%s" % (spec, cfg, r.stdout[-3000:]))
    ctx.add(transitions=r.generated)
    return out


def validate(ctx, spec, cfg, trace, env=None, timeout=800, heap="3g"):
    """Is the recorded trace a behaviour of the specification? Returns None or the index of the first event that is not."""
    e = {"TRACE": trace}
    if env:
        e.update(env)
    r = tlc(ctx, spec, cfg, env=e, timeout=timeout, heap=heap)
    ok = r.returncode == 0 and "No error has been found" in r.stdout
    if ok:
        return None, r
    m = re.findall(r"@REJECTED@ (\d+)", r.stdout)
    if m:
        return int(m[-1]), r
    raise Infra("trace validation %s could not be carried out:\n%s" % (spec, r.stdout[-3000:]))


def split_runs(path):
    runs, cur = [], []
    with open(path) as f:
        for l in f:
            l = l.rstrip("\n")
            if not l:
                continue
            if '"e":"Run"' in l and cur:
                runs.append(cur)
                cur = []
            cur.append(l)
    if cur:
        runs.append(cur)
    return runs


def sample_of(lines, n=6):
    return [json.loads(x) for x in lines[:n]]


def conform(ctx, spec, cfg, jobs, what, rerun, env=None, timeout=800, heap="3g", prop=None):
    """jobs: list of (name, callable(trace_path)). Each is run, its trace validated by TLC against the spec.
    rerun(runline, trace_path): runs a single run again, to confirm a rejection.
    Returns number of runs validated."""
    total = {"runs": 0, "events": 0}
    viol = []

    def one(job):
        name, fn = job
        tr = ctx.path("traces", name + ".ndjson")
        fn(tr)
        n = clean_ndjson(tr)
        if n == 0:
            raise Infra("empty trace " + name)
        rej, r = validate(ctx, spec, cfg, tr, env=env, timeout=timeout, heap=heap)
        runs = split_runs(tr)
        total["events"] += n
        ctx.add(transitions=r.generated, states=r.distinct)
        if rej is None:
            total["runs"] += len(runs)
            if not ctx.samples and runs:
                ctx.samples.append({"trace": sample_of(runs[0])})
        else:
            idx = rej  # 1-based index of the first event without a matching action
            k = 0
            for ri, run in enumerate(runs):
                if idx <= k + len(run):
                    viol.append((name, run, idx - k))
                    break
                k += len(run)
            else:
                viol.append((name, runs[-1], len(runs[-1])))
        os.unlink(tr)
    pmap(one, jobs)
    for name, run, at in viol:
        # a rejection counts only when running the same thing again is rejected as well
        tr = ctx.path("traces", "confirm-" + name + ".ndjson")
        rerun(json.loads(run[0]), tr)
        clean_ndjson(tr)
        rej, _ = validate(ctx, spec, cfg, tr, env=env, timeout=timeout, heap=heap)
        if rej is None:
            raise Infra("%s: rejection of a trace was not confirmed by a second run (%s, event %d: %s)" % (what, name, at, run[min(at, len(run)) - 1]))
        again = open(tr).read().strip().split("\n")
        raise Violation(prop or ctx.prop, "%s: %s" % (what, again[min(rej, len(again)) - 1]),
                        {"spec": spec, "cfg": cfg, "env": env or {}, "run": json.loads(again[0]), "rejected_event": rej,
                         "trace": [json.loads(x) for x in again]})
    ctx.add(traces_validated_against_impl=total["runs"], events=total["events"])
    ctx.notes.append("%s: %d runs, %d events accepted by %s" % (what, total["runs"], total["events"], spec))
    return total["runs"]


# ------------------------------------------------------------------ verdicts
def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m:
                    out.append(m.groups())
    return out


def evidence(ctx, level, violations):
    d = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
         "coverage": dict(ctx.cov), "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
         "violations": violations}
    d["coverage"]["notes"] = ctx.notes
    d["coverage"]["samples"] = ctx.samples[:3]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)


def runner(ctx, exe, lines, spec, cfg, what, env=None, extra=(), prop=None, timeout=300, heap="3g"):
    """Distributes run lines over processes, validates every trace, confirms rejections by running the line again."""
    def job(j):
        def go(tr):
            p = ctx.path("in", "in-%s-%d.txt" % (os.path.basename(exe), j))
            open(p, "w").write("\n".join(lines[j::NCPU]) + "\n")
            run_harness(exe, ["--in=" + p] + list(extra), tr, timeout=timeout)
        return ("%s%d" % (os.path.basename(exe), j), go)

    def rerun(r, tr):
        """the same run again, after the runs that preceded it in its process"""
        if "run" not in r:  # it ended before its first run began
            raise Infra("the harness ended before its first run: %s" % json.dumps(r))
        i = [k for k, l in enumerate(lines) if l.startswith("run %d " % r["run"])][0]
        mine = lines[i % NCPU:i + 1:NCPU]
        p = ctx.path("in", "again-%s.txt" % os.path.basename(exe))
        open(p, "w").write("\n".join(mine) + "\n")
        run_harness(exe, ["--in=" + p] + list(extra), tr, timeout=timeout)
        clean_ndjson(tr)
        last = split_runs(tr)[-1]
        open(tr, "w").write("\n".join(last) + "\n")
    return conform(ctx, spec, cfg, [job(j) for j in range(min(NCPU, len(lines)))], what, rerun, env=env, prop=prop, heap=heap)
