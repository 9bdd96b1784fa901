"""What the checks share: running harnesses and TLC, verdicts, evidence."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.violations = []          # (reason, data)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.scen = 0
        self.builds = {}
        self.calm = {}

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def left(self):
        """Seconds until the check should be done."""
        return (800 if self.tier == "quick" else 6 * 3600) - (time.time() - self.t0)

    def violation(self, reason, data):
        self.violations.append((reason, data))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- harness -----------------------------------------------------------
    def build(self, name, files, pkg, flags=(), modes=("yield", "virt"), patch=(), nodes=()):
        if name not in self.builds:
            self.builds[name] = build.build(self.work, name, files, pkg, flags, modes, patch, nodes)
        exe, mode = self.builds[name]
        self.calm[exe] = mode != "yield"     # goroutines of one scenario cannot be ended then
        return exe


def _panic(stderr):
    """Classify the end of a crashed harness: 'code', 'harness' or None (no panic)."""
    m = re.search(r"^(panic:|fatal error:).*", stderr, re.M)
    if not m:
        return None, ""
    head = m.group(0)
    body = stderr[m.start():]
    if "deadlock: all goroutines in bubble are blocked" in head or "all goroutines are asleep" in head:
        return "stuck", head
    # the first goroutine printed is the one that panicked
    g = body.find("\ngoroutine ")
    end = body.find("\n\ngoroutine ", g + 1)
    frames = re.findall(r"^(?:created by )?(github\.com/LogicalOverflow/music-sync/[^\s(]+|main\.[^\s(]+)", body[g:end], re.M)
    for f in frames:
        if "/verifrt/vsync" in f:      # the code's own mutex
            continue
        if "/verifh" in f or "/verifrt" in f or "verif" in f.split("/")[-1].lower():
            return "harness", head
        return "code", head
    # in a goroutine of a library the code under test uses
    return ("harness" if "testing." in body[g:end] else "code"), head


def run_harness(ctx, exe, profile, count, env=None, per=None, wall=60, one=False):
    """Runs scenarios 0..count-1 of a profile, in parallel batches; returns the traces.
    Crashes and hangs of the code under test become violations."""
    per = per or max(1, (count + CPUS - 1) // CPUS)
    if one or ctx.calm.get(exe):
        per = 1
    jobs = [(a, min(count, a + per)) for a in range(0, count, per)]
    total = []       # crashes; with enough of them there is no need to go on

    def job(rng):
        a, b = rng
        got, bad = [], []
        crashes = 0
        while a < b and len(total) < 6:
            out = os.path.join(ctx.work, "%s-%s-%d.out" % (os.path.basename(exe), profile, a))
            d = tempfile.mkdtemp(prefix="d", dir=ctx.work)
            e = dict(build.ENV, VERIF_SEED=str(ctx.seed), VERIF_TIER=ctx.tier, VH_PROFILE=profile, VH_FROM=str(a), VH_TO=str(b),
                     VH_OUT=out, VH_DIR=d, VH_WALL=str(wall), GOTRACEBACK="all", GOMAXPROCS="1")
            e.update(env or {})
            try:
                p = subprocess.run([exe, "-test.timeout", "0"], cwd=d, env=e, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=max(30, ctx.left()))
                rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                raise CheckError("harness %s/%s ran out of time" % (exe, profile))
            finally:
                shutil.rmtree(d, ignore_errors=True)
            last, done = None, False
            for l in open(out) if os.path.exists(out) else []:
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if "begin" in o:
                    last = o["begin"]
                elif o.get("done"):
                    done = True
                else:
                    got.append(o)
            if os.path.exists(out):
                os.unlink(out)
            if done:
                break
            if last is None:
                raise CheckError("harness %s/%s did not start (rc %d):\n%s" % (exe, profile, rc, err[-3000:]))
            kind, head = _panic(err)
            if rc == 3 and "VH-HANG" in err:
                kind, head = "hang", "no progress for %d s" % wall
            if rc == 4 and "VH-EXIT" in err:
                kind, head = "code", "it ended the process"
            if kind in (None, "harness"):
                raise CheckError("harness %s/%s failed in scenario %d (rc %d):\n%s" % (exe, profile, last, rc, err[:2500]))
            bad.append((kind, last, head, err))
            total.append(last)
            crashes += 1
            a = last + 1
            if crashes >= 2:
                break
        return got, bad

    with cf.ThreadPoolExecutor(CPUS) as ex:
        results = list(ex.map(job, jobs))
    out, crashed = [], []
    for got, bad in results:
        out += got
        crashed += bad
    ctx.scen += len(out) + len(crashed)
    for kind, n, head, err in crashed[:5]:
        what = {"code": "the code under test crashed", "stuck": "everything is blocked for ever",
                "hang": "the code under test does not get on"}[kind]
        ctx.violation("%s in scenario %s/%d: %s" % (what, profile, n, head),
                      {"profile": profile, "scenario": n, "seed": ctx.seed, "stderr": err[-20000:]})
    out.sort(key=lambda o: o.get("n", 0))
    return out


# -- TLC ------------------------------------------------------------------
def tlc(ctx, spec, cfg, env=None, workers=1, timeout=None, extra=(), heap="2g", dfs=False):
    md = tempfile.mkdtemp(prefix="md", dir=ctx.work)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss1g",
           "-Djava.io.tmpdir=" + md,
           *(["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []), "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, spec]
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout or max(60, ctx.left()))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on %s" % spec)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", p.stdout)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return p.returncode, p.stdout, gen, dist


def errors_of(out):
    i = out.find("Error:")
    return out[-3000:] if i < 0 else out[i:i + 1500] + "\n...\n" + out[-1500:]


def model_check(ctx, spec, cfg, workers=None, heap="6g", timeout=None, extra=()):
    """Exhaustive check of the specification itself. A failure is an error of the check, not of the code."""
    rc, out, gen, dist = tlc(ctx, spec + ".tla", cfg, workers=workers or CPUS, heap=heap, timeout=timeout, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking %s with %s failed:\n%s" % (spec, cfg, out[-5000:]))
    ctx.states += dist
    ctx.transitions += gen
    ctx.parts.append({"model": spec, "config": cfg, "states": dist, "transitions": gen})


def validate(ctx, spec, cfg, traces, what, batch=None, heap="2g", limit=5):
    """Checks recorded traces against a trace specification; rejected ones are violations."""
    if not traces:
        return
    jobs = min(6, max(1, len(traces) // 8))
    batch = batch or (len(traces) + jobs - 1) // jobs
    chunks = [traces[i:i + batch] for i in range(0, len(traces), batch)]

    def job(chunk):
        fd, path = tempfile.mkstemp(prefix="tr", suffix=".ndjson", dir=ctx.work)
        with os.fdopen(fd, "w") as f:
            for tr in chunk:
                f.write(json.dumps(tr) + "\n")
        rc, out, gen, dist = tlc(ctx, spec + ".tla", cfg, env={"TRACES": path}, heap=heap, dfs=True)
        os.unlink(path)
        acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
        rej = [tuple(map(str.strip, m.split(","))) for m in re.findall(r'<<"REJECTED", ([^>]*)>>', out)]
        if not acc or int(acc.group(1)) + len(rej) != len(chunk) or (rc != 0 and not rej):
            raise CheckError("TLC failed on %s:\n%s" % (spec, errors_of(out)))
        return gen, dist, int(acc.group(1)), [(chunk[int(r[0]) - 1], r[1:]) for r in rej]

    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(job, chunks))
    n = 0
    for gen, dist, acc, rej in res:
        ctx.states += dist
        ctx.transitions += gen
        ctx.traces += acc + len(rej)
        for tr, info in rej:
            n += 1
            if n <= limit:
                ctx.violation("%s: scenario %s is no behaviour of %s (progress %s)" % (what, tr.get("n"), spec, ",".join(info)), tr)
    ctx.parts.append({"traces_of": what, "spec": spec, "traces": sum(len(c) for c in chunks),
                      "states": sum(r[1] for r in res)})
    if len(ctx.samples) < 3:
        ctx.samples.append({"what": what, "trace": shorten(traces[min(1, len(traces) - 1)])})


def shorten(o, depth=0):
    if isinstance(o, dict):
        return {k: shorten(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        r = [shorten(v, depth + 1) for v in o[:12]]
        return r + ["... %d more" % (len(o) - 12)] if len(o) > 12 else r
    if isinstance(o, str) and len(o) > 200:
        return o[:200] + "..."
    return o


# -- verdict --------------------------------------------------------------
def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    for l in open(path) if os.path.exists(path) else []:
        l = l.strip()
        if l.startswith("{"):
            r.append(json.loads(l))
    return r


def main(prop, tier, seed, fn, level, assumptions=()):
    ctx = Ctx(prop, tier, seed)
    try:
        try:
            fn(ctx)
        except build.BuildError as e:
            print("ERROR: %s" % e)
            return 2
        except CheckError as e:
            # a violation already established stands; otherwise there is no verdict
            print("ERROR: %s" % e)
            if not ctx.violations:
                return 2
        cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
               "scenarios_run": ctx.scen, "parts": ctx.parts, "samples": ctx.samples[:3]}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 1),
              "violations": len(ctx.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if ctx.violations:
            for i, (reason, data) in enumerate(ctx.violations[:10]):
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%d.json" % (prop, i))
                with open(path, "w") as f:
                    json.dump({"property": prop, "reason": reason, "seed": seed, "tier": tier, "data": data}, f, indent=1)
                print("  " + reason.replace("\n", " ")[:400])
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("OK property=%s traces=%d states=%d scenarios=%d in %.1fs" % (prop, ctx.traces, ctx.states, ctx.scen, time.time() - ctx.t0))
        return 0
    finally:
        ctx.close()
