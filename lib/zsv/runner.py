"""Common frame of all checks: parallel deterministic tasks, evidence, replay files, shrinking, known findings."""
import os, sys, json, time, hashlib, traceback, collections, multiprocessing, signal, shutil, glob, tempfile
from . import build, engine, tape

VERIF = os.path.dirname(os.path.dirname(build.LIBDIR))
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")
SAMPLES = 6


class Result:
    """what one task did"""
    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.classes = collections.Counter()
        self.samples = []
        self.violations = []
        self.notes = []

    def case(self, key, nontrivial=True, sample=None, classes=()):
        self.evals += 1
        if nontrivial:
            self.nontrivial.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)
        for c in classes:
            self.classes[c] += 1

    def count(self, what, n=1):
        self.classes[what] += n

    def violate(self, what, **info):
        """info must be json serialisable; 'replay' describes how to reproduce it"""
        info["what"] = what
        self.violations.append(info)


class Context:
    def __init__(self, seed, tier):
        self.seed = seed; self.tier = tier
        self._worker = None
        self.scratch = None

    @property
    def worker(self):
        if self._worker is None:
            self._worker = engine.Worker()
        return self._worker

    @property
    def dir(self):
        return self.worker.dir

    def fresh(self):
        """restarts the helper processes"""
        if self._worker is not None:
            self._worker.close()
        self._worker = None

    def close(self):
        self.fresh()


def _work(mod, seed, tier, inq, outq, dirfile):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Context(seed, tier)
    try:
        while True:
            t = inq.get()
            if t is None:
                break
            try:
                r = mod.run(ctx, t)
                outq.put((t, r, None))
            except Exception:
                outq.put((t, None, traceback.format_exc()))
                ctx.fresh()
            if r_too_old(ctx):
                ctx.fresh()
    finally:
        ctx.close()
        outq.put(None)


def r_too_old(ctx):
    w = ctx._worker
    return w is not None and w.n > 120


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:") or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def main(mod, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    nproc = int(os.environ.get("ZSV_NPROC", build.NPROC))
    t0 = time.time()
    replay = shrink_file = None
    explore = bool(os.environ.get("ZSV_EXPLORE"))
    i = 0
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--shrink":
            shrink_file = argv[i + 1]; i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 1
        i += 1
    try:
        build.prepare(*mod.NEEDS)
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 3
    print("%s: built in %.1f s" % (prop, time.time() - t0), flush=True)
    if shrink_file:
        v = json.load(open(shrink_file))
        ctx = Context(v.get("seed", seed), v.get("tier", tier))
        v = mod.shrink(ctx, v, time.time() + 120) or v
        ctx.close()
        v["property"] = prop; v.setdefault("seed", seed)
        json.dump(v, open(shrink_file + ".min", "w"), indent=1, default=str)
        print(json.dumps(v, default=str)[:6000])
        return 0
    if replay:
        return do_replay(mod, replay, seed, tier)

    tasks = mod.tasks(tier, seed)
    soft = getattr(mod, "SOFT", {"quick": 330, "thorough": 3 * 3600})[tier]
    total = Result()
    errors = []
    done = 0
    t1 = time.time()
    mp = multiprocessing.get_context("fork")
    inq, outq = mp.Queue(), mp.Queue()
    n = max(1, min(nproc, len(tasks)))
    procs = [mp.Process(target=_work, args=(mod, seed, tier, inq, outq, None)) for _ in range(n)]
    for p in procs:
        p.start()
    sent = 0
    stop = False
    def feed():
        nonlocal sent
        if sent < len(tasks):
            inq.put(tasks[sent]); sent += 1
            return True
        return False
    for _ in range(n * 2):
        feed()
    results = {}
    outstanding = sent
    viol = None
    while outstanding > 0:
        try:
            x = outq.get(timeout=60)
        except Exception:
            if not any(p.is_alive() for p in procs):
                errors.append("all workers died")
                break
            continue
        if x is None:
            errors.append("a worker ended early")
            break
        outstanding -= 1
        t, r, err = x
        done += 1
        if err is not None:
            errors.append("task %r: %s" % (t, err))
        else:
            results[repr(t)] = r
            if r.violations and not explore:
                stop = True
        if time.time() - t1 > soft or len(errors) > 5:
            stop = True
        if not stop and feed():
            outstanding += 1
    for p in procs:
        inq.put(None)
    for p in procs:
        p.join(timeout=20)
        if p.is_alive():
            p.kill()
    for t in tasks:
        r = results.get(repr(t))
        if r is None:
            continue
        total.evals += r.evals
        total.nontrivial |= r.nontrivial
        total.classes.update(r.classes)
        total.notes += r.notes
        if len(total.samples) < SAMPLES:
            total.samples += r.samples[:SAMPLES - len(total.samples)]
        for v in r.violations:
            v.setdefault("task", t)
            total.violations.append(v)

    # known findings: each listed input is run again
    known = 0
    if hasattr(mod, "probe") and not total.violations:
        ctx = Context(seed, tier)
        try:
            for f in load_findings(prop):
                try:
                    still = mod.probe(ctx, f)
                except Exception:
                    errors.append("probe %s: %s" % (f.get("key"), traceback.format_exc()))
                    continue
                if still:
                    known += 1
                    print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)
        finally:
            ctx.close()

    rc = 0
    path = None
    if explore and total.violations:
        import re
        groups = collections.OrderedDict()
        for v in total.violations:
            k = (v.get("lang"), v.get("column"), re.sub(r"\d+", "#", str(v.get("observed", ""))[:100]) if v.get("column") in ("error", "crash") else "")
            groups.setdefault(k, []).append(v)
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        for i, (k, vs) in enumerate(groups.items()):
            p = os.path.join(EVID, "replays", "%s-x%d.json" % (prop, i))
            vs[0].update(property=prop, seed=seed, tier=tier)
            json.dump(vs[0], open(p, "w"), indent=1, default=str)
            print("GROUP %d x%d %s\n   %s  %s" % (i, len(vs), k, vs[0]["what"], p))
        return 1
    if total.violations:
        v = total.violations[0]
        if hasattr(mod, "shrink"):
            ctx = Context(seed, tier)
            try:
                v = mod.shrink(ctx, v, time.time() + getattr(mod, "SHRINK", {"quick": 60, "thorough": 300})[tier]) or v
            except Exception:
                print("shrink failed: " + traceback.format_exc())
            finally:
                ctx.close()
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s-%s.json" % (prop, hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]))
        v["property"] = prop; v["seed"] = seed; v["tier"] = tier
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print(v["what"])
        print(json.dumps({k: x for k, x in v.items() if k not in ("what",)}, default=str)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        rc = 1
    elif errors:
        rc = 3
    elif len(total.nontrivial) < getattr(mod, "MIN_NONTRIVIAL", 2):
        print("too few non-trivial cases: %d" % len(total.nontrivial))
        rc = 3
    for e in errors[:5]:
        print("ERROR " + e)
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total.evals, "distinct_nontrivial": len(total.nontrivial), "rule": mod.RULE,
                       "samples": total.samples[:SAMPLES], "classes": dict(sorted(total.classes.items())),
                       "tasks_planned": len(tasks), "tasks_done": done},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(total.violations)}
    if known:
        ev["coverage"]["known_findings_reproduced"] = known
    if total.notes:
        ev["coverage"]["notes"] = total.notes[:20]
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    nc = {k: v for k, v in total.classes.items() if k.startswith("not compiled")}
    if nc:
        print("%s of %d schemas" % (", ".join("%s: %d" % x for x in sorted(nc.items())), total.classes.get("schemas", 0)))
    print("%s: %d cases, %d non-trivial, %d/%d tasks, %.1f s, rc=%d" % (prop, total.evals, len(total.nontrivial), done,
                                                                     len(tasks), time.time() - t0, rc))
    return rc


def do_replay(mod, path, seed, tier):
    with open(path) as f:
        v = json.load(f)
    ctx = Context(v.get("seed", seed), v.get("tier", tier))
    try:
        if hasattr(mod, "replay"):
            r = mod.replay(ctx, v)
        else:
            t = v["task"]
            r = mod.run(ctx, tuple(t) if isinstance(t, list) else t)
    finally:
        ctx.close()
    if r.violations:
        print(r.violations[0]["what"])
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    print("replay: property holds on this input")
    return 0
