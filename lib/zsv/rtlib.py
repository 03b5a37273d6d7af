"""Drives the runtime libraries directly (lib/rt): lists of request lines to Python, Python/C++ binding, Java and C++."""
import os
from . import build, engine

LANGS = ("python", "pycpp", "java", "cpp", "cppsan")


def args(lang):
    if lang == "java":
        return ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xss4m", "-cp", build.rt_java(), "zserio.runtime.json.Rt"]
    if lang == "cpp":
        return [build.rt_cpp("fast")]
    if lang == "cppsan":
        return [build.rt_cpp("san")]
    return [build.VENV_PY, build.RT_DIR + "/rtdrv.py", "cpp" if lang == "pycpp" else "python"]


def environ(lang):
    if lang in ("python", "pycpp"):
        path = build.PYRT + (":" + build.py_binding() if lang == "pycpp" else "")
        return {"PYTHONPATH": path, "ZSERIO_PYTHON_IMPLEMENTATION": "cpp" if lang == "pycpp" else "python"}
    if lang == "cppsan":
        return {"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=2000"}
    return None


def ask(lang, lines, timeout=240):
    """(replies, crash): replies is as long as lines unless the process died (crash says why)"""
    if not lines:
        return [], None
    r, crash = engine.run_lines(args(lang), lines, env=environ(lang), timeout=timeout)
    r = ["\t".join(x) for x in r]
    for x in r:
        if x.startswith("FAIL"):
            raise engine.HarnessError("%s: %s" % (lang, x))
    return r, crash


def shrink_list(items, fails, deadline, now):
    """smaller failing sublist"""
    best = list(items)
    size = max(1, len(best) // 2)
    while size >= 1 and now() < deadline:
        i = 0
        changed = False
        while i < len(best) and now() < deadline:
            cand = best[:i] + best[i + size:]
            if cand and len(cand) < len(best) and fails(cand):
                best = cand; changed = True
            else:
                i += size
        if not changed:
            size //= 2
    return best


class LineCheck:
    """A check whose cases are single request lines, put to every runtime. Subclasses: gen(seed, task, tier), line(case),
    judge(lang, case, reply) -> None or text, meta(r, case) -> non-trivial, LANGS_FOR(case)."""
    LANGS = LANGS

    def applicable(self, lang, c):
        return True

    def smaller(self, c):
        return []

    def run(self, ctx, task, cases=None, langs=None):
        from .runner import Result
        r = Result()
        if cases is None:
            cases = self.gen(ctx.seed, task, ctx.tier)
        for c in cases:
            l = self.line(c)
            nt = self.meta(r, c)
            r.case(l, nt, sample=l[:200] if nt else None)
        for lang in langs or self.LANGS:
            cs = [c for c in cases if self.applicable(lang, c)]
            rep, crash = ask(lang, [self.line(c) for c in cs])
            r.count("cases " + lang, len(rep))
            for c, x in zip(cs, rep):
                m = self.judge(lang, c, x)
                if m:
                    r.violate("%s: %s" % (lang, m), lang=lang, case=c, reply=x[:600])
                    if len(r.violations) > 3:
                        break
            if crash:
                c = cs[len(rep)] if len(rep) < len(cs) else cs[-1]
                r.violate("%s: the driver died: %s" % (lang, crash), lang=lang, case=c, crash=True)
        return r

    def replay(self, ctx, v):
        return self.run(ctx, None, [v["case"]], [v["lang"]])

    def shrink(self, ctx, v, deadline):
        import time
        lang = v["lang"]
        best = v
        progress = True
        while progress and time.time() < deadline:
            progress = False
            for c in self.smaller(best["case"]):
                if time.time() > deadline:
                    break
                rr = self.run(ctx, None, [c], [lang])
                if rr.violations:
                    best = rr.violations[0]; progress = True
                    break
        return best
