"""Checks whose task is a generated schema plus generated probe programs in the target languages that print "key<TAB>value" lines;
the oracle is the table of values the schema prescribes."""
import time
from . import build
from .tape import Tape, shrink
from .script import Script


class Plan:
    """files, main, opts; scripts {lang: code}; expected {key: value or set of values} per language (None: any value, but present)"""
    def __init__(self):
        self.files = {}; self.main = "a.zs"; self.opts = []; self.scripts = {}; self.expected = {}
        self.cases = []     # (key, nontrivial, sample)


class ScriptCheck:
    NEEDS = ("jar", "jrt", "jsrv", "cpp", "pyb")
    NTASKS = {"quick": 24, "thorough": 600}
    LANGSET = ("python", "pyc", "java", "cpp")
    JAVA_CP = ""

    def tasks(self, tier, seed):
        return list(range(self.NTASKS[tier]))

    def execute(self, s, lang, code):
        if lang in ("python", "pyc"):
            return s.python(code, "cpp" if lang == "pyc" else "python")
        if lang == "java":
            return s.java(code, extra_cp=self.JAVA_CP)
        return s.cpp(code)

    def run(self, ctx, task, choices=None, langset=None):
        from .runner import Result
        res = Result()
        t = Tape(choices=choices) if choices is not None else Tape((ctx.seed, self.PROPERTY, task))
        p = self.plan(t, task)
        res.count("schemas")
        for k, nt, sample in p.cases:
            res.case((sorted(p.files.items()), k), nt, sample)
        text = "\n".join("// %s\n%s" % x for x in sorted(p.files.items()))
        want = [l for l in (langset or self.LANGSET) if (l if l != "pyc" else "python") in p.scripts]
        gens = sorted({"python" if l == "pyc" else l for l in want})
        s = Script(ctx.worker, p.files, p.main, gens, p.opts)
        try:
            if not s.ok:
                self.rejected(res, s, text, p)
            for lang in want if s.ok else ():
                key = "python" if lang == "pyc" else lang
                rc, out = self.execute(s, lang, p.scripts[key])
                if rc == 99:
                    res.count("not compiled: " + lang)
                    import os
                    if os.environ.get("ZSV_DEBUG"):
                        print(lang, out[:3000], text[:6000])
                    continue
                got = {}
                for line in out.split("\n"):
                    k, tab, v = line.partition("\t")
                    if tab:
                        got[k] = v
                res.count("answers " + lang, len(got))
                exp = p.expected.get(lang) or p.expected.get(key) or p.expected["*"]
                for k, v in exp.items():
                    g = got.get(k)
                    if g is None or (v is not None and (g not in v if isinstance(v, (set, frozenset, tuple, list)) else g != v)):
                        res.violate("%s: %s is %s instead of %s" % (lang, k, g if g is not None else "missing", v), lang=lang,
                                    column=k.split(" ")[0], expected=str(v)[:2000],
                                    observed=str(g)[:2000] if g is not None else "missing; rc=%s output:\n%s" % (rc, out[-2500:]), key=k,
                                    schema=text[:20000], task=task)
                        break
                else:
                    extra = [k for k in got if k not in exp]
                    if extra:
                        raise RuntimeError("%s: unexpected answers %r" % (lang, extra[:5]))
                    if rc != 0:
                        res.violate("%s: probe program ended with %s: %s" % (lang, rc, out[-500:]), lang=lang, column="crash",
                                    observed=out[-3000:], schema=text[:20000], task=task)
        finally:
            s.close()
        for v in res.violations:
            v["tape"] = t.out
        return res

    def rejected(self, res, s, text, p):
        """the compiler refused a schema the generator believes to be valid: other properties judge that"""
        res.count("not compiled: zserio")
        import os
        if os.environ.get("ZSV_DEBUG"):
            print(s.out[-600:], text[:3000])

    def shrink(self, ctx, v, deadline):
        lang = v.get("lang")
        best = [v]
        stop = time.time() + (deadline - time.time()) * 0.9

        def fails(ch):
            try:
                r = self.run(ctx, v["task"], choices=list(ch), langset=(lang,))
            except Exception:
                ctx.fresh()
                return False
            for x in r.violations:
                if x.get("column") == v.get("column") and x.get("lang") == lang:
                    x["tape"] = list(ch)
                    best[0] = x
                    return True
            return False
        if lang and "tape" in v:
            shrink(v["tape"], fails, stop, time.time)
        best[0].setdefault("task", v["task"])
        return best[0]

    def replay(self, ctx, v):
        return self.run(ctx, v["task"], choices=v.get("tape"), langset=(v["lang"],) if v.get("lang") else None)
