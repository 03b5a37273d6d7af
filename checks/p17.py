import sys, os, shutil, subprocess, common
from zsv import runner, codec, engine, extras, build
from zsv.tape import Tape
from zsv.gen import GenFail
from zsv.model import render

GENS = ("python", "java", "cpp", "xml", "doc")
STAMPED = ("python", "java", "cpp")
OPTS = ["-withTypeInfoCode", "-withValidationCode", "-withRangeCheckCode", "-withoutWriterCode", "-withoutPubsubCode", "-withoutServiceCode",
        "-withoutSqlCode", "-withCodeComments", "-withReflectionCode", "-withParsingInfoCode", "-withoutSourcesAmalgamation",
        "-setCppAllocator polymorphic"]
LOCALES = (("tr", "TR"), ("ar", "EG"), ("de", "DE"), ("hi", "IN"), ("fa", "IR"), ("en", "US"))
BASE = 1_900_000_000         # modification times of this run (seconds); far after those of the compiler itself


def options(t):
    os_ = [o for o in OPTS if t.chance(25)]
    if "-withoutWriterCode" in os_:
        os_ = [o for o in os_ if o not in ("-withRangeCheckCode", "-withValidationCode")]
    if "-withReflectionCode" in os_ and "-withTypeInfoCode" not in os_:
        os_.append("-withTypeInfoCode")
    return ["-allowImplicitArrays"] + [y for x in os_ for y in x.split(" ")]


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def mtimes(d):
    return {os.path.relpath(os.path.join(r, f), d): os.stat(os.path.join(r, f)).st_mtime_ns for r, _, fs in os.walk(d) for f in fs}


def stamp(d, t):
    for r, _, fs in os.walk(d):
        for f in fs:
            os.utime(os.path.join(r, f), ns=(t, t))


def sub(g):
    return {"python": "py"}.get(g, g)


def diff(a, b):
    """first difference of two trees"""
    for n in sorted(set(a) | set(b)):
        if n not in a:
            return n, "no such file", "a file"
        if n not in b:
            return n, "a file", "no such file"
        if a[n] != b[n]:
            x = a[n].split(b"\n"); y = b[n].split(b"\n")
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return "%s:%d" % (n, i + 1), p.decode("utf-8", "replace")[:300], q.decode("utf-8", "replace")[:300]
            return n, "%d lines" % len(x), "%d lines" % len(y)
    return None


class P17:
    PROPERTY = "P17"
    NEEDS = ("jar", "jsrv", "jrt")
    N = {"quick": 64, "thorough": 900}
    ASSUMPTIONS = ["a source file counts as changed when its modification time is not before that of the outputs (the documented criterion)",
                   "svg output needs the tool dot, which is not installed"]
    RULE = ("a case is one run of the compiler over a random schema (values, services, pubsubs, tables, rules, comments; one to three packages) "
            "with random options: a second run elsewhere, generators alone and in other combinations, another process with another working "
            "directory, locale, encoding, time zone and identity hash codes, runs over existing outputs with older, equal and newer time stamps, "
            "after edits of a main or imported file, with other options, with deleted outputs; every generator's files have to equal those of a "
            "fresh run, and current files have to stay untouched; non-trivial: distinct (schema, step) with at least 4 files compared")

    def tasks(self, tier, seed):
        return list(range(self.N[tier]))

    def schema(self, seed, task, choices=None):
        s, out = codec.gen_schema(choices if choices is not None else (seed, "P17", task))
        extras.add_extras(Tape((seed, "P17e", task)), s, services=1, pubsubs=1, tables=2)
        return s, out

    def run(self, ctx, task, choices=None):
        res = runner.Result()
        try:
            s, out = self.schema(ctx.seed, task, choices)
        except GenFail:
            return res
        t = Tape((ctx.seed, "P17t", task))
        files = render(s)
        main = engine.main_file(s)
        opts = options(t)
        pr = ctx.worker.project()
        self.t0 = BASE * 10**9
        try:
            self.history(ctx, res, t, s, files, main, opts, pr, task)
        finally:
            pr.clean()
        for v in res.violations:
            v["tape"] = out
        return res

    def compile(self, pr, main, gens, opts, prefix, sub="zs"):
        ok, out = pr.compile(main, langs_=gens, opts=opts, prefix=prefix, sub=sub)
        return ok, out

    def trees(self, pr, prefix, gens):
        return {g: tree(os.path.join(pr.dir, prefix + sub(g))) for g in gens}

    def compare(self, res, step, want, got, files, opts, task, gens=GENS, extra_ok=False):
        bad = False
        for g in gens:
            a, b = want[g], got[g]
            if extra_ok:
                b = {n: x for n, x in b.items() if n in a}
            d = diff(a, b)
            n = len(a)
            res.case((hash(str(sorted(files.items()))), step, g, tuple(opts)), n >= 4,
                     {"step": step, "generator": g, "files": n, "options": " ".join(opts)[:200]} if n >= 4 else None, ["%s: %s" % (step, g)])
            if d and not bad:
                res.violate("%s: output of the %s generator differs (%s)" % (step, g, d[0]), column=step, lang=g, expected=d[1], observed=d[2],
                            request="options: " + " ".join(opts), schema="\n".join("// %s\n%s" % x for x in sorted(files.items())), task=task)
                bad = True
        return not bad

    def history(self, ctx, res, t, s, files, main, opts, pr, task):
        pr.write(files)
        zs = os.path.join(pr.dir, "zs")
        now = self.t0
        stamp(zs, now)
        ok, out = self.compile(pr, main, GENS, opts, "a-")
        if not ok:
            res.count("not accepted")
            return
        res.count("schemas")
        want = self.trees(pr, "a-", GENS)

        def check(step, prefix, w=want, gens=GENS, extra_ok=False, o=None, f=None):
            return self.compare(res, step, w, self.trees(pr, prefix, gens), f or files, o or opts, task, gens, extra_ok)

        def comp(prefix, gens=GENS, o=None, sub="zs"):
            ok, out = self.compile(pr, main, gens, o or opts, prefix, sub)
            if not ok:
                res.violate("compiler refuses what it accepted before", column="refused", lang=None, expected="accepted", observed=out[-800:],
                            request=prefix, schema="\n".join("// %s\n%s" % x for x in sorted(files.items())), task=task)
            return ok
        # 1: the same again elsewhere, the files written in another order
        names = list(files)
        names.reverse()
        pr.write({n: files[n] for n in names}, sub="other place/zs2")
        stamp(os.path.join(pr.dir, "other place"), now + 5 * 10**9)
        if not comp("b-", sub="other place/zs2") or not check("again elsewhere", "b-"):
            return
        # 2: each generator alone or in other company
        for i, g in enumerate(GENS):
            others = [x for x in GENS if x != g and t.chance(30)]
            gens = tuple(others + [g]) if t.chance(50) else (g,)
            if not comp("c%d-" % i, gens) or not check("other generators beside", "c%d-" % i, gens=gens):
                return
        # 3: another process
        if not self.process(res, t, s, files, main, opts, pr, zs, check):
            return
        # 4: over an output which is up to date
        new = now + 3600 * 10**9
        for g in GENS:
            stamp(os.path.join(pr.dir, "a-" + sub(g)), new)
        before = {g: mtimes(os.path.join(pr.dir, "a-" + sub(g))) for g in STAMPED}
        if not comp("a-") or not check("over a newer output", "a-"):
            return
        for g in STAMPED:
            after = mtimes(os.path.join(pr.dir, "a-" + sub(g)))
            touched = [n for n in before[g] if after.get(n) != before[g][n]]
            res.case((hash(str(sorted(files.items()))), "kept", g), len(before[g]) >= 4, None, ["up to date files kept: " + g])
            if touched:
                res.violate("up to date output of the %s generator is written again: %s" % (g, touched[0]), column="kept", lang=g, expected="not regenerated",
                            observed="regenerated", request="options: " + " ".join(opts), schema="\n".join("// %s\n%s" % x for x in sorted(files.items())), task=task)
                return
        # 5: ignoreTimestamps, and damaged files which are not newer
        kind = t.pick(["-ignoreTimestamps", "equal", "older", "deleted"])
        o = opts
        dirs = [os.path.join(pr.dir, "a-" + sub(g)) for g in STAMPED]
        victims = []
        for d in dirs:
            fs = sorted(mtimes(d))
            if fs:
                victims.append(os.path.join(d, t.pick(fs)))
        if kind == "deleted":
            # amalgamated C++ sources belong together: the file as a whole is made again
            for v in victims:
                os.remove(v)
        else:
            for v in victims:
                with open(v, "ab") as h:
                    h.write(b"// damaged\n")
            if kind == "-ignoreTimestamps":
                o = opts + ["-ignoreTimestamps"]
                for d in dirs:
                    stamp(d, new)
            else:
                for d in dirs:
                    stamp(d, now if kind == "equal" else now - 10**9 * t.pick([1, 100, 10000]))
        if not comp("a-", o=o) or not check("outputs " + kind, "a-"):
            return
        # 6: other options over a newer output
        for g in GENS:
            stamp(os.path.join(pr.dir, "a-" + sub(g)), new)
        opts2 = options(t)
        if not comp("d-", o=opts2):
            return
        want2 = self.trees(pr, "d-", GENS)
        if not comp("a-", o=opts2) or not check("other options over a newer output", "a-", want2, extra_ok=True, o=opts2):
            return
        # 7: an edit of one file
        for g in GENS:
            stamp(os.path.join(pr.dir, "a-" + sub(g)), new)
        f2 = dict(files)
        n = t.pick(sorted(files))
        k = t.raw(4)
        if k == 0:
            f2[n] = f2[n] + "\nstruct ZqAddedType { uint8 a; };\n"
        elif k == 1:
            f2[n] = f2[n] + "\nconst uint8 ZQ_ADDED = 3;\n/** doc */\nsubtype uint8 ZqAddedSub;\n"
        else:
            # another value in the text: numbers are not changed, a further field is
            i = f2[n].find("\nstruct ")
            j = f2[n].find("\n{", i) if i >= 0 else -1
            if j >= 0:
                f2[n] = f2[n][:j + 2] + "\n    uint8 zqAddedField;" + f2[n][j + 2:]
            else:
                f2[n] = f2[n] + "\nstruct ZqAddedType { uint8 a; };\n"
        pr.write({n: f2[n]})
        edited = new if t.chance(40) else new + t.pick([10**6, 10**9, 10**12])
        os.utime(os.path.join(zs, n), ns=(edited, edited))
        ok, out = self.compile(pr, main, GENS, opts2, "e-")
        if not ok:
            res.count("edit refused")
            return
        want3 = self.trees(pr, "e-", GENS)
        if not comp("a-", o=opts2):
            return
        check("after an edit" + (" in the same instant" if edited == new else ""), "a-", want3, extra_ok=True, o=opts2, f=f2)

    def process(self, res, t, s, files, main, opts, pr, zs, check):
        lang, country = t.pick(LOCALES)
        if os.path.exists(pr.dir + "/cli"):
            shutil.rmtree(pr.dir + "/cli")
        cwd = pr.dir + "/cli/in side"
        os.makedirs(cwd)
        src = os.path.relpath(zs, cwd) if t.chance(50) else zs
        rel = t.chance(50)
        args = []
        for g in GENS:
            o = pr.dir + "/f-" + sub(g)
            args += ["-" + g, os.path.relpath(o, cwd) if rel else o]
        enc = t.pick(["UTF-8", "ISO-8859-1", "US-ASCII"])
        cmd = ["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx600m", "-XX:+UnlockExperimentalVMOptions",
               "-XX:hashCode=%d" % t.pick([0, 1, 2, 3, 5]), "-Duser.language=" + lang, "-Duser.country=" + country, "-Dfile.encoding=" + enc,
               "-Duser.timezone=" + t.pick(["UTC", "Asia/Kolkata", "America/St_Johns"]), "-cp", build.jar() + ":" + build.jarpath(),
               "zserio.tools.ZserioTool", "-src", src] + args + opts + [main]
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode != 0:
            res.violate("compiler refuses in another process what it accepted before", column="process", lang=None, expected="accepted",
                        observed=p.stdout.decode("utf-8", "replace")[-1500:], request=" ".join(cmd)[-1500:],
                        schema="\n".join("// %s\n%s" % x for x in sorted(files.items())), task=0)
            return False
        res.count("locale " + lang); res.count("encoding " + enc)
        return check("another process", "f-")

    def shrink(self, ctx, v, deadline):
        return v

    def replay(self, ctx, v):
        return self.run(ctx, v["task"], choices=v.get("tape"))


if __name__ == "__main__":
    sys.exit(runner.main(P17()))
