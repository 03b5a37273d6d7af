import sys, common, os, re, time, json
from zsv import runner, rules
from zsv.gen import SchemaGen, GenFail
from zsv.model import *
from zsv.tape import Tape, shrink as tshrink

ERR = re.compile(r"^\[ERROR\] (.*?):(\d+):(\d+): (.*)$")


class Inject(Renderer):
    """renders one use of a symbol or one typed sub-expression wrongly"""
    def __init__(self, schema, pkg, mode, target, counter):
        Renderer.__init__(self, schema, pkg)
        self.mode = mode; self.target = target; self.counter = counter; self.done = None

    def hit(self):
        k = self.counter[0]
        self.counter[0] += 1
        return k == self.target

    def typename(self, d):
        if self.mode == "unknown" and self.hit():
            self.done = "type " + d.name
            return "Undefined12345"
        return d.name

    def expr(self, e, prec=0):
        if self.mode == "unknown" and e.k in ("fld", "par", "dotf", "dotp", "fn", "item"):
            if self.hit():
                self.done = e.k
                if e.k in ("dotf", "dotp"):
                    return Renderer.expr(self, e.a[0], 20) + ".undefined12345"
                if e.k == "fn":
                    return (Renderer.expr(self, e.a[0], 20) + "." if e.a[0] is not None else "") + "undefined12345()"
                if e.k == "item":
                    return e.a[0].name + ".UNDEFINED12345"
                return "undefined12345"
        if self.mode == "type" and e.t in ("int", "bool", "enum", "mask", "float"):
            if self.hit():
                self.done = e.t
                return {"int": '"x"', "bool": "5", "enum": "5", "mask": "5", "float": '"x"'}[e.t]
        return Renderer.expr(self, e, prec)


def render_bad(schema, mode, target):
    """(files or None, what, number of places)"""
    counter = [0]
    what = None
    files = {}
    for pkg, decls in schema.pkgs.items():
        r = Inject(schema, pkg, mode, target, counter)
        files[pkg.replace(".", "/") + ".zs"] = "\n".join(["package %s;\n" % pkg] + schema.imports.get(pkg, []) + [r.decl(d) for d in decls])
        what = what or r.done
    return files, what, counter[0]


MODEL_BADS = ["dupfield", "args", "opt", "arr", "constraint", "align", "case", "param"]


def model_bad(t, schema, mode):
    """changes one declaration of the schema for the worse; undo function, or None when there is no place"""
    comps = [d for d in schema.order if isinstance(d, Compound)]
    fields = [(d, f) for d in comps for f in d.fields]
    if mode == "dupfield":
        c = [d for d in comps if len(d.fields) > 1]
        if not c:
            return None
        d = t.pick(c); i = t.int(1, len(d.fields) - 1); f = d.fields[i]; old = f.name
        f.name = d.fields[t.int(0, i - 1)].name
        return lambda: setattr(f, "name", old)
    if mode == "param":
        c = [d for d in comps if d.params and d.fields]
        if not c:
            return None
        d = t.pick(c); f = t.pick(d.fields); old = f.name
        f.name = t.pick(d.params).name
        return lambda: setattr(f, "name", old)
    if mode == "args":
        c = [f for d, f in fields if f.ty.kind == "ref" and (f.ty.args or isinstance(f.ty.decl, Compound))]
        if not c:
            return None
        f = t.pick(c); old = f.ty.args
        k = t.raw(3) if old else 0
        f.ty.args = old + [lit(1)] if k == 0 else old[:-1] if k == 1 else [E("lit", "x", None, t="string")] * len(old)
        if k == 2 and any(q.ty.base().kind == "string" for q in f.ty.base().decl.params):
            f.ty.args = old[1:]
        return lambda: setattr(f.ty, "args", old)
    if mode == "opt":
        c = [f for d, f in fields if d.kind == "struct"]
        if not c:
            return None
        f = t.pick(c); old = f.opt
        f.opt = t.pick([lit(1), E("lit", "x", None, t="string"), E("lit", 1.5, "1.5", t="float")])
        return lambda: setattr(f, "opt", old)
    if mode == "constraint":
        f = t.pick(fields)[1] if fields else None
        if f is None:
            return None
        old = f.constraint
        f.constraint = t.pick([lit(1), E("lit", "x", None, t="string"), E("lit", 1.5, "1.5", t="float")])
        return lambda: setattr(f, "constraint", old)
    if mode == "arr":
        c = [f for d, f in fields if f.arr is not None]
        if not c:
            return None
        f = t.pick(c); old = f.arr
        f.arr = t.pick([lit(True), E("lit", "x", None, t="string"), E("lit", 1.5, "1.5", t="float")])
        return lambda: setattr(f, "arr", old)
    if mode == "align":
        c = [f for d, f in fields if d.kind == "struct"]
        if not c:
            return None
        f = t.pick(c); old = f.align
        f.align = t.pick(["-8", '"x"', "1.5", "true", "undefined12345", "8 - 9"])
        return lambda: setattr(f, "align", old)
    if mode == "case":
        c = [d for d in comps if isinstance(d, Choice) and d.cases]
        if not c:
            return None
        d = t.pick(c); i = t.raw(len(d.cases)); old = d.cases[i]
        others = [l for ls, _ in d.cases for l in ls]
        d.cases[i] = (list(old[0]) + [t.pick(others + [E("lit", "x", None, t="string")])], old[1])
        def undo():
            d.cases[i] = old
        return undo


class P16:
    PROPERTY = "P16"
    NEEDS = ("jar", "jrt", "jsrv")
    NTASKS = {"quick": 300, "thorough": 9000}
    RULE = ("a case is one compilation: a schema of several random declaration groups (optionally inside a random generated schema, over one "
            "to three packages) that must be accepted by all generators, and the same schema with exactly one rule broken at one place "
            "(%d declaration groups with their bad alternatives, random ill typed expressions, random constants just out of range, one "
            "random symbol use made unknown, one random sub-expression given another type, one declaration changed), which must be refused "
            "with an error at a position of the schema; non-trivial: the schema has a broken rule" % len(rules.RULE_TEXTS))
    ASSUMPTIONS = ["only rules stated in the language documentation or enforced with an error message are broken; the generator does not "
                   "claim that each documented restriction has a variant"]

    def tasks(self, tier, seed):
        return list(range(self.NTASKS[tier]))

    def plan(self, t, task):
        """(files, main, [(file, good block, [bad blocks], name)], schema)"""
        if task % 6 == 5:
            files, main, good, bads = rules.imports(t)
            return files, main, [(main, good, [good + x for x in bads], True)], None, t
        n = len(rules.RULE_TEXTS)
        k0 = task * 2 % n
        texts = [rules.RULE_TEXTS[k0], rules.RULE_TEXTS[(k0 + 1) % n]] + [t.pick(rules.RULES)(t) for _ in range(2)]
        texts += [t.pick(rules.RULE_TEXTS) for _ in range(t.int(0, 2))]
        schema = None
        if t.chance(45):
            try:
                schema = SchemaGen(t, {"ncompounds": (1, 3)}).gen()
            except GenFail:
                schema = None
        names = []
        if schema is not None:
            files = render(schema)
            main = schema.main.replace(".", "/") + ".zs"
            names = sorted(files)
            heads = {}
        else:
            npk = t.int(1, 3)
            pk = ["a", "lib.p1", "p2"][:npk]
            files = {}
            for i, p in enumerate(pk):
                files[p.replace(".", "/") + ".zs"] = "package %s;\n" % p + "".join("import %s.*;\n" % q for q in pk[i + 1:])
            names = sorted(files)
            main = "a.zs"
        blocks = []
        for i, x in enumerate(texts):
            g, bads = rules.instance(t, x, 70001 + 13 * i)
            blocks.append((t.pick(names), g, bads, i < 4))
        return files, main, blocks, schema, t

    def assemble(self, files, blocks, bad=None):
        out = dict(files)
        for i, (f, g, bads, _) in enumerate(blocks):
            out[f] += "\n" + (bads[bad[1]] if bad and bad[0] == i else g) + "\n"
        return out

    def compile(self, ctx, files, main, gens):
        pr = ctx.worker.project()
        try:
            pr.write(files)
            ok, out = pr.compile(main, langs_=gens, opts=("-allowImplicitArrays",))
            left = [os.path.join(r, x) for g in ("py", "java", "cpp") for r, d, fs in os.walk(os.path.join(pr.dir, g)) for x in fs]
            return ok, out.replace(pr.dir + "/zs/", ""), left
        finally:
            pr.clean()

    def judge_bad(self, res, task, files, main, gens, ok, out, left, name, what):
        """the broken schema must be refused with a position"""
        info = dict(task=task, schema="\n".join("// %s\n%s" % x for x in sorted(files.items())), main=main, files=files, gens=list(gens), broken=name)
        if ok:
            res.violate("accepted although %s: %s" % (what, name[:200]), column="accepted", observed=out[-400:], **info)
            return
        errs = [m for m in map(ERR.match, out.split("\n")) if m]
        if "Internal error" in out or not errs:
            res.violate("no proper error although %s: %s" % (what, name[:200]), column="internal", observed=out[-1500:], **info)
            return
        for m in errs:
            f, l = m.group(1), int(m.group(2))
            if f not in files or not 1 <= l <= files[f].count("\n") + 1:
                res.violate("error position outside of the schema: %s" % m.group(0)[:200], column="position", observed=out[-1500:], **info)
                return
        if left:
            res.violate("rejected schema left generated files: %s" % left[:3], column="left", observed=out[-400:], **info)
            return
        res.count("refused: " + re.sub(r"'[^']*'|[0-9]+", "_", errs[-1].group(4))[:70])

    def run(self, ctx, task, choices=None, only=None):
        res = runner.Result()
        t = Tape(choices=choices) if choices is not None else Tape((ctx.seed, "P16", task))
        files, main, blocks, schema, t = self.plan(t, task)
        allgens = [("python", "java", "cpp"), ("python",), ("java",), ("cpp",)]
        good = self.assemble(files, blocks)
        if only is None or only == "good":
            ok, out, left = self.compile(ctx, good, main, allgens[task % 4 if task % 3 else 0])
            res.case(("good", sorted(good.items())), False, {"accepted": good[main][-300:]})
            if not ok:
                res.violate("valid schema refused: " + out[-300:], column="refused", observed=out[-1500:], task=task,
                            schema="\n".join("// %s\n%s" % x for x in sorted(good.items())), files=good, main=main, only="good")
                self.tape(res, t)
                return res
        for i, (f, g, bads, use) in enumerate(blocks):
            if not use:
                continue
            for j in range(len(bads)):
                if only not in (None, (i, j)):
                    continue
                fs = self.assemble(files, blocks, (i, j))
                if fs == good:
                    continue
                gens = allgens[t.raw(4)] if only is None else allgens[1]
                ok, out, left = self.compile(ctx, fs, main, gens)
                res.case(("bad", sorted(fs.items())), True, {"broken": bads[j][-300:], "error": out[-120:]})
                nv = len(res.violations)
                self.judge_bad(res, task, fs, main, gens, ok, out, left, bads[j], "a rule is broken")
                for v in res.violations[nv:]:
                    v["only"] = [i, j]
        if schema is not None and only is None:
            for mode in ("unknown", "type", "unknown", "type"):
                n = render_bad(schema, mode, -1)[2]
                if not n:
                    continue
                fs, what, _ = render_bad(schema, mode, t.raw(n))
                if what:
                    ok, out, left = self.compile(ctx, fs, main, ("java",))
                    res.case(("inject", sorted(fs.items())), True)
                    self.judge_bad(res, task, fs, main, ("java",), ok, out, left, what, "one %s is made %s" % (what, {"unknown": "unknown", "type": "ill typed"}[mode]))
            for mode in (t.pick(MODEL_BADS), t.pick(MODEL_BADS)):
                undo = model_bad(t, schema, mode)
                if undo is None:
                    continue
                fs = render(schema)
                undo()
                ok, out, left = self.compile(ctx, fs, main, ("cpp",))
                res.case(("model", sorted(fs.items())), True)
                self.judge_bad(res, task, fs, main, ("cpp",), ok, out, left, mode, "a declaration is wrong")
        self.tape(res, t)
        return res

    def tape(self, res, t):
        for v in res.violations:
            v["tape"] = t.out

    def judge_files(self, ctx, v, files):
        r = runner.Result()
        ok, out, left = self.compile(ctx, files, v["main"], v.get("gens", ("java",)))
        if v["column"] == "refused":
            return None if ok else dict(v, files=files, observed=out[-1500:])
        self.judge_bad(r, v["task"], files, v["main"], v["gens"], ok, out, left, v["broken"], "a rule is broken")
        return r.violations[0] if r.violations and r.violations[0]["column"] == v["column"] else None

    def shrink(self, ctx, v, deadline):
        """drops declarations that are not needed for the refusal of a valid schema; other reports keep their schema (it is the witness)"""
        return v

    def replay(self, ctx, v):
        r = runner.Result()
        x = self.judge_files(ctx, v, v["files"])
        if x:
            r.violations.append(x)
        return r


if __name__ == "__main__":
    sys.exit(runner.main(P16()))
