"""P30: code generated from every accepted schema compiles and loads."""
import sys, common, os, re, subprocess
from zsv import runner, codec, engine, equiv, extras, names, build, langs
from zsv.gen import GenFail
from zsv.exprgen import ExprGen
from zsv.tape import Tape
from zsv.model import *
import p26

LANGS = ("python", "java", "cpp")
# text of documentation comments which means something in the generated sources
DOCS = ["C:\\users", "\\x", "\\N{dash}", '\\"', '""" text', "\'\'\'", "%s %d", "${name}", "<#if a>", "// no comment", "/* no comment", "\\u12", "\\u0022", "<b>&amp;", "\u00e9\u6f22", "#define X",
        "??/", "??>", "{@code x}", "@Override", "\\endcode", "`a`", "::", "%1$s", "\\\\", "R\"(x)\"", "0\\"]
FULL = ("-withTypeInfoCode", "-withReflectionCode", "-withRangeCheckCode", "-withValidationCode", "-withParsingInfoCode")
IMPORTER = r"""
import sys, os, importlib, traceback
root = sys.argv[1]
sys.path.insert(0, root)
bad = []
n = 0
for d, ds, fs in sorted(os.walk(root)):
    ds.sort()
    for f in sorted(fs):
        if not f.endswith(".py"):
            continue
        rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
        if rel.endswith("__init__"):
            rel = rel[:-9]
            if not rel:
                continue
        n += 1
        try:
            importlib.import_module(rel)
        except BaseException as e:
            bad.append("%s: %s: %s" % (rel, type(e).__name__, e))
print(n)
print("\n".join(bad[:5]))
"""


def load(pr, lang, prefix=""):
    """None when the generated code of the language compiles and loads; the error otherwise"""
    if lang == "python":
        p = subprocess.run([build.VENV_PY, "-B", "-c", IMPORTER, pr.dir + "/%spy" % prefix], cwd=pr.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                           env={"PYTHONPATH": build.PYRT, "PATH": os.environ["PATH"], "ZSERIO_PYTHON_IMPLEMENTATION": "python"})
        out = p.stdout.decode("utf-8", "replace").split("\n", 1)
        if p.returncode or not out[0].isdigit():
            return ("\n".join(out) + p.stderr.decode("utf-8", "replace"))[-2000:]
        return out[1].strip() or None
    if lang == "java":
        ok, out = pr.javac(prefix)
        return None if ok else out
    ok, out = pr.build_cpp(None, [], extra_src="int main() { return 0; }\n", flags=("-fsyntax-only",), prefix=prefix)
    return None if ok else out


def error_class(lang, out):
    """the kind of the first error, without the names of this schema"""
    for l in out.split("\n"):
        m = re.search(r"error: (.*)", l) if lang != "python" else re.search(r": (\w+: .*)", l)
        if m:
            return re.sub(r"‘[^’]*’|'[^']*'|\d+", "_", m.group(1))[:100]
    return out[:80]


def hostile_docs(t, text):
    return re.sub(r"/\*\* (?=\w)", lambda m: m.group() + (t.pick(DOCS) + " " if t.chance(40) else ""), text)


# known findings: what they hit is kept out of the judgement
STRING_ARG = re.compile(r'\b(?!topic\b|valueof\b|numbits\b|lengthof\b|isset\b|sql\b)\w+\s*\((?:[^()";{}]|\([^()]*\))*"')
CSTDINT = re.compile(r"(u?int(8|16|32|64)_t|size_t)$")


def excluded(lang, slot, name):
    if lang == "cpp" and CSTDINT.match(name):
        return True
    return lang == "python" and slot.startswith("col") and re.match(r"_.*_$", name)


class P30:
    PROPERTY = "P30"
    NEEDS = ("java", "python", "cpp")
    RULE = ("a case is one language of one accepted schema: its generated Python modules are imported, its Java sources compiled with javac, its C++ sources with "
            "the C++ compiler; the schemas are random schemas with every construct (also random expressions, services, pubsub, SQL tables, documentation, rule groups) generated with random options, many of them in other words (templates, nested templates, subtypes, qualified names), "
            "and one shape which uses every construct, some of its identifiers replaced by hostile names (keywords, names used in generated code, variants of other names); "
            "non-trivial: distinct, and the schema is accepted for the language")
    ASSUMPTIONS = ["a refusal by the compiler decides nothing here"]
    N = {"quick": (60, 120), "thorough": (1200, 3000)}

    def tasks(self, tier, seed):
        a, b = self.N[tier]
        return [("schema", i) for i in range(a)] + [("names", i) for i in range(b)]

    def run(self, ctx, task):
        res = runner.Result()
        if task[0] == "schema":
            self.schema(ctx, task, res)
        else:
            self.names(ctx, task, res)
        return res

    def judge(self, ctx, res, files, main, opts, lang, pr, task, prefix="", **info):
        out = load(pr, lang, prefix)
        if out is None:
            return True
        res.violate("%s code of an accepted schema does not compile" % lang, lang=lang, column=error_class(lang, out), expected="compiles", observed=out[:2500],
                    files=files, main=main, opts=list(opts), task=task, **info)
        return False

    def schema(self, ctx, task, res):
        t = Tape((ctx.seed, "P30", task[1]))
        try:
            if task[1] % 3 == 2:
                schema = ExprGen(Tape((ctx.seed, "P30e", task[1]))).gen()
            else:
                schema, _ = codec.gen_schema((ctx.seed, "P30s", task[1]), {"recursion": 20})
                self.recursive_subtypes(t, schema, res)
            extras.add_extras(t, schema, services=t.raw(3), pubsubs=t.raw(3), tables=t.raw(4))
        except GenFail:
            res.count("schema generation gave up")
            return
        opts = list(FULL)
        if t.chance(70):
            opts = p26.combo(t)[0]
        opts = [o for o in opts if o not in ("-withGlobalRuleIdCheck",)]
        opts.append("-allowImplicitArrays")
        if t.chance(50) and "-withCodeComments" not in opts:
            opts = [o for o in opts if o != "-withoutCodeComments"] + ["-withCodeComments"]
        files = render(schema)
        if t.chance(40):        # the same types in other words: templates, subtypes, qualified names
            equiv.add_pairs(t, schema)
            plain, alts, stats = equiv.rewrite(t, schema)
            for k, n in stats.items():
                res.count("written with " + k, n)
            files = plain if alts is None or self.refused(ctx, alts, engine.main_file(schema)) else alts
        files = {f: hostile_docs(t, x) for f, x in files.items()}
        self.one(ctx, res, files, engine.main_file(schema), opts, task)

    def recursive_subtypes(self, t, schema, res):
        for d in list(schema.order):
            for f in getattr(d, "fields", ()):
                if getattr(f, "recursive", False) and f.ty.decl is d and t.chance(50):
                    f.ty = ref(schema.add(Subtype("Rec%sQ" % d.name, f.ty), d.pkg))
                    if t.chance(30):
                        f.ty = ref(schema.add(Subtype("Rec2%sQ" % d.name, f.ty), d.pkg))
                    res.count("recursive by a subtype")

    def refused(self, ctx, files, main):
        pr = ctx.worker.project()
        try:
            pr.write(files)
            return not pr.compile(main, ("python",), opts=["-allowImplicitArrays"])[0]
        finally:
            pr.clean()

    def one(self, ctx, res, files, main, opts, task):
        pr = ctx.worker.project()
        try:
            pr.write(files)
            o2 = [a.replace("%XML%", pr.dir + "/xml").replace("%DOC%", pr.dir + "/doc") for a in opts]
            for lang in LANGS:
                ok, out = pr.compile(main, (lang,), opts=o2)
                if not ok:
                    res.count("refused: " + lang)
                    res.case((files, tuple(opts), lang), False)
                    continue
                res.case((files, tuple(opts), lang), True, {"language": lang, "options": " ".join(opts), "schema": max(files.values(), key=len)[:400]})
                if lang == "cpp" and any(STRING_ARG.search(x) for x in files.values()):
                    res.count("known finding cpp-string-arg")
                    continue
                for x in opts:
                    if x[0] == "-":
                        res.count("option " + x)
                self.judge(ctx, res, files, main, opts, lang, pr, task)
        finally:
            pr.clean()

    def names(self, ctx, task, res):
        t = Tape((ctx.seed, "P30n", task[1]))
        base = names.plain()
        hs = names.hostile(t, base, t.pick([1, 3, 6, 10]))
        opts = list(FULL) if t.chance(70) else []
        if t.chance(30):
            opts += ["-setTopLevelPackage", t.pick(["appl", "top.x1", "std_", "zs"])]
        for lang in LANGS:
            self.attempt(ctx, res, lang, base, hs, opts, task)

    def attempt(self, ctx, res, lang, base, hs, opts, task):
        todo = [x for x in hs if not excluded(lang, *x)]
        while todo:
            pr = ctx.worker.project()
            try:
                n = dict(base)
                n.update(todo)
                main, files = names.files(n)
                pr.write(files)
                ok, out = pr.compile(main, (lang,), opts=opts)
                if not ok:
                    e = [l for l in out.split("\n") if "[ERROR]" in l]
                    e = e[0] if e else out
                    hit = [x for x in todo if re.search(r"'(\w+\.)*%s'" % re.escape(x[1]), e)] or [x for x in todo if x[1].lower().replace("_", "") in e.lower().replace("_", "")]
                    todo.remove(hit[0] if hit else todo[-1])
                    res.count("names refused: " + lang)
                    continue
                res.case((lang, tuple(todo), tuple(opts)), True, {"language": lang, "names": todo})
                res.count("names accepted: " + lang, len(todo))
                err = load(pr, lang)
                if err is None:
                    return
            finally:
                pr.clean()
            # the smallest set of names
            small = self.reduce(ctx, lang, base, todo, opts)
            n = dict(base)
            n.update(small)
            main, files = names.files(n)
            key = ",".join("%s=%s" % x for x in small)
            res.violate("%s code of an accepted schema does not compile: %s" % (lang, key), lang=lang, column="name %s: %s" % (key, error_class(lang, err)), expected="compiles, or refused",
                        observed=err[:2500], files=files, main=main, opts=opts, task=task, names=small)
            todo = [x for x in todo if x not in small]

    def reduce(self, ctx, lang, base, todo, opts):
        cur = list(todo)
        for x in list(todo):
            if len(cur) > 1:
                c = [y for y in cur if y != x]
                if self.fails(ctx, lang, base, c, opts):
                    cur = c
        return cur

    def fails(self, ctx, lang, base, todo, opts):
        n = dict(base)
        n.update(todo)
        main, files = names.files(n)
        return self.broken(ctx, files, main, opts, lang)

    def broken(self, ctx, files, main, opts, lang):
        pr = ctx.worker.project()
        try:
            pr.write(files)
            ok, _ = pr.compile(main, (lang,), opts=[a.replace("%XML%", pr.dir + "/xml").replace("%DOC%", pr.dir + "/doc") for a in opts])
            return load(pr, lang) if ok else None
        finally:
            pr.clean()

    KNOWN = {
        "cpp-string-arg": ("cpp", "a/a.zs", "package a.a;\nstruct P(string s) { uint8 x : lengthof(s) > 1; };\nstruct S { P(\"abc\") p; };\n"),
        "cpp-cstdint-name": ("cpp", "a/size_t.zs", "package a.size_t;\nstruct S { uint8 x; };\n"),
        "py-sunder-column": ("python", "a.zs", "package a;\nsql_table T { uint32 _x_; };\n"),
    }

    def probe(self, ctx, f):
        lang, main, text = self.KNOWN[f["key"]]
        return self.broken(ctx, {main: text}, main, ["-withRangeCheckCode"], lang) is not None

    def replay(self, ctx, v):
        res = runner.Result()
        e = self.broken(ctx, v["files"], v["main"], v["opts"], v["lang"])
        if e:
            res.violate("%s code of an accepted schema does not compile" % v["lang"], lang=v["lang"], column=v["column"], observed=e[:2500])
        return res


if __name__ == "__main__":
    sys.exit(runner.main(P30()))
