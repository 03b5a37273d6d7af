"""P26: generator options do not change data, and switch exactly their feature."""
import sys, common, os
from zsv import runner, codec, refcodec, langs, engine, extras
from zsv.gen import GenFail
from zsv.tape import Tape
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous

ON_OFF = ("RangeCheckCode", "TypeInfoCode", "ParsingInfoCode", "CodeComments", "SourcesAmalgamation", "PubsubCode", "ServiceCode", "SqlCode",
          "ValidationCode", "CrossExtensionCheck", "GlobalRuleIdCheck")
# what is generated without any option (help of the compiler)
DEFAULTS = {"PubsubCode": True, "ServiceCode": True, "SqlCode": True, "RangeCheckCode": False, "TypeInfoCode": False, "ParsingInfoCode": False,
            "ReflectionCode": False, "WriterCode": True, "CodeComments": False}


def combo(t):
    """(options, set of features switched on, top level package)"""
    o = []
    on = dict(DEFAULTS)
    ro = t.chance(20)
    for n in ON_OFF:
        k = t.raw(3)
        if ro and n in ("RangeCheckCode", "ValidationCode", "PubsubCode", "ServiceCode", "SqlCode"):
            k = min(k, 1)
        if k == 1:
            o.append("-without" + n); on[n] = False
        elif k == 2:
            o.append("-with" + n); on[n] = True
    if ro:
        o.append("-withoutWriterCode")
        for n in ("WriterCode", "PubsubCode", "ServiceCode"):
            on[n] = False
        if t.chance(50):
            o.append("-withSettersCode")
    elif t.chance(30):
        o.append("-withWriterCode")
    if on["TypeInfoCode"] and t.chance(60):
        o.append("-withReflectionCode"); on["ReflectionCode"] = True
    k = t.raw(4)
    if k == 3:
        o += ["-setCppAllocator", "std"]
    elif k:
        o += ["-setCppAllocator", "polymorphic"]
    top = t.pick(["", "", "", "appl", "zs_top.x1"])
    if top:
        o += ["-setTopLevelPackage", top]
    k = t.raw(4)
    if k > 1:
        o += ["-with%sWarnings" % ("out" if k == 2 else ""), t.pick(["all", "unused", "doc-comment-missing"])]
    if t.chance(15):
        o += ["-xml", "%XML%"]
    if t.chance(15):
        o += ["-doc", "%DOC%"]
    if t.chance(20):
        o.append("-ignoreTimestamps")
    return t.shuffled_pairs(o) if hasattr(t, "shuffled_pairs") else o, on, top


class P26(codec.SchemaCheck):
    PROPERTY = "P26"
    NSCHEMAS = {"quick": 56, "thorough": 1200}
    NVALS = 4
    STARTS = (0, 5, 8, 3)
    NCOMBO = 2
    RULE = ("a case is one random value of a root type of a random schema, written and read by the Python, Java and C++ code generated with one "
            "random combination of the options (range checks, type info, reflection, parsing info, comments, amalgamation, writer and setters "
            "code, allocator, top level package, other outputs, warnings and checks): bytes, sizes, positions, dumps and, where enabled, the parsing "
            "information of every compound have to be those of the reference codec, and the generated sources have to contain the optional "
            "feature exactly if it is on; non-trivial: distinct and more than 8 bits")
    ASSUMPTIONS = ["code generated without range checks is only given values in range", "schemas whose generated code does not compile with any options are decided by P30"]

    def features(self, res, b, on, opts, extra, task, schema):
        def fail(what, e, g):
            res.violate("%s: %s" % (what, opts), lang=what.split()[0], column="feature " + what, expected=e, observed=g, schema=codec.schema_text(schema), task=task)
        text = {}
        names = {}
        for lang, ends in (("java", (".java",)), ("py", (".py",)), ("cpp", (".cpp", ".h"))):
            w = []; ns = set()
            root = os.path.join(b.pr.dir, lang)
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(ends):
                        ns.add(f.rsplit(".", 1)[0])
                        w.append(open(os.path.join(d, f), encoding="utf-8").read())
            text[lang] = "\n".join(w); names[lang] = ns
        token = {"TypeInfoCode": {"java": "typeInfo()", "py": "def type_info()", "cpp": "typeInfo()"},
                 "ParsingInfoCode": {"cpp": "& parsingInfo() const;"},
                 "ReflectionCode": {"cpp": " reflectable(const allocator_type"},
                 "WriterCode": {"java": "void write(", "py": "def write(", "cpp": "void write(::zserio::BitStreamWriter& out) const;"},
                 "CodeComments": {"java": "@param", "py": ":returns: Number of bits", "cpp": "\\param"}}
        for feat, m in token.items():
            if feat == "WriterCode" and not any(isinstance(d, Compound) for d in schema.order):
                continue
            for lang, tok in m.items():
                if not names[lang]:
                    continue            # not generated
                if feat == "CodeComments" and not any(isinstance(d, Struct) and d.fields for d in schema.order):
                    continue
                if (tok in text[lang]) != on[feat]:
                    fail("%s %s" % (lang, feat), "generated" if on[feat] else "not generated", "present" if tok in text[lang] else "absent")
                res.count("feature looked for")
        for d in extra:
            feat = {"Service": "ServiceCode", "Pubsub": "PubsubCode", "Table": "SqlCode", "Database": "SqlCode"}.get(type(d).__name__)
            if feat:
                for lang in names:
                    n = langs.snake(d.name) if lang == "py" else d.name
                    if lang == "cpp" and on.get("SourcesAmalgamation"):
                        pass
                    if (n in names[lang]) != on[feat]:
                        fail("%s %s %s" % (lang, feat, "file"), "generated" if on[feat] else "not generated", "%s %s" % (n, sorted(names[lang])))
                    res.count("feature looked for")

    def run(self, ctx, task, choices=None, langset=None):
        res = runner.Result()
        try:
            schema, out = self.schema_for(ctx.seed, task, choices)
        except GenFail:
            res.count("schema generation gave up")
            return res
        cases = self.cases(schema, ctx.seed, task)
        if not cases:
            res.count("schemas without cases")
            return res
        t = Tape((ctx.seed, "P26o", task))
        pkgs = [(d, d.pkg) for d in schema.order]
        base = codec.Bundle(ctx.worker, schema, ("-withRangeCheckCode",), langset or self.LANGSET)
        try:
            good = set(base.langs)
        finally:
            base.close()
        for k in range(self.NCOMBO):
            opts, on, top = combo(t)
            files = render(schema)
            x = Tape((ctx.seed, "P26x", task, k))
            extra = []
            tail = ""
            if k == 0 and choices is None:
                # the optional outputs are looked at with a schema which has all of them; it is not built
                s2, _ = codec.gen_schema((ctx.seed, "P26e", task), self.profile(task))
                try:
                    extra = extras.add_extras(x, s2, services=1, pubsubs=1, tables=1)
                except GenFail:
                    extra = []
                if extra:
                    pr = ctx.worker.project()
                    try:
                        pr.write(render(s2))
                        o2 = [a.replace("%XML%", pr.dir + "/xml").replace("%DOC%", pr.dir + "/doc") for a in opts]
                        ok, outp = pr.compile(engine.main_file(s2), opts=tuple(o2) + ("-allowImplicitArrays",))
                        if not ok:
                            res.violate("refused with %s" % opts, lang=None, column="refused", expected="accepted", observed=outp[-1500:], schema=codec.schema_text(s2), task=task)
                        else:
                            class B: pass
                            b2 = B(); b2.pr = pr
                            self.features(res, b2, on, opts, extra, task, s2)
                    finally:
                        pr.clean()
            for d, p in pkgs:
                d.pkg = top + "." + p if top else p
            schema.readonly = not on["WriterCode"]
            schema.pinfo = on["ParsingInfoCode"]
            try:
                o2 = [a.replace("%XML%", ctx.worker.dir + "/xml").replace("%DOC%", ctx.worker.dir + "/doc") for a in opts]
                ls = langset or self.LANGSET
                if not on["WriterCode"] and "-withSettersCode" not in opts and any(f.extended and refcodec.is_compound(f.ty.base()) for d in schema.order for f in getattr(d, "fields", ())):
                    ls = tuple(l for l in ls if l != "cpp")
                    res.count("known finding cpp-readonly-extended: not built")
                b = codec.Bundle(ctx.worker, schema, o2, ls, files=files)
                try:
                    if not b.ok:
                        res.violate("refused with %s" % opts, lang=None, column="refused", expected="accepted", observed=b.output[-1500:], schema=codec.schema_text(schema), task=task)
                        continue
                    for lang in b.failed:
                        if lang in good:
                            res.violate("%s: does not compile with %s" % (lang, " ".join(opts)), lang=lang, column="not compiled", observed=b.failed[lang][:3000],
                                        expected="compiles as it does with -withRangeCheckCode only", schema=codec.schema_text(schema), task=task)
                        else:
                            res.count("not compiled: " + lang)
                    for o in opts:
                        if o[0] == "-":
                            res.count("option " + o)
                    for c in cases:
                        res.case((codec.schema_id(schema), tuple(opts), c.line), self.nontrivial(c), self.sample(c))
                    if not choices:
                        self.features(res, b, on, opts, [], task, schema)
                    self.judge26(res, b, cases, on, opts, task)
                finally:
                    b.close()
            finally:
                for d, p in pkgs:
                    d.pkg = p
        for v in res.violations:
            v["tape"] = out
        return res

    def probe(self, ctx, f):
        if f["key"] == "cpp-readonly-extended":
            pr = ctx.worker.project()
            try:
                pr.write({"a.zs": "package a;\nstruct A { uint8 x; };\nstruct B { uint8 y; extend A a; };\n"})
                ok, out = pr.compile("a.zs", ("cpp",), opts=("-withoutWriterCode",))
                s = Schema(); s.main = "a"; s.pkgs = {}; s.order = []
                return ok and not pr.build_cpp(s, [], extra_src="int main() { return 0; }\n", pch=False)[0]
            finally:
                pr.clean()
        return False

    def judge26(self, res, b, cases, on, opts, task):
        note = "options %s: " % " ".join(opts)
        if on["WriterCode"]:
            codec.run_wcases(res, b, cases, ("end", "size", "pos", "hex", "dump", "rpos", "dump2", "eq"), task, note)
        gl = []; ge = []
        for c in cases:
            dec = refcodec.Decoder(c.data, c.end, c.start)
            dec.trace = []
            dec.compound(c.d, list(c.o.params))
            gl.append("G\t%s\t%d\t%d\t%s\t%s" % (langs.gname(c.d), c.start, c.end, c.data.hex(), langs.param_tokens(c.d, c.o.params)))
            ge.append("".join(" %d:%d" % tuple(e) for e in dec.trace))
        for lang in b.langs:
            if any(refcodec.is_compound(q.ty.base()) for c in cases for q in c.d.params):
                continue
            rs, crash = b.run(lang, gl)
            for c, l, e, r in zip(cases, gl, ge, rs):
                exp = ["ok", str(c.rpos), c.dump2, e if on["ParsingInfoCode"] and lang == "cpp" else "none"]
                if r != exp:
                    k = next((i for i, (a, z) in enumerate(zip(exp, r)) if a != z), 0)
                    res.violate("%s%s: reading" % (note, lang), lang=lang, column="reading %s" % ("error", "position", "dump", "parsing info")[k] if r[0] == "ok" else "reading error",
                                expected=exp[k][:2000], observed="\t".join(r)[:2000] if r[0] != "ok" else r[k][:2000], request=l[:2000], schema=codec.schema_text(b.schema), task=task)
                    break
                res.count("objects with parsing info" if exp[3] != "none" else "objects read")
            if crash and len(rs) < len(gl):
                res.violate("%s%s: driver crashed" % (note, lang), lang=lang, column="crash", observed=crash[:2000], request=gl[len(rs)][:1500],
                            schema=codec.schema_text(b.schema), task=task)


if __name__ == "__main__":
    sys.exit(runner.main(P26()))
