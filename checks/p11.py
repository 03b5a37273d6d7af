import sys, common, re
from zsv import runner, codec, refcodec, langs, jsonref, engine
from zsv.tape import Tape
from zsv.gen import GenFail, ValueGen
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous, Skip, Validator


def dyn_arrays(schema):
    return any(isinstance(d, Compound) and any(f.arr is not None and f.ty.base().kind == "dyn" for f in d.fields) for d in schema.order)


def dyn_fields(schema):
    return any(isinstance(d, Compound) and any(f.ty.base().kind == "dyn" for f in d.fields) for d in schema.order)


def known(n, w, packed):
    """1 = a negative number for an integer (java-bigint-negative), 2 = a number where the schema has packed arrays (packed-range)"""
    return int(n[0] in ("int", "mask") and w[0] == "int" and w[1] < 0 and n[2] is not None) + 2 * (packed and n[0] == w[0] == "int")


class Val:
    def __init__(self, d, o):
        self.d = d; self.o = o
        v, n, _ = refcodec.encode(o, 0)
        self.n = n; self.start = 0
        self.hex = refcodec.bits_to_bytes(v, n).hex() + ":%d" % n
        self.tokens = langs.build_tokens(o)
        self.line = langs.gname(d) + " " + self.tokens
        self.doc = jsonref.doc(o)
        self.dump = langs.dump(o)
        self.ptoks = langs.param_tokens(d, o.params)
        self.nodes = jsonref.leaves(self.doc)


class P11(codec.SchemaCheck):
    PROPERTY = "P11"
    NSCHEMAS = {"quick": 56, "thorough": 1500}
    OPTS = ("-withRangeCheckCode", "-withTypeInfoCode", "-withReflectionCode")
    PROFILE = {"optional": 30, "enum": 30, "params": 15}
    RULE = ("a case is one valid value of a random root type: exported by every runtime in several styles and compared with the document "
            "the guide prescribes, imported by every runtime from its own and the other runtimes' text, from re-rendered text (member "
            "order, white space, escapes, number notations, dropped null members, numbers for enumerations) and from texts with one "
            "place that does not fit; non-trivial: distinct and the document has at least 5 nodes")
    ASSUMPTIONS = ["members keep their order in structures which have fields with type arguments or schemas with dynamic bit fields", "values with extended fields which are not present "
                   "are not exported", "the unused bits of the last byte of a bit buffer are open",
                   "a wrong document may be refused on import or when it is serialized"]

    def schema_for(self, seed, idx, choices=None):
        s, out = codec.SchemaCheck.schema_for(self, seed, idx, choices)
        s.cpp_headers = ("refl.h",)
        s.cpp_ops = ('if (p[0] == "J") return zsv::opJ<%(K)s>(p[2], p[3], p[4], p[5]);',
                     'if (p[0] == "I") return zsv::opI<%(K)s>(p[2], p[3], p[4], p[5]);')
        return s, out

    def cases(self, schema, seed, task):
        out = []
        for ri, d in enumerate(schema.roots):
            for k in range(5):
                try:
                    o = ValueGen(Tape((seed, "v", task, ri, k)), None, nan=True).root(d)
                    refcodec.encode(o, 0)
                    c = Val(d, o)
                    if Validator(True).root(refcodec.clone(o)) or Validator(False).root(refcodec.clone(o)):
                        continue
                    if len(c.tokens) < 12000:
                        out.append(c)
                except (GenFail, Trap, Reject, Ambiguous, Skip, jsonref.Open):
                    continue
        return out

    def nontrivial(self, c):
        return len(c.nodes) >= 5

    def sample(self, c):
        return {"root": c.d.name, "value": c.tokens[:200]}

    def judge(self, ctx, res, b, cases, task):
        t = Tape((ctx.seed, "j", task))
        path = b.pr.dir + "/x.json"
        bad = set()
        dyn = dyn_arrays(b.schema)
        dynf = dyn_fields(b.schema)
        packed = any(isinstance(d, Compound) and any(f.arr is not None and f.packed for f in d.fields) for d in b.schema.order)

        def fail(lang, col, exp, got, c, extra):
            if (lang, col) in bad:
                return
            bad.add((lang, col))
            res.violate("%s: %s of %s: expected %s, got %s" % (lang, col, c.d.name, exp[:300], got[:300]), lang=lang, column=col,
                        expected=exp[:3000], observed=got[:3000], request=extra[:3000], schema=codec.schema_text(b.schema), task=task)

        texts = [[] for _ in cases]
        for lang in b.langs:
            plan = []
            for i, c in enumerate(cases):
                for _ in range(2):
                    mode = t.pick("SSNNF"); ind = t.pick(["-", "0", "1", "2", "4", "7"])
                    plan.append((i, mode, ind, "J\t%s\t%s\t%s\t%s\t%s" % (langs.gname(c.d), mode, ind, path, c.tokens)))
            rs, crash = b.run(lang, [p[3] for p in plan])
            for (i, mode, ind, l), r in zip(plan, rs):
                c = cases[i]
                res.count("exports " + lang)
                if r[0] != "ok":
                    fail(lang, "export", "no error", " ".join(r), c, l); continue
                try:
                    txt = bytes.fromhex(r[1]).decode("utf-8")
                    g = jsonref.parse(txt)
                    jsonref.compare(c.doc, g, mode == "N", lang in ("py", "pyc", "cpp"))
                    if ind == "-" and mode != "N" and "\n" in txt and False:
                        raise jsonref.Mismatch("one line expected")
                except jsonref.Mismatch as e:
                    fail(lang, "export", "the document of the guide", str(e), c, l); continue
                except (ValueError, RecursionError) as e:
                    fail(lang, "export", "JSON", "%s: %s" % (e, r[1][:400]), c, l); continue
                texts[i].append((lang, txt))
            if crash:
                fail(lang, "crash", "no crash", crash, cases[0], "")
        for lang in b.langs:
            plan = []
            for i, c in enumerate(cases):
                for src, txt in texts[i]:
                    if t.raw(2) or src != lang:
                        plan.append((c, "of " + src, txt, t.pick("SNF"), 0))
                for _ in range(3):
                    opts = {x for x in ("ws", "shuffle", "drop", "numenum") if t.raw(2)}
                    if dynf:
                        opts.discard("shuffle")
                    plan.append((c, "rendered", jsonref.render(c.doc, t, opts), t.pick("SNF"), 0))
                for _ in range(3):
                    p, n = t.pick(c.nodes)
                    w = jsonref.wrong(t, n)
                    if w is None or not p:
                        continue
                    plan.append((c, "wrong", jsonref.render(jsonref.replace(c.doc, p, w), t, ()), "S", known(n, w, packed)))
                if t.raw(3) == 0:
                    p, n = t.pick([x for x in c.nodes if x[1][0] == "obj"])
                    ms = list(n[1]); ms.insert(t.raw(len(ms) + 1), ["noSuchMember", t.pick([("int", 1, None), ("null", False), ("str", "x"), ("obj", [], "x")])])
                    plan.append((c, "wrong", jsonref.render(jsonref.replace(c.doc, p, ("obj", ms, n[2])), t, ()), "S", 0))
            lines = ["I\t%s\t%s\t%s\t%s\t%s" % (langs.gname(c.d), m, path, x.encode("utf-8", "surrogatepass").hex(), c.ptoks) for c, _, x, m, _ in plan]
            rs, crash = b.run(lang, lines)
            for (c, kind, txt, m, big), r in zip(plan, rs):
                res.count("imports %s %s" % (kind, lang))
                if kind == "wrong":
                    if r[0] == "ok" and (lang == "java" and big & 1 or lang != "cpp" and big & 2):
                        res.count("%s: numbers out of range covered by known findings of P08" % lang); continue
                    if r[0] == "ok":
                        fail(lang, "import of a wrong document", "an error", " ".join(r), c, txt)
                    continue
                if r[0] != "ok":
                    if lang in ("py", "pyc") and dyn and "NoneType" in r[3]:
                        res.count("python arrays of dynamic bit fields before their length"); continue
                    if lang == "cpp" and dyn and "is not initialized!" in r[3]:
                        res.count("known finding cpp-dynamic-array"); continue
                    fail(lang, "import " + kind.split()[0], "no error", " ".join(r), c, txt); continue
                if r[2] != c.hex:
                    fail(lang, "import " + kind.split()[0], c.hex, r[2], c, txt)
                elif r[1] != c.dump and r[1].split() != c.dump.split():
                    fail(lang, "imported values", c.dump, r[1], c, txt)
            if crash:
                fail(lang, "crash", "no crash", crash, cases[0], lines[len(rs)] if len(rs) < len(lines) else "")

    def probe(self, ctx, f):
        from zsv.script import Script
        sc = Script(ctx.worker, {"pkg.zs": "package pkg; struct S(int8 p) { bit<p> a[]; };"}, main="pkg.zs", opts=self.OPTS)
        try:
            _, out = sc.cpp('''#include <iostream>
#include <sstream>
#include "zserio/JsonReader.h"
#include "pkg/S.h"
int main() { try { std::istringstream s("{\\"a\\": [1]}"); zserio::JsonReader r(s); auto x = r.read(pkg::S::typeInfo()); std::cout << "ok"; }
catch (const zserio::CppRuntimeException& e) { std::cout << e.what(); } }''')
        finally:
            sc.close()
        return "is not initialized" in out


if __name__ == "__main__":
    sys.exit(runner.main(P11()))
