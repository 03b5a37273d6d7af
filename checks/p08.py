import sys, common
from zsv import runner, codec, refcodec, langs
from zsv.tape import Tape
from zsv.gen import GenFail
from zsv.model import *
from zsv.mutate import slots, new_value
from zsv.refcodec import Reject, Ambiguous, Skip, Validator, clone, is_compound, underlying


def open_case(lang, x):
    """violations that are not checked by design (array elements have no parameter check) or are listed as known findings"""
    kind, (d, f), packed, v = x
    if kind == "param" and f.arr is not None:
        return True
    if lang == "cpp" or kind != "range":
        return False
    if f.arr is not None and packed:
        return True                        # known finding "packed-range"
    b = f.ty.base()
    u = underlying(b)
    return lang == "java" and v < 0 and not u.signed and (u.kind == "dyn" or u.hi >= 2 ** 63)   # known finding "java-bigint-negative"


class MCase:
    def __init__(self, d, o, start, kinds, dkinds, poke=None):
        self.d = d; self.start = start
        self.kinds = kinds            # what a language that keeps the given parameters must refuse
        self.dkinds = dkinds          # same for one that derives parameters
        self.tokens = langs.build_tokens(o)
        self.line = "W\t%s\t%d\t%s" % (langs.gname(d), start, self.tokens)
        self.poke = None
        if poke is not None:
            self.poke = "P\t%s\t%d\t%s\t%s" % (langs.gname(d), start, langs.build_tokens(poke), self.tokens)
        self.data = None
        if kinds is not None and not kinds:
            c = clone(o)
            v, n, _ = refcodec.encode(c, start)
            self.data = refcodec.bits_to_bytes(((1 << start) - 1) << n | v, start + n)


class P08(codec.SchemaCheck):
    PROPERTY = "P08"
    NVALS = 2
    PERVAL = 8
    STARTS = (0, 3)
    NSCHEMAS = {"quick": 100, "thorough": 1500}
    OPTS = ("-withRangeCheckCode",)
    PROFILE = {"constraint": 25, "offsets": 8, "enum": 25, "params": 45, "choice": 30, "union": 25, "array": 40, "optional": 25,
               "removed": 35}
    RULE = ("a case is a valid random object of a random schema in which one value is changed (numbers to and beyond the limits of their "
            "type, another enumeration item, array elements added or removed, another parameter, no union member), classified by a "
            "reference validator and then built, initialised and written in four languages: it must be refused if the validator finds a "
            "violation and written otherwise; changes the documentation leaves open are skipped; non-trivial: distinct and invalid")

    def mutants(self, ctx, c, task, ci, res):
        out = []
        for k in range(self.PERVAL):
            t = Tape((ctx.seed, self.PROPERTY, task, ci, k))
            o = clone(c.o)
            ss = slots(o)
            if not ss:
                break
            cont, key, kind, ty, f, own = t.pick(ss)
            try:
                if kind in ("leaf", "param"):
                    x = new_value(t, ty, cont[key], Env(own))
                    if x is None or x == cont[key]:
                        continue
                    b = ty.base()
                    if kind == "param" and b.kind in ("int", "var") and not b.lo <= x <= b.hi:
                        continue
                    if kind == "param" and b.kind == "ref" and isinstance(b.decl, Bitmask) and not 0 <= x <= b.decl.ty.base().hi:
                        continue
                    cont[key] = x
                elif kind == "array":
                    a = list(cont[key])
                    if a and t.chance(50):
                        del a[t.raw(len(a))]
                    elif a and not isinstance(a[0], (SObj, CObj)):
                        a.insert(t.raw(len(a) + 1), t.pick(a))
                    else:
                        continue
                    cont[key] = a
                else:
                    cont.idx = None; cont.val = None
            except (Trap, Reject):
                continue
            try:
                kinds = Validator(False).root(o)
            except (Skip, Reject):
                kinds = None
            od = clone(o)
            try:
                dkinds = Validator(True).root(od)
            except (Skip, Reject):
                dkinds = None
            if kinds is None and dkinds is None:
                res.count("skipped"); continue
            poke = None
            if kind == "leaf" and own is o and isinstance(o, SObj) and f.arr is None and not f.extended and kinds is not None:
                poke = c.o
            try:
                out.append(MCase(c.d, o, c.start, kinds, dkinds, poke))
            except (Trap, Reject, Ambiguous, AssertionError, OverflowError):
                res.count("skipped (encode)")
        return out

    def judge(self, ctx, res, b, cases, task):
        ms = []
        seen = set()
        for ci, c in enumerate(cases):
            for m in self.mutants(ctx, c, task, ci, res):
                if m.line in seen:
                    continue
                seen.add(m.line)
                ms.append(m)
                ks = sorted({x[0] for x in (m.kinds or m.dkinds or [])})
                res.case((codec.schema_id(b.schema), m.line), bool(ks), {"root": m.d.name, "value": m.tokens[:200], "invalid": ks} if ks else None,
                         ["invalid: " + k for k in ks] or ["valid"])
        for lang in b.langs:
            todo = []
            for m in ms:
                ks = m.dkinds if lang == "cpp" else m.kinds
                if ks is not None:
                    todo.append((m, m.line, ks))
                if lang == "cpp" and m.poke and m.kinds is not None:
                    todo.append((m, m.poke, m.kinds))
            rs, crash = b.run(lang, [x[1] for x in todo])
            for (m, line, ks), r in zip(todo, rs):
                if r[0] == "FAIL" or (r[0] == "err" and r[1] == "build" and r[2].startswith(("ArithmeticException", "java.lang.ArithmeticException"))):
                    res.count("%s: value not representable" % lang); continue
                if ks and all(open_case(lang, x) for x in ks):
                    res.count("%s: known finding or open" % lang); continue
                if ks and r[0] == "err" and r[1] in ("build", "init", "size", "write"):
                    continue
                if not ks and r[0] == "ok":
                    if lang == "cpp" or m.data is None or r[4] == m.data.hex():
                        continue
                    what = ("bytes", m.data.hex(), r[4])
                elif ks:
                    names = sorted({x[0] for x in ks})
                    what = ("accepted " + names[0], "refused because of %s at %s" % (names, [
                        "%s.%s" % (x[1][0].name, x[1][1].name if x[1][1] else "") for x in ks][:5]), "\t".join(r)[:1500])
                else:
                    if r[1] not in ("build", "init", "size", "write"):
                        continue
                    what = ("refused", "written", "\t".join(r)[:1500])
                res.violate("%s: %s" % (lang, what[0]), lang=lang, column=what[0], expected=what[1], observed=what[2],
                            request=line[:3000], schema=codec.schema_text(b.schema), task=task)
                break
            if crash and len(rs) < len(todo):
                res.violate("%s: driver crashed" % lang, lang=lang, column="crash", observed=crash[:3000],
                            request=todo[len(rs)][1][:3000], schema=codec.schema_text(b.schema), task=task)

    def nontrivial(self, c):
        return False

    def probe(self, ctx, f):
        from zsv.script import Script
        if f["key"] == "packed-range":
            sc = Script(ctx.worker, "package main; struct S { packed int8 a[]; };", opts=self.OPTS)
            try:
                _, py = sc.python("import zserio, main.api as m\ntry:\n  zserio.serialize(m.S(list(range(120, 140))))\n  print('written')\n"
                                  "except zserio.PythonRuntimeException:\n  print('refused')\n")
            finally:
                sc.close()
            return "written" in py
        sc = Script(ctx.worker, "package main; struct S { uint64 a; };", opts=self.OPTS)
        try:
            _, j = sc.java("public class Main { public static void main(String[] a) { main.S s = new main.S(); try { "
                           "s.setA(java.math.BigInteger.valueOf(-1)); zserio.runtime.io.SerializeUtil.serializeToBytes(s); "
                           "System.out.println(\"written\"); } catch (Exception e) { System.out.println(\"refused\"); } } }")
        finally:
            sc.close()
        return "written" in j


if __name__ == "__main__":
    sys.exit(runner.main(P08()))
