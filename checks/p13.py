"""P13: the type information of every type of a random schema against the schema, and its expressions evaluated on objects."""
import sys, common
from zsv import runner, codec, refcodec, langs
from zsv.tape import Tape
from zsv.gen import GenFail, ValueGen
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous, Skip, Validator, is_compound


def tname(t, lang=""):
    """name of a type in type information; Python names a subtype of a built-in type by the subtype, Java and C++ by its base"""
    b = t.base()
    if lang in ("py", "pyc") and b.kind != "ref" and t.kind == "ref":
        return t.decl.pkg + "." + t.decl.name
    if b.kind == "ref":
        return b.decl.pkg + "." + b.decl.name
    if b.kind == "dyn":
        return ("int" if b.signed else "bit") + ("" if lang in ("py", "pyc") else "<>")
    return b.name


SCHEMA_TYPES = ("BOOL INT8 INT16 INT32 INT64 UINT8 UINT16 UINT32 UINT64 VARINT16 VARINT32 VARINT64 VARINT VARUINT16 VARUINT32 VARUINT64 VARUINT "
                "VARSIZE FIXED_SIGNED_BITFIELD FIXED_UNSIGNED_BITFIELD DYNAMIC_SIGNED_BITFIELD DYNAMIC_UNSIGNED_BITFIELD FLOAT16 FLOAT32 "
                "FLOAT64 BYTES STRING EXTERN").split()
CPP_TYPES = "BOOL INT8 INT16 INT32 INT64 UINT8 UINT16 UINT32 UINT64 FLOAT DOUBLE BYTES STRING BIT_BUFFER".split()


def stype(b):
    if b.kind == "dyn" or b.kind == "int" and ":" in b.name:
        return ("FIXED_" if b.kind == "int" else "DYNAMIC_") + ("SIGNED" if b.signed else "UNSIGNED") + "_BITFIELD"
    return b.name.upper()


def native(b, java):
    """the type a built-in type is mapped to; None for dynamic bit fields (it depends on the range of the length)"""
    if b.kind == "dyn":
        return None
    if b.kind in ("int", "var"):
        if not java:
            bits = next(n for n in (8, 16, 32, 64) if b.lo >= -(1 << n - 1) and b.hi < 1 << (n - 1 if b.signed else n))
            return ("INT%d" if b.signed else "UINT%d") % bits
        for n, k in ((8, "BYTE"), (16, "SHORT"), (32, "INT"), (64, "LONG")):
            if b.lo >= -(1 << n - 1) and b.hi < 1 << n - 1:
                return k
        return "BIG_INTEGER"
    if b.kind == "float":
        return "DOUBLE" if b.bits == 64 else "FLOAT"
    return {"bool": "BOOLEAN" if java else "BOOL", "string": "STRING", "bytes": "BYTES", "extern": "BIT_BUFFER"}[b.kind]


def fixed(t):
    if t.kind in ("int", "float"):
        return str(t.bits)
    return "1" if t.kind == "bool" else "-"


def ival(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v) if isinstance(v, int) else "?"


def flags(d, f):
    a = "" if not f.align else "a%d" % f.align
    return "".join(("x" if f.extended else "", a, "o" if f.offset is not None else "", "i" if f.default is not None else "",
                    "p" if f.opt is not None else "", "c" if isinstance(f.opt, E) else "", "k" if f.constraint is not None else "",
                    "A" if f.arr is not None else "", "L" if isinstance(f.arr, E) else "", "P" if f.packed else "",
                    "I" if f.arr == "implicit" else ""))


def nargs(t):
    b = t.base()
    if b.kind == "dyn":
        return 1
    if b.kind == "ref" and is_compound(b):
        return len(b.decl.params)
    return 0


def label(e):
    while e.k == "paren":
        e = e.a[0]
    if e.k == "item" or e.t is not None and not isinstance(e.t, str) and getattr(e.t, "kind", None) == "ref":
        return "?"
    return ival(Env(None).eval(e))


def record(d, lang):
    """expected text of one type and the types it refers to"""
    nxt = []

    def tn(t):
        return tname(t, lang)

    if isinstance(d, Ty):
        b = d.base()
        if lang in ("py", "pyc"):
            return "%s B -" % tn(d), nxt
        st, nt = stype(b), native(b, lang == "java")
        if lang == "cpp":
            st = SCHEMA_TYPES.index(st)
            nt = None if nt is None else CPP_TYPES.index(nt)
        return "%s B %s %s %s" % (tn(d), fixed(b), st, nt), nxt
    n = d.pkg + "." + d.name
    if isinstance(d, (Enum, Bitmask)):
        nxt.append(d.ty)
        return "%s %s %s %d%s" % (n, "E" if isinstance(d, Enum) else "M", tn(d.ty), nargs(d.ty), "".join(" i:%s=%d%s" % (
            i.name, i.value, {"removed": "r", "deprecated": "d"}.get(i.flag, "")) for i in d.items)), nxt
    r = n + " " + {"struct": "S", "union": "U", "choice": "C"}[d.kind]
    for p in d.params:
        r += " p:%s %s" % (p.name, tn(p.ty)); nxt.append(p.ty)
    for f in d.fields:
        r += " f:%s %s %d %s" % (f.name, tn(f.ty), nargs(f.ty), flags(d, f)); nxt.append(f.ty)
    for f in d.funcs:
        r += " u:%s %s" % (f.name, tn(f.ret)); nxt.append(f.ret)
    if d.kind == "choice":
        for ls, i in d.cases:
            r += " c:%s" % ("-" if i is None else d.fields[i].name) + "".join(",?" if lang == "cpp" else "," + label(l) for l in ls)
        if d.default is not None:
            r += " c:%s" % (d.fields[d.default[1]].name if d.default[0] == "field" else "-")
    return r, nxt


def expected(root, lang):
    m = {}
    q = [ref(root)]
    while q:
        t = q.pop(0)
        n = tname(t, lang)
        if n not in m:
            b = t.base()
            m[n], nxt = record(b.decl if b.kind == "ref" else t, lang)
            q += nxt
    return m


def scalar(t):
    return t.base().kind in ("int", "dyn", "var", "bool")


class Val:
    def __init__(self, d, o):
        self.d = d; self.o = o
        self.tokens = langs.build_tokens(o)
        self.line = langs.gname(d) + " " + self.tokens
        env = Env(o)
        w = []
        for i, f in enumerate(d.fields):
            if d.kind == "struct":
                v = o.vals[i]
                if isinstance(f.opt, E):
                    w.append(("c:" + f.name, env.eval(f.opt)))
                if v is not None:
                    if f.constraint is not None:
                        w.append(("k:" + f.name, env.eval(f.constraint)))
                    if isinstance(f.arr, E):
                        w.append(("l:" + f.name, env.eval(f.arr)))
            if f.default is not None and scalar(f.ty):
                w.append(("i:" + f.name, f.default_value))
        for f in d.funcs:
            if scalar(f.ret):
                try:
                    w.append(("u:" + f.name, env.eval(f.expr)))
                except Exception:
                    pass
        self.wants = " ".join(k for k, _ in w)
        self.vals = sorted("%s=%s" % (k, ival(v)) for k, v in w)


class P13(codec.SchemaCheck):
    PROPERTY = "P13"
    NSCHEMAS = {"quick": 70, "thorough": 1500}
    OPTS = ("-withTypeInfoCode",)
    PROFILE = {"optional": 30, "enum": 25, "bitmask": 15, "params": 20, "offsets": 20, "align": 20, "choice": 25, "union": 20}
    RULE = ("a case is one valid value of a random root type: the type information of everything reachable from the type is compared with "
            "the schema, and (Java, Python) conditions, constraints, lengths, initialisers and functions given by the type information are "
            "evaluated on the value; non-trivial: distinct and at least four types are reachable")
    ASSUMPTIONS = ["C++ expressions are texts: only their presence is compared"]

    def schema_for(self, seed, idx, choices=None):
        s, out = codec.SchemaCheck.schema_for(self, seed, idx, choices)
        s.cpp_headers = ("tinfo.h",)
        s.cpp_ops = ('if (p[0] == "T") return zsv::opT<%(K)s>();',)
        return s, out

    def cases(self, schema, seed, task):
        out = []
        for ri, d in enumerate(schema.roots):
            for k in range(4):
                try:
                    o = ValueGen(Tape((seed, "v", task, ri, k)), None).root(d)
                    if Validator(True).root(refcodec.clone(o)) or Validator(False).root(refcodec.clone(o)):
                        continue
                    c = Val(d, o)
                    if len(c.tokens) < 12000:
                        out.append(c)
                except (GenFail, Trap, Reject, Ambiguous, Skip):
                    continue
        return out

    def nontrivial(self, c):
        return len(expected(c.d, "java")) >= 4

    def sample(self, c):
        return {"root": c.d.name, "value": c.tokens[:200], "wanted": c.wants[:200]}

    def judge(self, ctx, res, b, cases, task):
        bad = set()

        def fail(lang, col, exp, got, c, extra):
            if (lang, col) in bad:
                return
            bad.add((lang, col))
            res.violate("%s: %s of %s: expected %s, got %s" % (lang, col, c.d.name, exp[:300], got[:300]), lang=lang, column=col,
                        expected=exp[:5000], observed=got[:5000], request=extra[:3000], schema=codec.schema_text(b.schema), task=task)

        for lang in b.langs:
            lines = ["T\t%s\t%s\t%s" % (langs.gname(c.d), c.tokens, c.wants) for c in cases]
            rs, crash = b.run(lang, lines)
            for c, r, l in zip(cases, rs, lines):
                if r[0] != "ok":
                    fail(lang, "type information", "no error", " ".join(r), c, l); continue
                exp = expected(c.d, lang)
                got = dict((x.split(" ", 1)[0], x) for x in r[1].split("; "))
                res.count("types " + lang, len(got))
                for n in ("int<>", "bit<>"):
                    if n in got:
                        got[n] = got[n].rsplit(" ", 1)[0] + " None"
                for n in sorted(set(exp) | set(got)):
                    if exp.get(n) != got.get(n):
                        fail(lang, "type information of " + n, exp.get(n, "nothing"), got.get(n, "nothing"), c, l)
                        break
                if lang != "cpp":
                    res.count("evaluated " + lang, len(c.vals))
                    v = sorted((r[2] if len(r) > 2 else "").split())
                    if v != c.vals:
                        k = next((i for i in range(min(len(v), len(c.vals))) if v[i] != c.vals[i]), 0)
                        fail(lang, "values of the type information", " ".join(c.vals[k:k + 3]), " ".join(v[k:k + 3]), c, l)
            if crash:
                fail(lang, "crash", "no crash", crash, cases[0], "")


if __name__ == "__main__":
    sys.exit(runner.main(P13()))
