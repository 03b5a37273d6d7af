import sys, common, re
from zsv import runner, codec, refcodec, langs
from zsv.gen import SchemaGen, ValueGen, GenFail, ilit
from zsv.tape import Tape
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous


class DefGen(SchemaGen):
    """schemas with many defaults of every form"""
    def gen_default(self, f):
        t = self.t
        b = f.ty.base()
        k = t.raw(3)
        if b.kind in ("int", "var") and k:
            cs = [c for c in self.consts if c.ty.base().kind in ("int", "var") and b.lo <= c.value <= b.hi]
            if k == 1 and cs:
                c = t.pick(cs)
                f.default = E("const", c); f.default_value = c.value
                return
            if k == 2:
                hi = min(b.hi, 1 << 20)
                x = t.int(0, hi); y = t.int(0, hi - x)
                f.default = E("bin", "+", ilit(x), ilit(y)); f.default_value = x + y
                return
        elif b.kind == "dyn":
            v = t.int(0, 1)
            if not b.signed:
                f.default = ilit(v); f.default_value = v
            return
        elif b.kind == "bool" and k == 2:
            a, c = t.int(0, 3), t.int(0, 3)
            f.default = E("bin", t.pick(["<", "==", ">="]), ilit(a), ilit(c)); f.default_value = Env(None).eval(f.default)
            return
        elif b.kind == "string" and k:
            cs = [c for c in self.consts if c.ty.base().kind == "string"]
            if k == 1 and cs:
                c = t.pick(cs)
                f.default = E("const", c); f.default_value = c.value
                return
        elif b.kind == "float":
            n = b.bits
            v = bits_f(t.bits(n), n)
            if v != v or abs(v) > 1e30 or (v and abs(v) < 1e-30):
                v = float(t.int(-100, 100)) / 8
            from decimal import Decimal
            text = format(Decimal(abs(v)), "f")
            if "." not in text:
                text += ".0"
            e = E("lit", abs(v), text + ("f" if n < 64 else ""), t="float")
            f.default = e if v >= 0 and not (v == 0 and str(v) == "-0.0") else E("un", "-", e, t="float")
            f.default_value = v
            return
        elif b.kind == "ref" and isinstance(b.decl, Bitmask) and k == 2:
            i = t.raw(len(b.decl.items)); j = t.raw(len(b.decl.items))
            f.default = E("bin", "|", E("item", b.decl, i), E("item", b.decl, j))
            f.default_value = b.decl.items[i].value | b.decl.items[j].value
            return
        SchemaGen.gen_default(self, f)


class DefValues(ValueGen):
    prefer_default = 75


def strip(d):
    """without function results"""
    return re.sub(r"\|[^{}]*\}", "|}", d).replace("  ", " ")


def fresh(lang, d, params):
    """expected dump of a new object; None when it is not defined"""
    out = ["{"]
    out += ["@" if refcodec.is_compound(q.ty.base()) else langs.sc_tok(q.ty, v) for q, v in zip(d.params, params)]
    if isinstance(d, Struct):
        for f in d.fields:
            b = f.ty.base()
            c = langs.tcode(f.ty)
            if f.default is not None and (f.opt is None or f.opt is True):
                out.append(langs.sc_tok(f.ty, f.default_value))
            elif f.opt is True:
                out.append("-")
            elif f.opt is not None:
                return None
            elif f.arr is not None:
                out.append("[ 0 ]" if lang != "java" else "?")
            elif c == "I":
                out.append("0" if lang != "java" else "?")
            elif c == "B":
                out.append("0")
            elif c == "F":
                out.append("f0000000000000000")
            elif c in "SYX":
                out.append({"S": "s", "Y": "b", "X": "x0:"}[c] if lang == "cpp" else "?")
            elif c in "EM":
                out.append("0" if lang == "cpp" else "?")
            else:
                if lang == "cpp":
                    if b.decl.params or f.ty.args:
                        return None
                    x = fresh(lang, b.decl, [])
                    if x is None:
                        return None
                    out.append(x)
                else:
                    out.append("?")
    elif isinstance(d, Choice):
        return None     # the tag follows from the parameters
    else:
        out.append("-")
    out.append("|}")
    return " ".join(out)


class P29(codec.SchemaCheck):
    PROPERTY = "P29"
    COLS = ("size", "pos", "hex", "dump", "dump2", "eq")
    NSCHEMAS = {"quick": 72, "thorough": 1500}
    NVALS = 6
    STARTS = (0, 0, 5)
    PROFILE = {"default": 75, "array": 12, "optional": 30, "extended": 25, "nested": 22, "constraint": 8, "floats": 16, "strings": 14,
               "enum": 22, "bitmask": 18, "bools": 14, "bytes_": 8, "offsets": 4}
    RULE = ("a case is one value of a random root type in which about three quarters of the fields with a default (literals in every "
            "notation, constants, expressions, enumeration items, bitmask terms) are never touched: the stream, the size and the "
            "object must be those with the default values; every type is also constructed fresh and twice, the first object changed "
            "in place; non-trivial: distinct and at least one field keeps its default")
    ASSUMPTIONS = ["the initial state of fields without default is judged where it is the same notion in the language (C++ value "
                   "initialisation, Python and Java false, 0.0 and unset optionals)",
                   "a conditional optional field with a default that is not used may hold its default"]

    def schema_for(self, seed, idx, choices=None):
        t = Tape(choices=choices) if choices is not None else Tape((seed, self.PROPERTY, idx))
        s = DefGen(t, self.PROFILE).gen()
        s.cpp_ops = ('if (p[0] == "D") return zsv::opD<%(K)s>(p[2]);',)
        return s, t.out

    def cases(self, schema, seed, idx):
        out = []
        for ri, d in enumerate(schema.roots):
            for k in range(self.NVALS):
                t = Tape((seed, "v", self.PROPERTY, idx, ri, k))
                try:
                    o = DefValues(t, self.PROFILE).root(d)
                    start = self.STARTS[k % len(self.STARTS)]
                    c = codec.WCase(d, o, start)
                except (GenFail, Trap, Reject, Ambiguous):
                    continue
                if c.n > 100000:
                    continue
                kept = [0]

                def untouched(o, i):
                    f = o.d.fields[i]
                    if f.default is None or f.used_as_offset:
                        return False
                    v = o.vals[i]
                    if v is None:
                        r = f.opt not in (None, True) and (i + len(c.tokens)) % 3 > 0
                    else:
                        r = langs.sc_tok(f.ty, v) == langs.sc_tok(f.ty, f.default_value)
                    kept[0] += r
                    return r
                slots = c.slots
                right = [refcodec.slot_get(s) for s in slots]
                for i, (s, x) in enumerate(zip(slots, right)):
                    refcodec.slot_set(s, 0 if x and i % 3 else x ^ 1)
                c.tokens = langs.build_tokens(o, untouched)
                for s, x in zip(slots, right):
                    refcodec.slot_set(s, x)
                c.kept = kept[0]
                c.line = "W\t%s\t%d\t%s" % (langs.gname(d), start, c.tokens)
                out.append(c)
        return out

    def nontrivial(self, c):
        return c.kept > 0

    def judge(self, ctx, res, b, cases, task):
        codec.run_wcases(res, b, cases, self.COLS, task)
        if res.violations:
            return
        first = {}
        for c in cases:
            first.setdefault(langs.gname(c.d), c)
        for lang in b.langs:
            lines, exps = [], []
            for n, c in first.items():
                d = c.d
                if lang == "cpp" and d.params:
                    continue
                e = fresh("py" if lang == "pyc" else lang, d, c.o.params)
                if e is None:
                    continue
                tok = ["{"] + [langs.sc_tok(q.ty, v) for q, v in zip(d.params, c.o.params)]
                if any(refcodec.is_compound(q.ty.base()) for q in d.params):
                    continue
                tok += ["~"] * len(d.fields) if isinstance(d, Struct) else ["-"]
                lines.append("D\t%s\t%s" % (n, " ".join(tok + ["}"])))
                exps.append(e)
            if not lines:
                continue
            rs, crash = b.run(lang, lines)
            for l, e, r in zip(lines, exps, rs):
                res.count("fresh objects " + lang)
                if r[0] != "ok":
                    got = " ".join(r)
                    bad = True
                else:
                    got = strip(r[1])
                    bad = not same(e, got) or r[1] != r[2]
                    if r[1] != r[2]:
                        got += " then " + strip(r[2])
                if bad:
                    res.violate("%s: fresh object differs" % lang, lang=lang, column="fresh", expected=e[:2000], observed=got[:2000], request=l[:1000],
                                schema=codec.schema_text(b.schema), task=task)
                    break
            if crash:
                res.violate("%s: driver crashed on a fresh object" % lang, lang=lang, column="freshcrash", observed=crash[:2000],
                            schema=codec.schema_text(b.schema), task=task)


def same(e, g):
    """'?' in e stands for one value"""
    pat = re.escape(e).replace(r"\?", r"(?:[^ \[\]{}]+|\[ \d+ [^\]]*\]|\{.*?\})")
    return re.fullmatch(pat, g) is not None


if __name__ == "__main__":
    sys.exit(runner.main(P29()))
