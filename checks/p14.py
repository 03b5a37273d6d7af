import sys, common, re
from zsv import runner, codec, refcodec, langs, jsonref, engine
from zsv.tape import Tape
from zsv.gen import GenFail, ValueGen
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous, Skip, Validator, is_compound


class Node:
    __slots__ = ("kind", "name", "idx", "kids", "text", "path", "depth", "match")

    def __init__(self, kind, name, idx, text, path, depth):
        self.kind = kind; self.name = name; self.idx = idx; self.text = text; self.path = path; self.depth = depth; self.kids = []


def tree(o):
    """children of the root: fields, in order; array nodes have the elements as children"""
    def one(f, v, idx, path, depth):
        if v is not None and is_compound(f.ty.base()):
            n = Node("C", f.name, idx, None, path, depth)
            n.kids = fields(v, path + ".", depth + 1)
            return n
        return Node("V", f.name, idx, "null" if v is None else langs.sc_tok(f.ty, v), path, depth)

    def field(f, v, prefix, depth):
        path = prefix + f.name
        if v is not None and f.arr is not None:
            n = Node("A", f.name, None, str(len(v)), path, depth)
            n.kids = [one(f, x, i, "%s[%d]" % (path, i), depth + 1) for i, x in enumerate(v)]
            return n
        return one(f, v, None, path, depth)

    def fields(o, prefix, depth):
        if isinstance(o, SObj):
            nx = sum(1 for f in o.d.fields if f.extended)
            if o.ext is not None and o.ext < nx:
                raise jsonref.Open
            return [field(f, v, prefix, depth) for f, v in zip(o.d.fields, o.vals)]
        if o.idx is None:
            return []
        return [field(o.d.fields[o.idx], o.val, prefix, depth)]
    return fields(o, "", 1)


def flat(ns):
    for n in ns:
        yield n
        yield from flat(n.kids)


class Filter:
    """specification of a filter: what it says before and after a node"""
    def before(self, n):
        return True

    def after(self, n):
        return True


class Depth(Filter):
    def __init__(self, k):
        self.k = k; self.spec = "D%d" % k

    def before(self, n):
        return n.depth <= self.k


class Length(Filter):
    def __init__(self, k):
        self.k = k; self.spec = "L%d" % k

    def before(self, n):
        return n.idx is None or n.idx < self.k


class Regex(Filter):
    def __init__(self, rx):
        self.re = re.compile(rx); self.spec = "X" + rx.encode().hex(); self.rx = rx; self.memo = {}

    def before(self, n):
        if id(n) not in self.memo:
            self.memo[id(n)] = self.re.fullmatch(n.path) is not None or any(self.before(k) for k in n.kids)
        return self.memo[id(n)]


class Scripted(Filter):
    def __init__(self, bits):
        self.bits = bits; self.spec = "S" + bits; self.n = 0

    def before(self, n):
        self.n += 1
        return self.bits[(self.n - 1) % len(self.bits)] == "1"
    after = before


class And(Filter):
    def __init__(self, fs):
        self.fs = fs; self.spec = ",".join(["&%d" % len(fs)] + [f.spec for f in fs])

    def before(self, n):
        return all([f.before(n) for f in self.fs])

    def after(self, n):
        return all([f.after(n) for f in self.fs])


class None_(Filter):
    def __init__(self, spec):
        self.spec = spec


def log(root, flt):
    out = ["R"]

    def ix(n):
        return "-" if n.idx is None else str(n.idx)

    def go(n):
        if flt.before(n):
            if n.kind == "A":
                out.append("A:%s:%s" % (n.name, n.text))
            elif n.kind == "C":
                out.append("C:%s:%s" % (n.name, ix(n)))
            else:
                out.append("V:%s:%s:%s" % (n.name, ix(n), n.text))
            for k in n.kids:
                if not go(k):
                    break
            if n.kind == "A":
                out.append("a:%s" % n.name)
            elif n.kind == "C":
                out.append("c:%s:%s" % (n.name, ix(n)))
        return flt.after(n)
    for n in root:
        if not go(n):
            break
    out.append("r")
    return " ".join(out)


def regex(t, nodes):
    n = t.pick(nodes)
    k = t.raw(9)
    p = re.escape(n.path).replace("\\_", "_")
    if k == 0:
        r = p
    elif k == 1:
        r = re.sub(r"\\\[\d+\\\]", lambda m: r"\[\d+\]", p)
    elif k == 2:
        parts = p.split("\\.")
        r = "\\.".join(parts[:1 + t.raw(len(parts))]) + ".*"
    elif k == 3:
        r = ".*" + re.escape(n.name).replace("\\_", "_")
    elif k == 4:
        r = "(%s|%s)" % (p, re.escape(t.pick(nodes).path))
    elif k == 5:
        r = r"[^.]*"
    elif k == 6:
        r = r"[^.]*\.[^.]*"
    elif k == 7:
        r = re.sub(r"[a-zA-Z]", lambda m: "." if t.raw(4) == 0 else m.group(), p)
    else:
        r = r".*\[%d\]" % t.raw(3)
    return "(?:" + r + ")$"


def filters(t, nodes):
    out = [None_("-")]
    maxd = max([n.depth for n in nodes] + [1])

    def plain(d=0):
        k = t.raw(5 if d else 7)
        if k == 0:
            return Depth(t.raw(maxd + 2))
        if k == 1:
            return Length(t.raw(4))
        if k == 4:
            return None_("N")
        if k in (2, 3) and nodes:
            return Regex(regex(t, nodes))
        return And([plain(d + 1) for _ in range(t.raw(4))]) if d < 3 else None_("N")
    for _ in range(4):
        out.append(plain())
    if nodes:
        out.append(Regex(regex(t, nodes)))
    for _ in range(2):
        out.append(Scripted("".join("0" if t.raw(4) == 0 else "1" for _ in range(1 + t.raw(30)))))
    out.append(And([Scripted("".join("0" if t.raw(6) == 0 else "1" for _ in range(1 + t.raw(30)))) for _ in range(2)]))
    return out


class Val:
    def __init__(self, d, o):
        self.d = d; self.o = o
        v, n, _ = refcodec.encode(o, 0)
        self.n = n
        self.hex = refcodec.bits_to_bytes(v, n).hex() + ":%d" % n
        self.tokens = langs.build_tokens(o)
        self.line = langs.gname(d) + " " + self.tokens
        self.dump = langs.dump(o)
        self.root = tree(o)
        self.nodes = list(flat(self.root))


def dyn_arrays(schema):
    return any(isinstance(d, Compound) and any(f.arr is not None and f.ty.base().kind == "dyn" for f in d.fields) for d in schema.order)


class P14(codec.SchemaCheck):
    PROPERTY = "P14"
    NSCHEMAS = {"quick": 40, "thorough": 1200}
    OPTS = ("-withRangeCheckCode", "-withTypeInfoCode", "-withReflectionCode")
    PROFILE = {"optional": 30, "enum": 25, "params": 20}
    RULE = ("a case is one valid value of a random root type: walked by every runtime with nine filters (none, depth, array length, path, "
            "conjunctions, scripted answers), rebuilt node by node with the tree creator, and reached through reflection in C++; "
            "non-trivial: distinct and the tree has at least 6 nodes")
    ASSUMPTIONS = ["path expressions are anchored", "values with extended fields which are not present are not used"]

    def schema_for(self, seed, idx, choices=None):
        s, out = codec.SchemaCheck.schema_for(self, seed, idx, choices)
        s.cpp_headers = ("refl2.h",)
        s.cpp_ops = ('if (p[0] == "K") return zsv::opK<%(K)s>(p);',
                     'if (p[0] == "Z") return zsv::opZ<%(K)s>(p[2]);',
                     'if (p[0] == "V") return zsv::opV<%(K)s>(p[2], zsv::num<uint32_t>(p[3]));')
        return s, out

    def cases(self, schema, seed, task):
        out = []
        for ri, d in enumerate(schema.roots):
            for k in range(6):
                try:
                    o = ValueGen(Tape((seed, "v", task, ri, k)), None, nan=True).root(d)
                    c = Val(d, o)
                    if Validator(True).root(refcodec.clone(o)) or Validator(False).root(refcodec.clone(o)):
                        continue
                    if len(c.tokens) < 12000 and len(c.nodes) < 600:
                        out.append(c)
                except (GenFail, Trap, Reject, Ambiguous, Skip, jsonref.Open):
                    continue
        return out

    def nontrivial(self, c):
        return len(c.nodes) >= 6

    def sample(self, c):
        return {"root": c.d.name, "value": c.tokens[:200]}

    def judge(self, ctx, res, b, cases, task):
        t = Tape((ctx.seed, "j", task))
        bad = set()
        dyn = dyn_arrays(b.schema)

        def fail(lang, col, exp, got, c, extra):
            if (lang, col) in bad:
                return
            bad.add((lang, col))
            k = 0
            while k < min(len(exp), len(got)) and exp[k] == got[k]:
                k += 1
            k = max(0, k - 60)
            res.violate("%s: %s of %s: expected ..%s, got ..%s" % (lang, col, c.d.name, exp[k:k + 250], got[k:k + 250]), lang=lang, column=col,
                        expected=exp[:5000], observed=got[:5000], request=extra[:3000], schema=codec.schema_text(b.schema), task=task)

        plans = []
        for c in cases:
            fs = filters(t, c.nodes)
            plans.append((c, fs, [log(c.root, f) for f in fs], t.pick([0, 1, 3, 7, 8])))
        for lang in b.langs:
            lines = ["K\t%s\t%s\t%s" % (langs.gname(c.d), "\t".join(f.spec for f in fs), c.tokens) for c, fs, _, _ in plans]
            rs, crash = b.run(lang, lines)
            for (c, fs, exp, _), r, l in zip(plans, rs, lines):
                res.count("walks " + lang, len(fs))
                if r[0] != "ok":
                    fail(lang, "walk", "no error", " ".join(r), c, l); continue
                for f, e, g in zip(fs, exp, r[1:]):
                    if e != g:
                        fail(lang, "walk with filter " + (getattr(f, "rx", None) or f.spec)[:60], e, g, c, l)
            if crash:
                fail(lang, "crash", "no crash", crash, cases[0], "")
            if not (lang == "cpp" and dyn):
                lines = ["Z\t%s\t%s" % (langs.gname(c.d), c.tokens) for c in cases]
                rs, crash = b.run(lang, lines)
                for c, r, l in zip(cases, rs, lines):
                    res.count("rebuilt " + lang)
                    if r[0] != "ok":
                        if lang in ("py", "pyc") and dyn and "NoneType" in " ".join(r):
                            res.count(lang + ": arrays of dynamic bit fields whose length is not known yet"); continue
                        fail(lang, "rebuilding", "no error", " ".join(r), c, l); continue
                    if r[1] != c.dump:
                        fail(lang, "dump of the rebuilt tree", c.dump, r[1], c, l)
                    elif r[2] != c.hex:
                        fail(lang, "bytes of the rebuilt tree", c.hex, r[2], c, l)
                    elif r[3] != "1" and "fNaN" not in c.dump:
                        fail(lang, "equality with the rebuilt tree", "1", r[3], c, l)
                if crash:
                    fail(lang, "crash", "no crash", crash, cases[0], "")
            if lang != "cpp":
                continue
            lines = ["V\t%s\t%s\t%d" % (langs.gname(c.d), c.tokens, s) for c, _, _, s in plans]
            rs, crash = b.run(lang, lines)
            for (c, _, _, s), r, l in zip(plans, rs, lines):
                res.count("reflected")
                if r[0] != "ok":
                    fail(lang, "reflection", "no error", " ".join(r), c, l); continue
                try:
                    v, n, _ = refcodec.encode(refcodec.clone(c.o), s)
                except (Reject, Ambiguous, Skip, Trap):
                    continue
                if r[1] != c.dump:
                    fail(lang, "constant reflection", c.dump, r[1], c, l)
                elif r[2] != c.dump:
                    fail(lang, "reflection", c.dump, r[2], c, l)
                else:
                    e = "%d %d %s:%d" % (s + n, n, refcodec.bits_to_bytes(((1 << s) - 1) << n | v, s + n).hex(), s + n)
                    if " ".join(r[3:6]) != e:
                        fail(lang, "size and bytes by reflection", e, " ".join(r[3:6]), c, l)
            if crash:
                fail(lang, "crash", "no crash", crash, cases[0], "")


if __name__ == "__main__":
    sys.exit(runner.main(P14()))
