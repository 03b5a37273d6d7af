"""Shared machinery of the checks that run generated code: schema -> four generated codecs vs the reference codec."""
import time
from .tape import Tape, shrink
from .gen import SchemaGen, ValueGen, GenFail
from .model import *
from . import refcodec, langs, engine
from .refcodec import Reject, Ambiguous

LANGS = ("java", "py", "pyc", "cpp")
COL = {"end": 1, "size": 2, "pos": 3, "hex": 4, "dump": 5, "rpos": 6, "dump2": 7, "eq": 8}


class Bundle:
    """a generated schema compiled for some languages"""
    def __init__(self, worker, schema, opts=(), langset=LANGS, variant="fast", roots=None, files=None):
        self.w = worker; self.schema = schema; self.variant = variant
        self.pr = worker.project()
        self.failed = {}
        self.pr.write(files or render(schema))
        self.roots = roots if roots is not None else schema.roots
        want = []
        if "java" in langset:
            want.append("java")
        if "py" in langset or "pyc" in langset:
            want.append("python")
        if "cpp" in langset:
            want.append("cpp")
        ok, out = self.pr.compile(engine.main_file(schema), langs_=want, opts=tuple(opts) + ("-allowImplicitArrays",))
        self.output = out
        self.ok = ok
        self.langs = []
        if not ok:
            self.failed["zserio"] = out
            return
        if "java" in langset:
            ok, out = self.pr.javac()
            if ok:
                self.pr.load_java(schema); self.langs.append("java")
            else:
                self.failed["java"] = out
        if "py" in langset:
            self.langs.append("py")
        if "pyc" in langset:
            self.langs.append("pyc")
        if "cpp" in langset:
            ok, out = self.pr.build_cpp(schema, self.roots, variant=variant)
            if ok:
                self.langs.append("cpp")
            else:
                self.failed["cpp"] = out

    def run(self, lang, lines):
        """(replies, crash)"""
        if lang == "java":
            return self.pr.java(lines)
        if lang == "py":
            return self.pr.python(self.schema, lines)
        if lang == "pyc":
            return self.pr.python(self.schema, lines, "cpp")
        return self.pr.cpp(lines, variant=self.variant)

    def close(self):
        self.pr.clean()


def gen_schema(seed_or_choices, profile=None):
    t = Tape(choices=seed_or_choices) if isinstance(seed_or_choices, list) else Tape(seed_or_choices)
    s = SchemaGen(t, profile).gen()
    return s, t.out


class WCase:
    """one value of a root written, read back, compared with the reference"""
    def __init__(self, d, o, start):
        self.d = d; self.o = o; self.start = start
        v, n, _ = refcodec.encode(o, start)
        # the code under test gets an object whose offsets are still wrong
        self.slots = refcodec.offset_slots(o, start) if refcodec.has_offsets(d) else []
        right = [refcodec.slot_get(s) for s in self.slots]
        self.right_tokens = langs.build_tokens(o)
        for i, (s, x) in enumerate(zip(self.slots, right)):
            refcodec.slot_set(s, 0 if x and i % 3 else x ^ 1)
        self.n = n
        self.end = start + n
        self.data = refcodec.bits_to_bytes(((1 << start) - 1) << n | v, self.end)
        self.tokens = langs.build_tokens(o)
        self.line = "W\t%s\t%d\t%s" % (langs.gname(d), start, self.tokens)
        for s, x in zip(self.slots, right):
            refcodec.slot_set(s, x)
        self.dump = langs.dump(o)
        dec = refcodec.Decoder(self.data, self.end, start)
        o2 = dec.compound(d, list(o.params))
        self.dump2 = langs.dump(o2)
        self.rpos = dec.r.pos
        self.exp = {"end": str(self.end), "size": str(n), "pos": str(self.end), "hex": self.data.hex(), "dump": self.dump,
                    "rpos": str(self.rpos), "dump2": self.dump2, "eq": "1" if self.dump2 == self.dump and "fNaN" not in self.dump else None}

    def mismatch(self, r, cols):
        """None or (column, expected, observed)"""
        if r[0] != "ok":
            phase = r[1] if len(r) > 1 else "?"
            order = ["build", "init", "size", "write", "dump", "read", "dump2", "eq", "rewrite"]
            need = max(order.index({"end": "init", "size": "size", "pos": "write", "hex": "write", "dump": "dump", "rpos": "read",
                                    "dump2": "dump2", "eq": "eq", "hash": "eq", "same": "rewrite"}[c]) for c in cols)
            if r[0] == "FAIL" or phase not in order or order.index(phase) <= need:
                return ("error", "no error", "\t".join(r)[:1500])
            return None
        for c in cols:
            if c == "hash":
                if self.exp["eq"] and r[9] != r[10]:
                    return ("hash", "equal hash codes", "%s %s" % (r[9], r[10]))
            elif c == "same":
                if self.exp["eq"] and r[11] != "same":
                    return ("rewrite", self.exp["hex"], r[11])
            elif self.exp[c] is not None and r[COL[c]] != self.exp[c]:
                return (c, self.exp[c], r[COL[c]])
        return None


def wcases(schema, seed, nvals, starts=(0, 0, 3, 8), profile=None, nan=False, roots=None, maxbits=200000):
    out = []
    for ri, d in enumerate(roots if roots is not None else schema.roots):
        for k in range(nvals):
            try:
                o = ValueGen(Tape((seed, "v", ri, k)), profile, nan=nan).root(d)
                start = starts[k % len(starts)]
                if refcodec.has_offsets(d) and start % 8 and False:
                    start = 0
                c = WCase(d, o, start)
            except (GenFail, Trap, Reject, Ambiguous):
                continue
            if c.n <= maxbits:
                out.append(c)
    return out


def schema_text(schema):
    return "\n".join("// %s\n%s" % (n, t) for n, t in sorted(render(schema).items()))


def slot_bits(c, s):
    """bits of the type of an offset of the value"""
    def find(x):
        if isinstance(x, SObj):
            for i, v in enumerate(x.vals):
                if (s[0] is x.vals and s[1] == i) or (isinstance(v, list) and s[0] is v):
                    return x.d.fields[i].ty.base().bits
                for z in (v if isinstance(v, list) else [v]):
                    if isinstance(z, (SObj, CObj)):
                        r = find(z)
                        if r:
                            return r
        elif isinstance(x, CObj):
            if s[0] is x or (isinstance(x.val, list) and s[0] is x.val):
                return x.d.fields[x.idx].ty.base().bits
            for z in (x.val if isinstance(x.val, list) else [x.val]):
                if isinstance(z, (SObj, CObj)):
                    r = find(z)
                    if r:
                        return r
        return None
    return find(c.o) or 8


def has_align(d, seen=None):
    seen = seen if seen is not None else set()
    if id(d) in seen:
        return False
    seen.add(id(d))
    for f in d.fields:
        if f.align is not None:
            return True
        b = f.ty.base()
        if refcodec.is_compound(b) and has_align(b.decl, seen):
            return True
    return False


def schema_features(schema):
    """classes for the evidence"""
    f = set()
    for d in schema.order:
        if isinstance(d, Compound):
            f.add(d.kind)
            if d.params:
                f.add("parameters")
            if d.funcs:
                f.add("functions")
            for x in d.fields:
                if x.arr is not None:
                    f.add("array:" + (x.arr if isinstance(x.arr, str) else "fixed"))
                if x.packed:
                    f.add("packed")
                if x.opt is not None:
                    f.add("optional")
                if x.align is not None:
                    f.add("align")
                if x.offset is not None:
                    f.add("indexed offset" if x.offset_indexed else "offset")
                if x.extended:
                    f.add("extended")
                if x.constraint is not None:
                    f.add("constraint")
                if x.default is not None:
                    f.add("default")
                f.add("field:" + x.ty.base().kind)
        else:
            f.add(type(d).__name__.lower())
    if len(schema.pkgs) > 1:
        f.add("packages")
    return f


def run_wcases(res, bundle, cases, cols, task, prefix=""):
    """runs all cases in all languages, records the first mismatch per language"""
    lines = [c.line for c in cases]
    for lang in bundle.langs:
        rs, crash = bundle.run(lang, lines)
        for c, r in zip(cases, rs):
            m = c.mismatch(r, cols)
            if m:
                res.violate("%s%s: %s differs from the reference for %s" % (prefix, lang, m[0], c.d.name), lang=lang, column=m[0],
                            expected=m[1][:3000], observed=m[2][:3000], request=c.line[:3000], schema=schema_text(bundle.schema),
                            task=task)
                break
        if crash and not (len(rs) == len(lines)):
            bad = lines[len(rs)] if len(rs) < len(lines) else ""
            res.violate("%s%s: driver crashed" % (prefix, lang), lang=lang, column="crash", observed=crash[:3000], request=bad[:3000],
                        schema=schema_text(bundle.schema), task=task)


class SchemaCheck:
    """base of checks whose task is one generated schema"""
    NEEDS = ("jar", "jrt", "jsrv", "cpp", "pch", "pyb")
    COLS = ("hex", "pos")
    LANGSET = LANGS
    OPTS = ("-withRangeCheckCode",)
    PROFILE = None
    NVALS = 5
    STARTS = (0, 0, 3, 8)
    NSCHEMAS = {"quick": 120, "thorough": 1500}
    VARIANT = "fast"

    def tasks(self, tier, seed):
        return list(range(self.NSCHEMAS[tier]))

    def profile(self, idx):
        return self.PROFILE

    def schema_for(self, seed, idx, choices=None):
        return gen_schema(choices if choices is not None else (seed, self.PROPERTY, idx), self.profile(idx))

    def nontrivial(self, c):
        return c.n > 8

    def sample(self, c):
        return {"root": c.d.name, "start": c.start, "value": c.tokens[:200], "bytes": c.data.hex()[:120]} if c.n > 8 else None

    def cases(self, schema, seed, idx):
        return wcases(schema, (seed, self.PROPERTY, idx), self.NVALS, self.STARTS, self.profile(idx))

    def run(self, ctx, task, choices=None, langset=None):
        from .runner import Result
        res = Result()
        try:
            schema, out = self.schema_for(ctx.seed, task, choices)
        except GenFail:
            res.count("schema generation gave up")
            return res
        cases = self.cases(schema, ctx.seed, task)
        if not cases:
            res.count("schemas without cases")
            return res
        b = self.bundle(ctx, res, schema, task, langset or self.LANGSET)
        try:
            for k in b.failed:
                res.count("not compiled: " + k)
            res.count("schemas")
            for f in schema_features(schema):
                res.count("schema with " + f)
            for c in cases:
                res.case((schema_id(schema), c.line), self.nontrivial(c),
                         self.sample(c))
            self.judge(ctx, res, b, cases, task)
        finally:
            b.close()
        for v in res.violations:
            v["tape"] = out
        return res

    def bundle(self, ctx, res, schema, task, langset):
        return Bundle(ctx.worker, schema, self.OPTS, langset, variant=self.VARIANT)

    def judge(self, ctx, res, b, cases, task):
        run_wcases(res, b, cases, self.COLS, task)

    def shrink(self, ctx, v, deadline):
        lang = v.get("lang")
        best = [v]
        tries = [0]
        stop = time.time() + (deadline - time.time()) * 0.9

        def fails(ch):
            tries[0] += 1
            try:
                r = self.run(ctx, v["task"], choices=list(ch), langset=(lang,) if lang else None)
            except Exception:
                ctx.fresh()
                return False
            for x in r.violations:
                if x.get("column") == v.get("column") and x.get("lang") == lang:
                    x["tape"] = list(ch)
                    best[0] = x
                    return True
            return False
        if "tape" in v:
            shrink(v["tape"], fails, stop, time.time)
        best[0].setdefault("task", v["task"])
        best[0]["shrink_steps"] = tries[0]
        return best[0]

    def replay(self, ctx, v):
        return self.run(ctx, v["task"], choices=v.get("tape"))


def schema_id(schema):
    return hash(schema_text(schema))
