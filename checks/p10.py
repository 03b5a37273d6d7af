import sys, common
from zsv import runner, codec, refcodec, langs
from zsv.tape import Tape
from zsv.gen import GenFail, ValueGen
from zsv.mutate import slots, new_value
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous, Skip, Validator, clone, is_compound


def key(o, strict):
    """what equality and order are defined on; strict: floats by their bits (Java) instead of by value"""
    def leaf(ty, v):
        b = ty.base()
        if is_compound(b):
            return comp(v)
        if b.kind == "float":
            return f64bits(v) if strict else v
        if b.kind == "string":
            return tuple(v.encode("utf-8"))
        if b.kind == "bytes":
            return tuple(v)
        if b.kind == "extern":
            n, d = v
            d = list(d[:(n + 7) // 8])
            if n % 8:
                d[-1] &= 0xff << (8 - n % 8) & 0xff
            return (tuple(d), n)
        return int(v)

    def val(f, v):
        return tuple(leaf(f.ty, x) for x in v) if f.arr is not None else leaf(f.ty, v)

    def comp(o):
        r = [leaf(q.ty, v) for q, v in zip(o.d.params, o.params)]
        if isinstance(o, SObj):
            nx = 0
            for f, v in zip(o.d.fields, o.vals):
                if f.extended:
                    if o.ext is not None and nx >= o.ext:
                        r.append((0,)); continue
                    nx += 1
                r.append((1,) if v is None else (2, val(f, v)))
        elif o.idx is None:
            r.append((0,))
        else:
            r.append((o.idx + 1, val(o.d.fields[o.idx], o.val)))
        return tuple(r)
    return comp(o)


def strays(o, pool, t):
    """gives values to optional fields which are not used; True if there was one"""
    done = [False]

    def comp(x):
        if isinstance(x, SObj):
            for i, f in enumerate(x.d.fields):
                v = x.vals[i]
                if v is None and f.opt is not None and f.opt is not True and not f.used_as_offset and not f.extended:
                    # a choice without its parameters cannot be copied with another allocator: its type is not known
                    c = [z for z in pool.get(id(f), ()) if not has_choice(z)]
                    if c:
                        try:
                            n = clone(t.pick(c))
                            tok = []
                            x.vals[i] = n
                            langs.build_tokens(o)
                            done[0] = True
                        except KeyError:
                            x.vals[i] = None
                elif v is not None:
                    for z in (v if isinstance(v, list) else [v]):
                        if isinstance(z, (SObj, CObj)):
                            comp(z)
        elif x.idx is not None:
            for z in (x.val if isinstance(x.val, list) else [x.val]):
                if isinstance(z, (SObj, CObj)):
                    comp(z)
    comp(o)
    return done[0]


def present(o):
    """auto optional fields that are set"""
    out = []

    def comp(x):
        if isinstance(x, SObj):
            for i, (f, v) in enumerate(zip(x.d.fields, x.vals)):
                if v is not None and f.opt is True and not f.extended:
                    out.append((x, i))
                for z in (v if isinstance(v, list) else [v]):
                    if isinstance(z, (SObj, CObj)):
                        comp(z)
        elif isinstance(x, CObj) and x.idx is not None:
            for z in (x.val if isinstance(x.val, list) else [x.val]):
                if isinstance(z, (SObj, CObj)):
                    comp(z)
    comp(o)
    return out


def has_choice(v):
    if isinstance(v, list):
        return any(has_choice(x) for x in v)
    if isinstance(v, SObj):
        return any(has_choice(x) for x in v.vals)
    if isinstance(v, CObj):
        return not isinstance(v.d, Union) or has_choice(v.val)
    return False


def collect(o, pool):
    if isinstance(o, SObj):
        for f, v in zip(o.d.fields, o.vals):
            if v is not None:
                if f.opt is not None:
                    pool.setdefault(id(f), []).append(v)
                for z in (v if isinstance(v, list) else [v]):
                    if isinstance(z, (SObj, CObj)):
                        collect(z, pool)
    elif o.idx is not None:
        for z in (o.val if isinstance(o.val, list) else [o.val]):
            if isinstance(z, (SObj, CObj)):
                collect(z, pool)


class Group:
    def __init__(self, d, objs, toks):
        self.d = d
        self.n = len(objs)
        self.toks = toks
        self.keys = [key(o, False) for o in objs]
        self.jkeys = [key(o, True) for o in objs]
        self.line = "Q\t%s\t%s\t%s" % (langs.gname(d), "1" * self.n, "\t".join(toks))
        self.start = 0
        self.data = b""

    def judge(self, lang, r):
        if r[0] != "ok":
            return ("error", "no error", "\t".join(r)[:1500])
        ks = self.jkeys if lang == "java" else self.keys
        n = self.n
        hs = r[2].split(",")
        for i in range(n):
            for j in range(n):
                e = "1" if ks[i] == ks[j] else "0"
                if r[1][i * n + j] != e:
                    return ("eq", "objects %d and %d equal: %s" % (i, j, e), r[1])
                if e == "1" and hs[i] != hs[j]:
                    return ("hash", "equal objects %d and %d have equal hash codes" % (i, j), r[2])
                if r[3] != "-":
                    e = "1" if ks[i] < ks[j] else "0"
                    if r[3][i * n + j] != e:
                        return ("order", "object %d < object %d: %s" % (i, j, e), r[3])
        if len(set(ks)) >= 12 and len(set(hs)) == 1:
            return ("hash", "hash codes depend on the values", r[2])
        if r[4] != "ok":
            return ("copy", "ok", r[4][:1500])
        return None


class P10(codec.SchemaCheck):
    PROPERTY = "P10"
    NSCHEMAS = {"quick": 84, "thorough": 1500}
    GROUPS = 2
    PROFILE = {"optional": 40, "offsets": 5, "align": 5, "params": 40, "choice": 30, "union": 30, "constraint": 5}
    RULE = ("a case is a group of up to 9 objects of a random type (a random valid one, an identical twin, one with values in unused "
            "optional fields, ones with one leaf changed, other random ones) compared pairwise with ==, hash and (C++) < against a "
            "reference key, and copied, moved, assigned and swapped in C++; non-trivial: distinct and at least two objects differ")

    def groups(self, schema, seed, task):
        out = []
        for ri, d in enumerate(schema.roots):
            base = []
            for k in range(8):
                try:
                    o = ValueGen(Tape((seed, "v", task, ri, k)), None, nan=False).root(d)
                    if refcodec.has_offsets(d):
                        refcodec.encode(o, 0)
                    c = clone(o)
                    if Validator(True).root(c) or key(c, True) != key(o, True) or Validator(False).root(clone(o)):
                        continue
                    if len(langs.build_tokens(o)) < 20000:
                        base.append(o)
                except (GenFail, Trap, Reject, Ambiguous, Skip):
                    continue
            if not base:
                continue
            pool = {}
            for o in base:
                collect(o, pool)
            for g in range(self.GROUPS):
                t = Tape((seed, "g", task, ri, g))
                b0 = t.pick(base)
                objs = [b0]; toks = [langs.build_tokens(b0)]

                def add(o, tk=None):
                    objs.append(o); toks.append(tk or langs.build_tokens(o))
                add(clone(b0))
                s = clone(b0)
                plain = clone(b0)
                if strays(s, pool, t):
                    add(plain, langs.build_tokens(s))
                for _ in range(12):
                    if len(objs) >= 7:
                        break
                    o = clone(b0 if t.chance(75) else t.pick(objs))
                    if t.chance(30):
                        os_ = present(o)
                        if os_:
                            x, i = t.pick(os_)
                            x.vals[i] = None
                            try:
                                if Validator(False).root(clone(o)) or Validator(True).root(clone(o)):
                                    continue
                                if refcodec.has_offsets(d):
                                    refcodec.encode(o, 0)
                                add(o)
                            except (Trap, Reject, Ambiguous, Skip, AssertionError, OverflowError, KeyError):
                                pass
                            continue
                    ss = [x for x in slots(o) if x[2] in ("leaf", "array", "param")]
                    if not ss:
                        break
                    cont, k, kind, ty, f, own = t.pick(ss)
                    try:
                        if kind == "array":
                            a = list(cont[k])
                            if a and t.chance(60):
                                del a[t.raw(len(a))]
                            elif len(a) > 1:
                                a[0], a[-1] = a[-1], a[0]
                            cont[k] = a
                        else:
                            b = ty.base()
                            if b.kind == "float":
                                x = t.pick([-cont[k], 0.0, -0.0, 1.0])
                            elif b.kind == "string":
                                x = cont[k][:-1] if cont[k] and t.chance(50) else cont[k] + t.pick(["a", "\u00e9", "\x7f"])
                            elif b.kind == "bytes":
                                x = cont[k][:-1] if cont[k] and t.chance(50) else cont[k] + t.pick([b"\0", b"\x80"])
                            elif b.kind == "extern":
                                n, dt = cont[k]
                                if not n:
                                    continue
                                i = t.raw(n)
                                dt = bytearray(dt); dt[i // 8] ^= 0x80 >> i % 8
                                x = (n, bytes(dt))
                                if t.chance(30):
                                    n -= 1
                                    dt = bytearray(cont[k][1][:(n + 7) // 8])
                                    if n % 8:
                                        dt[-1] &= 0xff << (8 - n % 8) & 0xff
                                    x = (n, bytes(dt))
                            else:
                                x = new_value(t, ty, cont[k], Env(own))
                            if x is None:
                                continue
                            cont[k] = x
                        if Validator(False).root(clone(o)):
                            continue
                        c = clone(o)
                        if Validator(True).root(c) or key(c, True) != key(o, True):
                            continue
                        if refcodec.has_offsets(d):
                            refcodec.encode(o, 0)
                        add(o)
                    except (Trap, Reject, Ambiguous, Skip, AssertionError, OverflowError, KeyError):
                        continue
                for _ in range(3):
                    if len(objs) < 9:
                        add(t.pick(base))
                out.append(Group(d, objs, toks))
        return out

    def cases(self, schema, seed, task):
        return self.groups(schema, seed, task)

    def nontrivial(self, c):
        return len(set(c.keys)) > 1

    def sample(self, c):
        return {"root": c.d.name, "objects": [x[:100] for x in c.toks[:4]]}

    def run(self, ctx, task, choices=None, langset=None):
        self.VARIANT = "san" if isinstance(task, int) and task % 4 == 0 else "fast"
        return super().run(ctx, task, choices, langset)

    def judge(self, ctx, res, b, cases, task):
        lines = [c.line for c in cases]
        for c in cases:
            res.count("objects", c.n)
        for lang in b.langs:
            rs, crash = b.run(lang, lines)
            for c, r in zip(cases, rs):
                if r[0] == "FAIL":
                    res.count("%s: value not representable" % lang); continue
                m = c.judge(lang, r)
                if m:
                    res.violate("%s: %s" % (lang, m[0]), lang=lang, column=m[0], expected=m[1], observed=m[2], request=c.line[:4000],
                                schema=codec.schema_text(b.schema), task=task)
                    break
            if crash and len(rs) < len(lines):
                res.violate("%s: driver crashed" % lang, lang=lang, column="crash", observed=crash[:3000], request=lines[len(rs)][:3000],
                            schema=codec.schema_text(b.schema), task=task)


if __name__ == "__main__":
    sys.exit(runner.main(P10()))
